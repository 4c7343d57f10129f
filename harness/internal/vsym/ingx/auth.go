package ingx

import (
	indexer "github.com/filecoin-project/go-indexer-core"
	"github.com/filecoin-project/storetheindex/api/v0/ingest/schema"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/vsym"
	"github.com/filecoin-project/storetheindex/internal/vsym/ipldm"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multihash"
)

// VerifAuth: whoever serves it, an advertisement has an effect only if it is
// signed, as it is, by the provider it names or by a peer that may publish for
// others, the policy allows the provider, and the peer that serves it is the
// provider or may publish for it. If so, it does have its effect.
func VerifAuth() {
	vsym.NoTimers()
	c := plainChain()
	w := c.w
	prov, signer, by := vsym.Peer("provider"), vsym.Peer("signer"), c.pub
	allow, publish := true, vsym.Flip("publish")
	allowEx, publishEx := vsym.Peer("allowException"), vsym.Peer("publishException")
	if vsym.Flip("restricted") {
		allow = false
	}
	w.Disc.Policy = config.Policy{Allow: allow, Publish: publish, Except: []string{allowEx.String()}, PublishExcept: []string{publishEx.String()}}
	allowed := func(p peer.ID) bool { return (p == allowEx) != allow }
	mayPublish := func(p, prov peer.ID) bool { return p == prov || (p == publishEx) != publish }

	first := c.plainFrom(by)
	rm := vsym.Flip("removal")
	ad := schema.Advertisement{Provider: prov.String(), Addresses: []string{c.addr.String()}, ContextID: []byte{5}, Metadata: []byte{1}}
	m := Mh(50)
	ad.Entries = Link(c.chunks([]multihash.Multihash{m}))
	if rm {
		ad.IsRm = true
		w.Idx.Put(indexer.Value{ProviderID: prov, ContextID: []byte{5}, MetadataBytes: []byte{1}}, Mh(60))
	}
	if first {
		ad.PreviousID = Link(c.ads[0].cid)
	}
	other := ad
	ad = Signed(ad, signer)
	genuine := false
	t := ipldm.AdTree(ad)
	switch vsym.Choice("signature", 9) {
	case 0:
		genuine = true
	case 1:
		ad.Signature = nil
		t = ipldm.AdTree(ad)
	case 2:
		t = t.Without("Signature")
	case 3: // the signature of something else
		other.Metadata = []byte{2}
		ad.Signature = Signed(other, signer).Signature
		t = ipldm.AdTree(ad)
	case 4:
		ad.IsRm = !rm
		t = ipldm.AdTree(ad)
	case 5:
		ad.Entries = Link(c.chunks([]multihash.Multihash{m, Mh(51)}))
		t = ipldm.AdTree(ad)
	case 6:
		ad.Signature = append([]byte{1}, ad.Signature[:0]...)
		t = ipldm.AdTree(ad)
	case 7: // says it is from someone else
		p2 := vsym.Peer("claimed")
		vsym.Assume(p2 != prov)
		ad.Provider = p2.String()
		prov = p2
		t = ipldm.AdTree(ad)
	case 8: // for an older chain
		e := vsym.Cid("earlier")
		vsym.Assume(!first || e != c.ads[0].cid)
		ad.PreviousID = Link(e)
		t = ipldm.AdTree(ad)
	}
	head := w.Net.Add(t)
	w.Net.SetHead(by, head)
	w.Start()
	c.sync()
	effect := false
	for _, v := range w.Idx.Vals {
		for _, x := range v.Mhs {
			if contains([]multihash.Multihash{m, Mh(51)}, x) {
				effect = true
				vsym.Assert(v.V.ProviderID == prov, "content is attributed to the provider of the advertisement")
			}
		}
	}
	for _, o := range w.Idx.Log {
		if o.Op == "removeContext" {
			vsym.Assert(rm, "nothing is removed that no genuine advertisement removes")
			effect = true
		}
	}
	authentic := genuine && mayPublish(signer, prov)
	admitted := allowed(prov) && (by == prov || allowed(by) && mayPublish(by, prov))
	vsym.Assert(!effect || authentic, "only an authentic advertisement has an effect")
	vsym.Assert(!effect || admitted, "only an advertisement the policy admits has an effect")
	if !first || allowed(by) {
		vsym.Assert(effect || !authentic || !admitted, "an authentic advertisement the policy admits has its effect")
	}
	if !effect {
		vsym.Assert(w.Reg.ProviderInfo(prov) == nil || prov == by && first, "an advertisement that is refused registers nobody")
		vsym.Reach("refused")
	} else {
		vsym.Reach("accepted")
	}
	vsym.Reach("done")
}

// plainFrom publishes, or not, an advertisement before.
func (c *chain) plainFrom(by peer.ID) bool {
	if vsym.Param("before", 1) == 0 || !vsym.Flip("before") {
		return false
	}
	c.plain()
	return true
}
