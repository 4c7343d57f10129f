package ingx

import (
	"github.com/filecoin-project/storetheindex/api/v0/ingest/schema"
	"github.com/filecoin-project/storetheindex/internal/vsym"
	"github.com/filecoin-project/storetheindex/internal/vsym/ipldm"
	"github.com/ipfs/go-cid"
	"github.com/multiformats/go-multihash"
)

// malformed publishes a signed advertisement with something wrong about it.
func (c *chain) malformed() (*refAd, bool) {
	a := &refAd{prov: c.pub, ctx: []byte{7}, md: []byte{1}, bad: true}
	ok := c.chunks([]multihash.Multihash{Mh(100)})
	ad := schema.Advertisement{Provider: c.pub.String(), Addresses: []string{c.addr.String()}, Entries: Link(ok), ContextID: a.ctx, Metadata: a.md}
	if n := len(c.ads); n > 0 {
		ad.PreviousID = Link(c.ads[n-1].cid)
	}
	add := func(t ipldm.Tree) { ad.Entries = Link(c.w.Net.Add(t)) }
	unsigned := false
	m := ipldm.Tree{Kind: ipldm.Map}
	good := bucket([]multihash.Multihash{Mh(100)})
	switch vsym.Choice("wrong", 26) {
	case 0: // nothing wrong
		a.bad = false
		a.mhs = []multihash.Multihash{Mh(100)}
	case 1:
		add(m)
	case 2:
		add(ipldm.TInt(1))
	case 3:
		add(m.With("Entries", ipldm.TInt(1)))
	case 4:
		add(m.With("Entries", ipldm.TList(ipldm.TInt(1))))
	case 5:
		add(m.With("Entries", ipldm.TList()).With("Next", ipldm.TInt(1)))
	case 6: // the second chunk is none
		a.mhs = []multihash.Multihash{Mh(100)}
		add(m.With("Entries", ipldm.TList(ipldm.TBytes(Mh(100)))).With("Next", ipldm.TLink(c.w.Net.Add(m.With("x", ipldm.TInt(1))))))
	case 7:
		add(m.With("hamt", ipldm.TInt(1)))
	case 8: // more bits than elements
		t := ipldm.HRoot(ipldm.HNode([]byte{0, 0, 0, 255}, good))
		a.mhs = []multihash.Multihash{Mh(100)}
		add(t)
	case 9: // more elements than bits
		t := ipldm.HRoot(ipldm.HNode([]byte{0, 0, 0, 1}, good, good))
		a.mhs = []multihash.Multihash{Mh(100)}
		add(t)
	case 10:
		add(hroot(bucket(nil)))
	case 11: // no bitmap
		t := ipldm.HRoot(ipldm.HNode(nil, good))
		add(t)
	case 12: // a subtree that is none
		a.mhs = []multihash.Multihash{Mh(100)}
		add(hroot(good, ipldm.HLink(c.w.Net.Add(m.With("x", ipldm.TInt(1))))))
	case 13: // an advertisement as content
		if n := len(c.ads); n > 0 {
			ad.Entries = Link(c.ads[n-1].cid)
		}
	case 14:
		ad.Metadata = nil
	case 15:
		ad.Addresses = []string{"nonsense"}
	case 16:
		ad.Addresses = nil
		a.bad = false
		a.mhs = []multihash.Multihash{Mh(100)}
	case 17:
		ad.Addresses = []string{""}
	case 18:
		ad.ContextID = nil
		a.ctx = nil
		a.bad = false
		a.mhs = []multihash.Multihash{Mh(100)}
	case 19:
		unsigned = true
	case 20: // new metadata that is none
		ad.Metadata = nil
		ad.Entries = schema.NoEntries
	case 21: // a removal needs no metadata
		a.bad, a.rm = false, true
		a.ctx, ad.Metadata = []byte{0}, nil
		ad.ContextID, ad.IsRm = a.ctx, true
		ad.Entries = schema.NoEntries
	case 22: // the second chunk is a HAMT
		a.mhs = []multihash.Multihash{Mh(100)}
		add(m.With("Entries", ipldm.TList(ipldm.TBytes(Mh(100)))).With("Next", ipldm.TLink(c.w.Net.Add(hroot(good)))))
	case 23: // a subtree of a subtree that is none
		a.mhs = []multihash.Multihash{Mh(100)}
		sub := c.w.Net.Add(hnode(ipldm.HLink(c.w.Net.Add(m.With("x", ipldm.TInt(1))))))
		add(hroot(good, ipldm.HLink(sub)))
	case 24: // entries of which some are none
		a.bad = false
		a.mhs = []multihash.Multihash{Mh(100)}
		add(m.With("Entries", ipldm.TList(ipldm.TBytes(nil), ipldm.TBytes(Mh(100)), ipldm.TBytes([]byte{1}))))
	case 25: // a removal with a malformed address
		a.rm = true
		a.ctx = []byte{0}
		ad.ContextID, ad.IsRm, ad.Addresses = a.ctx, true, []string{"nonsense"}
	}
	ad = Signed(ad, c.pub)
	t := ipldm.AdTree(ad)
	if unsigned {
		// It is not known as an advertisement.
		t = t.Without("Signature")
	}
	a.cid = c.w.Net.Add(t)
	c.ads = append(c.ads, a)
	c.w.Net.SetHead(c.pub, a.cid)
	return a, unsigned
}

// VerifMalformed: an advertisement that is malformed in whatever way crashes
// nothing, does nothing but add content it names, and does not keep the
// advertisements after it from taking effect.
func VerifMalformed() {
	vsym.NoTimers()
	c := plainChain()
	w := c.w
	if vsym.Flip("segmented") {
		w.Cfg.SyncSegmentDepthLimit = 1
	}
	c.plain()
	a, unsigned := c.malformed()
	if !vsym.Flip("last") {
		c.plain()
	}
	n := len(c.ads)
	w.Start()
	var got cid.Cid
	var ok bool
	for i := 0; i < 2; i++ {
		got, ok = c.sync()
	}
	if unsigned {
		// It is no advertisement at all, and a chain may end at it. The sync
		// has ended and nothing else was made of the chain.
		good := false
		for k := 0; k <= n; k++ {
			good = good || same(w.Idx, c.reference(k))
		}
		vsym.Assert(good, "a block that is no advertisement has no effect of its own")
		vsym.Reach("unsigned")
		return
	}
	vsym.Assert(ok && got == c.ads[n-1].cid, "a sync reports the head of the chain")
	without := c.reference(n)
	a.bad = false
	vsym.Assert(same(w.Idx, without) || same(w.Idx, c.reference(n)), "the advertisements after a malformed one take effect")
	latest, err := w.Ing.GetLatestSync(c.pub)
	vsym.Assert(err == nil && latest == c.ads[n-1].cid, "the latest sync is the head")
	vsym.Reach("done")
}
