package ingx

import (
	"bytes"
	"context"
	"errors"

	indexer "github.com/filecoin-project/go-indexer-core"
	"github.com/filecoin-project/go-legs"
	"github.com/filecoin-project/storetheindex/api/v0/ingest/schema"
	"github.com/filecoin-project/storetheindex/internal/vsym"
	"github.com/filecoin-project/storetheindex/internal/vsym/ipldm"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

// refAd is an advertisement as its publisher means it.
type refAd struct {
	prov peer.ID
	ctx  []byte
	md   []byte
	rm   bool
	mhs  []multihash.Multihash // content it adds
	bad  bool                  // can never be ingested
	cid  cid.Cid
}

// chain is what one publisher publishes.
type chain struct {
	w    *World
	pub  peer.ID
	addr multiaddr.Multiaddr
	ads  []*refAd // oldest first
	nmh  int
	// provAddr is where the providers are; nil: where the publisher is.
	provAddr multiaddr.Multiaddr
}

// publish signs an advertisement, appends it to the chain and makes it the
// head.
func (c *chain) publish(a *refAd, entries cid.Cid) {
	at := c.addr
	if c.provAddr != nil {
		at = c.provAddr
	}
	ad := schema.Advertisement{
		Provider: a.prov.String(), Addresses: []string{at.String()}, Entries: Link(entries),
		ContextID: a.ctx, Metadata: a.md, IsRm: a.rm,
	}
	if n := len(c.ads); n > 0 {
		ad.PreviousID = Link(c.ads[n-1].cid)
	}
	ad = Signed(ad, c.pub)
	a.cid = c.w.Net.Add(ipldm.AdTree(ad))
	c.ads = append(c.ads, a)
	c.w.Net.SetHead(c.pub, a.cid)
}

func (c *chain) mh() multihash.Multihash {
	c.nmh++
	return Mh(c.nmh)
}

// chunks adds a chain of entry chunks with the given content, oldest last.
func (c *chain) chunks(parts ...[]multihash.Multihash) cid.Cid {
	var next schema.EntryChunk
	var last cid.Cid
	for i := len(parts) - 1; i >= 0; i-- {
		next = schema.EntryChunk{Entries: parts[i]}
		if i < len(parts)-1 {
			next.Next = Link(last)
		}
		last = c.w.Net.Add(ipldm.ChunkTree(next))
	}
	return last
}

// any publishes an advertisement of any kind for any context.
func (c *chain) any(prov peer.ID, bad bool) {
	a := &refAd{prov: prov, ctx: vsym.Bytes("ctx"), md: []byte{1, byte(len(c.ads))}}
	switch vsym.Choice("kind", vsym.Param("kinds", 3)) {
	case 0: // content
		a.mhs = []multihash.Multihash{c.mh()}
		if bad && vsym.Flip("malformed") {
			// The entries are no entry chunk.
			a.bad = true
			c.publish(a, c.w.Net.Add(ipldm.Tree{Kind: ipldm.Map}.With("Nope", ipldm.TInt(int64(len(c.ads))))))
			return
		}
		if vsym.Flip("twochunks") {
			m := c.mh()
			e := c.chunks(a.mhs, []multihash.Multihash{m})
			a.mhs = append(a.mhs, m)
			c.publish(a, e)
			return
		}
		c.publish(a, c.chunks(a.mhs))
	case 1: // removal of the context
		a.rm = true
		if len(c.ads)%2 == 1 {
			// It removes the whole context, whatever it names.
			c.publish(a, c.chunks([]multihash.Multihash{Mh(250)}))
			return
		}
		c.publish(a, schema.NoEntries.Cid)
	case 2: // new metadata
		c.publish(a, schema.NoEntries.Cid)
	}
}

// plain publishes an advertisement of one multihash.
func (c *chain) plain() *refAd { return c.plainFor(c.pub) }

// plainFor publishes an advertisement of one multihash of any provider.
func (c *chain) plainFor(prov peer.ID) *refAd {
	a := &refAd{prov: prov, ctx: []byte{byte(len(c.ads))}, md: []byte{1}, mhs: []multihash.Multihash{c.mh()}}
	c.publish(a, c.chunks(a.mhs))
	return a
}

// apply is what ingesting an advertisement does to an index.
func (a *refAd) apply(x *vsym.Index) {
	if a.bad {
		return
	}
	if a.rm {
		x.RemoveProviderContext(a.prov, a.ctx)
		return
	}
	x.Put(indexer.Value{ProviderID: a.prov, ContextID: a.ctx, MetadataBytes: a.md}, a.mhs...)
}

func (c *chain) reference(n int) *vsym.Index {
	x := &vsym.Index{}
	for _, a := range c.ads[:n] {
		a.apply(x)
	}
	return x
}

func contains(ms []multihash.Multihash, m multihash.Multihash) bool {
	for _, o := range ms {
		if bytes.Equal(o, m) {
			return true
		}
	}
	return false
}

func subset(x, y *vsym.Index) bool {
	for _, v := range x.Vals {
		if len(v.Mhs) == 0 {
			continue
		}
		ok := false
		for _, o := range y.Vals {
			if o.V.ProviderID != v.V.ProviderID || !bytes.Equal(o.V.ContextID, v.V.ContextID) {
				continue
			}
			ok = bytes.Equal(o.V.MetadataBytes, v.V.MetadataBytes)
			for _, m := range v.Mhs {
				if !contains(o.Mhs, m) {
					ok = false
				}
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// same tells whether two indexes answer alike.
func same(x, y *vsym.Index) bool { return subset(x, y) && subset(y, x) }

// sync runs one explicit sync to its end; the answer is the CID it reported.
func (c *chain) sync() (cid.Cid, bool) {
	ch, err := c.w.Ing.Sync(context.Background(), c.pub, c.addr, 0, false)
	vsym.Assert(err == nil, "a sync with a valid peer ID is accepted")
	got, ok := <-ch
	return got, ok
}

var errIdx = errors.New("injected index failure")

// plainChain is a world with one publisher and nothing special about it.
func plainChain() *chain {
	legs.VerifHTTP = nil
	return &chain{w: New(), pub: vsym.Peer("publisher"), addr: vsym.Addr("addr")}
}

// newChain is a world with one publisher and a started indexer.
func newChain() *chain {
	w := New()
	c := &chain{w: w, pub: vsym.Peer("publisher"), addr: vsym.Addr("addr")}
	if vsym.Flip("http") {
		legs.VerifHTTP = func(multiaddr.Multiaddr) bool { return true }
	} else {
		legs.VerifHTTP = nil
	}
	if vsym.Flip("segmented") {
		w.Cfg.SyncSegmentDepthLimit = 1
	}
	return c
}

// VerifChain: whatever transient failures interrupt the ingestion of a chain,
// the advertisements take effect in the order of the chain, none is lost, and
// none that took effect is applied again.
func VerifChain() {
	vsym.NoTimers()
	c := newChain()
	w := c.w
	n := vsym.Param("ads", 3)
	first := 1 + vsym.Choice("first", n)
	for i := 0; i < first; i++ {
		c.any(c.pub, true)
	}
	w.Net.Faults = vsym.Param("netfaults", 1)
	dsFaults := vsym.Param("dsfaults", 0)
	idxFaults := vsym.Param("idxfaults", 1)
	w.Idx.Fault = func(op string) error {
		if idxFaults > 0 && op != "size" && vsym.Flip("idxfault") {
			idxFaults--
			return errIdx
		}
		return nil
	}
	w.Start()
	w.DS.Faults = dsFaults
	got, ok := c.sync()
	vsym.Assert(!ok || got == c.ads[first-1].cid, "a sync reports the head of the chain")
	for i := first; i < n; i++ {
		c.any(c.pub, true)
	}
	failed := w.Net.Failed > 0 || w.DS.Failed > 0 || idxFaults == 0
	w.Net.Faults, w.DS.Faults, idxFaults = 0, 0, 0
	w.Idx.Fault = nil
	if failed {
		vsym.Reach("failed")
	}
	ops := len(w.Idx.Log)
	got, ok = c.sync()
	vsym.Assert(ok && got == c.ads[n-1].cid, "a sync without failures reports the head of the chain")
	vsym.Assert(same(w.Idx, c.reference(n)), "after a sync without failures the index answers as the chain says")
	latest, err := w.Ing.GetLatestSync(c.pub)
	vsym.Assert(err == nil && (latest == c.ads[n-1].cid || w.DS.Failed > 0), "the latest sync is the head")
	if !failed && n == first {
		vsym.Assert(len(w.Idx.Log) == ops, "nothing is ingested twice")
		vsym.Reach("once")
	}
	vsym.Reach("done")
}
