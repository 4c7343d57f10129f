package ingx

import (
	indexer "github.com/filecoin-project/go-indexer-core"
	"github.com/filecoin-project/storetheindex/api/v0/ingest/schema"
	"github.com/filecoin-project/storetheindex/internal/vsym"
	"github.com/filecoin-project/storetheindex/internal/vsym/ipldm"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multihash"
)

// entry is one more multihash: a new one, one that was there before, or bytes
// that are no multihash.
func (c *chain) entry(a *refAd, raw *[]multihash.Multihash) {
	switch k := vsym.Choice("entry", 3); {
	case k == 1 && len(*raw) > 0:
		*raw = append(*raw, (*raw)[len(*raw)-1])
	case k == 2:
		*raw = append(*raw, multihash.Multihash{multihash.SHA2_256, 32, 1})
	default:
		m := c.mh()
		*raw = append(*raw, m)
		a.mhs = append(a.mhs, m)
	}
}

// chunked is content in entry chunks of any sizes.
func (c *chain) chunked(a *refAd, chunks, most int) cid.Cid {
	var parts [][]multihash.Multihash
	for i := 1 + vsym.Choice("chunks", chunks); i > 0; i-- {
		var raw []multihash.Multihash
		for j := vsym.Choice("len", most+1); j > 0; j-- {
			c.entry(a, &raw)
		}
		parts = append(parts, raw)
	}
	return c.chunks(parts...)
}

func bucket(keys []multihash.Multihash) ipldm.Tree { return ipldm.HBucket(keys...) }

// hnode is a HAMT node with the given elements in its first slots.
func hnode(els ...ipldm.Tree) ipldm.Tree {
	return ipldm.HNode([]byte{0, 0, 0, byte(1<<len(els) - 1)}, els...)
}

func hroot(els ...ipldm.Tree) ipldm.Tree { return ipldm.HRoot(hnode(els...)) }

// hamt is content in a HAMT: a bucket, and subtrees up to two deep.
func (c *chain) hamt(a *refAd, most int) cid.Cid {
	bk := func() ipldm.Tree {
		var raw []multihash.Multihash
		for j := 1 + vsym.Choice("len", most); j > 0; j-- {
			c.entry(a, &raw)
		}
		return bucket(raw)
	}
	els := []ipldm.Tree{bk()}
	if d := vsym.Choice("subtree", 3); d > 0 {
		sub := hnode(bk())
		if d == 2 {
			leaf := c.w.Net.Add(sub)
			sub = hnode(ipldm.HLink(leaf), bk())
		}
		els = append(els, ipldm.HLink(c.w.Net.Add(sub)))
	}
	return c.w.Net.Add(hroot(els...))
}

// VerifEffect: an advertisement does to the index what it says, and nothing
// else: content in chunks or in a HAMT of any size is added under its context
// whatever the batch size, entries that are no multihashes are ignored, a
// removal removes its context, new metadata replaces the old, and contexts and
// providers it does not name stay as they are. Nothing of it stays behind in
// the datastore.
func VerifEffect() {
	vsym.NoTimers()
	c := plainChain()
	w := c.w
	w.Cfg.StoreBatchSize = 1 + vsym.Choice("batch", vsym.Param("batches", 3))
	other := peer.ID("")
	ctx, ctx2 := vsym.Bytes("ctx"), vsym.Bytes("ctx2")
	prov := c.pub
	if vsym.Flip("otherprovider") {
		prov = vsym.Peer("provider")
	}
	other = vsym.Peer("other")
	ref := &vsym.Index{}
	for _, x := range []*vsym.Index{w.Idx, ref} {
		x.Put(indexer.Value{ProviderID: prov, ContextID: ctx2, MetadataBytes: []byte{9}}, Mh(200), Mh(201))
		x.Put(indexer.Value{ProviderID: other, ContextID: ctx, MetadataBytes: []byte{8}}, Mh(200), Mh(202))
	}
	a := &refAd{prov: prov, ctx: ctx, md: []byte{1}}
	chunks, most := vsym.Param("chunks", 2), vsym.Param("most", 3)
	var entries cid.Cid
	kind := vsym.Choice("kind", 6)
	switch kind {
	case 0:
		entries = c.chunked(a, chunks, most)
	case 1:
		entries = c.hamt(a, vsym.Param("bucket", 2))
	case 2:
		a.rm = true
		entries = schema.NoEntries.Cid
	case 3: // a removal that names content all the same
		a.rm = true
		entries = c.chunks([]multihash.Multihash{Mh(200)})
	case 4:
		entries = schema.NoEntries.Cid
	case 5: // content that is there already
		a.mhs = []multihash.Multihash{Mh(200), Mh(201)}
		entries = c.chunks(a.mhs)
	}
	c.publish(a, entries)
	nothing := !a.rm && len(a.mhs) == 0 && kind != 4
	if !nothing {
		a.apply(ref)
	}
	w.Start()
	n := len(w.Idx.Log)
	got, ok := c.sync()
	vsym.Assert(ok && got == a.cid, "the sync reports the advertisement")
	if nothing && !same(w.Idx, ref) {
		// Metadata may come with content that is no content.
		a.apply(ref)
	}
	vsym.Assert(same(w.Idx, ref), "the advertisement does what it says and nothing else")
	for _, o := range w.Idx.Log[n:] {
		vsym.Assert(len(o.Mhs) <= w.Cfg.StoreBatchSize, "no batch is larger than configured")
	}
	for _, b := range w.Net.Blocks {
		_, left := w.DS.Get1("/" + b.c.String())
		vsym.Assert(!left, "nothing of the advertisement stays behind")
	}
	info := w.Reg.ProviderInfo(prov)
	vsym.Assert(info != nil && info.Publisher == c.pub && info.LastAdvertisement == a.cid, "the provider is registered with its publisher and advertisement")
	switch kind {
	case 0:
		vsym.Reach("chunks")
	case 1:
		vsym.Reach("hamt")
	case 2, 3:
		vsym.Reach("removal")
	}
	vsym.Reach("done")
}

// VerifContentFault: whatever fails once while content in a HAMT or in several
// chunks is ingested, with batches of any size, the next sync ingests it whole.
func VerifContentFault() {
	vsym.NoTimers()
	c := plainChain()
	w := c.w
	w.Cfg.StoreBatchSize = 1 + vsym.Choice("batch", 2)
	a := &refAd{prov: c.pub, ctx: []byte{1}, md: []byte{1}}
	var e cid.Cid
	if vsym.Flip("hamt") {
		m := []multihash.Multihash{c.mh(), c.mh(), c.mh()}
		a.mhs = m
		leaf := c.w.Net.Add(hnode(bucket(m[2:])))
		e = c.w.Net.Add(hroot(bucket(m[:2]), ipldm.HLink(leaf)))
	} else {
		m := []multihash.Multihash{c.mh(), c.mh(), c.mh(), c.mh()}
		a.mhs = m
		e = c.chunks(m[:3], m[3:])
	}
	c.publish(a, e)
	c.plain()
	w.Start()
	faults := 1
	switch vsym.Choice("fault", 4) {
	case 3:
		w.RDS.Faults = 1
	case 0:
		w.Net.Faults = 1
	case 1:
		w.DS.Faults = 1
	case 2:
		w.Idx.Fault = func(op string) error {
			if faults > 0 && op != "size" && vsym.Flip("idxfault") {
				faults--
				return errIdx
			}
			return nil
		}
	}
	c.sync()
	if w.Net.Failed+w.DS.Failed+w.RDS.Failed == 0 && faults == 1 {
		vsym.Assert(same(w.Idx, c.reference(2)), "without a failure the content is ingested")
		return
	}
	w.Net.Faults, w.DS.Faults, w.RDS.Faults, w.Idx.Fault = 0, 0, 0, nil
	got, ok := c.sync()
	vsym.Assert(ok && got == c.ads[1].cid, "a sync without failures reports the head of the chain")
	vsym.Assert(same(w.Idx, c.reference(2)), "after a sync without failures the content is ingested whole")
	vsym.Reach("done")
}

// VerifBatches: content of more batches than one is stored whole however long
// the index takes over each of them.
func VerifBatches() {
	vsym.NoTimers()
	var c *chain
	a := &refAd{ctx: []byte{1}, md: []byte{1}}
	vsym.Quiet(func() {
		c = plainChain()
		c.w.Cfg.StoreBatchSize = []int{1, 2, -1}[vsym.Choice("batch", 3)]
		c.w.Idx.Slow = true
		a.prov = c.pub
		n := vsym.Param("entries", 5)
		for i := 0; i < n; i++ {
			a.mhs = append(a.mhs, c.mh())
		}
		if vsym.Flip("hamt") {
			c.publish(a, c.w.Net.Add(hroot(bucket(a.mhs))))
		} else if vsym.Flip("twochunks") {
			c.publish(a, c.chunks(a.mhs[:n/2], a.mhs[n/2:]))
		} else {
			c.publish(a, c.chunks(a.mhs))
		}
		c.w.Start()
		vsym.Idle()
	})
	got, ok := c.sync()
	vsym.Assert(ok && got == a.cid, "the sync reports the advertisement")
	vsym.Assert(same(c.w.Idx, c.reference(1)), "all batches are stored as they are")
	vsym.Quiet(c.w.Stop)
	vsym.Reach("done")
}
