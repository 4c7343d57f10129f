package ingx

import (
	"context"

	"github.com/filecoin-project/storetheindex/internal/vsym"
	"github.com/ipfs/go-cid"
	"github.com/multiformats/go-multihash"
)

// deepSync runs one explicit sync with a depth, or of everything again.
func (c *chain) deepSync(depth int, resync bool) (cid.Cid, bool) {
	ch, err := c.w.Ing.Sync(context.Background(), c.pub, c.addr, depth, resync)
	vsym.Assert(err == nil, "a sync with a valid peer ID is accepted")
	got, ok := <-ch
	return got, ok
}

// newest is what the newest advertisements do to an empty index.
func (c *chain) newest(n int) *vsym.Index {
	x := &vsym.Index{}
	for i, a := range c.ads {
		if i >= len(c.ads)-n {
			a.apply(x)
		}
	}
	return x
}

// VerifDepth: a sync of limited depth makes exactly the newest advertisements
// take effect, a resync makes all of them (or the newest) take effect again in
// the order of the chain, also if the index lost everything, and a sync after
// that carries on where the last one ended.
func VerifDepth() {
	vsym.NoTimers()
	c := newChain()
	w := c.w
	n := vsym.Param("ads", 3)
	for i := 0; i < n; i++ {
		c.any(c.pub, false)
	}
	depth := vsym.Choice("depth", n+1)
	byConfig := depth > 0 && vsym.Flip("configured")
	if byConfig {
		w.Cfg.AdvertisementDepthLimit = depth
	}
	w.Start()
	var got cid.Cid
	var ok bool
	if byConfig {
		got, ok = c.sync()
	} else {
		got, ok = c.deepSync(depth, false)
	}
	vsym.Assert(ok && got == c.ads[n-1].cid, "a sync reports the head of the chain")
	if depth == 0 {
		vsym.Assert(same(w.Idx, c.reference(n)), "a sync without a limit ingests the whole chain")
	} else {
		vsym.Assert(same(w.Idx, c.newest(depth)), "a sync of limited depth ingests the newest advertisements")
		vsym.Reach("limited")
	}
	switch again := vsym.Choice("again", 4); again {
	case 0, 1: // everything again
		if again == 1 {
			w.Idx.Vals = nil
		}
		got, ok = c.deepSync(0, true)
		if !byConfig {
			vsym.Assert(same(w.Idx, c.reference(n)), "after a resync the index answers as the chain says")
			vsym.Reach("resync")
		}
	case 2: // the newest again
		w.Idx.Vals = nil
		d := 1 + vsym.Choice("again depth", n)
		got, ok = c.deepSync(d, true)
		vsym.Assert(same(w.Idx, c.newest(d)), "a resync of limited depth ingests the newest advertisements again")
	case 3: // carry on
		x := c.newest(n)
		if depth > 0 {
			x = c.newest(depth)
		}
		a := c.plain()
		n++
		a.apply(x)
		got, ok = c.sync()
		vsym.Assert(same(w.Idx, x), "a later sync carries on")
	}
	vsym.Assert(ok && got == c.ads[n-1].cid, "a later sync reports the head of the chain")
	latest, err := w.Ing.GetLatestSync(c.pub)
	vsym.Assert(err == nil && latest == c.ads[n-1].cid, "the latest sync is the head")
	vsym.Reach("done")
}

// VerifResyncFault: a resync that fails on the way takes nothing away that the
// next resync does not bring back.
func VerifResyncFault() {
	vsym.NoTimers()
	c := plainChain()
	w := c.w
	n := vsym.Param("ads", 3)
	for i := 0; i < n; i++ {
		c.any(c.pub, false)
	}
	w.Start()
	c.sync()
	vsym.Assert(same(w.Idx, c.reference(n)), "a sync without failures ingests the whole chain")
	faults := 1
	w.Idx.Fault = func(op string) error {
		if faults > 0 && op != "size" && vsym.Flip("idxfault") {
			faults--
			return errIdx
		}
		return nil
	}
	w.Net.Faults = vsym.Param("netfaults", 1)
	depth := vsym.Choice("depth", n)
	c.deepSync(depth, true)
	w.Idx.Fault = nil
	w.Net.Faults = 0
	got, ok := c.deepSync(depth, true)
	vsym.Assert(ok && got == c.ads[n-1].cid, "a later sync reports the head of the chain")
	vsym.Assert(same(w.Idx, c.reference(n)), "after a resync that failed and one that did not the index answers as the chain says")
	vsym.Reach("done")
}

// VerifEntriesDepth: content beyond the configured number of chunks is left
// out, and only that.
func VerifEntriesDepth() {
	vsym.NoTimers()
	c := newChain()
	w := c.w
	a := &refAd{prov: c.pub, ctx: []byte{1}, md: []byte{1}}
	n := 1 + vsym.Choice("chunks", vsym.Param("chunks", 4))
	limit := 1 + vsym.Choice("limit", vsym.Param("chunks", 4))
	w.Cfg.EntriesDepthLimit = limit
	var parts [][]multihash.Multihash
	for i := 0; i < n; i++ {
		m := c.mh()
		parts = append(parts, []multihash.Multihash{m})
		// The first chunk comes on top of the limit.
		if i < limit+1 {
			a.mhs = append(a.mhs, m)
		}
	}
	c.publish(a, c.chunks(parts...))
	w.Start()
	got, ok := c.sync()
	vsym.Assert(ok && got == a.cid, "a sync reports the head of the chain")
	vsym.Assert(same(w.Idx, c.reference(1)), "content is ingested up to the configured depth")
	vsym.Reach("done")
}
