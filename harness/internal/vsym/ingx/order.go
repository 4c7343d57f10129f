package ingx

import (
	"bytes"
	"context"

	"github.com/filecoin-project/storetheindex/api/v0/ingest/schema"
	"github.com/filecoin-project/storetheindex/internal/vsym"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

// VerifOrder: with several workers, and syncs and announcements of two
// publishers of the same chain at the same time, the advertisements of a
// provider take effect one after the other in the order of the chain, each
// once, and in the end the index answers as the chain says.
func VerifOrder() {
	vsym.NoTimers()
	var c *chain
	mirror := peer.ID("")
	vsym.Quiet(func() {
		c = plainChain()
		// Content, its removal, and other content in the same context.
		for i := 0; i < vsym.Param("ads", 3); i++ {
			a := &refAd{prov: c.pub, ctx: []byte{1}, md: []byte{1, byte(i)}}
			if i%3 == 1 {
				a.rm = true
				a.ctx = []byte{2}
				c.publish(a, schema.NoEntries.Cid)
				continue
			}
			if i%3 == 2 {
				a.ctx = []byte{2}
			}
			m1, m2 := c.mh(), c.mh()
			a.mhs = []multihash.Multihash{m1, m2}
			c.publish(a, c.chunks([]multihash.Multihash{m1}, []multihash.Multihash{m2}))
		}
		c.w.Cfg.IngestWorkerCount = vsym.Param("workers", 2)
		c.w.Start()
		vsym.Idle()
	})
	w := c.w
	n := len(c.ads)
	last, part := 0, 0
	w.Idx.OnOp = func(op vsym.IxOp) {
		for i, a := range c.ads {
			if a.rm && op.Op == "removeContext" {
				vsym.Assert(i >= last, "advertisements take effect in the order of the chain")
				vsym.Assert(i > last, "an advertisement takes effect once")
				last, part = i, 0
			}
			for j, m := range a.mhs {
				if op.Op == "put" && len(op.Mhs) == 1 && bytes.Equal(op.Mhs[0], m) {
					vsym.Assert(i >= last, "advertisements take effect in the order of the chain")
					vsym.Assert(i > last || j == part, "the parts of an advertisement take effect once and in order")
					last, part = i, j+1
				}
			}
		}
	}
	ctx := context.Background()
	second := c.pub
	mode := vsym.Choice("second", 4)
	if mode >= 2 {
		mirror = vsym.Peer("mirror")
		vsym.Assume(mirror != c.pub)
		w.Net.SetHead(mirror, c.ads[n-1].cid)
		second = mirror
	}
	s1, err := w.Ing.Sync(ctx, c.pub, c.addr, 0, false)
	vsym.Assert(err == nil, "a sync with a valid peer ID is accepted")
	if mode%2 == 0 {
		s2, err := w.Ing.Sync(ctx, second, c.addr, 0, false)
		vsym.Assert(err == nil, "a sync with a valid peer ID is accepted")
		<-s2
	} else {
		err = w.Ing.Announce(ctx, c.ads[vsym.Choice("announced", n)].cid, peer.AddrInfo{ID: second, Addrs: []multiaddr.Multiaddr{c.addr}})
		vsym.Assert(err == nil, "an announcement from a publisher that is allowed is accepted")
	}
	<-s1
	vsym.Idle()
	vsym.Quiet(func() {
		c.sync()
		w.Stop()
	})
	vsym.Assert(same(w.Idx, c.reference(n)), "the index answers as the chain says")
	vsym.Reach("done")
}
