package ingx

import (
	"context"

	"github.com/filecoin-project/storetheindex/internal/vsym"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
)

// VerifClose: the ingester can be closed at any time. Closing it ends, ends all
// syncs, and touches neither index nor datastore afterwards; what was ingested
// up to then is a prefix of the chain, and the next run carries on from there.
func VerifClose() {
	vsym.NoTimers()
	var c *chain
	vsym.Quiet(func() {
		c = plainChain()
		for i := vsym.Param("ads", 2); i > 0; i-- {
			c.plain()
		}
		c.w.Start()
		vsym.Idle()
	})
	w := c.w
	n := len(c.ads)
	mode := vsym.Choice("mode", 3)
	var done <-chan struct{}
	if mode != 1 {
		s, err := w.Ing.Sync(context.Background(), c.pub, c.addr, 0, false)
		vsym.Assert(err == nil, "a sync with a valid peer ID is accepted")
		d := make(chan struct{})
		go func() {
			for range s {
			}
			close(d)
		}()
		done = d
	}
	if mode == 1 {
		w.Ing.Announce(context.Background(), c.ads[n-1].cid, peer.AddrInfo{ID: c.pub, Addrs: []multiaddr.Multiaddr{c.addr}})
	}
	if mode == 2 {
		w.Idx.OnOp = func(op vsym.IxOp) { go w.Ing.Close() }
	}
	err := w.Ing.Close()
	vsym.Assert(err == nil, "closing succeeds")
	ops := len(w.Idx.Log)
	if done != nil {
		<-done
	}
	w.Reg.Close()
	vsym.Idle()
	vsym.Assert(mode == 2 || len(w.Idx.Log) == ops, "nothing is ingested after closing")
	w.Idx.OnOp = nil
	ok := false
	for i := 0; i <= n; i++ {
		if same(w.Idx, c.reference(i)) {
			ok = true
		}
	}
	vsym.Assert(ok, "what was ingested is a prefix of the chain")
	vsym.Quiet(func() {
		w.Start()
		got, ok := c.sync()
		vsym.Assert(ok && got == c.ads[n-1].cid, "a later sync reports the head of the chain")
		vsym.Assert(same(w.Idx, c.reference(n)), "a later run carries on")
	})
	vsym.Reach("done")
}
