package ingx

import (
	"github.com/filecoin-project/storetheindex/internal/vsym"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
)

// VerifWorkers: the number of providers that are ingested at the same time is
// the one set last. It can be set at any time, and that waits for nothing.
func VerifWorkers() {
	vsym.NoTimers()
	first := plainChain()
	w := first.w
	w.Cfg.IngestWorkerCount = 1 + vsym.Choice("at first", 3)
	cs := []*chain{first}
	for i := 1; i < 3; i++ {
		c := &chain{w: w, pub: vsym.Peer("publisher"), addr: first.addr, nmh: 10 * i}
		for _, o := range cs {
			vsym.Assume(o.pub != c.pub)
		}
		cs = append(cs, c)
	}
	busy, most := 0, 0
	gate := make(chan struct{})
	isAd := func(c cid.Cid) bool {
		for _, ch := range cs {
			for _, a := range ch.ads {
				if a.cid == c {
					return true
				}
			}
		}
		return false
	}
	w.Net.OnFetch = func(pub peer.ID, c cid.Cid) ([]byte, error) {
		if !isAd(c) {
			busy++
			if busy > most {
				most = busy
			}
			<-gate
			busy--
		}
		return nil, nil
	}
	w.Start()
	n := w.Cfg.IngestWorkerCount
	for round := 0; round < 2; round++ {
		done := make(chan struct{}, 3)
		for _, c := range cs {
			c.plain()
			c := c
			go func() {
				got, ok := c.sync()
				vsym.Assert(ok && got == c.ads[len(c.ads)-1].cid, "each sync reports its head")
				done <- struct{}{}
			}()
		}
		vsym.Idle()
		vsym.Assert(busy == n, "as many providers are ingested at a time as there are to be workers")
		if round == 0 {
			for i := vsym.Choice("changes", 3); i > 0; i-- {
				n = 1 + vsym.Choice("then", 3)
				w.Ing.RunWorkers(n)
			}
			vsym.Idle()
			if n > w.Cfg.IngestWorkerCount {
				vsym.Assert(busy >= n, "more workers begin at once")
			}
			vsym.Reach("set")
		}
		old := gate
		gate = make(chan struct{})
		close(gate)
		close(old)
		for range cs {
			<-done
		}
		vsym.Idle()
		gate = make(chan struct{})
	}
	for _, c := range cs {
		_, ok := c.sync()
		vsym.Assert(ok, "everything is ingested")
	}
	w.Stop()
	vsym.Reach("done")
}
