package ingx

import (
	"context"

	"github.com/filecoin-project/storetheindex/internal/vsym"
)

// VerifWait: however two syncs of a publisher and the cancellation of one of
// them interleave, both of their callers are told, and the index ends up as the
// chain says.
func VerifWait() {
	vsym.NoTimers()
	var c *chain
	vsym.Quiet(func() {
		c = plainChain()
		for i := vsym.Param("ads", 2); i > 0; i-- {
			c.plain()
		}
		c.w.Start()
		vsym.Idle()
	})
	w := c.w
	ctx, cancel := context.WithCancel(context.Background())
	first, err := w.Ing.Sync(ctx, c.pub, c.addr, 0, false)
	vsym.Assert(err == nil, "a sync with a valid peer ID is accepted")
	if vsym.Param("cancel", 1) == 1 {
		at := vsym.Choice("cancelAt", len(c.ads)+1)
		w.Idx.Fault = func(op string) error {
			if op == "put" {
				if at == 0 {
					cancel()
				}
				at--
			}
			return nil
		}
	}
	if vsym.Param("two", 1) == 1 {
		if vsym.Flip("more") {
			c.plain()
		}
		got, ok := c.sync()
		vsym.Assert(ok && got == c.ads[len(c.ads)-1].cid, "a sync reports the head of the chain")
		vsym.Assert(same(w.Idx, c.reference(len(c.ads))), "when a sync is reported the index answers as the chain says")
	}
	<-first
	cancel()
	vsym.Quiet(w.Stop)
	vsym.Reach("done")
}

// VerifSyncEnds: a sync ends, and its channel is closed, whatever the publisher
// answers and whatever fails on the way.
func VerifSyncEnds() {
	vsym.NoTimers()
	var c *chain
	vsym.Quiet(func() {
		c = plainChain()
		for i := vsym.Param("ads", 2); i > 0; i-- {
			c.plain()
		}
		c.w.Start()
		vsym.Idle()
	})
	w := c.w
	faults := vsym.Param("faults", 1)
	switch vsym.Choice("fault", 4) {
	case 0:
		w.Net.Faults = faults
	case 1:
		w.DS.Faults = faults
	case 2:
		w.Idx.Fault = func(op string) error {
			if faults > 0 && op != "size" && vsym.Flip("idxfault") {
				faults--
				return errIdx
			}
			return nil
		}
	}
	ctx := context.Background()
	s1, err := w.Ing.Sync(ctx, c.pub, c.addr, 0, false)
	vsym.Assert(err == nil, "a sync with a valid peer ID is accepted")
	overlap := vsym.Flip("overlap")
	if !overlap {
		<-s1
	}
	pub, depth, resync := c.pub, 0, false
	switch vsym.Choice("then", 7) {
	case 0:
	case 1:
		c.plain()
	case 2: // the publisher goes back to an older head
		w.Net.SetHead(c.pub, c.ads[0].cid)
	case 3: // someone else publishes the same chain
		pub = vsym.Peer("mirror")
		w.Net.SetHead(pub, c.ads[len(c.ads)-1].cid)
	case 4:
		resync = true
	case 5:
		depth = 1
	case 6:
		pub = vsym.Peer("nobody")
	}
	s2, err := w.Ing.Sync(ctx, pub, c.addr, depth, resync)
	vsym.Assert(err == nil, "a sync with a valid peer ID is accepted")
	<-s2
	if _, ok := <-s2; ok {
		vsym.Fail("a sync reports once")
	}
	if overlap {
		<-s1
	}
	vsym.Reach("done")
}

// VerifResyncReport: when a resync is reported the advertisements it was asked
// for have taken effect again.
func VerifResyncReport() {
	vsym.NoTimers()
	var c *chain
	vsym.Quiet(func() {
		c = plainChain()
		for i := vsym.Param("ads", 2); i > 0; i-- {
			c.plain()
		}
		c.w.Start()
		vsym.Idle()
		c.sync()
		vsym.Idle()
		c.w.Idx.Vals = nil
		if vsym.Flip("more") {
			c.plain()
		}
	})
	n := len(c.ads)
	depth := vsym.Choice("depth", n+1)
	got, ok := c.deepSync(depth, true)
	vsym.Assert(ok && got == c.ads[n-1].cid, "a resync reports the head of the chain")
	if depth == 0 {
		depth = n
	}
	vsym.Assert(same(c.w.Idx, c.newest(depth)), "when a resync is reported the index answers as the chain says")
	vsym.Quiet(c.w.Stop)
	vsym.Reach("done")
}
