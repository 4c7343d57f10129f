package ingx

import (
	"context"

	"github.com/filecoin-project/storetheindex/internal/vsym"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
)

// VerifAnnounce: once nothing is going on any more, the index answers as the
// chain up to the last announced advertisement says, however announcements
// interleave with the ingestion of earlier ones.
func VerifAnnounce() {
	vsym.NoTimers()
	var c *chain
	vsym.Quiet(func() {
		c = plainChain()
		c.plain()
		c.w.Start()
		vsym.Idle()
	})
	w := c.w
	who := peer.AddrInfo{ID: c.pub, Addrs: []multiaddr.Multiaddr{c.addr}}
	n := vsym.Param("announces", 3)
	for i := 0; i < n; i++ {
		if i > 0 {
			c.plain()
		}
		err := w.Ing.Announce(context.Background(), c.ads[i].cid, who)
		vsym.Assert(err == nil, "an announcement from a publisher that is allowed is accepted")
	}
	vsym.Idle()
	vsym.Assert(same(w.Idx, c.reference(n)), "all announced advertisements take effect")
	latest, err := w.Ing.GetLatestSync(c.pub)
	vsym.Assert(err == nil && latest == c.ads[n-1].cid, "the latest sync is the last one announced")
	vsym.Quiet(w.Stop)
	vsym.Reach("done")
}

// VerifAnnounceRace: of two announcements made at the same time the later
// advertisement takes effect.
func VerifAnnounceRace() {
	vsym.NoTimers()
	var c *chain
	vsym.Quiet(func() {
		c = plainChain()
		c.plain()
		c.plain()
		c.w.Start()
		vsym.Idle()
	})
	w := c.w
	who := peer.AddrInfo{ID: c.pub, Addrs: []multiaddr.Multiaddr{c.addr}}
	for i := 0; i < 2; i++ {
		a := c.ads[i].cid
		go func() {
			err := w.Ing.Announce(context.Background(), a, who)
			vsym.Assert(err == nil, "an announcement from a publisher that is allowed is accepted")
		}()
		if i == 0 && vsym.Flip("settle") {
			vsym.Idle()
		}
	}
	vsym.Idle()
	if w.Ing != nil {
		x := c.reference(1)
		y := c.reference(2)
		vsym.Assert(same(w.Idx, x) || same(w.Idx, y), "the index answers as a prefix of the chain")
	}
	vsym.Reach("done")
}
