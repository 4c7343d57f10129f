package ingx

import (
	"context"

	"github.com/filecoin-project/storetheindex/internal/vsym"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
)

// VerifPolled: when a provider that was not heard of is polled, what its
// publisher published since takes effect; nobody else is asked.
func VerifPolled() {
	c := plainChain()
	w := c.w
	prov := c.pub
	if vsym.Flip("otherprovider") {
		prov = vsym.Peer("provider")
	}
	c.provAddr = vsym.Addr("provider addr")
	vsym.Assume(!c.provAddr.Equal(c.addr))
	w.Net.At = c.addr
	first := func() {
		a := &refAd{prov: prov, ctx: []byte{byte(len(c.ads))}, md: []byte{1}}
		a.mhs = append(a.mhs, c.mh())
		c.publish(a, c.chunks(a.mhs))
	}
	first()
	w.Start()
	c.sync()
	vsym.Assert(same(w.Idx, c.reference(1)), "a sync ingests the chain")
	if vsym.Flip("more") {
		first()
	}
	if vsym.Flip("restart") {
		w.Stop()
		w.DS, w.RDS = w.DS.Reopen(), w.RDS.Reopen()
		w.Start()
	}
	asked, wrong := 0, 0
	w.Net.OnReach = func(p peer.ID) {
		asked++
		if p != c.pub {
			wrong++
		}
	}
	vsym.Idle()
	w.Net.OnReach = nil
	vsym.Assert(wrong == 0, "nobody but the publisher is asked")
	if asked == 0 {
		vsym.Assert(same(w.Idx, c.reference(1)), "nothing happens without a poll")
		vsym.Reach("quiet")
	} else if w.Reg.IsRegistered(prov) {
		vsym.Assert(same(w.Idx, c.reference(len(c.ads))), "a poll brings in what was published since")
		latest, err := w.Ing.GetLatestSync(c.pub)
		vsym.Assert(err == nil && latest == c.ads[len(c.ads)-1].cid, "the latest sync is the head")
		info := w.Reg.ProviderInfo(prov)
		vsym.Assert(info != nil && info.LastAdvertisement == latest, "the provider is visible with its latest advertisement")
		vsym.Reach("polled")
	}
	vsym.Reach("done")
}

// VerifComeback: a provider that was removed and comes back has all its
// content again when the next sync with its publisher is reported.
func VerifComeback() { comeback(false, "a provider that comes back has its content") }

// VerifComebackForgotten: likewise if its content was deleted meanwhile, as
// lookups do when they come upon content of a provider that is not registered.
func VerifComebackForgotten() {
	comeback(true, "a provider that comes back has its content again although it was deleted meanwhile")
}

func comeback(forgotten bool, answers string) {
	vsym.NoTimers()
	c := plainChain()
	w := c.w
	prov := c.pub
	if vsym.Flip("otherprovider") {
		prov = vsym.Peer("provider")
	}
	c.plainFor(prov)
	c.plainFor(prov)
	w.Start()
	c.sync()
	err := w.Reg.RemoveProvider(context.Background(), prov)
	vsym.Assert(err == nil, "a provider can be removed")
	vsym.Idle()
	latest, err := w.Ing.GetLatestSync(c.pub)
	vsym.Assert(err == nil && latest == cid.Undef, "nothing is left of the syncs with a provider that was removed")
	vsym.Assert(w.Reg.ProviderInfo(prov) == nil, "a provider that was removed is gone")
	if forgotten {
		for _, a := range c.ads {
			w.Idx.RemoveProviderContext(prov, a.ctx)
		}
	}
	if vsym.Flip("more") {
		c.plainFor(prov)
	}
	n := len(c.ads)
	if vsym.Flip("restart") {
		w.Stop()
		w.DS, w.RDS = w.DS.Reopen(), w.RDS.Reopen()
		w.Start()
	}
	got, ok := c.sync()
	vsym.Assert(ok && got == c.ads[n-1].cid, "a sync reports the head of the chain")
	vsym.Assert(same(w.Idx, c.reference(n)), answers)
	if n == 3 {
		info := w.Reg.ProviderInfo(prov)
		vsym.Assert(info != nil && info.Publisher == c.pub && info.LastAdvertisement == got, "a provider that comes back is registered")
	}
	vsym.Reach("done")
}
