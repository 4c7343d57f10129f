package registry

import (
	"context"

	"github.com/filecoin-project/storetheindex/internal/vsym"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
)

// VerifRegRace: what happens to a provider at the same time happens one after
// the other; nothing that was acknowledged is undone by the way.
func VerifRegRace() {
	vsym.NoTimers()
	ctx := context.Background()
	pol := &vzPol{allow: true, publish: true}
	ds := &vsym.DS{}
	disc := &vzDisc{addrs: []multiaddr.Multiaddr{vsym.Addr("found at")}}
	r, err := NewRegistry(ctx, vzDiscoveryConfig(pol), ds, disc)
	vsym.Assert(err == nil, "a registry with a valid configuration starts")
	id, pub := vsym.Peer("id"), vsym.Peer("pub")
	old := &ProviderInfo{AddrInfo: peer.AddrInfo{ID: id, Addrs: []multiaddr.Multiaddr{vsym.Addr("old")}}, Publisher: pub, PublisherAddr: vsym.Addr("pubaddr"), LastAdvertisement: vsym.Cid("old ad")}
	rec := vzRec{id: id, addrs: vzStrs(old.AddrInfo.Addrs), pub: pub, pubAddr: old.PublisherAddr.String(), ad: old.LastAdvertisement}
	vsym.Assert(r.Register(ctx, old) == nil, "a provider that the policy admits is registered")

	done := make(chan error, 2)
	addr := vsym.AddrText("new")
	go func() { done <- r.RegisterOrUpdate(ctx, id, []string{addr}, cid.Undef, peer.AddrInfo{}) }()
	var want []vzRec
	with := func(f func(*vzRec)) vzRec {
		w := rec
		w.addrs = []string{addr}
		f(&w)
		return w
	}
	gone := false
	switch vsym.Choice("meanwhile", 4) {
	case 0:
		ad := vsym.Cid("new ad")
		go func() { done <- r.RegisterOrUpdate(ctx, id, nil, ad, peer.AddrInfo{ID: pub}) }()
		want = []vzRec{with(func(w *vzRec) { w.ad = ad })}
	case 1:
		p := peer.AddrInfo{ID: vsym.Peer("new pub"), Addrs: []multiaddr.Multiaddr{vsym.Addr("new pubaddr")}}
		go func() { done <- r.RegisterOrUpdate(ctx, id, nil, cid.Undef, p) }()
		want = []vzRec{with(func(w *vzRec) { w.pub, w.pubAddr = p.ID, p.Addrs[0].String() })}
	case 2:
		go func() { done <- r.RemoveProvider(ctx, id) }()
		gone = true
		want = []vzRec{with(func(w *vzRec) { w.pub, w.pubAddr, w.ad = "", "", cid.Undef })}
	case 3:
		go func() { done <- r.Discover(id, "f01234", true) }()
		want = []vzRec{with(func(w *vzRec) { w.disc = "f01234" }), with(func(w *vzRec) { w.disc, w.addrs = "f01234", vzStrs(disc.addrs) })}
	}
	for i := 0; i < 2; i++ {
		vsym.Assert(<-done == nil, "what the policy admits is done")
	}
	check := func(r *Registry) {
		info := r.ProviderInfo(id)
		if info == nil {
			vsym.Assert(gone, "a provider that nobody removed is registered")
			vsym.Reach("removed")
			return
		}
		if len(want) == 2 && info.AddrInfo.Addrs[0].String() != addr {
			want[0] = want[1]
		}
		if want[0].ad != rec.ad && want[0].ad != cid.Undef && want[0].adTime.IsZero() {
			want[0].adTime = info.LastAdvertisementTime
		}
		vzSameInfo(info, want[0])
		vsym.Reach("registered")
	}
	check(r)
	before := r.IsRegistered(id)
	r.Close()
	r, err = NewRegistry(ctx, vzDiscoveryConfig(pol), ds, disc)
	vsym.Assert(err == nil, "a registry with a valid configuration starts")
	vsym.Assert(r.IsRegistered(id) == before, "what is stored is what was registered")
	check(r)
	r.Close()
}
