package registry

import (
	"context"
	"time"

	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/vsym"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
)

func vzOpenPol() *vzPol { return &vzPol{allow: true, publish: true} }

func vzInfoMatches(info *ProviderInfo, r vzRec) bool {
	if info == nil || info.AddrInfo.ID != r.id || info.DiscoveryAddr != r.disc || info.LastAdvertisement != r.ad || info.Publisher != r.pub {
		return false
	}
	as := vzStrs(info.AddrInfo.Addrs)
	if len(as) != len(r.addrs) {
		return false
	}
	for i := range as {
		if as[i] != r.addrs[i] {
			return false
		}
	}
	pa := ""
	if info.PublisherAddr != nil {
		pa = info.PublisherAddr.String()
	}
	return vzEffPubAddr(info.Publisher, r.id, pa, as) == vzEffPubAddr(r.pub, r.id, r.pubAddr, r.addrs)
}

func vzRegMatches(r *Registry, m *vzModel) bool {
	if len(r.AllProviderInfo()) != len(m.recs) {
		return false
	}
	for _, rec := range m.recs {
		if !vzInfoMatches(r.ProviderInfo(rec.id), rec) {
			return false
		}
	}
	return true
}

// vzDrain reads the sync channel and records what it says.
type vzSignals struct {
	deleted []peer.ID
	polled  []peer.ID
}

func vzDrain(r *Registry) *vzSignals {
	s := &vzSignals{}
	go func() {
		for p := range r.SyncChan() {
			if p.Deleted() {
				s.deleted = append(s.deleted, p.AddrInfo.ID)
			} else {
				s.polled = append(s.polled, p.AddrInfo.ID)
			}
		}
	}()
	return s
}

func vzHistory(e *vzEnv, n int, kinds ...int) {
	for i := 0; i < n; i++ {
		e.doOp(kinds[vsym.Choice("op", len(kinds))])
	}
}

// VerifRegRestart: any history, an orderly restart under any policy.
func VerifRegRestart() {
	d := &vsym.DS{}
	m := &vzModel{pol: vzOpenPol()}
	e := &vzEnv{m: m, disc: &vzDisc{}}
	ctx := context.Background()
	r, err := NewRegistry(ctx, vzDiscoveryConfig(m.pol), d, e.disc)
	vsym.Assert(err == nil, "a registry with a valid configuration starts")
	e.r = r
	sig := vzDrain(r)
	vzHistory(e, vsym.Param("n", 2), vzOpRegister, vzOpUpdate, vzOpRemove, vzOpDiscover)
	var times []time.Time
	for _, rec := range m.recs {
		times = append(times, r.ProviderInfo(rec.id).LastAdvertisementTime)
	}
	vsym.Assert(r.Close() == nil, "the registry closes")
	vsym.Idle()
	_ = sig
	d2 := d.Reopen()
	pol := vzOpenPol()
	if vsym.Flip("block") {
		pol.except = []peer.ID{vsym.Peer("blocked")}
	}
	r2, err := NewRegistry(ctx, vzDiscoveryConfig(pol), d2, e.disc)
	vsym.Assert(err == nil, "a registry starts from what an earlier one stored")
	m2 := &vzModel{pol: pol}
	for i, rec := range m.recs {
		if !pol.allowed(rec.id) {
			vsym.Reach("blocked")
			vsym.Assert(!r2.IsRegistered(rec.id), "a provider that the policy now refuses is not loaded")
			continue
		}
		m2.recs = append(m2.recs, rec)
		vsym.Reach("loaded")
		info := r2.ProviderInfo(rec.id)
		vsym.Assert(info != nil, "a registered provider survives a restart")
		vsym.Assert(info.LastAdvertisementTime.Equal(times[i]), "the time of the latest advertisement survives a restart")
	}
	vzSameReg(r2, m2)
}

// VerifRegCrash: any history, a crash at any storage operation.
func VerifRegCrash() {
	d := &vsym.DS{}
	m := &vzModel{pol: vzOpenPol()}
	e := &vzEnv{m: m, disc: &vzDisc{}}
	ctx := context.Background()
	r, err := NewRegistry(ctx, vzDiscoveryConfig(m.pol), d, e.disc)
	vsym.Assert(err == nil, "a registry with a valid configuration starts")
	e.r = r
	vzDrain(r)
	d.Crashes = true
	n := vsym.Param("n", 2)
	var before *vzModel
	for i := 0; i < n && !d.Crashed(); i++ {
		before = m.clone()
		switch vsym.Choice("op", 3) {
		case 0:
			e.doOp(vzOpRegister)
		case 1:
			e.doOp(vzOpUpdate)
		case 2:
			e.doOp(vzOpRemove)
		}
	}
	if !d.Crashed() {
		// The crash comes after the last acknowledgement.
		d.Crash()
		before = m
	}
	d2 := d.Reboot()
	r2, err := NewRegistry(ctx, vzDiscoveryConfig(m.pol), d2, e.disc)
	vsym.Assert(err == nil, "a registry starts after a crash")
	okAfter := vzRegMatches(r2, m)
	if okAfter {
		vsym.Reach("after")
		return
	}
	vsym.Assert(vzRegMatches(r2, before), "after a crash every acknowledged registration and removal is in effect and an unfinished one is there entirely or not at all")
	vsym.Reach("before")
}

// VerifRegFault: storage fails during one operation.
func VerifRegFault() {
	d := &vsym.DS{}
	m := &vzModel{pol: vzOpenPol()}
	failed := 0
	e := &vzEnv{m: m, disc: &vzDisc{}, dsErr: func() bool { return d.Failed > failed }}
	ctx := context.Background()
	r, err := NewRegistry(ctx, vzDiscoveryConfig(m.pol), d, e.disc)
	vsym.Assert(err == nil, "a registry with a valid configuration starts")
	e.r = r
	sig := vzDrain(r)
	e.doOp(vzOpRegister)
	d.Faults = 1
	kinds := []int{vzOpRegister, vzOpUpdate, vzOpRemove, vzOpDiscover}
	kind := kinds[vsym.Choice("op", 4)]
	oerr := e.doOp(kind)
	if d.Failed == 0 {
		return
	}
	vsym.Reach("failed")
	vsym.Assert(oerr != nil, "an operation that could not be stored reports an error")
	d.Faults = 0
	failed = d.Failed
	if kind != vzOpRemove {
		return
	}
	vsym.Idle()
	told := len(sig.deleted)
	// The provider is there until then, and is asked when it is due.
	if told == 0 {
		for _, rec := range m.recs {
			if !r.IsRegistered(rec.id) {
				continue
			}
			info := r.ProviderInfo(rec.id)
			vsym.Assert(info != nil && !info.Deleted(), "a provider whose removal failed is not taken for removed")
			r.syncChan <- info
			vsym.Idle()
			vsym.Assert(len(sig.deleted) == 0, "a provider whose removal failed is not handed to the ingester for removal")
			vsym.Reach("kept")
		}
	}
	// The removal is retried.
	for _, rec := range m.recs {
		if told == 0 {
			vsym.Assert(r.RemoveProvider(ctx, rec.id) == nil, "a removal that failed can be retried")
		}
		vsym.Idle()
		vsym.Assert(len(sig.deleted) == 1 || d.Count() == 1, "a provider that is removed by a retried request is handed to the ingester for removal")
		vsym.Assert(len(sig.deleted) == 1, "a retried removal is handed to the ingester")
		vsym.Assert(!r.IsRegistered(rec.id), "a removed provider is not registered")
	}
}

// VerifRegRemove: removal is complete and the ingester is told once.
func VerifRegRemove() {
	d := &vsym.DS{}
	m := &vzModel{pol: vzOpenPol()}
	e := &vzEnv{m: m, disc: &vzDisc{}}
	ctx := context.Background()
	r, err := NewRegistry(ctx, vzDiscoveryConfig(m.pol), d, e.disc)
	vsym.Assert(err == nil, "a registry with a valid configuration starts")
	e.r = r
	sig := vzDrain(r)
	vzHistory(e, vsym.Param("n", 2), vzOpRegister, vzOpDiscover)
	if vsym.Flip("silent") {
		// Nobody has been heard from for long.
		for i := 0; i < 2; i++ {
			r.pollProviders(polling{stopAfter: 1<<63 - 1}, nil)
			vsym.Idle()
		}
		vsym.Reach("silent")
	}
	id := vsym.Peer("remove")
	rec, known := m.get(id)
	vsym.Assert(r.RemoveProvider(ctx, id) == nil, "a provider can be removed")
	m.del(id)
	vsym.Idle()
	vsym.Assert(!r.IsRegistered(id), "a removed provider is not registered")
	vsym.Assert(r.ProviderInfo(id) == nil, "a removed provider is not found")
	for _, rec := range m.recs {
		r.Saw(rec.id)
	}
	vzSameReg(r, m)
	if known {
		vsym.Reach("known")
		vsym.Assert(len(sig.deleted) == 1 && sig.deleted[0] == id, "the ingester is told once to remove the data of a removed provider")
	} else {
		vsym.Assert(len(sig.deleted) == 0, "removing an unknown provider removes nobody's data")
	}
	// It does not come back by itself.
	r2, err := NewRegistry(ctx, vzDiscoveryConfig(m.pol), d.Reopen(), e.disc)
	vsym.Assert(err == nil, "a registry starts from what an earlier one stored")
	vzSameReg(r2, m)
	// But it can register again.
	if known {
		as := []multiaddr.Multiaddr{vsym.Addr("again")}
		vsym.Assert(r.Register(ctx, &ProviderInfo{AddrInfo: peer.AddrInfo{ID: id, Addrs: as}}) == nil, "a removed provider can register again")
		info := r.ProviderInfo(id)
		vsym.Assert(info != nil && info.LastAdvertisement == cid.Undef && info.Publisher == "", "a removed provider registers afresh")
	}
	_ = rec
}

type vzProv struct {
	id     peer.ID
	set    polling
	c0, c1 time.Time // when it was last heard from, bracketed
	known  bool      // heard from since the start
	seen   bool      // polled once since the start
	gone   bool
	hidden bool
	mute   bool // has no publisher that could be asked
}

func vzDur(name string) time.Duration {
	d := vsym.I64(name)
	vsym.Assume(d >= 0 && d <= int64(2000*time.Hour))
	return time.Duration(d)
}

func vzPolling(name string) polling {
	return polling{interval: vzDur(name + "interval"), retryAfter: vzDur(name + "retry"), stopAfter: vzDur(name + "stop")}
}

// VerifPoll: silent providers are polled, hidden and removed by their own
// settings.
func VerifPoll() {
	d := &vsym.DS{}
	ctx := context.Background()
	r, err := NewRegistry(ctx, vzDiscoveryConfig(vzOpenPol()), d, nil)
	vsym.Assert(err == nil, "a registry with a valid configuration starts")
	sig := vzDrain(r)
	def := vzPolling("")
	over := map[peer.ID]polling{}
	np := vsym.Param("provs", 2)
	var ps []*vzProv
	for i := 0; i < np; i++ {
		p := &vzProv{id: vsym.Peer("prov"), set: def}
		for _, o := range ps {
			vsym.Assume(o.id != p.id)
		}
		if i == 0 && vsym.Flip("override") {
			p.set = vzPolling("o")
			over[p.id] = p.set
			vsym.Reach("override")
		}
		a := vsym.Addr("addr")
		if i == 1 && vsym.Flip("no publisher") {
			p.mute = true
			err = r.Register(ctx, &ProviderInfo{AddrInfo: peer.AddrInfo{ID: p.id, Addrs: []multiaddr.Multiaddr{a}}})
		} else if vsym.Flip("heard") {
			p.c0 = vsym.Now()
			err = r.RegisterOrUpdate(ctx, p.id, []string{a.String()}, cid.Undef, peer.AddrInfo{ID: p.id})
			p.c1 = vsym.Now()
			p.known = true
		} else {
			err = r.Register(ctx, &ProviderInfo{AddrInfo: peer.AddrInfo{ID: p.id, Addrs: []multiaddr.Multiaddr{a}}, Publisher: p.id})
		}
		vsym.Assert(err == nil, "a provider registers")
		ps = append(ps, p)
	}
	ticks := vsym.Param("ticks", 2)
	for k := 0; k < ticks; k++ {
		sig.deleted, sig.polled = nil, nil
		t0 := vsym.Now()
		r.pollProviders(def, over)
		vsym.Idle()
		t1 := vsym.Now()
		due := 0
		for _, p := range ps {
			if p.gone {
				vsym.Assert(!vzIn(sig.deleted, p.id) && !vzIn(sig.polled, p.id), "a removed provider is not polled")
				continue
			}
			polled, deleted := vzIn(sig.polled, p.id), vzIn(sig.deleted, p.id)
			if p.mute {
				vsym.Assert(!polled, "a provider without publisher is not polled")
				p.gone = deleted
				continue
			}
			reg, vis := r.IsRegistered(p.id), r.ProviderInfo(p.id) != nil
			if !p.known {
				// Not heard from since the start: it counts as heard from
				// one interval ago, from now on.
				vsym.Assert(!polled && !deleted && reg && vis, "a provider is not polled at the first look after a start")
				p.known = true
				p.c0, p.c1 = t0.Add(-p.set.interval), t1.Add(-p.set.interval)
				continue
			}
			lo, hi := t0.Sub(p.c1), t1.Sub(p.c0)
			if polled || deleted {
				vsym.Reach("polled")
				vsym.Assert(hi >= p.set.interval, "a provider is polled only after its poll interval without contact")
			}
			if !vis {
				vsym.Reach("hidden")
				vsym.Assert(hi >= p.set.interval+2*p.set.retryAfter || hi >= p.set.interval+p.set.stopAfter, "a provider is hidden only after its retries without contact")
			} else {
				vsym.Assert(lo < p.set.interval+2*p.set.retryAfter || lo < p.set.interval, "a provider that does not answer is hidden after its retries")
			}
			vsym.Assert(reg == !deleted, "a provider is removed exactly when the ingester is told so")
			if deleted {
				vsym.Reach("deleted")
				vsym.Assert(hi >= p.set.interval+p.set.stopAfter, "a provider is removed only after its stop time without contact")
				p.gone = true
			} else if lo >= p.set.interval+p.set.stopAfter {
				vsym.Assert(len(sig.deleted)+len(sig.polled) > 0, "a provider without contact for its stop time is removed unless the ingester is busy")
				vsym.Assert(!vis, "a provider without contact for its stop time is hidden")
			}
			if lo >= p.set.interval {
				due++
			}
		}
		if due > 0 {
			vsym.Assert(len(sig.deleted)+len(sig.polled) > 0, "when providers are due at least one is polled")
		}
		if k+1 < ticks && vsym.Flip("contact") {
			p := ps[0]
			if !p.gone {
				p.c0 = vsym.Now()
				if vsym.Flip("saw") {
					r.Saw(p.id)
				} else {
					err := r.RegisterOrUpdate(ctx, p.id, nil, cid.Undef, peer.AddrInfo{ID: p.id})
					vsym.Assert(err == nil, "a provider that answers is accepted")
				}
				p.c1 = vsym.Now()
				p.known = true
				vsym.Assert(r.ProviderInfo(p.id) != nil, "a provider that answers is visible again")
				vsym.Reach("back")
			}
		}
	}
	// What was removed does not come back at a restart, and the rest does.
	r2, err := NewRegistry(ctx, vzDiscoveryConfig(vzOpenPol()), d.Reopen(), nil)
	vsym.Assert(err == nil, "a registry restarts")
	for _, p := range ps {
		vsym.Assert(r2.IsRegistered(p.id) == !p.gone, "removal of an unresponsive provider is permanent and affects nobody else")
	}
}

// VerifPollTimer: the timer of the registry polls with the configured
// settings.
func VerifPollTimer() {
	ctx := context.Background()
	a, b := vsym.Peer("a"), vsym.Peer("b")
	vsym.Assume(a != b)
	def, ov := vzPolling(""), vzPolling("o")
	cfg := config.Discovery{Policy: vzOpenPolicy(), PollInterval: config.Duration(def.interval), PollRetryAfter: config.Duration(def.retryAfter), PollStopAfter: config.Duration(def.stopAfter),
		PollOverrides: []config.Polling{{ProviderID: a.String(), Interval: config.Duration(ov.interval), RetryAfter: config.Duration(ov.retryAfter), StopAfter: config.Duration(ov.stopAfter)}}}
	r, err := NewRegistry(ctx, cfg, nil, nil)
	vsym.Assert(err == nil, "a registry with a valid configuration starts")
	sig := vzDrain(r)
	c0 := vsym.Now()
	for _, id := range []peer.ID{a, b} {
		err = r.RegisterOrUpdate(ctx, id, []string{vsym.AddrText("addr")}, cid.Undef, peer.AddrInfo{ID: id})
		vsym.Assert(err == nil, "a provider registers")
	}
	c1 := vsym.Now()
	vsym.Idle()
	t1 := vsym.Now()
	for i, id := range []peer.ID{a, b} {
		set := ov
		if i == 1 {
			set = def
		}
		hi := t1.Sub(c0)
		if vzIn(sig.polled, id) || vzIn(sig.deleted, id) {
			vsym.Reach("polled")
			vsym.Assert(hi >= set.interval, "a provider is polled only after its poll interval without contact")
			vsym.Assert(hi >= time.Minute || hi >= def.retryAfter || hi >= ov.retryAfter, "polling happens at the configured rate")
		}
		if vzIn(sig.deleted, id) {
			vsym.Reach("deleted")
			vsym.Assert(hi >= set.interval+set.stopAfter, "a provider is removed only after its stop time without contact")
			vsym.Assert(!r.IsRegistered(id), "a removed provider is not registered")
		}
		if r.ProviderInfo(id) == nil {
			vsym.Assert(hi >= set.interval+2*set.retryAfter || hi >= set.interval+set.stopAfter, "a provider is hidden only after its retries without contact")
		}
	}
	_ = c1
}
