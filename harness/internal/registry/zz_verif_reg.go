package registry

import (
	"context"
	"errors"
	"net/http"
	"time"

	v0 "github.com/filecoin-project/storetheindex/api/v0"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/registry/discovery"
	"github.com/filecoin-project/storetheindex/internal/vsym"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
)

// vzPol is the reference admission policy.
type vzPol struct {
	allow, publish       bool
	except, publishExcep []peer.ID
}

func vzIn(l []peer.ID, id peer.ID) bool {
	for _, x := range l {
		if x == id {
			return true
		}
	}
	return false
}

func (p *vzPol) allowed(id peer.ID) bool { return vzIn(p.except, id) != p.allow }

func (p *vzPol) publishAllowed(pub, prov peer.ID) bool {
	return pub == prov || vzIn(p.publishExcep, pub) != p.publish
}

func (p *vzPol) set(id peer.ID, allow bool) {
	var out []peer.ID
	for _, e := range p.except {
		if e != id {
			out = append(out, e)
		}
	}
	if allow != p.allow {
		out = append(out, id)
	}
	p.except = out
}

func (p *vzPol) config() config.Policy {
	c := config.Policy{Allow: p.allow, Publish: p.publish}
	for _, i := range p.except {
		c.Except = append(c.Except, i.String())
	}
	for _, i := range p.publishExcep {
		c.PublishExcept = append(c.PublishExcept, i.String())
	}
	return c
}

func vzAnyPolicy(except int) *vzPol {
	p := &vzPol{allow: vsym.Flip("allow"), publish: vsym.Flip("publish")}
	n := vsym.Choice("nexcept", except+1)
	for i := 0; i < n; i++ {
		p.except = append(p.except, vsym.Peer("except"))
	}
	n = vsym.Choice("npubexcept", except+1)
	for i := 0; i < n; i++ {
		p.publishExcep = append(p.publishExcep, vsym.Peer("pubexcept"))
	}
	return p
}

// vzRec is the reference registration of one provider.
type vzRec struct {
	id      peer.ID
	addrs   []string
	disc    string
	ad      cid.Cid
	pub     peer.ID
	pubAddr string
	// adTime is when the latest advertisement came.
	adTime time.Time
}

type vzModel struct {
	pol  *vzPol
	recs []vzRec
}

func (m *vzModel) get(id peer.ID) (vzRec, bool) {
	for _, r := range m.recs {
		if r.id == id {
			return r, true
		}
	}
	return vzRec{}, false
}

func (m *vzModel) del(id peer.ID) {
	var out []vzRec
	for _, r := range m.recs {
		if r.id != id {
			out = append(out, r)
		}
	}
	m.recs = out
}

func (m *vzModel) put(r vzRec) {
	m.del(r.id)
	m.recs = append(m.recs, r)
}

func (m *vzModel) clone() *vzModel {
	p := *m.pol
	return &vzModel{pol: &p, recs: append([]vzRec(nil), m.recs...)}
}

func vzStrs(as []multiaddr.Multiaddr) []string {
	var out []string
	for _, a := range as {
		out = append(out, a.String())
	}
	return out
}

// admit is the admission rule.
func (m *vzModel) admit(id, pub peer.ID) bool {
	if !m.pol.allowed(id) {
		return false
	}
	if pub == "" || pub == id {
		return true
	}
	return m.pol.allowed(pub) && m.pol.publishAllowed(pub, id)
}

func vzForbidden(err error) bool {
	var e *v0.Error
	return errors.As(err, &e) && e.Status() == http.StatusForbidden
}

// effPubAddr: a provider that publishes for itself is found at its own address
// unless another was given.
func vzEffPubAddr(pub, id peer.ID, pubAddr string, addrs []string) string {
	if pubAddr == "" && pub == id && len(addrs) != 0 {
		return addrs[0]
	}
	return pubAddr
}

func vzSameInfo(info *ProviderInfo, r vzRec) {
	vsym.Assert(info.AddrInfo.ID == r.id, "a provider is listed under its own ID")
	as := vzStrs(info.AddrInfo.Addrs)
	vsym.Assert(len(as) == len(r.addrs), "a provider has the addresses it was registered with")
	for i := range as {
		vsym.Assert(as[i] == r.addrs[i], "a provider has the addresses it was registered with")
	}
	vsym.Assert(info.DiscoveryAddr == r.disc, "a provider has its discovery address")
	vsym.Assert(info.LastAdvertisement == r.ad, "a provider has its latest advertisement")
	vsym.Assert(info.LastAdvertisementTime.Equal(r.adTime), "a provider has the time of its latest advertisement")
	vsym.Assert(info.Publisher == r.pub, "a provider has its publisher")
	pa := ""
	if info.PublisherAddr != nil {
		pa = info.PublisherAddr.String()
	}
	vsym.Assert(vzEffPubAddr(info.Publisher, r.id, pa, as) == vzEffPubAddr(r.pub, r.id, r.pubAddr, r.addrs), "a provider has its publisher's address")
}

// vzSameReg compares the registry with the reference through its API.
func vzSameReg(r *Registry, m *vzModel) {
	infos := r.AllProviderInfo()
	vsym.Assert(len(infos) == len(m.recs), "exactly the registered providers are listed")
	for _, rec := range m.recs {
		info := r.ProviderInfo(rec.id)
		vsym.Assert(info != nil, "a registered provider is found")
		vzSameInfo(info, rec)
		found := 0
		for _, i := range infos {
			if i.AddrInfo.ID == rec.id {
				found++
			}
		}
		vsym.Assert(found == 1, "a registered provider is listed once")
		vsym.Assert(r.IsRegistered(rec.id), "a registered provider is reported as registered")
	}
}

// vzDisc finds every provider where the harness says it is.
type vzDisc struct {
	fail  bool
	addrs []multiaddr.Multiaddr
	calls int
}

func (d *vzDisc) Discover(ctx context.Context, peerID peer.ID, addr string) (*discovery.Discovered, error) {
	d.calls++
	if d.fail {
		return nil, errors.New("not found")
	}
	return &discovery.Discovered{AddrInfo: peer.AddrInfo{ID: peerID, Addrs: d.addrs}}, nil
}

func vzDiscoveryConfig(p *vzPol) config.Discovery {
	return config.Discovery{Policy: p.config(), PollInterval: config.Duration(24 * time.Hour), PollRetryAfter: config.Duration(5 * time.Hour), PollStopAfter: config.Duration(168 * time.Hour)}
}

const (
	vzOpRegister = iota
	vzOpUpdate
	vzOpRemove
	vzOpPolicy
	vzOpDiscover
)

type vzEnv struct {
	r     *Registry
	m     *vzModel
	disc  *vzDisc
	dsErr func() bool
	// before the operation touches anything and after
	bad bool
}

func vzAddrs(name string, max int) []multiaddr.Multiaddr {
	n := vsym.Choice("n"+name, max+1)
	var out []multiaddr.Multiaddr
	for i := 0; i < n; i++ {
		out = append(out, vsym.Addr(name))
	}
	return out
}

// doOp runs one arbitrary operation of the given kind and the reference next
// to it. It returns the error of the operation.
func (e *vzEnv) doOp(kind int) error {
	ctx := context.Background()
	m, r := e.m, e.r
	id := vsym.Peer("id")
	switch kind {
	case vzOpRegister:
		info := &ProviderInfo{AddrInfo: peer.AddrInfo{ID: id, Addrs: vzAddrs("addr", 1)}, Publisher: vsym.PeerAny("pub")}
		rec := vzRec{id: id, addrs: vzStrs(info.AddrInfo.Addrs), pub: info.Publisher}
		if vsym.Flip("pubaddr?") {
			info.PublisherAddr = vsym.Addr("pubaddr")
			rec.pubAddr = info.PublisherAddr.String()
		}
		if vsym.Flip("ad?") {
			info.LastAdvertisement = vsym.Cid("ad")
			rec.ad = info.LastAdvertisement
		}
		err := r.Register(ctx, info)
		if e.dsErr != nil && e.dsErr() {
			return err
		}
		ok := m.admit(id, info.Publisher)
		if err == nil {
			vsym.Reach("registered")
			vsym.Assert(ok, "a provider is registered only if the policy admits it and its publisher")
			m.put(rec)
		} else {
			vsym.Reach("refused")
			vsym.Assert(!ok || len(rec.addrs) == 0, "a provider that the policy admits is registered")
			if len(rec.addrs) != 0 {
				vsym.Assert(vzForbidden(err), "a registration refused by policy is reported as forbidden")
			}
		}
		return err
	case vzOpUpdate:
		var texts []string
		bad := false
		switch vsym.Choice("addrs", 3) {
		case 1:
			texts = []string{vsym.AddrText("addr")}
		case 2:
			s := vsym.Str("text")
			_, merr := multiaddr.NewMultiaddr(s)
			bad = merr != nil
			texts = []string{s}
		}
		ad := cid.Undef
		if vsym.Flip("ad?") {
			ad = vsym.Cid("ad")
		}
		pub := peer.AddrInfo{ID: vsym.PeerAny("pub"), Addrs: vzAddrs("pubaddr", 1)}
		rec, known := m.get(id)
		full := !known
		rec.id = id
		if pub.ID != "" && pub.ID != rec.pub {
			rec.pub = pub.ID
			rec.pubAddr = ""
			full = true
		}
		if len(pub.Addrs) != 0 && (pub.ID != "" || !known) {
			rec.pubAddr = pub.Addrs[0].String()
		}
		if rec.pub == id && rec.pubAddr == "" && len(rec.addrs) != 0 {
			rec.pubAddr = rec.addrs[0]
		}
		if len(texts) != 0 && !bad {
			ma, _ := multiaddr.NewMultiaddr(texts[0])
			rec.addrs = []string{ma.String()}
		}
		newAd := ad != cid.Undef && rec.ad != ad
		if newAd {
			rec.ad = ad
		}
		start := time.Now()
		err := r.RegisterOrUpdate(ctx, id, texts, ad, pub)
		if e.dsErr != nil && e.dsErr() {
			return err
		}
		if bad {
			vsym.Reach("badaddr")
			vsym.Assert(err != nil, "an update with a malformed address is refused")
			return err
		}
		ok := !full || m.admit(id, rec.pub)
		if err == nil {
			vsym.Reach("updated")
			vsym.Assert(ok, "a new provider or publisher is accepted only if the policy admits it")
			if newAd {
				info := r.ProviderInfo(id)
				vsym.Assert(info != nil && !info.LastAdvertisementTime.Before(start) && !info.LastAdvertisementTime.After(time.Now()), "the time of an advertisement is when it came")
				rec.adTime = info.LastAdvertisementTime
			}
			m.put(rec)
		} else {
			vsym.Assert(!ok || (full && len(rec.addrs) == 0), "an update that the policy admits is accepted")
			if len(rec.addrs) != 0 {
				vsym.Assert(vzForbidden(err), "an update refused by policy is reported as forbidden")
			}
		}
		return err
	case vzOpRemove:
		_, known := m.get(id)
		err := r.RemoveProvider(ctx, id)
		if e.dsErr != nil && e.dsErr() {
			return err
		}
		vsym.Assert(err == nil, "a provider can be removed")
		m.del(id)
		if known {
			vsym.Reach("removed")
		}
		return err
	case vzOpPolicy:
		switch vsym.Choice("polop", 4) {
		case 3:
			np := &vzPol{allow: vsym.Flip("allow"), publish: vsym.Flip("publish")}
			cfg := np.config()
			if vsym.Flip("publishers?") {
				cfg.PublishExcept = []string{"no peer"}
			} else {
				cfg.Except = []string{id.String(), "no peer"}
			}
			vsym.Assert(r.SetPolicy(cfg) != nil, "a malformed policy is refused")
			vsym.Reach("bad policy")
		case 0:
			r.AllowPeer(id)
			m.pol.set(id, true)
		case 1:
			r.BlockPeer(id)
			m.pol.set(id, false)
		case 2:
			np := &vzPol{allow: vsym.Flip("allow"), publish: vsym.Flip("publish")}
			if vsym.Flip("except?") {
				np.except = []peer.ID{id}
			}
			vsym.Assert(r.SetPolicy(np.config()) == nil, "a valid policy is accepted")
			m.pol = np
		}
		return nil
	case vzOpDiscover:
		e.disc.fail = vsym.Flip("notfound")
		e.disc.addrs = []multiaddr.Multiaddr{vsym.Addr("addr")}
		calls := e.disc.calls
		err := r.Discover(id, "f01234", true)
		if e.dsErr != nil && e.dsErr() {
			return err
		}
		if !m.pol.allowed(id) {
			vsym.Assert(vzForbidden(err), "discovery of a provider that the policy refuses is forbidden")
			vsym.Assert(e.disc.calls == calls, "a provider that the policy refuses is not looked up")
			return err
		}
		if e.disc.fail {
			vsym.Assert(err != nil, "a failed discovery is reported")
			return err
		}
		vsym.Assert(err == nil, "an allowed provider that can be found is registered")
		vsym.Reach("discovered")
		rec, _ := m.get(id)
		rec.id = id
		rec.disc = "f01234"
		rec.addrs = vzStrs(e.disc.addrs)
		m.put(rec)
		return nil
	}
	return nil
}

// VerifRegAdmission: any history of requests and policy changes; who is
// registered follows the admission rule.
func VerifRegAdmission() {
	m := &vzModel{pol: vzAnyPolicy(1)}
	e := &vzEnv{m: m, disc: &vzDisc{}}
	r, err := NewRegistry(context.Background(), vzDiscoveryConfig(m.pol), nil, e.disc)
	vsym.Assert(err == nil, "a registry with a valid configuration starts")
	e.r = r
	n := vsym.Param("n", 2)
	for i := 0; i < n; i++ {
		var kind int
		switch vsym.Choice("op", 4) {
		case 0:
			kind = vzOpRegister
		case 1:
			kind = vzOpUpdate
		case 2:
			kind = vzOpDiscover
		case 3:
			kind = vzOpPolicy
		}
		e.doOp(kind)
	}
	vzSameReg(r, m)
}

// VerifRegUpdate: any request that meets two registered providers, perhaps
// after the operator changed the policy.
func VerifRegUpdate() {
	ctx := context.Background()
	open := &vzPol{allow: true, publish: true}
	m := &vzModel{pol: open}
	e := &vzEnv{m: m, disc: &vzDisc{}}
	r, err := NewRegistry(ctx, vzDiscoveryConfig(open), nil, e.disc)
	vsym.Assert(err == nil, "a registry with a valid configuration starts")
	e.r = r
	for i := 0; i < 2; i++ {
		rec := vzRec{id: vsym.Peer("id")}
		_, known := m.get(rec.id)
		vsym.Assume(!known)
		if vsym.Flip("pub?") {
			rec.pub = vsym.Peer("pub")
			rec.pubAddr = vsym.AddrText("pubaddr")
		}
		a := vsym.Addr("addr")
		rec.addrs = []string{a.String()}
		info := &ProviderInfo{AddrInfo: peer.AddrInfo{ID: rec.id, Addrs: []multiaddr.Multiaddr{a}}, Publisher: rec.pub}
		if rec.pub != "" {
			info.PublisherAddr, _ = multiaddr.NewMultiaddr(rec.pubAddr)
			info.LastAdvertisement = vsym.Cid("ad")
			rec.ad = info.LastAdvertisement
		}
		vsym.Assert(r.Register(ctx, info) == nil, "an open policy admits everybody")
		m.put(rec)
	}
	pol := vzAnyPolicy(1)
	vsym.Assert(r.SetPolicy(pol.config()) == nil, "a valid policy is accepted")
	m.pol = pol
	switch vsym.Choice("op", 3) {
	case 0:
		e.doOp(vzOpRegister)
	case 1:
		e.doOp(vzOpUpdate)
	case 2:
		e.doOp(vzOpDiscover)
	}
	vzSameReg(r, m)
}
