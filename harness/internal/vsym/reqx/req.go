// Package reqx drives the handlers of signed requests over a real registry.
package reqx

import (
	"bytes"
	"context"
	"errors"
	"net/http"
	"time"

	v0 "github.com/filecoin-project/storetheindex/api/v0"
	"github.com/filecoin-project/storetheindex/api/v0/ingest/model"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/filecoin-project/storetheindex/internal/registry/discovery"
	"github.com/filecoin-project/storetheindex/internal/vsym"
	"github.com/filecoin-project/storetheindex/server/ingest/handler"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/record"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

type finder struct {
	addr  multiaddr.Multiaddr
	asked []peer.ID
}

func (f *finder) Discover(ctx context.Context, id peer.ID, at string) (*discovery.Discovered, error) {
	f.asked = append(f.asked, id)
	return &discovery.Discovered{AddrInfo: peer.AddrInfo{ID: id, Addrs: []multiaddr.Multiaddr{f.addr}}}, nil
}

type pol struct {
	allow  bool
	except []peer.ID
}

func (p *pol) allowed(id peer.ID) bool {
	for _, e := range p.except {
		if e == id {
			return !p.allow
		}
	}
	return p.allow
}

type world struct {
	reg  *registry.Registry
	idx  *vsym.Index
	ds   *vsym.DS
	find *finder
	h    *handler.IngestHandler
	pol  *pol

	start time.Time
}

func newWorld() *world {
	w := &world{idx: &vsym.Index{}, ds: &vsym.DS{}, find: &finder{addr: vsym.Addr("found at")}, pol: &pol{allow: vsym.Flip("allow")}, start: time.Now()}
	cfg := config.Discovery{
		Policy:       config.Policy{Allow: w.pol.allow, Publish: true},
		PollInterval: config.Duration(24 * time.Hour), PollRetryAfter: config.Duration(5 * time.Hour), PollStopAfter: config.Duration(168 * time.Hour),
	}
	if vsym.Flip("exception") {
		e := vsym.Peer("except")
		w.pol.except = append(w.pol.except, e)
		cfg.Policy.Except = append(cfg.Policy.Except, e.String())
	}
	reg, err := registry.NewRegistry(context.Background(), cfg, w.ds, w.find)
	if err != nil {
		vsym.Fail("the registry does not start: " + err.Error())
	}
	w.reg = reg
	w.h = handler.NewIngestHandler(w.idx, nil, reg)
	return w
}

// request is what a client asks for.
type request struct {
	kind  int
	prov  peer.ID
	addr  multiaddr.Multiaddr
	seq   uint64
	mh    multihash.Multihash
	ctx   []byte
	md    []byte
	where string
}

const (
	register = iota
	discover
	ingest
)

func anyRequest(kind int, who string) *request {
	r := &request{kind: kind, prov: vsym.Peer(who), addr: vsym.Addr(who + " addr"), seq: uint64(time.Now().UnixNano())}
	r.ctx, r.md = vsym.Bytes(who+" ctx"), vsym.Bytes(who+" md")
	// The limits are VerifLimits' matter; the index keeps no record without
	// metadata.
	vsym.Assume(len(r.ctx) <= 64 && len(r.md) != 0 && len(r.md) <= 1024)
	r.mh = make([]byte, 34)
	r.mh[0], r.mh[1] = 0x12, 32
	r.where = "miner"
	return r
}

func (r *request) rec() record.Record {
	switch r.kind {
	case register:
		return &peer.PeerRecord{PeerID: r.prov, Addrs: []multiaddr.Multiaddr{r.addr}, Seq: r.seq}
	case discover:
		return &model.DiscoverRequest{ProviderID: r.prov, DiscoveryAddr: r.where, Seq: r.seq}
	}
	return &model.IngestRequest{Multihash: r.mh, ProviderID: r.prov, ContextID: r.ctx, Metadata: r.md, Addrs: []string{r.addr.String()}, Seq: r.seq}
}

func seal(rec record.Record, key peer.ID) *record.Envelope {
	env, err := record.Seal(rec, vsym.Key(key))
	if err != nil {
		vsym.Fail("a request can be signed")
	}
	return env
}

func wire(env *record.Envelope) []byte {
	b, err := env.Marshal()
	if err != nil {
		vsym.Fail("a request can be sent")
	}
	return b
}

// send presents a request; all is over within an hour.
func (w *world) send(kind int, data []byte) error {
	err := w.send1(kind, data)
	vsym.Assume(time.Since(w.start) < time.Hour)
	return err
}

func (w *world) send1(kind int, data []byte) error {
	switch kind {
	case register:
		return w.h.RegisterProvider(context.Background(), data)
	case discover:
		return w.h.DiscoverProvider(data)
	}
	return w.h.IndexContent(context.Background(), data)
}

func status(err error) int {
	var e *v0.Error
	if errors.As(err, &e) {
		return e.Status()
	}
	return http.StatusBadRequest
}

// state is all that a request may change.
type state struct {
	known []registry.ProviderInfo
	recs  int
	log   int
	asked int
}

func (w *world) state() state {
	s := state{recs: w.ds.Count(), log: len(w.idx.Log), asked: len(w.find.asked)}
	for _, i := range w.reg.AllProviderInfo() {
		s.known = append(s.known, *i)
	}
	return s
}

func sameInfo(a, b *registry.ProviderInfo) bool {
	if a.AddrInfo.ID != b.AddrInfo.ID || len(a.AddrInfo.Addrs) != len(b.AddrInfo.Addrs) || a.DiscoveryAddr != b.DiscoveryAddr || a.Publisher != b.Publisher {
		return false
	}
	for i := range a.AddrInfo.Addrs {
		if !a.AddrInfo.Addrs[i].Equal(b.AddrInfo.Addrs[i]) {
			return false
		}
	}
	return true
}

func (w *world) unchanged(s state, what string) {
	t := w.state()
	vsym.Assert(t.recs == s.recs && t.log == s.log && t.asked == s.asked && len(t.known) == len(s.known), what+" changes nothing")
	for i := range s.known {
		ok := false
		for j := range t.known {
			ok = ok || sameInfo(&s.known[i], &t.known[j])
		}
		vsym.Assert(ok, what+" changes no registration")
	}
}

// VerifRequest: a request takes effect if and only if it is what the provider
// it is for has signed, it is new, and the policy allows the provider; a
// request that is refused changes nothing.
func VerifRequest() {
	vsym.NoTimers()
	w := newWorld()
	kind := vsym.Choice("kind", 3)
	r := anyRequest(kind, "provider")
	signer := vsym.Peer("signer")
	authentic := false
	var data []byte
	switch how := vsym.Choice("how", 6); how {
	case 0: // as it should be, or by somebody else
		data, authentic = wire(seal(r.rec(), signer)), signer == r.prov
	case 1: // another request in the envelope of this one
		o := anyRequest(kind, "other")
		o.seq = r.seq + 1
		env := seal(r.rec(), signer)
		env.RawPayload = seal(o.rec(), signer).RawPayload
		data = wire(env)
	case 2: // the key of the provider with the signature of somebody else
		vsym.Assume(signer != r.prov)
		env := seal(r.rec(), signer)
		env.PublicKey = vsym.Key(r.prov).GetPublic()
		data = wire(env)
	case 3: // a request of another kind
		o := *r
		o.kind = (kind + 1 + vsym.Choice("which", 2)) % 3
		data = wire(seal(o.rec(), r.prov))
	case 4: // this request, signed for another purpose
		data = wire(seal(&purpose{r.rec()}, r.prov))
	case 5: // not a request at all
		data = vsym.Bytes("garbage")
	}
	before := w.state()
	err := w.send(kind, data)
	vsym.Idle()
	ok := authentic && w.pol.allowed(r.prov)
	if !ok {
		vsym.Assert(err != nil, "a request that the provider it names did not sign, or whose provider is not allowed, is refused")
		w.unchanged(before, "a request that is refused")
		vsym.Assert(authentic == (status(err) == http.StatusForbidden), "a request is refused with the status that tells why")
		vsym.Reach("refused")
		if authentic {
			return
		}
		// Nobody else's request gets in the way of the provider's own.
		ok = w.pol.allowed(r.prov)
		data = wire(seal(r.rec(), r.prov))
		err = w.send(kind, data)
		vsym.Idle()
		if !ok {
			vsym.Assert(err != nil, "a request of a provider that is not allowed is refused")
			return
		}
	}
	vsym.Assert(err == nil, "a request that its provider has signed, and whose provider is allowed, is accepted")
	info := w.reg.ProviderInfo(r.prov)
	vsym.Assert(info != nil, "a request that is accepted registers its provider")
	want := r.addr
	if kind == discover {
		want = w.find.addr
		vsym.Assert(info.DiscoveryAddr == r.where, "a discovered provider remembers where it was discovered")
	}
	vsym.Assert(len(info.AddrInfo.Addrs) == 1 && info.AddrInfo.Addrs[0].Equal(want), "a request that is accepted registers its provider's addresses")
	vsym.Assert(len(w.reg.AllProviderInfo()) == 1, "a request that is accepted registers nobody else")
	if kind == ingest {
		vsym.Assert(len(w.idx.Log) == 1 && w.idx.Log[0].Op == "put", "content is indexed once")
		v := w.idx.Log[0].V
		vsym.Assert(v.ProviderID == r.prov && bytes.Equal(v.ContextID, r.ctx) && bytes.Equal(v.MetadataBytes, r.md), "content is indexed as the provider asked")
		vsym.Assert(len(w.idx.Log[0].Mhs) == 1 && bytes.Equal(w.idx.Log[0].Mhs[0], r.mh), "the multihash of the request is indexed")
	} else {
		vsym.Assert(len(w.idx.Log) == 0, "registration does not touch the index")
	}
	vsym.Reach("accepted")

	// Once more, and with any other request of the same or an earlier number.
	before = w.state()
	again := anyRequest(vsym.Choice("again kind", 3), "again")
	again.prov = r.prov
	again.seq = r.seq
	if vsym.Flip("earlier") {
		again.seq = r.seq - 1
	}
	err = w.send(again.kind, wire(seal(again.rec(), r.prov)))
	vsym.Idle()
	vsym.Assert(err != nil, "a request that is not newer than one that was accepted is refused")
	w.unchanged(before, "a request that is not new")
	vsym.Reach("replayed")
}

// purpose is a record signed for something that is not a request.
type purpose struct{ record.Record }

func (p *purpose) Domain() string { return "something-else" }

// VerifBlocked: of a provider that has been blocked since it registered no
// request is accepted any more, until it is allowed again.
func VerifBlocked() {
	vsym.NoTimers()
	w := newWorld()
	r := anyRequest(vsym.Choice("kind", 3), "provider")
	vsym.Assume(w.pol.allowed(r.prov))
	vsym.Assert(w.send(r.kind, wire(seal(r.rec(), r.prov))) == nil, "a provider that is allowed registers")
	vsym.Idle()
	w.reg.BlockPeer(r.prov)
	before := w.state()
	s := anyRequest(vsym.Choice("next", 3), "next")
	s.prov, s.seq, s.where = r.prov, r.seq+1, "elsewhere"
	err := w.send(s.kind, wire(seal(s.rec(), s.prov)))
	vsym.Idle()
	vsym.Assert(err != nil && status(err) == http.StatusForbidden, "a request of a provider that was blocked is refused")
	w.unchanged(before, "a request of a provider that was blocked")
	w.reg.AllowPeer(r.prov)
	s.seq++
	vsym.Assert(w.send(s.kind, wire(seal(s.rec(), s.prov))) == nil, "a provider that is allowed again is served again")
	vsym.Reach("done")
}

// VerifLimits: content is indexed if and only if context ID and metadata are
// within the limits, and the client is told when the index fails.
func VerifLimits() {
	vsym.NoTimers()
	w := newWorld()
	r := anyRequest(ingest, "provider")
	vsym.Assume(w.pol.allowed(r.prov))
	r.ctx = make([]byte, []int{0, 1, 64, 65}[vsym.Choice("ctx len", 4)])
	r.md = make([]byte, []int{1, 1024, 1025}[vsym.Choice("md len", 3)])
	faulty := vsym.Flip("index fails")
	if faulty {
		w.idx.Fault = func(string) error { return errors.New("injected index failure") }
	}
	before := w.state()
	err := w.send(ingest, wire(seal(r.rec(), r.prov)))
	if len(r.ctx) > 64 || len(r.md) > 1024 {
		vsym.Assert(err != nil && status(err) == http.StatusBadRequest, "content beyond the limits is refused")
		w.unchanged(before, "content beyond the limits")
		vsym.Reach("beyond")
		return
	}
	if faulty {
		vsym.Assert(err != nil && status(err) == http.StatusInternalServerError, "a failure of the index is reported as such")
		vsym.Reach("failed")
		return
	}
	vsym.Assert(err == nil && len(w.idx.Log) == 1, "content within the limits is indexed")
	v := w.idx.Log[0].V
	vsym.Assert(bytes.Equal(v.ContextID, r.ctx) && bytes.Equal(v.MetadataBytes, r.md), "content is indexed as the provider asked")
	vsym.Reach("indexed")
}

// VerifBadAddress: a request without a usable address is refused.
func VerifBadAddress() {
	vsym.NoTimers()
	w := newWorld()
	r := anyRequest(ingest, "provider")
	vsym.Assume(w.pol.allowed(r.prov))
	var rec record.Record
	kind := ingest
	if vsym.Flip("register") {
		kind = register
		rec = &peer.PeerRecord{PeerID: r.prov, Seq: r.seq}
	} else {
		q := r.rec().(*model.IngestRequest)
		q.Addrs = nil
		if vsym.Flip("bad") {
			q.Addrs = []string{"no address"}
		}
		rec = q
	}
	before := w.state()
	err := w.send(kind, wire(seal(rec, r.prov)))
	vsym.Assert(err != nil && status(err) == http.StatusBadRequest, "a request without an address is refused")
	w.unchanged(before, "a request without an address")
	vsym.Reach("done")
}
