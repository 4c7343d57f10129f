package handler

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"net/http"

	indexer "github.com/filecoin-project/go-indexer-core"
	v0 "github.com/filecoin-project/storetheindex/api/v0"
	"github.com/filecoin-project/storetheindex/api/v0/finder/model"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/filecoin-project/storetheindex/internal/vsym"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

const (
	vzActive = iota
	vzHidden
	vzUnknown
)

type vzProv struct {
	id    peer.ID
	pub   peer.ID
	state int
	addrs []multiaddr.Multiaddr
}

// vzWorld is a registry with providers in any state and a core with any
// values of theirs.
type vzWorld struct {
	reg *registry.Registry
	ix  *vsym.Index
	ps  []*vzProv
	mhs []multihash.Multihash
}

func vzRegistry(np int, small bool) *vzWorld {
	ctx := context.Background()
	reg, err := registry.NewRegistry(ctx, registry.VerifOpenConfig(), nil, nil)
	vsym.Assert(err == nil, "a registry with a valid configuration starts")
	go func() {
		for range reg.SyncChan() {
		}
	}()
	w := &vzWorld{reg: reg, ix: &vsym.Index{}}
	for i := 0; i < np; i++ {
		p := &vzProv{id: vsym.Peer("prov"), state: vsym.Choice("state", 3)}
		for _, o := range w.ps {
			vsym.Assume(o.id != p.id)
		}
		p.pub = p.id
		if !small && vsym.Flip("otherpub") {
			p.pub = vsym.Peer("pub")
		}
		w.ps = append(w.ps, p)
	}
	put := func(p *vzProv, ad cid.Cid) {
		na := 1
		if !small {
			na += vsym.Choice("naddr", 2)
		}
		var text []string
		p.addrs = nil
		for j := 0; j < na; j++ {
			a := vsym.Addr("addr")
			p.addrs = append(p.addrs, a)
			text = append(text, a.String())
		}
		pub := peer.AddrInfo{ID: p.id}
		if !small && p.pub != p.id {
			pub = peer.AddrInfo{ID: p.pub, Addrs: []multiaddr.Multiaddr{vsym.Addr("pubaddr")}}
		}
		err := reg.RegisterOrUpdate(ctx, p.id, text, ad, pub)
		vsym.Assert(err == nil, "a provider registers")
	}
	for _, p := range w.ps {
		if p.state == vzHidden {
			put(p, cid.Undef)
		}
	}
	reg.VerifHide()
	for _, p := range w.ps {
		if p.state == vzActive {
			put(p, vsym.Cid("ad"))
			if !small && vsym.Flip("again") {
				put(p, cid.Undef)
			}
		}
	}
	return w
}

func (w *vzWorld) prov(id peer.ID) *vzProv {
	for _, p := range w.ps {
		if p.id == id {
			return p
		}
	}
	return nil
}

func (w *vzWorld) addrsOf(p *vzProv, got []multiaddr.Multiaddr) bool {
	if len(got) != len(p.addrs) {
		return false
	}
	for i := range got {
		if got[i].String() != p.addrs[i].String() {
			return false
		}
	}
	return true
}

// VerifFind: what a lookup returns and what it does to the core.
func VerifFind() {
	w := vzRegistry(vsym.Param("provs", 2), true)
	nv := vsym.Param("values", 2)
	mhs := []multihash.Multihash{vsym.Bytes("mh"), vsym.Bytes("mh")}
	vsym.Assume(!bytes.Equal(mhs[0], mhs[1]))
	for i := 0; i < nv; i++ {
		v := indexer.Value{ProviderID: w.ps[vsym.Choice("vprov", len(w.ps))].id, ContextID: vsym.Bytes("ctx"), MetadataBytes: vsym.Bytes("meta")}
		vsym.Assume(len(v.MetadataBytes) > 0)
		var of []multihash.Multihash
		switch vsym.Choice("vmh", 3) {
		case 0:
			of = mhs[:1]
		case 1:
			of = mhs[1:]
		case 2:
			of = mhs
		}
		vsym.Assert(w.ix.Put(v, of...) == nil, "the core stores")
	}
	before := append([]*vsym.IxVal(nil), w.ix.Vals...)
	lookup := map[int][]indexer.Value{}
	var q []multihash.Multihash
	nq := vsym.Choice("nq", 3)
	for i := 0; i < nq; i++ {
		k := vsym.Choice("q", 3)
		var m multihash.Multihash
		if k < 2 {
			m = mhs[k]
		} else {
			m = vsym.Bytes("other")
			vsym.Assume(!bytes.Equal(m, mhs[0]) && !bytes.Equal(m, mhs[1]))
		}
		q = append(q, m)
		lookup[i] = w.ix.Lookup(m)
	}
	w.ix.Log = nil
	faulty := false
	if nq > 0 && vsym.Flip("fault") {
		at, n := vsym.Choice("faultat", nq), 0
		w.ix.Fault = func(op string) error {
			if op == "get" {
				n++
				if n == at+1 {
					faulty = true
					return errors.New("core failure")
				}
			}
			return nil
		}
	}
	// The core answers from what it held when asked: removals happen at the
	// same time, so they are held back until the answer is there.
	hold := make(chan struct{})
	w.ix.OnOp = func(op vsym.IxOp) { <-hold }

	rsp, err := NewFinderHandler(w.ix, w.reg).Find(q)
	close(hold)
	vsym.Idle()
	if faulty {
		vsym.Reach("core failure")
		var ae *v0.Error
		vsym.Assert(rsp == nil && errors.As(err, &ae) && ae.Status() == http.StatusInternalServerError, "a failure of the core is reported as a server error, not as a partial answer")
	} else {
		vsym.Assert(err == nil && rsp != nil, "a lookup succeeds when the core does")
		k := 0
		for i := range q {
			var want []indexer.Value
			for _, v := range lookup[i] {
				if w.prov(v.ProviderID).state == vzActive {
					want = append(want, v)
				}
			}
			if len(want) == 0 {
				continue
			}
			vsym.Reach("found")
			vsym.Assert(k < len(rsp.MultihashResults), "every multihash with a visible provider is in the answer")
			mr := rsp.MultihashResults[k]
			k++
			vsym.Assert(bytes.Equal(mr.Multihash, q[i]), "results are for the multihashes asked for, in order")
			vsym.Assert(len(mr.ProviderResults) == len(want), "the answer has the values of exactly the visible providers")
			for j, v := range want {
				pr := mr.ProviderResults[j]
				vsym.Assert(pr.Provider.ID == v.ProviderID && bytes.Equal(pr.ContextID, v.ContextID) && bytes.Equal(pr.Metadata, v.MetadataBytes), "each result carries the provider, context and metadata that were indexed")
				vsym.Assert(w.addrsOf(w.prov(v.ProviderID), pr.Provider.Addrs), "each result carries the current addresses of its own provider")
			}
		}
		vsym.Assert(k == len(rsp.MultihashResults), "a multihash without visible providers is not in the answer")
	}
	// The core loses exactly the contexts, met in the lookup, of providers
	// that are not registered.
	for _, op := range w.ix.Log {
		vsym.Assert(op.Op == "removeContext", "a lookup only ever removes contexts")
		p := w.prov(op.V.ProviderID)
		vsym.Assert(p != nil && p.state == vzUnknown, "a lookup removes nothing of a registered provider")
		vsym.Reach("cleaned")
	}
	for _, b := range before {
		p := w.prov(b.V.ProviderID)
		met := false
		for i := range q {
			for _, v := range lookup[i] {
				met = met || v.Match(b.V)
			}
		}
		kept := false
		for _, v := range w.ix.Vals {
			kept = kept || v.V.Match(b.V)
		}
		if p.state != vzUnknown {
			vsym.Assert(kept, "what a registered provider indexed stays indexed")
			if p.state == vzHidden && met {
				vsym.Reach("hidden kept")
			}
		} else if met && !faulty {
			vsym.Assert(!kept, "what a removed provider left behind is removed when it is met")
		}
	}
}

// VerifProviders: listing and looking up providers.
func VerifProviders() {
	w := vzRegistry(vsym.Param("provs", 2), false)
	h := NewFinderHandler(w.ix, w.reg)
	data, err := h.ListProviders()
	vsym.Assert(err == nil, "providers can be listed")
	var infos []model.ProviderInfo
	vsym.Assert(json.Unmarshal(data, &infos) == nil, "the list of providers can be read back")
	n := 0
	check := func(p *vzProv, i model.ProviderInfo) {
		info := w.reg.ProviderInfo(p.id)
		vsym.Assert(i.AddrInfo.ID == p.id && w.addrsOf(p, i.AddrInfo.Addrs), "a listed provider has its own addresses")
		vsym.Assert(i.LastAdvertisement == info.LastAdvertisement, "a listed provider has its own latest advertisement")
		if info.PublisherAddr == nil {
			vsym.Assert(i.Publisher == nil, "a publisher without a known address is not shown")
		} else {
			vsym.Assert(i.Publisher != nil && i.Publisher.ID == p.pub && len(i.Publisher.Addrs) == 1 && i.Publisher.Addrs[0].String() == info.PublisherAddr.String(), "a listed provider has its own publisher")
			vsym.Reach("publisher")
			if p.pub != p.id {
				vsym.Reach("other publisher")
			}
		}
	}
	for _, p := range w.ps {
		var hit []model.ProviderInfo
		for _, i := range infos {
			if i.AddrInfo.ID == p.id {
				hit = append(hit, i)
			}
		}
		one, err := h.GetProvider(p.id)
		vsym.Assert(err == nil, "a provider can be asked for")
		if p.state != vzActive {
			vsym.Assert(len(hit) == 0 && len(one) == 0, "a hidden or unknown provider is not shown")
			continue
		}
		n++
		vsym.Assert(len(hit) == 1, "every visible provider is listed once")
		check(p, hit[0])
		var i model.ProviderInfo
		vsym.Assert(json.Unmarshal(one, &i) == nil, "the answer can be read back")
		check(p, i)
		vsym.Reach("listed")
	}
	vsym.Assert(len(infos) == n, "nothing else is listed")
}

// VerifProvider is a provider as a lookup has to show it.
type VerifProvider struct {
	ID      peer.ID
	Addrs   []multiaddr.Multiaddr
	Visible bool
}

// VerifSomeProviders makes up a registry with providers in any state.
func VerifSomeProviders(n int) (*registry.Registry, []VerifProvider) {
	w := vzRegistry(n, true)
	var ps []VerifProvider
	for _, p := range w.ps {
		ps = append(ps, VerifProvider{ID: p.id, Addrs: p.addrs, Visible: p.state == vzActive})
	}
	return w.reg, ps
}
