package netx

import (
	"context"
	"net/url"

	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/filecoin-project/storetheindex/internal/vsym"
	httpserver "github.com/filecoin-project/storetheindex/server/finder/http"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
)

// VerifImportProviders: the providers another indexer knows become registered
// here if the policy admits them, and are synced; nobody else is touched.
func VerifImportProviders() {
	vsym.NoTimers()
	vsym.Handles()
	ctx := context.Background()
	other, err := registry.NewRegistry(ctx, registry.VerifOpenConfig(), nil, nil)
	if err != nil {
		vsym.Fail("a registry with a valid configuration starts")
	}
	type prov struct {
		id, pub  peer.ID
		addr     multiaddr.Multiaddr
		pubAddr  multiaddr.Multiaddr
		expected bool
	}
	var ps []*prov
	n := 1 + vsym.Choice("more", 2)
	for i := 0; i < n; i++ {
		p := &prov{id: vsym.Peer("provider"), addr: vsym.Addr("addr")}
		for _, q := range ps {
			vsym.Assume(q.id != p.id)
		}
		info := &registry.ProviderInfo{AddrInfo: peer.AddrInfo{ID: p.id, Addrs: []multiaddr.Multiaddr{p.addr}}}
		switch vsym.Choice("publisher", 3) {
		case 0: // none
			p.pub, p.pubAddr = p.id, p.addr
		case 1: // another one
			p.pub, p.pubAddr = vsym.Peer("publisher"), vsym.Addr("pubaddr")
			info.Publisher, info.PublisherAddr = p.pub, p.pubAddr
		case 2: // nobody knows where
			info.Publisher = vsym.Peer("publisher")
			p.pub, p.pubAddr = p.id, p.addr
		}
		vsym.Assert(other.Register(ctx, info) == nil, "a provider that the policy admits is registered")
		ps = append(ps, p)
	}
	s, err := httpserver.New("127.0.0.1:0", &vsym.Index{}, other)
	if err != nil {
		vsym.Fail("the server starts")
	}
	u, err := url.Parse(Serve(s.VerifHandler()))
	if err != nil {
		vsym.Fail("the address of a server is an URL")
	}

	cfg := registry.VerifOpenConfig()
	cfg.Policy = config.Policy{Allow: vsym.Flip("allow"), Publish: vsym.Flip("publish")}
	except := vsym.Peer("exception")
	cfg.Policy.Except, cfg.Policy.PublishExcept = []string{except.String()}, []string{except.String()}
	ds := &vsym.DS{}
	reg, err := registry.NewRegistry(ctx, cfg, ds, nil)
	if err != nil {
		vsym.Fail("a registry with a valid configuration starts")
	}
	var known *registry.ProviderInfo
	if vsym.Flip("known here") {
		known = &registry.ProviderInfo{AddrInfo: peer.AddrInfo{ID: ps[0].id, Addrs: []multiaddr.Multiaddr{vsym.Addr("other addr")}}, LastAdvertisement: vsym.Cid("ad")}
		if reg.Register(ctx, known) != nil {
			known = nil
		}
	}
	if vsym.Symbolic() {
		network.Fails = 1
	}
	var told []peer.ID
	done := make(chan struct{})
	go func() {
		for p := range reg.SyncChan() {
			vsym.Assert(!p.Deleted(), "an imported provider is not deleted")
			told = append(told, p.AddrInfo.ID)
		}
		close(done)
	}()
	got, err := reg.ImportProviders(ctx, u)
	if err != nil {
		vsym.Assert(network.Fails == 0, "an import from an indexer that answers succeeds")
		vsym.Reach("failed")
	}
	allowed := func(id peer.ID) bool { return (id == except) != cfg.Policy.Allow }
	count := 0
	for i, p := range ps {
		ok := err == nil && allowed(p.id) && (p.pub == p.id || allowed(p.pub) && (p.pub == except) != cfg.Policy.Publish)
		info := reg.ProviderInfo(p.id)
		if i == 0 && known != nil {
			vsym.Assert(info != nil && sameAddrs(info.AddrInfo.Addrs, known.AddrInfo.Addrs) && info.LastAdvertisement == known.LastAdvertisement && info.Publisher == "", "a provider that is registered is not changed by an import")
			vsym.Reach("known")
			continue
		}
		vsym.Assert((info != nil) == ok, "a provider is imported exactly when the policy admits it and its publisher")
		if !ok {
			continue
		}
		count++
		p.expected = true
		vsym.Assert(len(info.AddrInfo.Addrs) == 1 && info.AddrInfo.Addrs[0].Equal(p.addr), "an imported provider has its addresses")
		vsym.Assert(info.Publisher == p.pub && info.PublisherAddr != nil && info.PublisherAddr.Equal(p.pubAddr), "an imported provider has its publisher")
		vsym.Assert(info.LastAdvertisement == cid.Undef, "nothing of an imported provider is ingested yet")
		vsym.Reach("imported")
	}
	vsym.Assert(got == count, "the number of imported providers is reported")
	vsym.Idle()
	reg.Close()
	<-done
	vsym.Assert(len(told) == count, "every imported provider is synced once")
	for _, p := range ps {
		n := 0
		for _, t := range told {
			if t == p.id {
				n++
			}
		}
		vsym.Assert((n == 1) == p.expected, "every imported provider is synced once")
	}
	again, err := registry.NewRegistry(ctx, cfg, ds, nil)
	if err != nil {
		vsym.Fail("a registry with a valid configuration starts")
	}
	for _, p := range ps {
		if p.expected {
			vsym.Assert(again.IsRegistered(p.id), "an imported provider is registered after a restart")
		}
	}
}
