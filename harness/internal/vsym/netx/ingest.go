package netx

import (
	"bytes"
	"context"
	"strings"
	"time"

	"github.com/filecoin-project/storetheindex/api/v0/ingest/client"
	ingesthttp "github.com/filecoin-project/storetheindex/api/v0/ingest/client/http"
	ingestp2p "github.com/filecoin-project/storetheindex/api/v0/ingest/client/libp2p"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/filecoin-project/storetheindex/internal/vsym"
	httpserver "github.com/filecoin-project/storetheindex/server/ingest/http"
	p2pserver "github.com/filecoin-project/storetheindex/server/ingest/libp2p"
	"github.com/multiformats/go-multihash"
)

// VerifProvider: what a provider asks for through a client is done, or the
// provider is told that it was not.
func VerifProvider() {
	vsym.NoTimers()
	vsym.Handles()
	reg, err := registry.NewRegistry(context.Background(), registry.VerifOpenConfig(), nil, nil)
	if err != nil {
		vsym.Fail("a registry with a valid configuration starts")
	}
	ix := &vsym.Index{}
	var c client.Ingest
	p2p := vsym.Flip("libp2p")
	if p2p {
		h := &fakeHost{id: vsym.Peer("server")}
		p2pserver.New(context.Background(), h, ix, nil, reg)
		c, err = ingestp2p.New(h, h.id)
	} else {
		var s *httpserver.Server
		s, err = httpserver.New("127.0.0.1:0", ix, nil, reg)
		if err != nil {
			vsym.Fail("the server starts")
		}
		c, err = ingesthttp.New(Serve(s.VerifHandler()))
	}
	if err != nil {
		vsym.Fail("the client starts")
	}
	id := vsym.Peer("provider")
	addr := vsym.Addr("addr")
	blocked := vsym.Flip("blocked")
	if blocked {
		reg.BlockPeer(id)
	}
	start := time.Now()
	content := p2p && vsym.Flip("content")
	mh := make(multihash.Multihash, 34)
	mh[0], mh[1] = 0x12, 32
	faulty := false
	if content {
		if faulty = vsym.Flip("fault"); faulty {
			ix.Fault = func(string) error { return errIndex }
		}
		err = c.IndexContent(context.Background(), id, vsym.Key(id), mh, []byte("ctx"), []byte("md"), []string{addr.String()})
	} else {
		err = c.Register(context.Background(), id, vsym.Key(id), []string{addr.String()})
	}
	vsym.Assume(time.Since(start) < time.Hour)
	if blocked {
		vsym.Assert(err != nil && strings.Contains(err.Error(), "403"), "a provider that is not allowed is told so")
		vsym.Assert(reg.ProviderInfo(id) == nil && len(ix.Log) == 0, "nothing is done for a provider that is not allowed")
		vsym.Reach("blocked")
		return
	}
	if faulty {
		vsym.Assert(err != nil && strings.Contains(err.Error(), "500"), "a provider is told that its content was not indexed")
		vsym.Assert(!strings.Contains(err.Error(), errIndex.Error()), "a provider is not told about the inside of the indexer")
		vsym.Reach("failed")
		return
	}
	vsym.Assert(err == nil, "a provider that is allowed is served")
	info := reg.ProviderInfo(id)
	vsym.Assert(info != nil && len(info.AddrInfo.Addrs) == 1 && info.AddrInfo.Addrs[0].Equal(addr), "the provider is registered with its address")
	if content {
		vsym.Assert(len(ix.Log) == 1 && bytes.Equal(ix.Log[0].Mhs[0], mh) && string(ix.Log[0].V.ContextID) == "ctx" && string(ix.Log[0].V.MetadataBytes) == "md" && ix.Log[0].V.ProviderID == id, "the content is indexed as asked")
		vsym.Reach("content")
	}
	vsym.Reach("registered")
}
