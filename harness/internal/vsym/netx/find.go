package netx

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"io"
	"net/http"
	"strings"

	indexer "github.com/filecoin-project/go-indexer-core"
	"github.com/filecoin-project/storetheindex/api/v0/finder/client"
	finderhttp "github.com/filecoin-project/storetheindex/api/v0/finder/client/http"
	finderp2p "github.com/filecoin-project/storetheindex/api/v0/finder/client/libp2p"
	"github.com/filecoin-project/storetheindex/api/v0/finder/model"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/filecoin-project/storetheindex/internal/vsym"
	"github.com/filecoin-project/storetheindex/server/finder/handler"
	httpserver "github.com/filecoin-project/storetheindex/server/finder/http"
	p2pserver "github.com/filecoin-project/storetheindex/server/finder/libp2p"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

type finder struct {
	reg *registry.Registry
	ix  *vsym.Index
	id  peer.ID
	mh  []multihash.Multihash
	cid cid.Cid
	url string
	c   client.Finder
	ref *handler.FinderHandler
}

func newFinder(p2p bool) *finder {
	vsym.Handles()
	reg, err := registry.NewRegistry(context.Background(), registry.VerifOpenConfig(), nil, nil)
	if err != nil {
		vsym.Fail("a registry with a valid configuration starts")
	}
	f := &finder{reg: reg, ix: &vsym.Index{}, id: vsym.Peer("provider")}
	f.ref = handler.NewFinderHandler(f.ix, reg)
	if vsym.Flip("registered") {
		err = reg.RegisterOrUpdate(context.Background(), f.id, []string{vsym.Addr("addr").String()}, vsym.Cid("ad"), peer.AddrInfo{ID: f.id})
		vsym.Assert(err == nil, "a provider registers")
	}
	f.cid = vsym.Cid("content")
	f.mh = []multihash.Multihash{f.cid.Hash(), vsym.Cid("content").Hash()}
	vsym.Assume(!bytes.Equal(f.mh[0], f.mh[1]))
	if vsym.Flip("indexed") {
		f.ix.Put(indexer.Value{ProviderID: f.id, ContextID: vsym.Bytes("ctx"), MetadataBytes: []byte{1, 2}}, f.mh[0])
	}
	if p2p {
		h := &fakeHost{id: vsym.Peer("server")}
		p2pserver.New(context.Background(), h, f.ix, reg)
		f.c, err = finderp2p.New(h, h.id)
	} else {
		var s *httpserver.Server
		s, err = httpserver.New("127.0.0.1:0", f.ix, reg)
		if err != nil {
			vsym.Fail("the server starts")
		}
		f.url = Serve(s.VerifHandler())
		f.c, err = finderhttp.New(f.url)
	}
	if err != nil {
		vsym.Fail("the client starts")
	}
	return f
}

func sameAddrs(a, b []multiaddr.Multiaddr) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].Equal(b[i]) {
			return false
		}
	}
	return true
}

func sameFind(a, b *model.FindResponse) bool {
	if len(a.MultihashResults) != len(b.MultihashResults) {
		return false
	}
	for i := range a.MultihashResults {
		x, y := a.MultihashResults[i], b.MultihashResults[i]
		if !bytes.Equal(x.Multihash, y.Multihash) || len(x.ProviderResults) != len(y.ProviderResults) {
			return false
		}
		for j := range x.ProviderResults {
			u, v := x.ProviderResults[j], y.ProviderResults[j]
			if !bytes.Equal(u.ContextID, v.ContextID) || !bytes.Equal(u.Metadata, v.Metadata) || u.Provider.ID != v.Provider.ID || !sameAddrs(u.Provider.Addrs, v.Provider.Addrs) {
				return false
			}
		}
	}
	return true
}

var errIndex = errors.New("secret of the index")

// VerifClient: a client gets what the indexer knows, whichever way it asks, and
// an error if that cannot be told.
func VerifClient() {
	vsym.NoTimers()
	p2p := vsym.Flip("libp2p")
	f := newFinder(p2p)
	ctx := context.Background()
	var want *model.FindResponse
	ask := []multihash.Multihash{f.mh[vsym.Choice("ask", 2)]}
	batch := vsym.Flip("batch")
	if batch && vsym.Flip("both") {
		ask = f.mh
	}
	want, err := f.ref.Find(ask)
	vsym.Assert(err == nil, "a lookup works")
	faulty := vsym.Flip("fault")
	if faulty {
		f.ix.Fault = func(op string) error { return errIndex }
	}
	for i := 0; i < vsym.Param("times", 2); i++ {
		var got *model.FindResponse
		if batch {
			got, err = f.c.FindBatch(ctx, ask)
		} else {
			got, err = f.c.Find(ctx, ask[0])
		}
		if faulty {
			vsym.Assert(err != nil, "a client is told that a lookup failed")
			vsym.Assert(!strings.Contains(err.Error(), errIndex.Error()), "the client is not told about the inside of the indexer")
			vsym.Reach("failed")
			continue
		}
		vsym.Assert(err == nil && sameFind(got, want), "a client is answered what the indexer knows")
		if len(want.MultihashResults) != 0 {
			vsym.Reach("found")
		} else {
			vsym.Reach("not found")
		}
	}
	f.ix.Fault = nil

	switch vsym.Choice("then", 3) {
	case 0:
		who := f.id
		if vsym.Flip("stranger") {
			who = vsym.Peer("stranger")
		}
		info := f.reg.ProviderInfo(who)
		got, err := f.c.GetProvider(ctx, who)
		if info == nil {
			vsym.Assert(err != nil && strings.Contains(err.Error(), "404"), "a provider that is not registered is not found")
			break
		}
		vsym.Assert(err == nil && got.AddrInfo.ID == who && sameAddrs(got.AddrInfo.Addrs, info.AddrInfo.Addrs) && got.LastAdvertisement == info.LastAdvertisement, "a client is told what is registered")
		vsym.Reach("provider")
	case 1:
		infos := f.reg.AllProviderInfo()
		got, err := f.c.ListProviders(ctx)
		vsym.Assert(err == nil && len(got) == len(infos), "a client is told who is registered")
		if len(got) == 1 {
			vsym.Assert(got[0].AddrInfo.ID == f.id, "a client is told who is registered")
		}
	case 2:
		f.ix.Bytes = 123456
		data, err := f.ref.GetStats()
		vsym.Assert(err == nil, "the size of the index is known")
		want, err := model.UnmarshalStats(data)
		vsym.Assert(err == nil && want.EntriesEstimate > 0, "the size of the index is known")
		got, err := f.c.GetStats(ctx)
		vsym.Assert(err == nil && got.EntriesEstimate == want.EntriesEstimate, "a client is told the size of the index")
	}
	vsym.Reach("done")
}

func get(url, path string, method string, data []byte) *answer {
	if !vsym.Symbolic() {
		r, err := http.NewRequest(method, url+path, bytes.NewReader(data))
		if err != nil {
			panic(err)
		}
		rsp, err := http.DefaultClient.Do(r)
		if err != nil {
			panic(err)
		}
		text, err := io.ReadAll(rsp.Body)
		if err != nil {
			panic(err)
		}
		return &answer{status: rsp.StatusCode, sent: rsp.Header, body: string(text)}
	}
	r, _ := mNewRequest(context.Background(), method, url+path, bytes.NewReader(data))
	a := &answer{header: http.Header{}}
	site.ServeHTTP(a, r)
	a.WriteHeader(http.StatusOK)
	return a
}

// VerifStatus: the status of an answer over HTTP tells whether there are
// results, none, a bad request or a failure.
func VerifStatus() {
	vsym.NoTimers()
	f := newFinder(false)
	want, err := f.ref.Find(f.mh[:1])
	vsym.Assert(err == nil, "a lookup works")
	faulty := vsym.Flip("fault")
	if faulty {
		f.ix.Fault = func(op string) error { return errIndex }
	}
	var path, method = "", http.MethodGet
	var data []byte
	bad, lookup := false, true
	status := http.StatusOK
	switch vsym.Choice("request", 7) {
	case 0:
		path = "/multihash/" + f.mh[0].B58String()
	case 1:
		path = "/cid/" + f.cid.String()
	case 2:
		path, method = "/multihash", http.MethodPost
		data, _ = json.Marshal(&model.FindRequest{Multihashes: f.mh[:1]})
	case 3:
		path, bad = "/multihash/0OIl", true
	case 4:
		path, bad = "/cid/nonsense", true
	case 5:
		path, method, bad = "/multihash", http.MethodPost, true
		data = []byte("{not json")
	case 6:
		lookup = false
		path = "/providers/" + f.id.String()
		if f.reg.ProviderInfo(f.id) == nil {
			status = http.StatusNotFound
		}
	}
	switch {
	case bad:
		status = http.StatusBadRequest
	case lookup && faulty:
		status = http.StatusInternalServerError
	case lookup && len(want.MultihashResults) == 0:
		status = http.StatusNotFound
	}
	a := get(f.url, path, method, data)
	vsym.Assert(a.status == status, "the status of an answer is what became of the request")
	vsym.Assert(!faulty || !strings.Contains(a.body, errIndex.Error()), "nobody is told about the inside of the indexer")
	if status == http.StatusOK {
		vsym.Assert(strings.HasPrefix(a.sent.Get("Content-Type"), "application/json"), "an answer in JSON is marked as such")
		vsym.Reach("ok")
	} else {
		vsym.Reach("not ok")
	}
}
