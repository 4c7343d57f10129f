package netx

import (
	"context"
	"net/http"
	"net/url"
	"strings"

	adminhttp "github.com/filecoin-project/storetheindex/api/v0/admin/client/http"
	finderhttp "github.com/filecoin-project/storetheindex/api/v0/finder/client/http"
	ingesthttp "github.com/filecoin-project/storetheindex/api/v0/ingest/client/http"
	"github.com/filecoin-project/storetheindex/internal/vsym"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multihash"
)

// answering is a server that gives any answer, and its address.
func answering() (string, *int) {
	vsym.NoTimers()
	vsym.Handles()
	status := vsym.Int("status", 200, 599)
	vsym.Assume(status >= 200 && status <= 599 && (status < 300 || status >= 400))
	text := []string{"{}", "[]", ""}[vsym.Choice("text", 3)]
	return Serve(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(status)
		if text != "" {
			w.Write([]byte(text))
		}
	})), &status
}

// told checks that a failure is not taken for anything else.
func told(status int, err error) {
	if status >= 400 {
		vsym.Assert(err != nil, "a request that was refused or failed is not taken for one that was served")
		vsym.Reach("failure")
	}
}

// VerifFinderAnswers: a client that asks for something takes no failure for an
// answer, and no answer but that there are no results for an empty one.
func VerifFinderAnswers() {
	url, status := answering()
	c, err := finderhttp.New(url)
	if err != nil {
		vsym.Fail("the client starts")
	}
	ctx := context.Background()
	mh := vsym.Cid("content").Hash()
	switch vsym.Choice("request", 5) {
	case 0, 1:
		get := func() error {
			r, err := c.Find(ctx, mh)
			vsym.Assert(err != nil || len(r.MultihashResults) == 0, "nothing is found that was not sent")
			return err
		}
		if vsym.Flip("batch") {
			get = func() error {
				r, err := c.FindBatch(ctx, []multihash.Multihash{mh, mh})
				vsym.Assert(err != nil || len(r.MultihashResults) == 0, "nothing is found that was not sent")
				return err
			}
		}
		err = get()
		if *status == http.StatusNotFound {
			vsym.Assert(err == nil, "no results are no error")
			vsym.Reach("no results")
			return
		}
	case 2:
		_, err = c.ListProviders(ctx)
	case 3:
		_, err = c.GetProvider(ctx, vsym.Peer("provider"))
	case 4:
		_, err = c.GetStats(ctx)
	}
	told(*status, err)
}

// VerifIngestAnswers: a provider is told when what it asked for was not done.
func VerifIngestAnswers() {
	url, status := answering()
	c, err := ingesthttp.New(url)
	if err != nil {
		vsym.Fail("the client starts")
	}
	ctx := context.Background()
	id, a := vsym.Peer("provider"), vsym.Addr("addr")
	switch vsym.Choice("request", 3) {
	case 0:
		err = c.Register(ctx, id, vsym.Key(id), []string{a.String()})
	case 1:
		err = c.IndexContent(ctx, id, vsym.Key(id), vsym.Cid("content").Hash(), []byte("ctx"), []byte("md"), []string{a.String()})
	case 2:
		// An announcement is not signed.
		id, err1 := peer.Decode("12D3KooWKRyzVWW6ChFjQjK4miCty85Niy49tpPV95XdKu1BcvMA")
		ad, err2 := cid.Decode("baguqeera45ruzo3fydje4qs6sryajyzxemzzfmozbbcfzmzy3qzz233bucsq")
		if err1 != nil || err2 != nil {
			panic("announcement")
		}
		err = c.Announce(ctx, &peer.AddrInfo{ID: id}, ad)
	}
	told(*status, err)
}

// VerifAdminAnswers: the operator is told when what was asked for was not done.
func VerifAdminAnswers() {
	at, status := answering()
	c, err := adminhttp.New(at)
	if err != nil {
		vsym.Fail("the client starts")
	}
	ctx := context.Background()
	id := vsym.Peer("provider")
	switch vsym.Choice("request", 8) {
	case 0:
		err = c.ImportFromManifest(ctx, "file", id, []byte("ctx"), []byte("md"))
	case 1:
		err = c.ImportFromCidList(ctx, "file", id, []byte("ctx"), []byte("md"))
	case 2:
		err = c.Sync(ctx, id, nil, 0, false)
	case 3:
		u, uerr := url.Parse("http://" + strings.TrimPrefix(at, "http://"))
		if uerr != nil {
			panic(uerr)
		}
		err = c.ImportProviders(ctx, u)
	case 4:
		err = c.ReloadConfig(ctx)
	case 5:
		err = c.Allow(ctx, id)
	case 6:
		err = c.Block(ctx, id)
	case 7:
		err = c.SetLogLevels(ctx, map[string]string{"*": "info"})
	}
	told(*status, err)
}
