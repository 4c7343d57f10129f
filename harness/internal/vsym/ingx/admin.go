package ingx

import (
	"context"
	"errors"
	"io"
	"io/fs"
	"net/http"
	"os"
	"strings"
	"syscall"

	"github.com/filecoin-project/go-indexer-core"
	adminclient "github.com/filecoin-project/storetheindex/api/v0/admin/client/http"
	"github.com/filecoin-project/storetheindex/internal/ingest"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/filecoin-project/storetheindex/internal/vsym"
	"github.com/filecoin-project/storetheindex/internal/vsym/netx"
	adminserver "github.com/filecoin-project/storetheindex/server/admin/http"
	"github.com/ipfs/go-cid"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
	"go.opencensus.io/stats/view"
)

// Metrics are of no account here.

//vsym:replace github.com/filecoin-project/storetheindex/internal/metrics.Start
func mMetrics(views []*view.View) http.Handler { return nil }

//vsym:replace github.com/filecoin-project/storetheindex/internal/metrics/pprof.WithProfile
func mProfile() http.Handler { return nil }

// Files, for the engine only.

var errClosed = errors.New("file is not open")

var (
	files = map[string]string{}
	open  = map[*os.File]*strings.Reader{}
)

// SetFile makes a file, or removes it if there is no text.
func SetFile(name, text string) {
	if text == "" {
		delete(files, name)
		return
	}
	files[name] = text
}

// File is what is in a file.
func File(name string) string { return files[name] }

//vsym:replace os.Open
func mOpen(name string) (*os.File, error) {
	text, ok := files[name]
	if !ok {
		return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.ENOENT}
	}
	f := &os.File{}
	open[f] = strings.NewReader(text)
	return f, nil
}

//vsym:replace (*os.File).Read
func mRead(f *os.File, b []byte) (int, error) {
	r := open[f]
	if r == nil {
		return 0, errClosed
	}
	return r.Read(b)
}

//vsym:replace (*os.File).Close
func mClose(f *os.File) error {
	if open[f] == nil {
		return errClosed
	}
	delete(open, f)
	return nil
}

// write makes a file, and what removes it.
func write(text string) (string, func()) {
	if vsym.Symbolic() {
		files["list"] = text
		return "list", func() {}
	}
	f, err := os.CreateTemp("", "verif-list")
	if err != nil {
		panic(err)
	}
	defer f.Close()
	if _, err = io.WriteString(f, text); err != nil {
		panic(err)
	}
	return f.Name(), func() { os.Remove(f.Name()) }
}

// admin is a client of the administration of an indexer.
func admin(ix indexer.Interface, ing *ingest.Ingester, reg *registry.Registry, reload chan<- chan error) *adminclient.Client {
	s, err := adminserver.New("127.0.0.1:0", ix, ing, reg, reload)
	if err != nil {
		vsym.Fail("the server starts")
	}
	c, err := adminclient.New(netx.Serve(s.VerifHandler()))
	if err != nil {
		vsym.Fail("the client starts")
	}
	return c
}

// Texts of CIDs, of both versions.
var (
	cidV1 = []string{
		"bafkreigh2akiscaildcqabsyg3dfr6chu3fgpregiymsck7e7aqa4s52zy",
		"bafybeigdyrzt5sfp7udm7hu76uh7y26nf3efuylqabf3oclgtqy55fbzdi",
		"zb2rhe5P4gXftAwvA4eXQ5HJwsER2owDyS9sKaQRRVQPn93bA",
	}
	cidV0 = []string{
		"QmYwAPJzv5CZsnA625s3Xf2nemtYgPpHdWEz79ojWKPbdG",
		"QmdfTbBqBPQ7VNxZEYEj14VmRuZBkqFbiwReogJgS1zR1n",
	}
)

func hashOf(text string) multihash.Multihash {
	c, err := cid.Decode(text)
	if err != nil {
		panic(err)
	}
	return c.Hash()
}

// VerifImport: everything that a list names is indexed when the import is said
// to have succeeded, and nothing else.
func VerifImport() {
	vsym.NoTimers()
	vsym.Handles()
	manifest := vsym.Flip("manifest")
	ix := &vsym.Index{}
	n := vsym.Param("lines", 3)
	want := &vsym.Index{}
	v := indexer.Value{ProviderID: vsym.Peer("provider"), ContextID: []byte("ctx"), MetadataBytes: []byte("md")}
	var mhs []multihash.Multihash
	text := ""
	for i := 0; i < n; i++ {
		id, bad := "", false
		switch vsym.Choice("line", 3) {
		case 0:
			id = cidV1[i%len(cidV1)]
		case 1:
			id = cidV0[i%len(cidV0)]
		case 2:
			bad = true
		}
		var line string
		if manifest {
			line = manifestLine(id, bad)
		} else if bad {
			line = "this is not it"
		} else {
			line = id
		}
		if !bad {
			mhs = append(mhs, hashOf(id))
		}
		text += line
		if i < n-1 || vsym.Flip("terminated") {
			if vsym.Flip("crlf") {
				text += "\r"
			}
			text += "\n"
		}
	}
	faulty := vsym.Flip("fault")
	if faulty {
		ix.Fault = func(string) error { return errIdx }
	}
	c := admin(ix, &ingest.Ingester{}, nil, nil)
	name, done := write(text)
	defer done()
	if vsym.Flip("missing") {
		name += ".not"
		faulty, mhs = false, nil
	}
	var err error
	if manifest {
		err = c.ImportFromManifest(context.Background(), name, v.ProviderID, v.ContextID, v.MetadataBytes)
	} else {
		err = c.ImportFromCidList(context.Background(), name, v.ProviderID, v.ContextID, v.MetadataBytes)
	}
	if len(mhs) == 0 {
		vsym.Assert(err != nil, "an import of nothing is said to have failed")
		vsym.Assert(len(ix.Log) == 0, "an import of nothing indexes nothing")
		vsym.Reach("nothing")
		return
	}
	if faulty {
		vsym.Assert(err != nil, "an import that the index refuses is said to have failed")
		vsym.Reach("failed")
		return
	}
	vsym.Assert(err == nil, "an import succeeds")
	want.Put(v, mhs...)
	vsym.Assert(same(ix, want), "everything on the list is indexed as asked, and nothing else")
	vsym.Reach("done")
}

func manifestLine(id string, bad bool) string {
	if bad {
		switch vsym.Choice("bad", 3) {
		case 0:
			return `{"RecordType":"DagAggregateEntry"`
		case 1:
			return `{"RecordType":"DagAggregateSummary","RecordCount":1}`
		}
		return `{"RecordType":"DagAggregateEntry","DagCidV1":"no","DagCidV0":"no"}`
	}
	if strings.HasPrefix(id, "Qm") {
		return `{"RecordType":"DagAggregateEntry","DagCidV0":"` + id + `"}`
	}
	return `{"RecordType":"DagAggregateEntry","DagCidV1":"` + id + `"}`
}

var errReload = errors.New("injected reload failure")

// VerifOperator: what the operator tells the indexer about peers is what the
// registry goes by.
func VerifOperator() {
	vsym.NoTimers()
	vsym.Handles()
	disc := registry.VerifOpenConfig()
	disc.Policy.Allow = vsym.Flip("allow")
	disc.Policy.Publish = vsym.Flip("publish")
	reg, err := registry.NewRegistry(context.Background(), disc, nil, nil)
	if err != nil {
		vsym.Fail("a registry with a valid configuration starts")
	}
	reload := make(chan chan error)
	c := admin(&vsym.Index{}, &ingest.Ingester{}, reg, reload)
	id, other := vsym.Peer("peer"), vsym.Peer("other")
	vsym.Assume(id != other)
	allowed := reg.Allowed(id)
	before := reg.Allowed(other)
	for i := 0; i < vsym.Param("steps", 2); i++ {
		if vsym.Flip("block") {
			err = c.Block(context.Background(), id)
			allowed = false
		} else {
			err = c.Allow(context.Background(), id)
			allowed = true
		}
		vsym.Assert(err == nil, "the operator is served")
		vsym.Assert(reg.Allowed(id) == allowed, "the indexer does as the operator says")
		vsym.Assert(reg.Allowed(other) == before, "what the operator says of one peer does not change another")
	}
	vsym.Reach("done")
	// Reload.
	fails := vsym.Flip("reload fails")
	go func() {
		ch := <-reload
		if fails {
			ch <- errReload
			return
		}
		ch <- nil
	}()
	err = c.ReloadConfig(context.Background())
	vsym.Assert((err != nil) == fails, "the operator learns whether the configuration was reloaded")
	vsym.Reach("reloaded")
}

// VerifAdminSync: a sync that the operator asks for is the one that is done.
func VerifAdminSync() {
	vsym.NoTimers()
	vsym.Handles()
	c := plainChain()
	w := c.w
	n := vsym.Param("ads", 2)
	for i := 0; i < n; i++ {
		c.plain()
	}
	w.Start()
	cl := admin(w.Idx, w.Ing, w.Reg, nil)
	depth := vsym.Choice("depth", n+1)
	var addr multiaddr.Multiaddr
	known := vsym.Flip("known")
	if known {
		c.sync()
		w.Idx.Vals = nil
	}
	if !known || vsym.Flip("address") {
		addr = c.addr
		if known {
			// The publisher has moved.
			addr = vsym.Addr("moved")
			vsym.Assume(!addr.Equal(c.addr))
			w.Net.At = addr
		}
	}
	resync := vsym.Flip("resync")
	err := cl.Sync(context.Background(), c.pub, addr, int64(depth), resync)
	vsym.Assert(err == nil, "a sync is accepted")
	vsym.Idle()
	latest, err := w.Ing.GetLatestSync(c.pub)
	vsym.Assert(err == nil && latest == c.ads[n-1].cid, "the latest sync is the head")
	switch {
	case known && !resync:
		vsym.Assert(len(w.Idx.Vals) == 0, "a sync of what is there does nothing")
		vsym.Reach("nothing")
	case depth == 0:
		vsym.Assert(same(w.Idx, c.reference(n)), "a sync without a limit ingests the whole chain")
		vsym.Reach("all")
	default:
		vsym.Assert(same(w.Idx, c.newest(depth)), "a sync of limited depth ingests the newest advertisements")
		vsym.Reach("newest")
	}
}

// VerifImportMany: lists of any length around the size of a batch are indexed
// whole, or the import is said to have failed.
func VerifImportMany() {
	vsym.NoTimers()
	vsym.Handles()
	n := []int{1, 255, 256, 257, 511, 512, 513}[vsym.Choice("lines", 7)]
	manifest := vsym.Flip("manifest")
	var b strings.Builder
	for i := 0; i < n; i++ {
		id := "f01551220" + strings.Repeat("0", 60) + hex4(i)
		if manifest {
			id = manifestLine(id, false)
		}
		b.WriteString(id + "\n")
	}
	ix := &vsym.Index{}
	refuse := vsym.Choice("refuse", 4) // the first batches are taken, and the rest refused
	puts := 0
	ix.Fault = func(string) error {
		puts++
		if puts > refuse {
			return errIdx
		}
		return nil
	}
	seen := make([]int, n)
	c := admin(ix, &ingest.Ingester{}, nil, nil)
	name, done := write(b.String())
	defer done()
	id := vsym.Peer("provider")
	var err error
	if manifest {
		err = c.ImportFromManifest(context.Background(), name, id, []byte("ctx"), []byte("md"))
	} else {
		err = c.ImportFromCidList(context.Background(), name, id, []byte("ctx"), []byte("md"))
	}
	if puts > refuse {
		vsym.Assert(err != nil, "an import that the index refuses in part is said to have failed")
		vsym.Reach("failed")
		return
	}
	vsym.Assert(err == nil, "an import succeeds")
	for _, e := range ix.Log {
		for _, m := range e.Mhs {
			k := int(m[32])<<8 | int(m[33])
			vsym.Assert(len(m) == 34 && k < n, "only what is listed is indexed")
			seen[k]++
		}
	}
	for _, k := range seen {
		vsym.Assert(k > 0, "every one on a long list is indexed")
	}
	vsym.Reach("done")
}

func hex4(i int) string {
	const digits = "0123456789abcdef"
	return string([]byte{digits[i>>12&15], digits[i>>8&15], digits[i>>4&15], digits[i&15]})
}
