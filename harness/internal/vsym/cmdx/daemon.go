package cmdx

import (
	"bytes"
	"context"
	"encoding/json"
	"net/http"
	"strconv"
	"time"

	indexer "github.com/filecoin-project/go-indexer-core"
	"github.com/filecoin-project/go-indexer-core/store/storethehash"
	finderclient "github.com/filecoin-project/storetheindex/api/v0/finder/client"
	finderhttp "github.com/filecoin-project/storetheindex/api/v0/finder/client/http"
	finderp2p "github.com/filecoin-project/storetheindex/api/v0/finder/client/libp2p"
	ingesthttp "github.com/filecoin-project/storetheindex/api/v0/ingest/client/http"
	ingestp2p "github.com/filecoin-project/storetheindex/api/v0/ingest/client/libp2p"
	"github.com/filecoin-project/storetheindex/api/v0/ingest/model"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/vsym"
	"github.com/filecoin-project/storetheindex/internal/vsym/ingx"
	"github.com/libp2p/go-libp2p"
	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

// values is a value store that lasts from one run of the daemon to the next.
type values struct {
	*vsym.Index
	open int
}

func (v *values) Close() error {
	v.open--
	return nil
}

// part is a part of the daemon: on, off in the configuration, or off by a
// switch.
type part struct {
	name string
	how  int
	port int
}

func (p *part) on() bool { return p.how == 0 }

func (p *part) addr() string {
	if p.how == 1 {
		return "none"
	}
	return "/ip4/127.0.0.1/tcp/" + strconv.Itoa(p.port)
}

// VerifDaemon: the daemon serves what its configuration and switches say, over
// both transports, from one index and one registry; when it is told to end it
// serves nothing any more, and the next one knows what it knew.
func VerifDaemon() {
	vsym.NoTimers()
	vsym.Handles()
	d := arrange()
	finder := &part{"nofinder", vsym.Choice("finder", 3), 3000}
	ingest := &part{"noingest", vsym.Choice("ingest", 3), 3001}
	admin := &part{"noadmin", vsym.Choice("admin", 3), 3002}
	p2p := &part{"nop2p", vsym.Choice("libp2p", 3), 3003}
	all := []*part{finder, ingest, admin, p2p}
	var off []string
	for _, p := range all {
		if !vsym.Symbolic() {
			p.port = freePort()
		}
		if p.how == 2 {
			off = append(off, p.name)
		}
	}
	d.port = admin.port
	cfg := config.Config{
		Version:   2,
		Identity:  config.Identity{PrivKey: key},
		Addresses: config.Addresses{Admin: admin.addr(), Finder: finder.addr(), Ingest: ingest.addr(), P2PAddr: p2p.addr(), NoResourceManager: true},
		Datastore: config.Datastore{Type: "levelds"},
		Discovery: config.Discovery{LotusGateway: "none", Policy: config.Policy{Allow: true, Publish: true}},
		Indexer:   config.Indexer{ValueStoreType: "sth", ShutdownTimeout: config.Duration(10 * time.Second)},
		Ingest:    config.Ingest{IngestWorkerCount: 1},
		Logging:   config.Logging{Level: "info"},
	}
	text, err := json.Marshal(&cfg)
	if err != nil {
		panic(err)
	}
	d.write(string(text))
	store := &values{Index: &vsym.Index{}}
	store.OnOp = func(vsym.IxOp) {
		vsym.Assert(store.open > 0, "the value store is not used when it is closed")
	}
	storethehash.VerifOpen = func(string) (indexer.Interface, error) {
		store.open++
		return store, nil
	}
	d.start(false, off...)

	ctx := context.Background()
	id, addr := vsym.Peer("provider"), "/ip4/127.0.0.1/tcp/9999"
	fh, err1 := finderhttp.New(d.url(finder.port))
	ih, err2 := ingesthttp.New(d.url(ingest.port))
	if err1 != nil || err2 != nil {
		panic("clients")
	}
	h, self := d.dial(p2p)
	registered, indexed := false, false
	mh := ingx.Mh(1)

	err = d.client.Block(ctx, vsym.Peer("somebody"))
	vsym.Assert((err == nil) == admin.on(), "the admin server serves if it is on")
	start := time.Now()
	err = ih.Register(ctx, id, vsym.Key(id), []string{addr})
	vsym.Assume(time.Since(start) < time.Hour)
	// Blocking somebody may have blocked the provider.
	if err == nil {
		registered = true
	}
	vsym.Assert(!registered || ingest.on(), "the ingest server serves only if it is on")
	if registered {
		vsym.Reach("registered")
	}
	// There is nobody to ask about them, so they are not discovered.
	d.discover(ingest, vsym.Peer("unknown"))
	vsym.Idle()
	vsym.Assume(time.Since(start) < time.Hour)
	if h != nil {
		ip, err := ingestp2p.New(h, self)
		if err != nil {
			panic(err)
		}
		d.connect(ip.ConnectAddrs, p2p)
		err = ip.IndexContent(ctx, id, vsym.Key(id), mh, []byte("ctx"), []byte("md"), []string{addr})
		vsym.Assume(time.Since(start) < time.Hour)
		vsym.Assert((err == nil) == registered, "the ingest server serves over libp2p if both are on")
		indexed = err == nil
	}
	err = d.client.Sync(ctx, id, multiaddr.StringCast(addr), 0, false)
	vsym.Assert((err == nil) == (admin.on() && p2p.on()), "a sync is taken if there is libp2p to do it by, and refused otherwise")
	vsym.Idle()

	d.lookup(fh, finder.on(), id, registered, mh, indexed, "http")
	if h != nil {
		fp, err := finderp2p.New(h, self)
		if err != nil {
			panic(err)
		}
		d.connect(fp.ConnectAddrs, p2p)
		d.lookup(fp, finder.on(), id, registered, mh, indexed, "libp2p")
	}

	vsym.Assert(d.halt() == nil, "the daemon ends well when it is told to")
	vsym.Assert(store.open == 0, "the value store is closed")
	d.lookup(fh, false, id, registered, mh, indexed, "http")
	vsym.Reach("ended")

	// Again.
	d.start(false, off...)
	d.lookup(fh, finder.on(), id, registered, mh, indexed, "http")
	vsym.Assert(d.stop() == nil, "the daemon ends well when it is told to")
	vsym.Reach("ended again")
}

// lookup checks what a finder says.
func (d *daemon) lookup(f finderclient.Finder, on bool, id peer.ID, registered bool, mh multihash.Multihash, indexed bool, how string) {
	ctx := context.Background()
	r, err := f.Find(ctx, mh)
	if !on {
		vsym.Assert(err != nil, "nothing is served that is off")
		return
	}
	vsym.Assert(err == nil, "the finder serves")
	if !indexed {
		vsym.Assert(len(r.MultihashResults) == 0, "the finder finds nothing that is not there")
	} else {
		vsym.Assert(len(r.MultihashResults) == 1 && len(r.MultihashResults[0].ProviderResults) == 1 && r.MultihashResults[0].ProviderResults[0].Provider.ID == id, "the finder finds what is indexed")
		vsym.Reach("found by " + how)
	}
	ps, err := f.ListProviders(ctx)
	vsym.Assert(err == nil, "the finder lists providers")
	if registered {
		vsym.Assert(len(ps) == 1 && ps[0].AddrInfo.ID == id, "the finder knows who registered")
	} else {
		vsym.Assert(len(ps) == 0, "the finder knows nobody who did not register")
	}
}

// dial is a host that can reach the daemon's, if it has one, and who that is.
func (d *daemon) dial(p2p *part) (host.Host, peer.ID) {
	if !p2p.on() {
		return nil, ""
	}
	if vsym.Symbolic() {
		return theHost, theHost.ID()
	}
	id, _, err := config.Identity{PrivKey: key}.Decode()
	if err != nil {
		panic(err)
	}
	h, err := libp2p.New(libp2p.NoListenAddrs)
	if err != nil {
		panic(err)
	}
	return h, id
}

func (d *daemon) connect(f func(context.Context, ...multiaddr.Multiaddr) error, p2p *part) {
	if !vsym.Symbolic() {
		if err := f(context.Background(), multiaddr.StringCast("/ip4/127.0.0.1/tcp/"+strconv.Itoa(p2p.port))); err != nil {
			panic(err)
		}
	}
}

// discover asks for a discovery.
func (d *daemon) discover(ingest *part, id peer.ID) {
	b, err := model.MakeDiscoverRequest(id, vsym.Key(id), "t01000")
	if err != nil {
		panic(err)
	}
	r, err := http.NewRequestWithContext(context.Background(), http.MethodPost, d.url(ingest.port)+"/discover", bytes.NewReader(b))
	if err != nil {
		panic(err)
	}
	rsp, err := (&http.Client{}).Do(r)
	if err != nil {
		vsym.Assert(!ingest.on(), "the ingest server answers if it is on")
		return
	}
	rsp.Body.Close()
}
