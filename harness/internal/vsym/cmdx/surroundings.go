// Package cmdx drives the daemon as its command does, in made-up surroundings.
package cmdx

import (
	"context"
	"crypto/rand"
	"encoding/base64"
	"errors"
	"flag"
	"io/fs"
	"net"
	"net/http"
	"os"
	"os/signal"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/filecoin-project/go-address"
	"github.com/filecoin-project/go-legs"
	adminclient "github.com/filecoin-project/storetheindex/api/v0/admin/client/http"
	"github.com/filecoin-project/storetheindex/command"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/vsym"
	"github.com/filecoin-project/storetheindex/internal/vsym/ingx"
	"github.com/filecoin-project/storetheindex/internal/vsym/netx"
	"github.com/ipfs/go-datastore"
	leveldb "github.com/ipfs/go-ds-leveldb"
	"github.com/ipfs/go-ipfs/peering"
	"github.com/libp2p/go-libp2p"
	"github.com/libp2p/go-libp2p-core/connmgr"
	"github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/network"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/peerstore"
	"github.com/multiformats/go-multiaddr"
	"github.com/urfave/cli/v2"
)

const checkEvery = 7 * time.Second

// what the engine's stand-ins know
var (
	root     = "/indexer"
	version  int
	hup      chan<- os.Signal
	ticks    chan time.Time
	interval time.Duration
	ticker   *time.Ticker
	levels   map[string]string
)

//vsym:replace os.Getenv
func mGetenv(name string) string {
	if name == config.EnvDir {
		return root
	}
	return ""
}

type info struct{ fs.FileInfo }

func (info) ModTime() time.Time { return time.Unix(int64(1000+version), 0) }

//vsym:replace os.Stat
func mStat(name string) (fs.FileInfo, error) { return info{}, nil }

//vsym:replace os.Remove
func mRemove(name string) error { return nil }

//vsym:replace os/signal.Notify
func mNotify(c chan<- os.Signal, sig ...os.Signal) {
	for _, s := range sig {
		if s == syscall.SIGHUP {
			hup = c
		}
	}
}

//vsym:replace time.NewTicker
func mTicker(d time.Duration) *time.Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &time.Ticker{C: c}
	if d == checkEvery {
		ticker, ticks, interval = t, c, d
	}
	return t
}

//vsym:replace (*time.Ticker).Reset
func mReset(t *time.Ticker, d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	if t == ticker {
		interval = d
	}
}

//vsym:replace (*time.Ticker).Stop
func mStop(t *time.Ticker) {}

//vsym:replace (github.com/filecoin-project/storetheindex/config.Identity).Decode
func mIdentity(i config.Identity) (peer.ID, crypto.PrivKey, error) {
	id := peer.ID("indexer")
	return id, nil, nil
}

//vsym:replace net.IPv4
func mIPv4(a, b, c, d byte) net.IP {
	return net.IP{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, a, b, c, d}
}

//vsym:replace github.com/multiformats/go-multiaddr/net.ToNetAddr
func mNetAddr(m multiaddr.Multiaddr) (net.Addr, error) {
	parts := strings.Split(m.String(), "/")
	return name(parts[2] + ":" + parts[4]), nil
}

type name string

func (name) Network() string  { return "tcp" }
func (n name) String() string { return string(n) }

type conns struct{ connmgr.ConnManager }

func (conns) Protect(id peer.ID, tag string)        {}
func (conns) Unprotect(id peer.ID, tag string) bool { return false }

type links struct{ network.Network }

func (links) Notify(network.Notifiee)                     {}
func (links) StopNotify(network.Notifiee)                 {}
func (links) Connectedness(peer.ID) network.Connectedness { return network.Connected }

type fakeHost struct {
	*netx.Host
	ps peerstore.Peerstore
}

// theHost is the host of the daemon.
var theHost *fakeHost

func (h *fakeHost) Peerstore() peerstore.Peerstore   { return h.ps }
func (h *fakeHost) ID() peer.ID                      { return peer.ID("indexer") }
func (h *fakeHost) Network() network.Network         { return links{} }
func (h *fakeHost) ConnManager() connmgr.ConnManager { return conns{} }

//vsym:replace github.com/libp2p/go-libp2p.New
func mHost(opts ...libp2p.Option) (host.Host, error) {
	theHost = &fakeHost{Host: &netx.Host{}, ps: legs.VerifPeers()}
	return theHost, nil
}

//vsym:replace github.com/ipfs/go-log/v2.SetLogLevel
func mLevel(name, level string) error {
	switch strings.ToLower(level) {
	case "debug", "info", "warn", "error", "dpanic", "panic", "fatal":
	default:
		return errors.New("no such level")
	}
	if name == "*" {
		levels = map[string]string{}
	}
	levels[name] = level
	return nil
}

// Nothing takes too long.
//
//vsym:replace context.WithTimeout
func mTimeout(ctx context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return context.WithCancel(ctx)
}

// An HTTP server is up from Serve until Shutdown, which waits for what it is
// doing.

type serving struct {
	at   string
	end  chan struct{}
	busy sync.WaitGroup
}

var up = map[*http.Server]*serving{}

type counted struct {
	s *serving
	h http.Handler
}

func (c counted) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	c.s.busy.Add(1)
	defer c.s.busy.Done()
	c.h.ServeHTTP(w, r)
}

//vsym:replace (*net/http.Server).Serve
func mServe(s *http.Server, l net.Listener) error {
	v := &serving{at: netx.Where(l), end: make(chan struct{})}
	up[s] = v
	netx.ServeAt(v.at, counted{v, s.Handler})
	<-v.end
	return http.ErrServerClosed
}

//vsym:replace (*net/http.Server).Shutdown
func mShutdown(s *http.Server, ctx context.Context) error {
	v := up[s]
	if v == nil {
		return nil
	}
	netx.ServeAt(v.at, nil)
	close(v.end)
	done := make(chan struct{})
	go func() {
		v.busy.Wait()
		close(done)
	}()
	select {
	case <-done:
		return nil
	case <-ctx.Done():
		return ctx.Err()
	}
}

// daemon is a daemon that runs.
type daemon struct {
	cancel context.CancelFunc
	end    chan error
	client *adminclient.Client
	dir    string
	port   int
	// applied is whether the latest reload succeeded (a configuration that
	// is refused may change the log level).
	applied bool
	cache   int64
}

func freePort() int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

var identity = func() string {
	if vsym.Symbolic() {
		return ""
	}
	k, _, err := crypto.GenerateEd25519Key(rand.Reader)
	if err != nil {
		panic(err)
	}
	b, err := crypto.MarshalPrivateKey(k)
	if err != nil {
		panic(err)
	}
	return base64.StdEncoding.EncodeToString(b)
}

var key string

// begin starts the daemon with a configuration.
func begin(c conf, watch bool) *daemon {
	d := arrange()
	d.write(c.text(d.port))
	d.start(watch)
	return d
}

// arrange makes up a place for a daemon.
func arrange() *daemon {
	d := &daemon{port: 3002, applied: true, cache: -1}
	if !vsym.Symbolic() {
		dir, err := os.MkdirTemp("", "verif-daemon")
		if err != nil {
			panic(err)
		}
		d.dir, root, d.port, key = dir, dir, freePort(), identity()
		os.Setenv(config.EnvDir, dir)
	}
	ingx.ConcreteAddrs, peering.VerifServices = true, nil
	legs.VerifNetwork = &ingx.Net{}
	store := &vsym.DS{}
	leveldb.VerifOpen = func(string) (datastore.Batching, error) { return store, nil }
	return d
}

// start starts the daemon, with parts of it off.
func (d *daemon) start(watch bool, off ...string) {
	d.end = make(chan error, 1)
	levels = map[string]string{}
	set := flag.NewFlagSet("daemon", flag.ContinueOnError)
	for _, n := range []string{"watch-config", "noadmin", "nofinder", "noingest", "nop2p"} {
		on := n == "watch-config" && watch
		for _, o := range off {
			on = on || o == n
		}
		set.Bool(n, on, "")
	}
	set.Int64("cachesize", d.cache, "")
	ctx, cancel := context.WithCancel(context.Background())
	d.cancel = cancel
	cctx := cli.NewContext(&cli.App{}, set, nil)
	cctx.Context = ctx
	end := d.end
	go func() { end <- command.DaemonCmd.Action(cctx) }()
	vsym.Idle()
	select {
	case err := <-d.end:
		text := "no error"
		if err != nil {
			text = err.Error()
		}
		vsym.Fail("the daemon starts: " + text)
	default:
	}
	if !vsym.Symbolic() {
		// It takes a while.
		for i := 0; i < 50; i++ {
			time.Sleep(20 * time.Millisecond)
			if r, err := http.Get(d.url(d.port) + "/healthcheck"); err == nil {
				r.Body.Close()
				break
			}
		}
	}
	client, err := adminclient.New(d.url(d.port))
	if err != nil {
		panic(err)
	}
	d.client = client
}

func (d *daemon) url(port int) string { return "http://127.0.0.1:" + strconv.Itoa(port) }

// write replaces the configuration file; there is none if there is no text.
func (d *daemon) write(text string) {
	version++
	if vsym.Symbolic() {
		ingx.SetFile(filepath.Join(root, config.DefaultConfigFile), text)
		return
	}
	name := filepath.Join(root, config.DefaultConfigFile)
	if text == "" {
		os.Remove(name)
		return
	}
	if err := os.WriteFile(name, []byte(text), 0o600); err != nil {
		panic(err)
	}
}

// hangup sends the signal that asks for a reload.
func (d *daemon) hangup() {
	if !vsym.Symbolic() {
		syscall.Kill(os.Getpid(), syscall.SIGHUP)
		return
	}
	select {
	case hup <- syscall.SIGHUP:
	default:
	}
}

// tick lets the time between two looks at the file pass.
func (d *daemon) tick() {
	if !vsym.Symbolic() {
		time.Sleep(100 * time.Millisecond)
		return
	}
	select {
	case ticks <- time.Time{}:
	default:
	}
}

// halt ends the daemon.
func (d *daemon) halt() error {
	d.cancel()
	return <-d.end
}

// stop ends the daemon for good.
func (d *daemon) stop() error {
	err := d.halt()
	if d.dir != "" {
		os.RemoveAll(d.dir)
	}
	signal.Reset(syscall.SIGHUP)
	return err
}

//vsym:replace os/signal.Reset
func mSignalReset(sig ...os.Signal) {}

// The usual peers do not matter, and there are many.
//
//vsym:replace github.com/filecoin-project/storetheindex/config.defaultBootstrapPeers
func mBootstrap() []string { return nil }

//vsym:replace github.com/filecoin-project/go-address.NewFromString
func mAddress(s string) (address.Address, error) { return address.Address{}, nil }
