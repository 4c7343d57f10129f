package cmdx

import (
	"context"
	"encoding/json"
	"strconv"
	"time"

	"github.com/filecoin-project/go-legs"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/vsym"
	"github.com/ipfs/go-ipfs/peering"
	"github.com/libp2p/go-libp2p-core/peer"
	"golang.org/x/time/rate"
)

const (
	idA = "12D3KooWCVe8MmsEMes2FzgTpt9fXtmCY7wrq91GRiaC8PHSCCBj"
	idB = "12D3KooWCwevHg1yLCvktf2nvLu7L9894mcrJR4MsBCcm4syShVc"
)

// conf is what a configuration file says of that which a reload applies.
type conf struct {
	allow  bool // everybody but one, or one alone
	except peer.ID
	rate   int // of everybody but one, or one alone
	burst  int
	a, b   bool // peers to stay connected with
	debug  bool
	longer bool // between two looks at the file
	bad    int
}

const bads = 7

// choose makes up a configuration.
func choose() conf {
	c := conf{allow: vsym.Bool("allow"), except: vsym.Peer("exception"), burst: 1}
	if vsym.Param("full", 0) == 0 {
		switch k := vsym.Choice("file", 12); k {
		case 0:
		case 1:
			c.rate, c.burst, c.a = 5, 0, true
		case 2:
			c.rate, c.a, c.b = 5, true, true
			c.debug, c.longer = true, true
		case 3:
			c.rate, c.a = -1, true
		case 4:
			c.rate, c.burst, c.b, c.longer = 5, -1, true, true
		default:
			c.bad, c.rate, c.b, c.debug = k-4, 5, true, true
		}
		return c
	}
	switch vsym.Choice("rates", 4) {
	case 1:
		c.rate, c.burst = 5, 0
	case 2:
		c.rate = -1
	case 3:
		c.rate, c.burst = 5, -1
	}
	switch vsym.Choice("peers", 3) {
	case 1:
		c.a = true
	case 2:
		c.a, c.b = true, true
	}
	c.debug = vsym.Flip("debug")
	c.longer = c.debug
	c.bad = vsym.Choice("bad", bads+1)
	return c
}

// valid is whether the configuration can be applied.
func (c conf) valid() bool { return c.bad == 0 && c.rate >= 0 && c.burst >= 0 }

func (c conf) every() time.Duration {
	d := checkEvery
	if !vsym.Symbolic() {
		d = 20 * time.Millisecond
	}
	if c.longer {
		d += time.Millisecond
	}
	return d
}

// text is the file.
func (c conf) text(port int) string {
	cfg := config.Config{
		Version:   2,
		Identity:  config.Identity{PrivKey: key},
		Addresses: config.Addresses{Admin: "/ip4/127.0.0.1/tcp/" + strconv.Itoa(port), Finder: "none", Ingest: "none", P2PAddr: "/ip4/127.0.0.1/tcp/0", NoResourceManager: true},
		Datastore: config.Datastore{Type: "levelds"},
		Discovery: config.Discovery{LotusGateway: "none", Policy: config.Policy{Allow: c.allow, Except: []string{c.except.String()}, Publish: true}},
		Indexer:   config.Indexer{ValueStoreType: "memory", ConfigCheckInterval: config.Duration(c.every()), ShutdownTimeout: config.Duration(10 * time.Second)},
		Ingest:    config.Ingest{IngestWorkerCount: 1, RateLimit: config.RateLimit{Apply: c.allow, Except: []string{c.except.String()}, BlocksPerSecond: c.rate, BurstSize: c.burst}},
		Logging:   config.Logging{Level: "info"},
	}
	if c.debug {
		cfg.Logging.Level = "debug"
	}
	if c.a {
		cfg.Peering.Peers = append(cfg.Peering.Peers, "/ip4/127.0.0.1/tcp/1/p2p/"+idA)
	}
	if c.b {
		cfg.Peering.Peers = append(cfg.Peering.Peers, "/ip4/127.0.0.1/tcp/1/p2p/"+idB)
	}
	switch c.bad {
	case 1:
		return ""
	case 2:
		cfg.Logging.Level = "loud"
	case 3:
		cfg.Discovery.Policy.Except = append(cfg.Discovery.Policy.Except, "nobody")
	case 4:
		cfg.Peering.Peers = append(cfg.Peering.Peers, "nowhere")
	case 5:
		return "{"
	case 6:
		cfg.Datastore.Type = "paper"
	case 7:
		cfg.Ingest.IngestWorkerCount = -1
	}
	b, err := json.Marshal(&cfg)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func decode(s string) peer.ID {
	id, err := peer.Decode(s)
	if err != nil {
		panic(err)
	}
	return id
}

// inForce checks that a configuration is the one in force.
func (d *daemon) inForce(c conf) {
	id := vsym.Peer("somebody")
	vsym.Assert(legs.VerifAllows(id) == ((id == c.except) != c.allow), "the policy in force is that of the configuration in force")
	l := legs.VerifLimiter(id)
	burst := c.burst
	if burst == 0 {
		burst = 5 * c.rate
	}
	if c.rate == 0 || (id == c.except) == c.allow {
		vsym.Assert(l == nil || l.Limit() == rate.Inf, "nobody is limited who is not to be")
	} else {
		vsym.Assert(l != nil && int(l.Limit()) == c.rate && l.Burst() == burst, "the rate limit in force is that of the configuration in force")
	}
	a, b := decode(idA), decode(idB)
	var gotA, gotB bool
	n := 0
	for _, s := range peering.VerifServices {
		if !s.VerifRunning() {
			continue
		}
		for _, p := range s.ListPeers() {
			n++
			gotA, gotB = gotA || p.ID == a, gotB || p.ID == b
			vsym.Assert(len(p.Addrs) == 1, "a peer to stay connected with has its address")
		}
	}
	want := 0
	if c.a {
		want++
	}
	if c.b {
		want++
	}
	vsym.Assert(n == want && gotA == c.a && gotB == c.b, "the peers to stay connected with are those of the configuration in force")
	if vsym.Symbolic() && d.applied {
		vsym.Assert((levels["*"] == "debug") == c.debug, "the log level is that of the configuration in force")
	}
	if vsym.Symbolic() {
		vsym.Assert(ticks == nil || interval == c.every(), "the configuration file is looked at as often as the configuration in force says")
	}
}

// VerifReload: a reload applies a good configuration and refuses a bad one,
// however it is asked for, and the daemon runs on until it is told to end.
func VerifReload() {
	vsym.NoTimers()
	vsym.Handles()
	cur := conf{allow: true, except: vsym.Peer("exception"), rate: 7, burst: 2}
	watch := vsym.Flip("watch")
	d := begin(cur, watch)
	d.inForce(cur)
	n := vsym.Param("reloads", 2)
	for i := 0; i < n; i++ {
		next := choose()
		d.write(next.text(d.port))
		switch vsym.Choice("how", 3) {
		case 0:
			err := d.client.ReloadConfig(context.Background())
			vsym.Assert((err == nil) == (next.valid()), "who asks for a reload is told whether it succeeded")
		case 1:
			d.hangup()
		case 2:
			vsym.Assume(watch)
			d.tick()
		}
		vsym.Idle()
		d.applied = next.valid()
		if next.valid() {
			cur = next
			vsym.Reach("reloaded")
		} else {
			vsym.Reach("refused")
		}
		d.inForce(cur)
	}
	vsym.Assert(d.stop() == nil, "the daemon ends well when it is told to")
	vsym.Reach("ended")
}

// VerifReloadRace: reloads that are asked for at the same time, and the end of
// the daemon at any time, leave nobody waiting.
func VerifReloadRace() {
	vsym.NoTimers()
	vsym.Handles()
	cur := conf{allow: true, except: vsym.Peer("exception"), burst: 2}
	d := begin(cur, true)
	next := conf{allow: vsym.Bool("allow"), except: vsym.Peer("exception"), rate: 5, burst: 2, a: true}
	if vsym.Flip("bad") {
		next.bad = 3
	}
	d.write(next.text(d.port))
	n := 1 + vsym.Choice("requests", 2)
	told := make(chan error, 2)
	for i := 0; i < n; i++ {
		go func() { told <- d.client.ReloadConfig(context.Background()) }()
	}
	if vsym.Flip("signal") {
		d.hangup()
	}
	if vsym.Flip("look") {
		d.tick()
	}
	early := vsym.Flip("end")
	if early {
		d.cancel()
	}
	for i := 0; i < n; i++ {
		err := <-told
		if early {
			vsym.Assert(err != nil || next.valid(), "who asks for a reload is told whether it succeeded")
		} else {
			vsym.Assert((err == nil) == next.valid(), "who asks for a reload is told whether it succeeded")
		}
		if err == nil {
			cur = next
			vsym.Reach("reloaded")
		} else {
			vsym.Reach("refused")
		}
	}
	if !early {
		vsym.Idle()
		d.applied = next.valid()
		d.inForce(cur)
	}
	vsym.Assert(d.stop() == nil, "the daemon ends well when it is told to")
	vsym.Reach("ended")
}
