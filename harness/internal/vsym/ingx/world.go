// Package ingx drives the whole ingester through its public interface against
// a made-up network, datastore and indexer core.
package ingx

import (
	"context"
	"errors"
	"time"

	"github.com/filecoin-project/go-legs"
	"github.com/filecoin-project/storetheindex/api/v0/ingest/schema"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/ingest"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/filecoin-project/storetheindex/internal/vsym"
	"github.com/filecoin-project/storetheindex/internal/vsym/ipldm"
	"github.com/ipfs/go-cid"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/peerstore"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

// Net is a network of publishers that serve blocks.
type Net struct {
	Blocks []block
	Heads  []head
	// Faults is how many requests may still fail.
	Faults int
	Failed int
	// OnFetch observes a request; its answer, if any, replaces the block.
	OnFetch func(pub peer.ID, c cid.Cid) ([]byte, error)
	// OnHead observes a request for a head.
	OnHead func(pub peer.ID)
	// OnReach observes an attempt to reach a publisher.
	OnReach func(pub peer.ID)
	// At is where the publishers are, if it matters.
	At multiaddr.Multiaddr
	// Resent are the announcements sent on.
	Resent []cid.Cid
}

type block struct {
	c cid.Cid
	b []byte
}

type head struct {
	pub peer.ID
	c   cid.Cid
}

var errNet = errors.New("injected network failure")
var errNoAddr = errors.New("no good addresses")
var errNotFound = errors.New("content not found")

func (n *Net) fault() bool {
	if n.Faults > 0 && vsym.Flip("netfault") {
		n.Faults--
		n.Failed++
		return true
	}
	return false
}

// Reach fails if the address of a publisher is not known.
func (n *Net) Reach(pub peer.ID, addrs []multiaddr.Multiaddr) error {
	if n.OnReach != nil {
		n.OnReach(pub)
	}
	for _, a := range addrs {
		if n.At == nil || a.Equal(n.At) {
			return nil
		}
	}
	return errNoAddr
}

func (n *Net) Head(ctx context.Context, pub peer.ID) (cid.Cid, error) {
	if err := ctx.Err(); err != nil {
		return cid.Undef, err
	}
	if n.OnHead != nil {
		n.OnHead(pub)
	}
	if n.fault() {
		return cid.Undef, errNet
	}
	for _, h := range n.Heads {
		if h.pub == pub {
			return h.c, nil
		}
	}
	return cid.Undef, nil
}

// SetHead publishes a head.
func (n *Net) SetHead(pub peer.ID, c cid.Cid) {
	for i := range n.Heads {
		if n.Heads[i].pub == pub {
			n.Heads[i].c = c
			return
		}
	}
	n.Heads = append(n.Heads, head{pub, c})
}

func (n *Net) Fetch(ctx context.Context, pub peer.ID, c cid.Cid) ([]byte, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	if n.fault() {
		return nil, errNet
	}
	if n.OnFetch != nil {
		if b, err := n.OnFetch(pub, c); b != nil || err != nil {
			return b, err
		}
	}
	for _, b := range n.Blocks {
		if b.c == c {
			return b.b, nil
		}
	}
	return nil, errNotFound
}

func (n *Net) Republish(ctx context.Context, c cid.Cid, pub peer.ID, addrs []multiaddr.Multiaddr) error {
	n.Resent = append(n.Resent, c)
	return nil
}

// Add serves a tree.
func (n *Net) Add(t ipldm.Tree) cid.Cid {
	c, b := ipldm.Block(t)
	n.Blocks = append(n.Blocks, block{c, b})
	return c
}

type fakeHost struct {
	host.Host
	ps peerstore.Peerstore
}

func (h *fakeHost) Peerstore() peerstore.Peerstore { return h.ps }
func (h *fakeHost) ID() peer.ID                    { return peer.ID("indexer") }

// World is one indexer with its surroundings.
type World struct {
	Net  *Net
	DS   *vsym.DS
	RDS  *vsym.DS
	Idx  *vsym.Index
	Reg  *registry.Registry
	Ing  *ingest.Ingester
	Cfg  config.Ingest
	Disc config.Discovery
}

// New is a world without an indexer in it yet.
func New() *World {
	return &World{
		Net: &Net{}, DS: &vsym.DS{}, RDS: &vsym.DS{}, Idx: &vsym.Index{},
		Cfg: config.Ingest{
			AdvertisementDepthLimit: -1, EntriesDepthLimit: -1, IngestWorkerCount: 1,
			PubSubTopic: "/indexer/ingest/mainnet", StoreBatchSize: 4, SyncSegmentDepthLimit: -1,
		},
		Disc: config.Discovery{
			Policy:       config.Policy{Allow: true, Publish: true},
			PollInterval: config.Duration(24 * time.Hour), PollRetryAfter: config.Duration(5 * time.Hour), PollStopAfter: config.Duration(168 * time.Hour),
		},
	}
}

// Start starts the indexer.
func (w *World) Start() {
	reg, err := registry.NewRegistry(context.Background(), w.Disc, w.RDS, nil)
	if err != nil {
		vsym.Fail("the registry does not start: " + err.Error())
	}
	w.Reg = reg
	legs.VerifNetwork = w.Net
	ing, err := ingest.NewIngester(w.Cfg, &fakeHost{ps: legs.VerifPeers()}, w.Idx, reg, w.DS)
	if err != nil {
		vsym.Fail("the ingester does not start: " + err.Error())
	}
	w.Ing = ing
}

// Stop shuts the indexer down.
func (w *World) Stop() {
	w.Ing.Close()
	w.Reg.Close()
}

// Link is a CID as a link.
func Link(c cid.Cid) cidlink.Link { return cidlink.Link{Cid: c} }

// Signed signs an advertisement.
func Signed(ad schema.Advertisement, key peer.ID) schema.Advertisement {
	if err := ad.Sign(vsym.Key(key)); err != nil {
		panic(err)
	}
	return ad
}

// Mh is a valid multihash; distinct indices are distinct.
func Mh(i int) multihash.Multihash {
	h := make([]byte, 34)
	h[0], h[1], h[2] = multihash.SHA2_256, 32, byte(i)
	return h
}
