package legs

import (
	"bytes"
	"context"
	"errors"
	"io"
	"time"

	"github.com/ipfs/go-cid"
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/datamodel"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/ipld/go-ipld-prime/multicodec"
	basicnode "github.com/ipld/go-ipld-prime/node/basic"
	"github.com/ipld/go-ipld-prime/traversal/selector"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/peerstore"
	"github.com/multiformats/go-multiaddr"
	"golang.org/x/time/rate"
)

// VerifNet is the network as the harness makes it up.
type VerifNet interface {
	// Head is what a publisher says its latest advertisement is.
	Head(ctx context.Context, publisher peer.ID) (cid.Cid, error)
	// Reach tells whether a publisher can be reached at one of the addresses.
	Reach(publisher peer.ID, addrs []multiaddr.Multiaddr) error
	// Fetch is the block a publisher serves for a CID.
	Fetch(ctx context.Context, publisher peer.ID, c cid.Cid) ([]byte, error)
	// Republish takes an announcement that is sent on over pubsub.
	Republish(ctx context.Context, c cid.Cid, publisher peer.ID, addrs []multiaddr.Multiaddr) error
}

// VerifNetwork is the network of the next subscriber.
var VerifNetwork VerifNet

// VerifRate observes the rate limiter of a sync.
var VerifRate func(publisher peer.ID, l *rate.Limiter)

// verifLast is the latest subscriber.
var verifLast *Subscriber

// VerifAllows tells whether announcements of a publisher are heeded.
func VerifAllows(id peer.ID) bool { return verifLast.allowPeer == nil || verifLast.allowPeer(id) }

// VerifLimiter is the limiter of syncs of a publisher.
func VerifLimiter(id peer.ID) *rate.Limiter {
	if verifLast.rateLimiterFor == nil {
		return nil
	}
	return verifLast.rateLimiterFor(id)
}

// VerifHTTP tells which addresses are HTTP addresses.
var VerifHTTP func(a multiaddr.Multiaddr) bool

type verifSyncer struct {
	s        *Subscriber
	peerID   peer.ID
	httpAddr multiaddr.Multiaddr // nil: libp2p
}

// reach tells whether the publisher can be reached by the addresses known.
func (v *verifSyncer) reach() error {
	addrs := []multiaddr.Multiaddr{v.httpAddr}
	if v.httpAddr == nil {
		addrs = v.s.host.Peerstore().Addrs(v.peerID)
	}
	return v.s.net.Reach(v.peerID, addrs)
}

func (v *verifSyncer) GetHead(ctx context.Context) (cid.Cid, error) {
	if err := v.reach(); err != nil {
		return cid.Undef, err
	}
	return v.s.net.Head(ctx, v.peerID)
}

// Sync walks the selected blocks from the root. A block that is not stored is
// fetched and stored through the link system. Graphsync calls the block hook as
// each block arrives, HTTP when all have arrived.
func (v *verifSyncer) Sync(ctx context.Context, c cid.Cid, sel ipld.Node) error {
	limit, ok := getRecursionLimit(sel)
	if !ok {
		return errors.New("failed to compile selector")
	}
	w := &verifWalk{v: v, ctx: ctx}
	if l, ok := getStopNode(sel); ok {
		w.stop = l.(cidlink.Link).Cid
	}
	depth := int64(1 << 30)
	if limit.Mode() == selector.RecursionLimit_Depth {
		depth = limit.Depth()
	}
	rec, err := sel.LookupByString(selector.SelectorKey_ExploreRecursive)
	if err != nil {
		return err
	}
	seq, err := rec.LookupByString(selector.SelectorKey_Sequence)
	if err != nil {
		return err
	}
	if f, err := seq.LookupByString(selector.SelectorKey_ExploreFields); err == nil {
		fs, err := f.LookupByString(selector.SelectorKey_Fields)
		if err != nil {
			return err
		}
		w.fields = []string{}
		for it := fs.MapIterator(); !it.Done(); {
			k, _, err := it.Next()
			if err != nil {
				return err
			}
			n, _ := k.AsString()
			w.fields = append(w.fields, n)
		}
	}
	if err := w.visit(c, depth); err != nil {
		return err
	}
	for _, c := range w.order {
		v.s.hook(v.peerID, c)
	}
	return nil
}

type verifWalk struct {
	v      *verifSyncer
	ctx    context.Context
	stop   cid.Cid
	fields []string // nil: every link
	order  []cid.Cid
}

func (w *verifWalk) visit(c cid.Cid, depth int64) error {
	if err := w.ctx.Err(); err != nil {
		return err
	}
	s := w.v.s
	lc := ipld.LinkContext{Ctx: w.ctx}
	lnk := cidlink.Link{Cid: c}
	var data []byte
	if r, err := s.lsys.StorageReadOpener(lc, lnk); err == nil {
		if data, err = io.ReadAll(r); err != nil {
			return err
		}
	} else {
		if err = w.v.reach(); err != nil {
			return err
		}
		data, err = s.net.Fetch(w.ctx, w.v.peerID, c)
		if err != nil {
			return err
		}
		wr, commit, err := s.lsys.StorageWriteOpener(lc)
		if err != nil {
			return err
		}
		if _, err = wr.Write(data); err != nil {
			return err
		}
		if err = commit(lnk); err != nil {
			return err
		}
	}
	dec, err := multicodec.LookupDecoder(c.Prefix().Codec)
	if err != nil {
		return err
	}
	nb := basicnode.Prototype.Any.NewBuilder()
	if err = dec(nb, bytes.NewBuffer(data)); err != nil {
		return err
	}
	n := nb.Build()
	if w.v.httpAddr != nil {
		w.order = append(w.order, c)
	} else {
		s.hook(w.v.peerID, c)
	}
	if depth < 2 {
		return nil
	}
	if w.fields == nil {
		return w.all(n, depth)
	}
	for _, f := range w.fields {
		x, err := n.LookupByString(f)
		if err != nil || x == nil || x.Kind() != datamodel.Kind_Link {
			continue
		}
		if err := w.follow(x, depth); err != nil {
			return err
		}
	}
	return nil
}

func (w *verifWalk) follow(n ipld.Node, depth int64) error {
	l, err := n.AsLink()
	if err != nil {
		return err
	}
	c := l.(cidlink.Link).Cid
	if c == w.stop {
		return nil
	}
	return w.visit(c, depth-1)
}

func (w *verifWalk) all(n ipld.Node, depth int64) error {
	switch n.Kind() {
	case datamodel.Kind_Link:
		return w.follow(n, depth)
	case datamodel.Kind_Map:
		for it := n.MapIterator(); !it.Done(); {
			_, x, err := it.Next()
			if err != nil {
				return err
			}
			if err := w.all(x, depth-1); err != nil {
				return err
			}
		}
	case datamodel.Kind_List:
		for it := n.ListIterator(); !it.Done(); {
			_, x, err := it.Next()
			if err != nil {
				return err
			}
			if err := w.all(x, depth-1); err != nil {
				return err
			}
		}
	}
	return nil
}

// verifPeers is a peerstore that keeps addresses for ever.
type verifPeers struct {
	peerstore.Peerstore
	ids   []peer.ID
	addrs [][]multiaddr.Multiaddr
}

// VerifPeers is an empty peerstore.
func VerifPeers() peerstore.Peerstore { return &verifPeers{} }

func (p *verifPeers) at(id peer.ID) int {
	for i := range p.ids {
		if p.ids[i] == id {
			return i
		}
	}
	return -1
}

func (p *verifPeers) AddAddr(id peer.ID, a multiaddr.Multiaddr, ttl time.Duration) {
	i := p.at(id)
	if i < 0 {
		p.ids = append(p.ids, id)
		p.addrs = append(p.addrs, nil)
		i = len(p.ids) - 1
	}
	for _, o := range p.addrs[i] {
		if o.Equal(a) {
			return
		}
	}
	p.addrs[i] = append(p.addrs[i], a)
}

func (p *verifPeers) AddAddrs(id peer.ID, as []multiaddr.Multiaddr, ttl time.Duration) {
	for _, a := range as {
		p.AddAddr(id, a, ttl)
	}
}

func (p *verifPeers) Addrs(id peer.ID) []multiaddr.Multiaddr {
	if i := p.at(id); i >= 0 {
		return append([]multiaddr.Multiaddr(nil), p.addrs[i]...)
	}
	return nil
}

func (p *verifPeers) PeerInfo(id peer.ID) peer.AddrInfo {
	return peer.AddrInfo{ID: id, Addrs: p.Addrs(id)}
}

func (p *verifPeers) Close() error { return nil }
