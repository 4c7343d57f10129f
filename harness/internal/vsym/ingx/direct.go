package ingx

import (
	"bytes"
	"errors"
	"io"
	"net/http"

	"github.com/filecoin-project/go-legs/dtsync"
	v0 "github.com/filecoin-project/storetheindex/api/v0"
	"github.com/filecoin-project/storetheindex/internal/vsym"
	"github.com/filecoin-project/storetheindex/server/ingest/handler"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
)

type symMsg struct {
	c     cid.Cid
	addrs [][]byte
}

// The encoding of announcements, for the engine only.
//
//vsym:replace (*github.com/filecoin-project/go-legs/dtsync.Message).UnmarshalCBOR
func mUnmarshalCBOR(m *dtsync.Message, r io.Reader) error {
	b, err := io.ReadAll(r)
	if err != nil {
		return err
	}
	v, ok := vsym.Unpack("announce", b)
	if !ok {
		return errors.New("bad announcement")
	}
	m.Cid, m.Addrs = v.(symMsg).c, v.(symMsg).addrs
	return nil
}

type p2pAddr struct {
	full, transport multiaddr.Multiaddr
	id              peer.ID
}

var p2pAddrs []p2pAddr

// ConcreteAddrs says that there are no symbolic addresses.
var ConcreteAddrs bool

//vsym:replace github.com/libp2p/go-libp2p-core/peer.SplitAddr
func mSplitAddr(m multiaddr.Multiaddr) (multiaddr.Multiaddr, peer.ID) {
	for _, a := range p2pAddrs {
		if a.full.Equal(m) {
			return a.transport, a.id
		}
	}
	if ConcreteAddrs {
		transport, last := multiaddr.SplitLast(m)
		if last == nil || last.Protocol().Code != multiaddr.P_P2P {
			return m, ""
		}
		return transport, peer.ID(last.RawValue())
	}
	return m, ""
}

// p2p is an address with the identity of a peer.
func p2p(transport multiaddr.Multiaddr, id peer.ID) multiaddr.Multiaddr {
	if !vsym.Symbolic() {
		a, err := multiaddr.NewMultiaddr("/p2p/" + id.String())
		if err != nil {
			panic(err)
		}
		return transport.Encapsulate(a)
	}
	full := vsym.Addr("p2p address")
	for _, a := range p2pAddrs {
		vsym.Assume(!a.full.Equal(full))
	}
	p2pAddrs = append(p2pAddrs, p2pAddr{full, transport, id})
	return full
}

func announcement(c cid.Cid, addrs []multiaddr.Multiaddr) []byte {
	m := dtsync.Message{Cid: c}
	m.SetAddrs(addrs)
	if vsym.Symbolic() {
		return vsym.Pack("announce", symMsg{m.Cid, m.Addrs})
	}
	var b bytes.Buffer
	if err := m.MarshalCBOR(&b); err != nil {
		panic(err)
	}
	return b.Bytes()
}

// VerifDirect: an announcement that is sent to the indexer makes it ingest the
// announced advertisement if it comes from one publisher that the policy
// allows; otherwise it is refused, and nothing is fetched from anyone.
func VerifDirect() {
	vsym.NoTimers()
	p2pAddrs = nil
	var c *chain
	var other peer.ID
	allowed := true
	before := 0
	vsym.Quiet(func() {
		c = plainChain()
		other = vsym.Peer("other")
		vsym.Assume(other != c.pub)
		w := c.w
		switch vsym.Choice("policy", 3) {
		case 0:
		case 1:
			w.Disc.Policy.Except = []string{c.pub.String()}
			allowed = false
		case 2:
			w.Disc.Policy.Allow = false
			w.Disc.Policy.Except = []string{c.pub.String()}
		}
		c.plain()
		w.Start()
		if allowed && vsym.Flip("synced before") {
			c.sync()
			c.plain()
			before = 1
		}
		vsym.Idle()
	})
	w := c.w
	head := c.ads[before].cid
	h := handler.NewIngestHandler(w.Idx, w.Ing, w.Reg)
	asked := 0
	var from peer.ID
	w.Net.OnFetch = func(pub peer.ID, id cid.Cid) ([]byte, error) {
		asked++
		from = pub
		return nil, nil
	}
	var addrs []multiaddr.Multiaddr
	wellFormed := true
	switch vsym.Choice("addrs", 5) {
	case 0: // none
		wellFormed = false
	case 1:
		addrs = append(addrs, p2p(c.addr, c.pub))
	case 2:
		addrs = append(addrs, p2p(c.addr, c.pub), p2p(vsym.Addr("second"), c.pub))
	case 3: // of two publishers
		addrs = append(addrs, p2p(c.addr, c.pub), p2p(vsym.Addr("second"), other))
		wellFormed = false
	case 4: // of nobody
		a := vsym.Addr("nobody's")
		for _, p := range p2pAddrs {
			vsym.Assume(!p.full.Equal(a))
		}
		addrs = append(addrs, a)
		wellFormed = false
	}
	data := announcement(head, addrs)
	if vsym.Flip("garbage") {
		data = vsym.Bytes("garbage")
		wellFormed = false
	}
	ok := allowed && wellFormed
	err := h.Announce(bytes.NewReader(data))
	vsym.Idle()
	if !ok {
		vsym.Assert(err != nil, "an announcement that is not of one publisher that is allowed is refused")
		vsym.Assert(asked == 0, "nothing is fetched because of an announcement that is refused")
		vsym.Assert(same(w.Idx, c.reference(before)), "an announcement that is refused has no effect")
		if wellFormed {
			var e *v0.Error
			vsym.Assert(errors.As(err, &e) && e.Status() == http.StatusForbidden, "an announcement of a publisher that is not allowed is forbidden")
		}
		vsym.Quiet(w.Stop)
		vsym.Reach("refused")
		return
	}
	vsym.Assert(err == nil, "an announcement of a publisher that is allowed is accepted")
	vsym.Assert(same(w.Idx, c.reference(before+1)), "what is announced takes effect")
	vsym.Assert(from == c.pub, "what is announced is fetched from its publisher")
	latest, err := w.Ing.GetLatestSync(c.pub)
	vsym.Assert(err == nil && latest == head, "the latest sync is what was announced")
	// Again.
	asked = 0
	err = h.Announce(bytes.NewReader(data))
	vsym.Idle()
	vsym.Assert(err == nil && asked == 0, "what is known is not fetched again")
	vsym.Assert(same(w.Idx, c.reference(before+1)), "what is announced again has no effect")
	vsym.Quiet(w.Stop)
	vsym.Reach("accepted")
}
