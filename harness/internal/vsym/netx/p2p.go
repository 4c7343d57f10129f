package netx

import (
	"context"
	"errors"
	"io"
	"sync"

	"github.com/libp2p/go-libp2p-core/host"
	p2pnet "github.com/libp2p/go-libp2p-core/network"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/protocol"
	"github.com/multiformats/go-multiaddr"
)

// half is one direction of a stream.
type half struct {
	ch   chan []byte
	rest []byte
}

type stream struct {
	p2pnet.Stream
	in, out *half
	reset   chan struct{}
	once    *sync.Once
	shut    sync.Once
	remote  peer.ID
}

type conn struct {
	p2pnet.Conn
	remote peer.ID
}

func (c *conn) RemotePeer() peer.ID { return c.remote }

func (s *stream) Conn() p2pnet.Conn { return &conn{remote: s.remote} }

var errReset = errors.New("stream reset")

func (s *stream) Read(p []byte) (int, error) {
	if len(s.in.rest) == 0 {
		select {
		case <-s.reset:
			return 0, errReset
		case b, ok := <-s.in.ch:
			if !ok {
				return 0, io.EOF
			}
			s.in.rest = b
		}
	}
	n := copy(p, s.in.rest)
	s.in.rest = s.in.rest[n:]
	return n, nil
}

func (s *stream) Write(p []byte) (int, error) {
	select {
	case <-s.reset:
		return 0, errReset
	default:
	}
	s.out.ch <- append([]byte(nil), p...)
	return len(p), nil
}

func (s *stream) Close() error {
	s.shut.Do(func() { close(s.out.ch) })
	return nil
}

func (s *stream) Reset() error {
	s.once.Do(func() { close(s.reset) })
	return nil
}

// Host is a host that is both ends of the network.
type Host = fakeHost

// fakeHost is both ends of the network.
type fakeHost struct {
	host.Host
	id      peer.ID
	handle  map[protocol.ID]p2pnet.StreamHandler
	streams int
}

func (h *fakeHost) ID() peer.ID { return h.id }

func (h *fakeHost) Addrs() []multiaddr.Multiaddr { return nil }

func (h *fakeHost) SetStreamHandler(p protocol.ID, f p2pnet.StreamHandler) {
	if h.handle == nil {
		h.handle = map[protocol.ID]p2pnet.StreamHandler{}
	}
	h.handle[p] = f
}

// SetID sets who the host is.
func (h *fakeHost) SetID(id peer.ID) { h.id = id }

func (h *fakeHost) NewStream(ctx context.Context, to peer.ID, ps ...protocol.ID) (p2pnet.Stream, error) {
	f := h.handle[ps[0]]
	if f == nil {
		return nil, errors.New("protocol not supported")
	}
	h.streams++
	a, b := &half{ch: make(chan []byte, 16)}, &half{ch: make(chan []byte, 16)}
	reset, once := make(chan struct{}), &sync.Once{}
	go f(&stream{in: a, out: b, reset: reset, once: once, remote: "client"})
	return &stream{in: b, out: a, reset: reset, once: once, remote: to}, nil
}
