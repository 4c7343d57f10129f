package netx

import (
	"context"
	"errors"

	pb "github.com/filecoin-project/storetheindex/api/v0/finder/pb"
	"github.com/filecoin-project/storetheindex/api/v0/libp2pclient"
	"github.com/filecoin-project/storetheindex/internal/libp2pserver"
	"github.com/filecoin-project/storetheindex/internal/vsym"
	"github.com/gogo/protobuf/proto"
	pool "github.com/libp2p/go-buffer-pool"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/protocol"
)

// echo answers every request with what it says.
type echo struct {
	slow    bool // the first request takes until it is let go
	gate    chan struct{}
	refuse  bool // the first request ends the stream
	handled []byte
}

func (e *echo) ProtocolID() protocol.ID { return "/echo" }

func (e *echo) HandleMessage(ctx context.Context, from peer.ID, msg []byte) (proto.Message, error) {
	var req pb.FinderMessage
	if err := req.Unmarshal(msg); err != nil {
		return nil, err
	}
	e.handled = append(e.handled, req.Data[0])
	if len(e.handled) == 1 {
		if e.refuse {
			return nil, errors.New("injected failure")
		}
		if e.slow {
			<-e.gate
		}
	}
	return &pb.FinderMessage{Type: pb.FinderMessage_FIND_RESPONSE, Data: req.Data}, nil
}

func pairing(e *echo) (*libp2pclient.Client, *fakeHost) {
	h := &fakeHost{id: vsym.Peer("server")}
	libp2pserver.New(context.Background(), h, e)
	c, err := libp2pclient.New(h, h.id, "/echo")
	if err != nil {
		vsym.Fail("the client starts")
	}
	return c, h
}

func call(c *libp2pclient.Client, ctx context.Context, n byte) error {
	rsp := new(pb.FinderMessage)
	err := c.SendRequest(ctx, &pb.FinderMessage{Type: pb.FinderMessage_FIND, Data: []byte{n}}, func(b []byte) error {
		return rsp.Unmarshal(b)
	})
	if err == nil {
		vsym.Assert(len(rsp.Data) == 1 && rsp.Data[0] == n, "a request gets its own answer")
	}
	return err
}

// VerifPairing: a request gets its own answer or an error, even if an earlier
// one was given up while its answer was on the way.
func VerifPairing() {
	vsym.SetTimerFires(vsym.Param("fires", 1))
	slow := vsym.Choice("slow", 3) // not, for a while, or for too long
	e := &echo{slow: slow != 0, refuse: vsym.Flip("refuse"), gate: make(chan struct{})}
	c, _ := pairing(e)
	ctx, cancel := context.WithCancel(context.Background())
	if slow == 1 {
		go func() {
			vsym.Yield()
			close(e.gate)
		}()
	}
	go func() {
		vsym.Yield()
		if vsym.Flip("cancel") {
			cancel()
		}
	}()
	if call(c, ctx, 1) != nil {
		vsym.Reach("given up")
	}
	vsym.NoTimers()
	if slow != 1 {
		close(e.gate)
	}
	err := call(c, context.Background(), 2)
	if err == nil {
		vsym.Reach("answered")
	}
	err = call(c, context.Background(), 3)
	vsym.Assert(err == nil || e.refuse, "a request that nothing stands in the way of is answered")
	cancel()
	vsym.Reach("done")
}

// VerifShared: two users of one client each get their own answers.
func VerifShared() {
	vsym.NoTimers()
	e := &echo{}
	c, _ := pairing(e)
	done := make(chan struct{})
	go func() {
		vsym.Assert(call(c, context.Background(), 1) == nil, "a request is answered")
		close(done)
	}()
	vsym.Assert(call(c, context.Background(), 2) == nil, "a request is answered")
	<-done
	vsym.Assert(len(e.handled) == 2, "each request is made once")
	vsym.Reach("done")
}

// VerifStreams: two clients each get their own answers.
func VerifStreams() {
	vsym.NoTimers()
	e := &echo{}
	c, h := pairing(e)
	d, err := libp2pclient.New(h, h.id, "/echo")
	if err != nil {
		vsym.Fail("the client starts")
	}
	done := make(chan struct{})
	go func() {
		vsym.Assert(call(c, context.Background(), 1) == nil, "a request is answered")
		close(done)
	}()
	vsym.Assert(call(d, context.Background(), 2) == nil, "a request is answered")
	<-done
	vsym.Reach("done")
}

// What was given back to the pool is anybody's. (For the engine only.)
//
//vsym:replace (*github.com/libp2p/go-buffer-pool.BufferPool).Put
func mPoolPut(p *pool.BufferPool, b []byte) {
	for i := range b {
		b[i] = 0xa5
	}
}

// VerifDeaf: requests that cannot be answered are not answered wrongly, and the
// stream is not left open.
func VerifDeaf() {
	vsym.NoTimers()
	e := &echo{}
	_, h := pairing(e)
	s, err := h.NewStream(context.Background(), h.id, "/echo")
	vsym.Assert(err == nil, "a stream opens")
	var data []byte
	switch vsym.Choice("what", 3) {
	case 0:
		data = []byte{1, 0xff} // a message that is none
	case 1:
		data = []byte{5, 1} // half a message
	case 2:
		data = []byte{0xff, 0xff, 0xff, 0xff, 0x7f} // a message beyond all bounds
	}
	_, err = s.Write(data)
	vsym.Assert(err == nil, "bytes can be sent")
	_ = s.Close()
	var b [16]byte
	_, err = s.Read(b[:])
	vsym.Assert(err != nil, "what is no message is not answered")
	vsym.Assert(len(e.handled) == 0, "what is no message is not handled")
	vsym.Reach("done")
}
