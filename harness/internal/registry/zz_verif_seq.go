package registry

import (
	"context"
	"time"

	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/vsym"
	"github.com/libp2p/go-libp2p-core/peer"
)

const vzMaxAge = 48 * time.Hour

func vzOpenPolicy() config.Policy { return config.Policy{Allow: true, Publish: true} }

func vzNewRegistry() *Registry {
	r, err := NewRegistry(context.Background(), config.Discovery{Policy: vzOpenPolicy(), PollInterval: config.Duration(time.Hour), PollRetryAfter: config.Duration(time.Hour), PollStopAfter: config.Duration(time.Hour)}, nil, nil)
	vsym.Assert(err == nil, "a registry with a valid configuration starts")
	return r
}

type vzSeqAccept struct {
	id  peer.ID
	seq uint64
}

// VerifSeqHistory: any history of requests, the periodic clean-up running in
// between, against the reference rule.
func VerifSeqHistory() {
	r := vzNewRegistry()
	n := vsym.Param("n", 3)
	var acc []vzSeqAccept
	for i := 0; i < n; i++ {
		id := vsym.Peer("id")
		seq := vsym.U64("seq")
		t0 := vsym.Now()
		err := r.CheckSequence(id, seq)
		t1 := vsym.Now()
		if err == nil {
			vsym.Reach("accepted")
			vsym.Assert(seq >= uint64(t0.Add(-vzMaxAge).UnixNano()), "a request older than the maximum age is never accepted")
			for _, a := range acc {
				if a.id == id {
					vsym.Assert(seq > a.seq, "a sequence number at or below an accepted one is never accepted again")
				}
			}
			acc = append(acc, vzSeqAccept{id, seq})
		} else {
			vsym.Reach("rejected")
			if seq >= uint64(t1.Add(-vzMaxAge).UnixNano()) {
				dup := false
				for _, a := range acc {
					if a.id == id && seq <= a.seq {
						dup = true
					}
				}
				vsym.Assert(dup, "a fresh, increasing sequence number is accepted")
			}
		}
		vsym.Idle()
	}
}

// VerifSeqRace: two requests and the clean-up race.
func VerifSeqRace() {
	r := vzNewRegistry()
	id := vsym.Peer("id")
	seq := [2]uint64{vsym.U64("seqA"), vsym.U64("seqB")}
	var res [2]error
	done := make(chan int, 2)
	for i := 0; i < 2; i++ {
		i := i
		go func() {
			res[i] = r.CheckSequence(id, seq[i])
			done <- i
		}()
	}
	<-done
	<-done
	if res[0] == nil && res[1] == nil {
		vsym.Reach("both")
		vsym.Assert(seq[0] != seq[1], "of two requests with one sequence number at most one is accepted")
	}
}
