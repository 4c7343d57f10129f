package ingx

import (
	"context"

	"github.com/filecoin-project/go-legs"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/vsym"
	"github.com/libp2p/go-libp2p-core/peer"
	"golang.org/x/time/rate"
)

// rates is a configuration of rate limits and what it means.
func rates() (cfg config.RateLimit, valid bool, limited func(peer.ID) bool) {
	cfg = config.RateLimit{Apply: vsym.Bool("apply"), BlocksPerSecond: 5, BurstSize: 7}
	valid = true
	var exc []peer.ID
	n := vsym.Choice("exceptions", 3)
	for i := 0; i < n; i++ {
		e := vsym.Peer("exception")
		exc = append(exc, e)
		cfg.Except = append(cfg.Except, e.String())
	}
	switch vsym.Choice("rates", 6) {
	case 0:
	case 1:
		cfg.BlocksPerSecond = 0
	case 2:
		cfg.BlocksPerSecond, valid = -1, false
	case 3:
		cfg.BurstSize, valid = -1, false
	case 4:
		cfg.Except, valid = append(cfg.Except, "no peer"), false
	case 5:
		cfg.BlocksPerSecond, cfg.BurstSize = 11, 3
	}
	return cfg, valid, func(id peer.ID) bool {
		if cfg.BlocksPerSecond == 0 {
			return false
		}
		for _, e := range exc {
			if e == id {
				return !cfg.Apply
			}
		}
		return cfg.Apply
	}
}

// VerifRates: syncs are rate limited exactly as configured last.
func VerifRates() {
	vsym.NoTimers()
	w := New()
	cfg, valid, limited := rates()
	vsym.Assume(valid)
	w.Cfg.RateLimit = cfg
	w.Start()
	if vsym.Flip("reconfigured") {
		ncfg, ok, nlimited := rates()
		err := w.Ing.SetRateLimit(ncfg)
		vsym.Assert((err == nil) == ok, "a configuration of rate limits is refused exactly when it is malformed")
		if ok {
			cfg, limited = ncfg, nlimited
			vsym.Reach("replaced")
		} else {
			vsym.Reach("refused")
		}
	}
	pub := vsym.Peer("publisher")
	var got []*rate.Limiter
	legs.VerifRate = func(id peer.ID, l *rate.Limiter) {
		vsym.Assert(id == pub, "the limiter is that of the publisher")
		got = append(got, l)
	}
	ch, err := w.Ing.Sync(context.Background(), pub, vsym.Addr("publisher address"), 0, false)
	if err == nil {
		for range ch {
		}
	}
	legs.VerifRate = nil
	vsym.Assert(len(got) > 0, "a sync asks for its rate limit")
	for _, l := range got {
		if limited(pub) {
			vsym.Assert(l != nil && l.Limit() == rate.Limit(cfg.BlocksPerSecond) && l.Burst() == cfg.BurstSize, "a publisher that is to be limited is limited to the configured rate")
			vsym.Reach("limited")
		} else {
			vsym.Assert(l == nil || l.Limit() == rate.Inf, "a publisher that is not to be limited is not")
			vsym.Reach("free")
		}
	}
	w.Stop()
}
