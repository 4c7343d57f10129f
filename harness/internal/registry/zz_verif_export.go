package registry

import (
	"time"

	"github.com/filecoin-project/storetheindex/config"
)

// VerifHide hides every provider that was heard from, as a poll without answer
// does.
func (r *Registry) VerifHide() {
	r.pollProviders(polling{interval: 0, retryAfter: 0, stopAfter: 1 << 62}, nil)
	r.pollProviders(polling{interval: 0, retryAfter: 0, stopAfter: 1 << 62}, nil)
}

// VerifOpenConfig is a discovery configuration that allows everybody.
func VerifOpenConfig() config.Discovery {
	return config.Discovery{
		Policy:       config.Policy{Allow: true, Publish: true},
		PollInterval: config.Duration(24 * time.Hour), PollRetryAfter: config.Duration(5 * time.Hour), PollStopAfter: config.Duration(168 * time.Hour),
	}
}
