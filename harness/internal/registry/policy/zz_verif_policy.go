package policy

import (
	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/vsym"
	"github.com/libp2p/go-libp2p-core/peer"
)

// vzRef is the reference policy: a default and the peers it is inverted for.
type vzRef struct {
	def bool
	exc []peer.ID
}

func (r *vzRef) eval(id peer.ID) bool {
	for _, e := range r.exc {
		if e == id {
			return !r.def
		}
	}
	return r.def
}

func (r *vzRef) set(id peer.ID, allow bool) {
	var out []peer.ID
	for _, e := range r.exc {
		if e != id {
			out = append(out, e)
		}
	}
	if allow != r.def {
		out = append(out, id)
	}
	r.exc = out
}

func vzStrings(ids []peer.ID) []string {
	var out []string
	for _, i := range ids {
		out = append(out, i.String())
	}
	return out
}

func vzPeers(name string, max int) []peer.ID {
	n := vsym.Choice("n"+name, max+1)
	var out []peer.ID
	for i := 0; i < n; i++ {
		out = append(out, vsym.Peer(name))
	}
	return out
}

func vzConfig(k int) (config.Policy, *vzRef, *vzRef) {
	a := &vzRef{def: vsym.Bool("allow"), exc: vzPeers("except", k)}
	p := &vzRef{def: vsym.Bool("publish"), exc: vzPeers("pubexcept", k)}
	return config.Policy{Allow: a.def, Except: vzStrings(a.exc), Publish: p.def, PublishExcept: vzStrings(p.exc)}, a, p
}

func vzCompare(pol *Policy, a, p *vzRef) {
	q := vsym.Peer("query")
	switch vsym.Choice("question", 3) {
	case 0:
		vsym.Assert(pol.Allowed(q) == a.eval(q), "a peer is allowed exactly when the configured default, inverted for listed peers, says so")
	case 1:
		vsym.Assert(pol.PublishAllowed(q, q), "a provider may always publish for itself")
	case 2:
		r := vsym.Peer("query2")
		vsym.Assert(pol.PublishAllowed(q, r) == (q == r || p.eval(q)), "publishing for another provider follows the publish policy of the publisher")
	}
}

// VerifPolicyHistory: configuration followed by any sequence of allow, block
// and replacement.
func VerifPolicyHistory() {
	cfg, a, p := vzConfig(vsym.Param("k", 2))
	pol, err := New(cfg)
	vsym.Assert(err == nil, "a configuration of well-formed peer IDs is accepted")
	n := vsym.Choice("ops", vsym.Param("n", 3)+1)
	for i := 0; i < n; i++ {
		id := vsym.Peer("op")
		before := a.eval(id)
		switch vsym.Choice("kind", 3) {
		case 0:
			ch := pol.Allow(id)
			vsym.Assert(ch == !before, "allowing a peer reports whether the policy changed")
			a.set(id, true)
			vsym.Reach("allow")
		case 1:
			ch := pol.Block(id)
			vsym.Assert(ch == before, "blocking a peer reports whether the policy changed")
			a.set(id, false)
			vsym.Reach("block")
		case 2:
			ncfg, na, np := vzConfig(1)
			o, err := New(ncfg)
			vsym.Assert(err == nil, "a configuration of well-formed peer IDs is accepted")
			pol.Copy(o)
			a, p = na, np
			vsym.Reach("replace")
		}
	}
	switch vsym.Choice("view", 3) {
	case 0:
		vzCompare(pol, a, p)
	case 1:
		// A policy written to a configuration and read back is the same policy.
		pol2, err := New(pol.ToConfig())
		vsym.Assert(err == nil, "the configuration of a policy is valid")
		vzCompare(pol2, a, p)
	case 2:
		if pol.NoneAllowed() {
			vsym.Reach("none")
			q := vsym.Peer("witness")
			vsym.Assert(!pol.Allowed(q), "a policy that reports allowing nobody allows nobody")
		} else if !a.def {
			vsym.Assert(len(a.exc) > 0, "a policy that reports allowing somebody allows somebody")
		}
	}
}

// VerifPolicyBad: a malformed peer ID anywhere rejects the configuration.
func VerifPolicyBad() {
	s := vsym.Str("id")
	_, derr := peer.Decode(s)
	good := vsym.Peer("good").String()
	cfg := config.Policy{Allow: vsym.Bool("allow"), Publish: vsym.Bool("publish"), Except: []string{good}, PublishExcept: []string{good}}
	switch vsym.Choice("where", 4) {
	case 0:
		cfg.Except = []string{s}
	case 1:
		cfg.Except = []string{good, s}
	case 2:
		cfg.PublishExcept = []string{s}
	case 3:
		cfg.PublishExcept = []string{good, s}
	}
	_, err := New(cfg)
	vsym.Assert((err != nil) == (derr != nil), "a configuration is rejected exactly when it names a malformed peer ID")
	if err != nil {
		vsym.Reach("rejected")
	}
}
