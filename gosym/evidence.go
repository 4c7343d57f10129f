package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type harnessEv struct {
	Harness      string              `json:"harness"`
	Covers       string              `json:"covers,omitempty"`
	Bounds       map[string]int64    `json:"bounds"`
	Paths        int64               `json:"paths"`
	Completed    int64               `json:"paths_completed"`
	Assumed      int64               `json:"paths_pruned_by_assumption"`
	Redundant    int64               `json:"paths_pruned_as_equivalent_schedules"`
	Bounded      int64               `json:"paths_cut_at_bound"`
	Unsupported  int64               `json:"paths_unsupported"`
	Exhausted    bool                `json:"exhausted_within_bounds"`
	Asserts      int64               `json:"assertions_checked"`
	Discharged   int64               `json:"assertions_discharged"`
	Undecided    int64               `json:"assertions_undecided"`
	SymBranches  int64               `json:"symbolic_branches"`
	Decisions    int64               `json:"decisions"`
	SchedPoints  int64               `json:"scheduling_choices"`
	Steps        int64               `json:"ssa_instructions"`
	Queries      int64               `json:"solver_queries"`
	CacheHits    int64               `json:"query_cache_hits"`
	SolverS      float64             `json:"solver_s"`
	Wall         float64             `json:"wall_s"`
	Reached      map[string]int      `json:"reached"`
	NotReached   []string            `json:"not_reached,omitempty"`
	RepoFuncs    []string            `json:"functions_encoded"`
	DepFuncs     int                 `json:"dependency_functions_encoded"`
	Notes        []string            `json:"model_notes,omitempty"`
	UnsupMsgs    map[string]int      `json:"unsupported,omitempty"`
	BoundMsgs    map[string]int      `json:"bound_messages,omitempty"`
	Known        []string            `json:"known_findings,omitempty"`
	Unreproduced []string            `json:"counterexamples_not_reproduced,omitempty"`
	Agreed       int                 `json:"sample_paths_confirmed_natively"`
	Disagreed    []string            `json:"sample_paths_not_confirmed,omitempty"`
	Replays      []map[string]string `json:"native_replays,omitempty"`
}

type Evidence struct {
	prop, tier string
	spec       *PropSpec
	Hs         []*harnessEv
	Note       []string
	LoadS      float64
	Violations int
	wall       float64
	samples    []string
	replays    int
}

func newEvidence(prop, tier string, spec *PropSpec, start time.Time) *Evidence {
	return &Evidence{prop: prop, tier: tier, spec: spec}
}

func (e *Evidence) addHarness(h HarnessSpec, ex *Exploration, opt Options, d time.Duration, q0 Stats) *harnessEv {
	hs := &harnessEv{Harness: h.Pkg + "." + h.Func, Covers: h.Covers, Paths: ex.paths, Completed: ex.done, Assumed: ex.assumed, Redundant: ex.redundant, Bounded: ex.bounded, Unsupported: ex.unsup,
		Exhausted: !ex.gaveUp && ex.bounded == 0 && ex.unsup == 0, Asserts: ex.asserts, Discharged: ex.assertsDischarged, Undecided: ex.unknownAsserts,
		SymBranches: ex.branchesSym, Decisions: ex.decisions, SchedPoints: ex.schedPoints, Steps: ex.steps,
		Queries: stats.queries - q0.queries, CacheHits: stats.cacheHits - q0.cacheHits, SolverS: float64(stats.solverNs-q0.solverNs) / 1e9, Wall: d.Seconds(),
		Reached: ex.reach, UnsupMsgs: ex.unsupMsgs, BoundMsgs: ex.boundMsgs}
	hs.Bounds = map[string]int64{"preemptions": int64(opt.Preempt), "timer_fires": int64(opt.TimerFires), "map_orders_up_to": int64(opt.MapPerm), "max_paths": opt.MaxPaths, "max_steps": opt.MaxSteps, "max_decisions": int64(opt.MaxDecs)}
	if opt.Delay > 0 {
		delete(hs.Bounds, "preemptions")
		hs.Bounds["schedule_deviations"] = int64(opt.Delay - 1)
	}
	for k, v := range opt.Params {
		hs.Bounds[k] = int64(v)
	}
	for f := range ex.funcs {
		if strings.Contains(f, repoModule) {
			if !strings.Contains(f, "Verif") && !strings.Contains(f, "/vsym") && !strings.Contains(f, ".vz") {
				hs.RepoFuncs = append(hs.RepoFuncs, strings.ReplaceAll(f, repoModule+"/", ""))
			}
		} else {
			hs.DepFuncs++
		}
	}
	sort.Strings(hs.RepoFuncs)
	for n := range ex.notes {
		hs.Notes = append(hs.Notes, n)
	}
	sort.Strings(hs.Notes)
	e.Hs = append(e.Hs, hs)
	for _, s := range ex.samples {
		e.samples = append(e.samples, h.Func+": "+s)
	}
	return hs
}

func (e *Evidence) finish(start time.Time) { e.wall = time.Since(start).Seconds() }

func (e *Evidence) write(verif string) error {
	var states, trans, asserts, disch, replays int64
	ex := true
	for _, h := range e.Hs {
		states += h.Completed
		trans += h.Decisions
		asserts += h.Asserts
		disch += h.Discharged
		replays += int64(len(h.Replays) + h.Agreed)
		ex = ex && h.Exhausted
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if len(e.samples) == 0 {
		e.samples = []string{"none: " + strings.Join(e.Note, "; ")}
	}
	cov := map[string]interface{}{
		"explanation":                   "bounded symbolic execution of the real code (go/ssa of the current tree) with an SMT solver deciding every symbolic branch and every assertion on every path",
		"states":                        states,
		"transitions":                   trans,
		"samples":                       e.samples,
		"exhaustive":                    ex && len(e.Hs) > 0,
		"traces_validated_against_impl": replays,
		"assertions_checked":            asserts,
		"assertions_discharged":         disch,
		"solver":                        solverName,
		"solver_queries":                stats.queries,
		"solver_sat":                    stats.sat,
		"solver_unsat":                  stats.unsat,
		"solver_unknown":                stats.unknown,
		"solver_s":                      float64(stats.solverNs) / 1e9,
		"cross_checked_with_cvc5":       stats.crossChecked,
		"solver_disagreements":          crossDisagree,
		"load_s":                        e.LoadS,
		"harnesses":                     e.Hs,
		"outside_the_claim":             e.spec.Outside,
	}
	if len(e.Note) > 0 {
		cov["notes"] = e.Note
	}
	out := map[string]interface{}{"property": e.prop, "tier": e.tier, "seed": seed, "level": e.spec.Level, "coverage": cov, "assumptions": e.spec.Assumptions, "wall_s": e.wall, "violations": e.Violations}
	b, err := json.MarshalIndent(out, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	return os.WriteFile(filepath.Join(verif, "evidence", e.prop+".json"), b, 0o644)
}

// inconclusive reports whether some harness missed a goal it must reach, so
// that its silence would be vacuous.
func (e *Evidence) inconclusive() bool {
	for _, h := range e.Hs {
		if len(h.NotReached) > 0 {
			return true
		}
	}
	return false
}

func (e *Evidence) exhaustive() bool {
	for _, h := range e.Hs {
		if !h.Exhausted {
			return false
		}
	}
	return true
}
