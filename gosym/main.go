package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

var solverName = "z3-new"

// HarnessSpec is one harness of a property with its bounds per tier.
type HarnessSpec struct {
	Pkg       string                 `json:"pkg"`
	Func      string                 `json:"func"`
	Reach     []string               `json:"reach"`
	Quick     Bounds                 `json:"quick"`
	Thorough  Bounds                 `json:"thorough"`
	Native    string                 `json:"native"`    // "seq": a native replay must confirm; "try": replay natively, but the schedule may not recur; "": none
	ModelOnly []string               `json:"modelonly"` // assertions about the stand-ins, which the compiled code does not run: no native replay can confirm them
	Covers    string                 `json:"covers"`
	Tiers     string                 `json:"tiers"`
	_         map[string]interface{} `json:"-"`
}

type Bounds struct {
	NoSleep  bool           `json:"nosleep"`
	Preempt  *int           `json:"preempt"`
	Delay    *int           `json:"delay"`
	Points   []string       `json:"points"`
	Fires    *int           `json:"fires"`
	Early    *int           `json:"early"`
	MapPerm  *int           `json:"mapperm"`
	MaxPaths int64          `json:"maxpaths"`
	MaxSteps int64          `json:"maxsteps"`
	MaxDecs  int            `json:"maxdecs"`
	TimeoutS int            `json:"timeout_s"`
	Params   map[string]int `json:"params"`
}

type PropSpec struct {
	Level       string        `json:"level"`
	Harnesses   []HarnessSpec `json:"harnesses"`
	Assumptions []string      `json:"assumptions"`
	Outside     []string      `json:"outside"`
	Mods        bool          `json:"mods"` // overlay harness-mod on the module cache
}

func merge(q, t Bounds) Bounds {
	r := q
	if t.Preempt != nil {
		r.Preempt = t.Preempt
	}
	if t.Points != nil {
		r.Points = t.Points
	}
	if t.Delay != nil {
		r.Delay = t.Delay
	}
	if t.Fires != nil {
		r.Fires = t.Fires
	}
	if t.Early != nil {
		r.Early = t.Early
	}
	if t.MapPerm != nil {
		r.MapPerm = t.MapPerm
	}
	if t.MaxPaths != 0 {
		r.MaxPaths = t.MaxPaths
	}
	if t.MaxSteps != 0 {
		r.MaxSteps = t.MaxSteps
	}
	if t.MaxDecs != 0 {
		r.MaxDecs = t.MaxDecs
	}
	if t.TimeoutS != 0 {
		r.TimeoutS = t.TimeoutS
	}
	if len(t.Params) > 0 {
		m := map[string]int{}
		for k, v := range q.Params {
			m[k] = v
		}
		for k, v := range t.Params {
			m[k] = v
		}
		r.Params = m
	}
	return r
}

func iv(p *int, d int) int {
	if p == nil {
		return d
	}
	return *p
}

func (b Bounds) options() Options {
	o := Options{MaxPaths: b.MaxPaths, MaxSteps: b.MaxSteps, MaxDecs: b.MaxDecs, Preempt: iv(b.Preempt, 0), TimerFires: iv(b.Fires, 0), EarlyTimers: iv(b.Early, 0), MapPerm: iv(b.MapPerm, 0), Params: b.Params}
	if b.Delay != nil {
		o.Delay, o.NoSleep, o.Points = *b.Delay+1, true, b.Points
	}
	if b.TimeoutS > 0 {
		o.Timeout = time.Duration(b.TimeoutS) * time.Second
	}
	return o.def()
}

func main() {
	verif := flag.String("verif", "/verif", "framework directory")
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	only := flag.String("harness", "", "run only this harness function")
	prof := flag.String("cpuprofile", "", "")
	workers := flag.Int("workers", 0, "")
	flag.StringVar(&repoDir, "repo", "/repo", "code under test")
	flag.StringVar(&solverName, "solver", "z3-new", "")
	noSleep := flag.Bool("nosleep", false, "no sleep-set reduction")
	flag.BoolVar(&debugPanic, "debugpanic", false, "")
	noReplay := flag.Bool("noreplay", false, "skip the native replay")
	flag.Parse()
	if *tier == "" {
		*tier = "quick"
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	start := time.Now()
	setGoEnv(*verif)
	specs := map[string]*PropSpec{}
	files, _ := filepath.Glob(filepath.Join(*verif, "checks", "*.json"))
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			fatal(err)
		}
		m := map[string]*PropSpec{}
		if err := json.Unmarshal(b, &m); err != nil {
			fatal(fmt.Errorf("%s: %w", f, err))
		}
		for k, v := range m {
			specs[k] = v
		}
	}
	spec := specs[*prop]
	if spec == nil {
		fatal(fmt.Errorf("no such property %q", *prop))
	}
	if *tier == "thorough" {
		crossSolver = "cvc5"
	}
	ev := newEvidence(*prop, *tier, spec, start)
	pkgSet := map[string]bool{}
	for _, h := range spec.Harnesses {
		pkgSet[h.Pkg] = true
	}
	pats := []string{}
	for k := range pkgSet {
		pats = append(pats, "./"+k)
	}
	sort.Strings(pats)
	ov, ovPaths, err := overlayFor(filepath.Join(*verif, "harness"))
	if err != nil {
		fatal(err)
	}
	if spec.Mods {
		if err := overlayMods(filepath.Join(*verif, "harness-mod"), ov, ovPaths); err != nil {
			fatal(err)
		}
	}
	// Only keep overlay files of loaded packages, vsym and models.
	pr, err := load(pats, ov)
	if err != nil {
		// The harness does not fit this tree: nothing was checked.
		fmt.Printf("gosym: cannot load the code under test with the harness: %v\n", err)
		ev.Note = append(ev.Note, "harness does not compile against this tree: not checked: "+err.Error())
		ev.write(*verif)
		fmt.Printf("property=%s INCONCLUSIVE (harness does not build)\n", *prop)
		return
	}
	theProg = pr
	ev.LoadS = time.Since(start).Seconds()
	known := loadKnown(filepath.Join(*verif, "known-findings.json"))
	violations := 0
	knownSeen := map[string]bool{}
	for _, h := range spec.Harnesses {
		if violations > 0 {
			break
		}
		if *only != "" && h.Func != *only {
			continue
		}
		if h.Tiers != "" && h.Tiers != *tier {
			continue
		}
		b := h.Quick
		if *tier == "thorough" {
			b = merge(h.Quick, h.Thorough)
		}
		pk := pr.pkgs[repoModule+"/"+h.Pkg]
		if pk == nil || pk.Func(h.Func) == nil {
			fatal(fmt.Errorf("harness %s.%s not found", h.Pkg, h.Func))
		}
		opt := b.options()
		if *workers > 0 {
			opt.Workers = *workers
		}
		opt.NoSleep = *noSleep || b.NoSleep || opt.NoSleep
		if h.Native == "seq" && !*noReplay && (*tier == "thorough" || os.Getenv("GOSYM_WITNESS") != "") {
			opt.Witness = 1
		}
		if left := 780*time.Second - time.Since(start); *tier != "thorough" && opt.Timeout > left {
			opt.Timeout = left
		}
		ex := &Exploration{prog: pr, fn: pk.Func(h.Func), prop: *prop, name: h.Func, opt: opt, known: known}
		t0 := time.Now()
		q0 := stats
		ex.run()
		hs := ev.addHarness(h, ex, opt, time.Since(t0), q0)
		fmt.Printf("%s %s: paths=%d done=%d assumed=%d redundant=%d bounded=%d unsupported=%d asserts=%d/%d sym-branches=%d queries=%d %.1fs\n", *prop, h.Func, ex.paths, ex.done, ex.assumed, ex.redundant, ex.bounded, ex.unsup, ex.assertsDischarged, ex.asserts, ex.branchesSym, stats.queries-q0.queries, time.Since(t0).Seconds())
		for m, n := range ex.unsupMsgs {
			fmt.Printf("   unsupported x%d: %.600s\n", n, m)
		}
		for m, n := range ex.boundMsgs {
			fmt.Printf("   bound x%d: %.300s\n", n, m)
		}
		if ex.gaveUp {
			fmt.Printf("   bound: stopped after %d paths / %v with work left\n", ex.paths, opt.Timeout)
		}
		for _, r := range h.Reach {
			if ex.reach[r] == 0 {
				fmt.Printf("   not reached: %s\n", r)
				hs.NotReached = append(hs.NotReached, r)
			}
		}
		for i, v := range ex.witnesses {
			path := filepath.Join(*verif, "evidence", "replay", fmt.Sprintf("%s-%s-held-%d.json", *prop, h.Func, i))
			os.MkdirAll(filepath.Dir(path), 0o755)
			bb, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(path, bb, 0o644)
			res, out := nativeReplay(h, v, path, ovPaths)
			if res == "reproduced" {
				hs.Agreed++
				os.Remove(path)
				continue
			}
			hs.Disagreed = append(hs.Disagreed, path)
			fmt.Printf("   native run of a path on which the property held: %s\n%s\n", res, tail(out, 700))
			if strings.HasPrefix(res, "error") {
				break
			}
		}
		if n := len(ex.witnesses); n > 0 {
			fmt.Printf("   %d of %d sample paths behave the same in the compiled code\n", hs.Agreed, n)
		}
		for _, v := range ex.sortedViol() {
			if k := known.match(*prop, v); k != "" {
				if !knownSeen[k] {
					knownSeen[k] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k)
				}
				hs.Known = append(hs.Known, v.Sig)
				continue
			}
			path := filepath.Join(*verif, "evidence", "replay", fmt.Sprintf("%s-%s-%d.json", *prop, h.Func, violations))
			os.MkdirAll(filepath.Dir(path), 0o755)
			bb, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(path, bb, 0o644)
			fmt.Printf("   counterexample %s: %s\n      at %s\n", v.Kind, v.Msg, v.Where)
			for _, in := range v.Inputs {
				fmt.Printf("      %s %s = %s\n", in.Kind, in.Name, in.Val)
			}
			if d := v.Extra["deadlock"]; d != "" {
				fmt.Printf("      %s\n", d)
			}
			ok := true
			if h.Native != "" && !*noReplay {
				res, out := nativeReplay(h, v, path, ovPaths)
				fmt.Printf("      native replay: %s\n", res)
				hs.Replays = append(hs.Replays, map[string]string{"sig": v.Sig, "result": res})
				if res == "not-reproduced" && h.Native == "seq" && !contains(h.ModelOnly, v.Msg) {
					ok = false
					hs.Unreproduced = append(hs.Unreproduced, v.Sig)
					fmt.Printf("      counterexample not confirmed by the compiled code; not reported\n%s\n", tail(out, 1500))
				}
			}
			if ok {
				violations++
				fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
			}
		}
	}
	replayCleanup()
	ev.Violations = violations
	ev.finish(start)
	if err := ev.write(*verif); err != nil {
		fatal(err)
	}
	for _, w := range workerPool {
		w.sol.Close()
	}
	if violations > 0 {
		pprof.StopCPUProfile()
		os.Exit(1)
	}
	if ev.inconclusive() {
		fmt.Printf("property=%s INCONCLUSIVE: parts of the behaviour that the check is about were not reached\n", *prop)
		pprof.StopCPUProfile()
		return
	}
	if !ev.exhaustive() {
		fmt.Printf("property=%s held on everything explored, which was not all there is within the bounds (%.1fs)\n", *prop, time.Since(start).Seconds())
		return
	}
	fmt.Printf("property=%s OK within bounds (%.1fs)\n", *prop, time.Since(start).Seconds())
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "gosym:", err)
	os.Exit(3)
}

// Known findings: a violation is known when its harness and signature match.
type KnownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Sig      string `json:"signature"`
	What     string `json:"what"`
}
type Known struct {
	Findings []KnownFinding `json:"findings"`
	Fixed    []string       `json:"fixed"`
}

func loadKnown(path string) *Known {
	k := &Known{}
	b, err := os.ReadFile(path)
	if err != nil {
		return k
	}
	if err := json.Unmarshal(b, k); err != nil {
		fatal(err)
	}
	return k
}

func (k *Known) match(prop string, v *Violation) string {
	for _, f := range k.Findings {
		if f.Property == prop && f.Harness == v.Harness && (f.Sig == v.Sig || strings.HasSuffix(f.Sig, "*") && strings.HasPrefix(v.Sig, strings.TrimSuffix(f.Sig, "*"))) {
			return f.What
		}
	}
	return ""
}

func contains(l []string, s string) bool {
	for _, e := range l {
		if e == s {
			return true
		}
	}
	return false
}
