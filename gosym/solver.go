package main

// Solver: one z3 (or cvc5) process per worker, driven over SMT-LIB 2 with
// push/pop; queries are sliced to the constraints sharing variables with the
// goal and cached process-wide.

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Stats struct {
	queries, cacheHits, unknown int64
	solverNs                    int64
	sat, unsat                  int64
	crossChecked                int64
}

var stats Stats

type Solver struct {
	local map[string]bool // feasibility by term identities

	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	decl  map[string]bool
	dlist []string
	name  string
	log   io.Writer
	ints  bool
	lia   *Solver
	cross bool // second opinion: bit vectors only, not counted
}

func NewSolver(name string) (*Solver, error) {
	s := &Solver{name: name}
	return s, s.start()
}

func (s *Solver) start() error {
	var cmd *exec.Cmd
	switch s.name {
	case "cvc5":
		cmd = exec.Command("cvc5", "--incremental", "--produce-models", "--lang=smt2", "--tlimit-per=5000")
	default:
		cmd = exec.Command(s.name, "-in", "-smt2")
	}
	in, err := cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return err
	}
	cmd.Stderr = nil
	if err := cmd.Start(); err != nil {
		return err
	}
	s.cmd, s.in, s.out = cmd, in, bufio.NewReaderSize(out, 1<<16)
	s.decl = map[string]bool{}
	if s.name == "cvc5" {
		fmt.Fprintln(s.in, "(set-logic ALL)")
	} else {
		logic := "QF_UFBV"
		if s.ints {
			logic = "ALL"
		}
		fmt.Fprintln(s.in, "(set-option :produce-models true)\n(set-option :timeout 20000)\n(set-logic "+logic+")")
	}
	return nil
}

func (s *Solver) Close() {
	if s.lia != nil {
		s.lia.Close()
		s.lia = nil
	}
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) declare(sb *strings.Builder, t *Term, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	switch t.op {
	case OVar:
		if !s.decl[t.name] {
			s.decl[t.name] = true
			fmt.Fprintf(sb, "(declare-const %s %s)\n", qname(t.name), sortName(t.w))
		}
	case OUF:
		if !s.decl["uf:"+t.name] {
			s.decl["uf:"+t.name] = true
			fmt.Fprintf(sb, "(declare-fun %s (", qname(t.name))
			for _, a := range t.args {
				sb.WriteString(sortName(a.w) + " ")
			}
			fmt.Fprintf(sb, ") %s)\n", sortName(t.w))
		}
	}
	for _, a := range t.args {
		s.declare(sb, a, seen)
	}
}

// check decides the conjunction of cs. It returns "sat", "unsat" or
// "unknown"; with want, also the values of those terms in the model.
func (s *Solver) check(cs []*Term, want []*Term) (string, []uint64) {
	if !s.cross {
		if r, v, ok := s.checkLIA(cs, want); ok {
			return r, v
		}
	}
	var sb strings.Builder
	seen := map[*Term]bool{}
	for _, c := range cs {
		s.declare(&sb, c, seen)
	}
	for _, c := range want {
		s.declare(&sb, c, seen)
	}
	sb.WriteString("(push 1)\n")
	for _, c := range cs {
		sb.WriteString("(assert ")
		c.smt(&sb)
		sb.WriteString(")\n")
	}
	sb.WriteString("(check-sat)\n")
	ws := make([]string, len(want))
	for i, t := range want {
		var q strings.Builder
		t.smt(&q)
		ws[i] = q.String()
	}
	return s.ask(sb.String(), ws)
}

// ask sends a query that was pushed and ends in check-sat, and pops it.
func (s *Solver) ask(query string, want []string) (string, []uint64) {
	t0 := time.Now()
	if s.log != nil {
		io.WriteString(s.log, query)
	}
	io.WriteString(s.in, query)
	res := s.line()
	st := &stats
	if s.cross {
		st = new(Stats)
	}
	atomic.AddInt64(&st.queries, 1)
	var vals []uint64
	switch res {
	case "sat":
		atomic.AddInt64(&st.sat, 1)
		for i := 0; i < len(want); i += 200 {
			j := i + 200
			if j > len(want) {
				j = len(want)
			}
			io.WriteString(s.in, "(get-value ("+strings.Join(want[i:j], " ")+"))\n")
			vals = append(vals, s.values(j-i)...)
		}
	case "unsat":
		atomic.AddInt64(&st.unsat, 1)
	default:
		atomic.AddInt64(&st.unknown, 1)
		if res != "unknown" && res != "timeout" {
			if atomic.AddInt64(&saidN, 1) < 5 {
				fmt.Printf("gosym: solver said %q\n", res)
			}
			s.Close()
			if err := s.start(); err != nil {
				panic(err)
			}
			return "unknown", nil
		}
		res = "unknown"
	}
	io.WriteString(s.in, "(pop 1)\n")
	atomic.AddInt64(&st.solverNs, int64(time.Since(t0)))
	return res, vals
}

var saidN int64

func (s *Solver) line() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		return "eof"
	}
	return strings.TrimSpace(l)
}

// values parses "((t v) (t v) ...)" where v is #x.., #b.., true or false.
func (s *Solver) values(n int) []uint64 {
	var sb strings.Builder
	depth := 0
	started := false
	inq := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return make([]uint64, n)
		}
		sb.WriteByte(b)
		if b == '|' {
			inq = !inq
		}
		if !inq {
			if b == '(' {
				depth++
				started = true
			} else if b == ')' {
				depth--
			}
		}
		if started && depth == 0 {
			s.out.ReadString('\n')
			break
		}
	}
	txt := sb.String()
	// split the top-level pairs
	var r []uint64
	depth = 0
	inq = false
	start := 0
	for i := 0; i < len(txt); i++ {
		c := txt[i]
		if c == '|' {
			inq = !inq
		}
		if inq {
			continue
		}
		if c == '(' {
			depth++
			if depth == 2 {
				start = i
			}
		} else if c == ')' {
			if depth == 2 {
				pair := strings.TrimSpace(txt[start+1 : i])
				r = append(r, parseVal(pair))
			}
			depth--
		}
	}
	for len(r) < n {
		r = append(r, 0)
	}
	return r
}

func parseVal(pair string) uint64 {
	// the value is the last token, or "(_ bvN w)"
	if strings.HasSuffix(pair, ")") {
		i := strings.LastIndex(pair, "(_ bv")
		if i >= 0 {
			f := strings.Fields(pair[i+5:])
			v, _ := strconv.ParseUint(f[0], 10, 64)
			return v
		}
		if i = strings.LastIndex(pair, "(- "); i >= 0 {
			v, err := strconv.ParseUint(strings.TrimSuffix(pair[i+3:], ")"), 10, 64)
			if err == nil {
				return -v
			}
		}
		return 0
	}
	i := strings.LastIndexAny(pair, " \n\t)")
	v := pair[i+1:]
	switch {
	case v == "true":
		return 1
	case v == "false":
		return 0
	case strings.HasPrefix(v, "#x"):
		u, _ := strconv.ParseUint(v[2:], 16, 64)
		return u
	case strings.HasPrefix(v, "#b"):
		u, _ := strconv.ParseUint(v[2:], 2, 64)
		return u
	}
	u, _ := strconv.ParseUint(v, 10, 64)
	return u
}

// slice returns the members of pc connected to goal through shared variables.
func slice(pc []*Term, goal *Term) []*Term {
	in := map[int]bool{}
	for _, v := range goal.vars {
		in[v] = true
	}
	used := make([]bool, len(pc))
	var r []*Term
	for changed := true; changed; {
		changed = false
		for i, c := range pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range c.vars {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				r = append(r, c)
				for _, v := range c.vars {
					in[v] = true
				}
			}
		}
	}
	return r
}

var qcache sync.Map // string -> bool (sat)

// feasible reports whether pc && goal is satisfiable ("unknown" counts as yes,
// and is recorded).
func (s *Solver) feasible(pc []*Term, goal *Term) (bool, bool) {
	if goal.isConst() {
		return goal.k != 0, true
	}
	rel := slice(pc, goal)
	// First by term identity within this worker, then by text across workers.
	ids := make([]byte, 0, 4*(len(rel)+1))
	sort.Slice(rel, func(i, j int) bool { return rel[i].id < rel[j].id })
	for _, c := range rel {
		ids = append(ids, byte(c.id), byte(c.id>>8), byte(c.id>>16), byte(c.id>>24))
	}
	ids = append(ids, byte(goal.id), byte(goal.id>>8), byte(goal.id>>16), byte(goal.id>>24))
	if v, ok := s.local[string(ids)]; ok {
		atomic.AddInt64(&stats.cacheHits, 1)
		return v, true
	}
	strs := make([]string, 0, len(rel))
	for _, c := range rel {
		strs = append(strs, c.String())
	}
	sort.Strings(strs)
	key := goal.String() + "\x00" + strings.Join(strs, "\x00")
	if v, ok := qcache.Load(key); ok {
		atomic.AddInt64(&stats.cacheHits, 1)
		s.remember(ids, v.(bool))
		return v.(bool), true
	}
	res, _ := s.check(append(rel, goal), nil)
	if res == "unknown" {
		return true, false
	}
	if crossSolver != "" {
		crossCheck(append(rel, goal), res)
	}
	qcache.Store(key, res == "sat")
	s.remember(ids, res == "sat")
	return res == "sat", true
}

func (s *Solver) remember(ids []byte, v bool) {
	if s.local == nil || len(s.local) > 1<<18 {
		s.local = map[string]bool{}
	}
	s.local[string(ids)] = v
}

// Cross-checking with a second solver (thorough tier).
var crossSolver string
var crossMu sync.Mutex
var crossS *Solver
var crossDisagree int64

func crossCheck(cs []*Term, res string) {
	crossMu.Lock()
	defer crossMu.Unlock()
	if crossS == nil {
		var err error
		crossS, err = NewSolver(crossSolver)
		if err != nil {
			crossSolver = ""
			return
		}
		crossS.cross = true
	}
	r2, _ := crossS.check(cs, nil)
	if r2 == "unknown" {
		return
	}
	atomic.AddInt64(&stats.crossChecked, 1)
	if r2 != res {
		atomic.AddInt64(&crossDisagree, 1)
		fmt.Printf("gosym: SOLVER DISAGREEMENT %s vs %s\n", res, r2)
	}
}
