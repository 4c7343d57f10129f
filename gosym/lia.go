package main

// Linear integer translation of 64-bit arithmetic. A query whose 64-bit terms
// are only variables, constants, sums, differences, negations, conditionals and
// comparisons is given to the solver over the integers. The translation is
// exact: intervals show where a sum cannot wrap, and where they do not, the
// wrap-around is spelled out.

import (
	"fmt"
	"math/big"
	"strings"
)

var (
	bMin  = new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), 63))
	bMax  = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 63), big.NewInt(1))
	bFull = new(big.Int).Lsh(big.NewInt(1), 64)
)

type ival struct{ lo, hi *big.Int }

type liaTr struct {
	bounds map[*Term]ival
	iv     map[*Term]ival
	txt    map[*Term]string
	decls  strings.Builder
	side   []string
	s      *Solver
}

// liaOK reports whether every 64-bit term is in the fragment, and whether
// there is any arithmetic at all.
func liaOK(t *Term, seen map[*Term]bool, arith *bool) bool {
	if seen[t] {
		return true
	}
	seen[t] = true
	switch t.op {
	case OConst, OVar, ONot, OAnd, OOr, OEq, OIte:
	case OAdd, OSub, ONeg:
		if t.w != 64 {
			return false
		}
		*arith = true
	case OMul:
		if t.w != 64 || !t.args[0].isConst() && !t.args[1].isConst() {
			return false
		}
		*arith = true
	case OULt, OULe, OSLt, OSLe:
		if t.args[0].w != 64 {
			return false
		}
	case OUF:
		for _, a := range t.args {
			if a.w == 64 {
				return false
			}
		}
	default:
		return false
	}
	for _, a := range t.args {
		if !liaOK(a, seen, arith) {
			return false
		}
	}
	return true
}

func sv(t *Term) *big.Int { return big.NewInt(int64(t.k)) }

// learn takes variable bounds from a conjunct.
func (l *liaTr) learn(c *Term) {
	switch c.op {
	case OAnd:
		for _, a := range c.args {
			l.learn(a)
		}
	case OSLe, OSLt:
		a, b := c.args[0], c.args[1]
		if a.isConst() && !b.isConst() {
			k := sv(a)
			if c.op == OSLt {
				k = new(big.Int).Add(k, big.NewInt(1))
			}
			l.tighten(b, k, nil)
		} else if b.isConst() && !a.isConst() {
			k := sv(b)
			if c.op == OSLt {
				k = new(big.Int).Sub(k, big.NewInt(1))
			}
			l.tighten(a, nil, k)
		} else if !a.isConst() && !b.isConst() {
			if x, ok := l.bounds[a]; ok && x.lo != nil {
				l.tighten(b, x.lo, nil)
			}
			if x, ok := l.bounds[b]; ok && x.hi != nil {
				l.tighten(a, nil, x.hi)
			}
		}
	case OULe, OULt:
		a, b := c.args[0], c.args[1]
		if b.isConst() && !a.isConst() && int64(b.k) >= 0 {
			k := sv(b)
			if c.op == OULt {
				k = new(big.Int).Sub(k, big.NewInt(1))
			}
			l.tighten(a, big.NewInt(0), k)
		}
	case ONot:
		n := c.args[0]
		if n.op == OSLt || n.op == OSLe {
			op := OSLe
			if n.op == OSLe {
				op = OSLt
			}
			l.learn(&Term{op: op, args: []*Term{n.args[1], n.args[0]}})
		}
	}
}

func (l *liaTr) tighten(t *Term, lo, hi *big.Int) {
	if t.op != OVar && t.op != OUF {
		return
	}
	b := l.bounds[t]
	if lo != nil && (b.lo == nil || lo.Cmp(b.lo) > 0) {
		b.lo = lo
	}
	if hi != nil && (b.hi == nil || hi.Cmp(b.hi) < 0) {
		b.hi = hi
	}
	l.bounds[t] = b
}

func lit(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

func (l *liaTr) wrap(s string, v ival) (string, ival) {
	if v.lo.Cmp(bMin) >= 0 && v.hi.Cmp(bMax) <= 0 {
		return s, v
	}
	// |v| stays below two full turns for sums of two values.
	n := fmt.Sprintf("w!%d", len(l.side))
	l.decls.WriteString("(declare-const " + n + " Int)\n(declare-const k" + n + " Int)\n")
	l.side = append(l.side, fmt.Sprintf("(and (= %s (+ %s (* k%s %s))) (<= %s %s) (<= %s %s))", n, s, n, bFull, lit(bMin), n, n, bMax))
	return n, ival{bMin, bMax}
}

func (l *liaTr) num(t *Term) (string, ival) {
	if s, ok := l.txt[t]; ok {
		return s, l.iv[t]
	}
	s, v := l.num1(t)
	l.txt[t], l.iv[t] = s, v
	return s, v
}

func (l *liaTr) num1(t *Term) (string, ival) {
	switch t.op {
	case OConst:
		k := sv(t)
		return lit(k), ival{k, k}
	case OVar, OUF:
		v := ival{bMin, bMax}
		if b, ok := l.bounds[t]; ok {
			if b.lo != nil {
				v.lo = b.lo
			}
			if b.hi != nil {
				v.hi = b.hi
			}
		}
		n := "i!" + t.name
		s := qname(n)
		if t.op == OVar {
			if !l.s.decl[n] {
				l.s.decl[n] = true
				l.decls.WriteString("(declare-const " + s + " Int)\n")
			}
		} else {
			if !l.s.decl["uf:"+n] {
				l.s.decl["uf:"+n] = true
				l.decls.WriteString("(declare-fun " + s + " (")
				for _, a := range t.args {
					l.decls.WriteString(sortName(a.w) + " ")
				}
				l.decls.WriteString(") Int)\n")
			}
			r := "(" + s
			for _, a := range t.args {
				r += " " + l.bool(a)
			}
			s = r + ")"
		}
		// The learned bounds are asserted too: uns drops the case they rule out,
		// also from the conjunct they were learned from.
		l.side = append(l.side, fmt.Sprintf("(and (<= %s %s) (<= %s %s))", lit(v.lo), s, s, lit(v.hi)))
		return s, v
	case OAdd, OSub:
		a, x := l.num(t.args[0])
		b, y := l.num(t.args[1])
		if t.op == OAdd {
			return l.wrap("(+ "+a+" "+b+")", ival{new(big.Int).Add(x.lo, y.lo), new(big.Int).Add(x.hi, y.hi)})
		}
		return l.wrap("(- "+a+" "+b+")", ival{new(big.Int).Sub(x.lo, y.hi), new(big.Int).Sub(x.hi, y.lo)})
	case ONeg:
		a, x := l.num(t.args[0])
		return l.wrap("(- "+a+")", ival{new(big.Int).Neg(x.hi), new(big.Int).Neg(x.lo)})
	case OMul:
		a, x := l.num(t.args[0])
		b, y := l.num(t.args[1])
		ps := []*big.Int{new(big.Int).Mul(x.lo, y.lo), new(big.Int).Mul(x.lo, y.hi), new(big.Int).Mul(x.hi, y.lo), new(big.Int).Mul(x.hi, y.hi)}
		v := ival{ps[0], ps[0]}
		for _, p := range ps {
			if p.Cmp(v.lo) < 0 {
				v.lo = p
			}
			if p.Cmp(v.hi) > 0 {
				v.hi = p
			}
		}
		return l.wrap("(* "+a+" "+b+")", v)
	case OIte:
		c := l.bool(t.args[0])
		a, x := l.num(t.args[1])
		b, y := l.num(t.args[2])
		v := x
		if y.lo.Cmp(v.lo) < 0 {
			v.lo = y.lo
		}
		if y.hi.Cmp(v.hi) > 0 {
			v.hi = y.hi
		}
		return "(ite " + c + " " + a + " " + b + ")", v
	}
	panic("lia: " + t.String())
}

func (l *liaTr) uns(t *Term) string {
	s, v := l.num(t)
	if v.lo.Sign() >= 0 {
		return s
	}
	return "(ite (< " + s + " 0) (+ " + s + " " + bFull.String() + ") " + s + ")"
}

// bool translates a term that is not 64 bits wide.
func (l *liaTr) bool(t *Term) string {
	if t.w == 64 {
		s, _ := l.num(t)
		return s
	}
	if s, ok := l.txt[t]; ok {
		return s
	}
	var s string
	switch t.op {
	case OConst:
		var sb strings.Builder
		t.smt(&sb)
		s = sb.String()
	case OVar:
		if !l.s.decl[t.name] {
			l.s.decl[t.name] = true
			l.decls.WriteString("(declare-const " + qname(t.name) + " " + sortName(t.w) + ")\n")
		}
		s = qname(t.name)
	case OSLt, OSLe, OULt, OULe:
		o := "<"
		if t.op == OSLe || t.op == OULe {
			o = "<="
		}
		if t.op == OULt || t.op == OULe {
			s = "(" + o + " " + l.uns(t.args[0]) + " " + l.uns(t.args[1]) + ")"
		} else {
			a, _ := l.num(t.args[0])
			b, _ := l.num(t.args[1])
			s = "(" + o + " " + a + " " + b + ")"
		}
	case OUF:
		if !l.s.decl["uf:"+t.name] {
			l.s.decl["uf:"+t.name] = true
			l.decls.WriteString("(declare-fun " + qname(t.name) + " (")
			for _, a := range t.args {
				l.decls.WriteString(sortName(a.w) + " ")
			}
			l.decls.WriteString(") " + sortName(t.w) + ")\n")
		}
		fallthrough
	default:
		n := opNames[t.op]
		if t.op == OUF {
			n = qname(t.name)
		}
		var sb strings.Builder
		sb.WriteString("(" + n)
		for _, a := range t.args {
			sb.WriteString(" " + l.bool(a))
		}
		sb.WriteString(")")
		s = sb.String()
	}
	l.txt[t] = s
	return s
}

// checkLIA decides the conjunction over the integers, if it is in the fragment.
func (s *Solver) checkLIA(cs []*Term, want []*Term) (res string, vals []uint64, ok bool) {
	arith := false
	seen := map[*Term]bool{}
	for _, c := range cs {
		if !liaOK(c, seen, &arith) {
			return "", nil, false
		}
	}
	if !arith {
		return "", nil, false
	}
	for _, c := range want {
		if !liaOK(c, seen, &arith) {
			return "", nil, false
		}
	}
	if s.lia == nil {
		x := &Solver{name: s.name, ints: true}
		if err := x.start(); err != nil {
			return "", nil, false
		}
		s.lia = x
	}
	l := &liaTr{bounds: map[*Term]ival{}, iv: map[*Term]ival{}, txt: map[*Term]string{}, s: s.lia}
	for i := 0; i < 3; i++ {
		for _, c := range cs {
			l.learn(c)
		}
	}
	// Declarations are scoped to the query.
	s.lia.decl = map[string]bool{}
	var body strings.Builder
	for _, c := range cs {
		body.WriteString("(assert " + l.bool(c) + ")\n")
	}
	wtxt := make([]string, len(want))
	for i, t := range want {
		wtxt[i] = l.bool(t)
	}
	for _, x := range l.side {
		body.WriteString("(assert " + x + ")\n")
	}
	q := "(push 1)\n" + l.decls.String() + body.String() + "(check-sat)\n"
	res, vals = s.lia.ask(q, wtxt)
	return res, vals, true
}
