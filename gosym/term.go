package main

// Terms: hash-consed boolean / bit-vector expressions with constant folding.
// Every machine integer and boolean of the interpreted program is a Term.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OShl
	OLShr
	OAShr
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OULt
	OULe
	OSLt
	OSLe
	OZext
	OSext
	OTrunc
	OUF
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg", OULt: "bvult", OULe: "bvule", OSLt: "bvslt", OSLe: "bvsle"}

// Term is immutable. w is 0 for Bool, else the bit width.
type Term struct {
	op   Op
	w    uint8
	k    uint64 // constant value
	name string // variable / UF name
	args []*Term
	id   int
	vars []int // sorted ids of the variables (and UF names) in it
	str  string
}

type termKey struct {
	op         Op
	w          uint8
	k          uint64
	name       string
	a0, a1, a2 *Term
}

// TB builds terms; one per worker.
type TB struct {
	tab    map[termKey]*Term
	n      int
	vars   []*Term
	varIdx map[string]int
	small  [5][260]*Term
	tt, ff *Term
}

func NewTB() *TB {
	tb := &TB{tab: map[termKey]*Term{}, varIdx: map[string]int{}}
	tb.ff = tb.mk(termKey{op: OConst, w: 0, k: 0})
	tb.tt = tb.mk(termKey{op: OConst, w: 0, k: 1})
	return tb
}

func widx(w uint8) int {
	switch w {
	case 8:
		return 1
	case 16:
		return 2
	case 32:
		return 3
	case 64:
		return 4
	}
	return 0
}

func (tb *TB) mk(k termKey) *Term {
	if t, ok := tb.tab[k]; ok {
		return t
	}
	t := &Term{op: k.op, w: k.w, k: k.k, name: k.name, id: tb.n}
	tb.n++
	if k.a0 != nil {
		t.args = append(t.args, k.a0)
	}
	if k.a1 != nil {
		t.args = append(t.args, k.a1)
	}
	if k.a2 != nil {
		t.args = append(t.args, k.a2)
	}
	switch {
	case k.op == OConst:
	case k.op == OVar:
		t.vars = []int{tb.varID(k.name, t)}
	default:
		var vs []int
		for _, a := range t.args {
			vs = mergeInts(vs, a.vars)
		}
		if k.op == OUF {
			// functions link all their applications
			vs = mergeInts(vs, []int{tb.varID("uf:"+k.name, t)})
		}
		t.vars = vs
	}
	tb.tab[k] = t
	return t
}

func (tb *TB) varID(n string, t *Term) int {
	if i, ok := tb.varIdx[n]; ok {
		return i
	}
	i := len(tb.vars)
	tb.vars = append(tb.vars, t)
	tb.varIdx[n] = i
	return i
}

func mergeInts(a, b []int) []int {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	same := len(a) == len(b)
	if same {
		for i := range a {
			if a[i] != b[i] {
				same = false
				break
			}
		}
		if same {
			return a
		}
	}
	r := make([]int, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j == len(b) || (i < len(a) && a[i] < b[j]):
			r = append(r, a[i])
			i++
		case i == len(a) || b[j] < a[i]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func signed(k uint64, w uint8) int64 {
	if w >= 64 {
		return int64(k)
	}
	s := 64 - w
	return int64(k<<s) >> s
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) sval() int64   { return signed(t.k, t.w) }

func (tb *TB) Const(w uint8, k uint64) *Term {
	k &= mask(w)
	if w == 0 {
		if k != 0 {
			return tb.tt
		}
		return tb.ff
	}
	if i := widx(w); i > 0 && k < 260 {
		if t := tb.small[i][k]; t != nil {
			return t
		}
		t := tb.mk(termKey{op: OConst, w: w, k: k})
		tb.small[i][k] = t
		return t
	}
	return tb.mk(termKey{op: OConst, w: w, k: k})
}
func (tb *TB) Int(i int) *Term { return tb.Const(64, uint64(i)) }
func (tb *TB) Bool(b bool) *Term {
	if b {
		return tb.tt
	}
	return tb.ff
}
func (tb *TB) Var(name string, w uint8) *Term {
	return tb.mk(termKey{op: OVar, w: w, name: fmt.Sprintf("%s:%d", name, w)})
}
func (tb *TB) UF(name string, w uint8, args ...*Term) *Term {
	k := termKey{op: OUF, w: w, name: name}
	if len(args) > 0 {
		k.a0 = args[0]
	}
	if len(args) > 1 {
		k.a1 = args[1]
	}
	if len(args) > 2 {
		k.a2 = args[2]
	}
	return tb.mk(k)
}

func (tb *TB) Not(a *Term) *Term {
	if a.op == OConst {
		return tb.Bool(a.k == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return tb.mk(termKey{op: ONot, a0: a})
}
func (tb *TB) And(a, b *Term) *Term {
	if a.op == OConst {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if tb.Not(a) == b {
		return tb.ff
	}
	return tb.mk(termKey{op: OAnd, a0: a, a1: b})
}
func (tb *TB) Or(a, b *Term) *Term {
	return tb.Not(tb.And(tb.Not(a), tb.Not(b)))
}
func (tb *TB) Eq(a, b *Term) *Term {
	if a == b {
		return tb.tt
	}
	if a.op == OConst && b.op == OConst {
		return tb.Bool(a.k == b.k)
	}
	if a.w == 0 {
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.k == 1 {
				return a
			}
			return tb.Not(a)
		}
		if tb.Not(a) == b {
			return tb.ff
		}
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width %d %d", a.w, b.w))
	}
	// ite(c,k1,k2) == k
	if b.op == OConst && a.op == OIte && a.args[1].op == OConst && a.args[2].op == OConst {
		x, y := a.args[1].k == b.k, a.args[2].k == b.k
		switch {
		case x && y:
			return tb.tt
		case x:
			return a.args[0]
		case y:
			return tb.Not(a.args[0])
		default:
			return tb.ff
		}
	}
	if a.op == OConst && b.op == OIte {
		return tb.Eq(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(termKey{op: OEq, a0: a, a1: b})
}
func (tb *TB) Ite(c, a, b *Term) *Term {
	if c.op == OConst {
		if c.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.op == OConst && b.op == OConst {
			if a.k == 1 {
				return c
			}
			return tb.Not(c)
		}
		return tb.Or(tb.And(c, a), tb.And(tb.Not(c), b))
	}
	return tb.mk(termKey{op: OIte, w: a.w, a0: c, a1: a, a2: b})
}

func (tb *TB) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("Bin %s width %d %d", opNames[op], a.w, b.w))
	}
	cmp := op == OULt || op == OULe || op == OSLt || op == OSLe
	if a.op == OConst && b.op == OConst {
		if cmp {
			switch op {
			case OULt:
				return tb.Bool(a.k < b.k)
			case OULe:
				return tb.Bool(a.k <= b.k)
			case OSLt:
				return tb.Bool(a.sval() < b.sval())
			case OSLe:
				return tb.Bool(a.sval() <= b.sval())
			}
		}
		var r uint64
		switch op {
		case OAdd:
			r = a.k + b.k
		case OSub:
			r = a.k - b.k
		case OMul:
			r = a.k * b.k
		case OUDiv:
			if b.k == 0 {
				r = mask(w)
			} else {
				r = a.k / b.k
			}
		case OSDiv:
			if b.k == 0 {
				r = mask(w)
				if a.sval() < 0 {
					r = 1
				}
			} else if b.sval() == -1 {
				r = -a.k
			} else {
				r = uint64(a.sval() / b.sval())
			}
		case OURem:
			if b.k == 0 {
				r = a.k
			} else {
				r = a.k % b.k
			}
		case OSRem:
			if b.k == 0 {
				r = a.k
			} else if b.sval() == -1 {
				r = 0
			} else {
				r = uint64(a.sval() % b.sval())
			}
		case OShl:
			if b.k < uint64(w) {
				r = a.k << b.k
			}
		case OLShr:
			if b.k < uint64(w) {
				r = a.k >> b.k
			}
		case OAShr:
			s := b.k
			if s >= uint64(w) {
				s = uint64(w) - 1
			}
			r = uint64(a.sval() >> s)
		case OBAnd:
			r = a.k & b.k
		case OBOr:
			r = a.k | b.k
		case OBXor:
			r = a.k ^ b.k
		}
		return tb.Const(w, r)
	}
	if cmp {
		if a == b {
			return tb.Bool(op == OULe || op == OSLe)
		}
		if op == OULt && b.op == OConst && b.k == 0 {
			return tb.ff
		}
		if op == OULe && a.op == OConst && a.k == 0 {
			return tb.tt
		}
		return tb.mk(termKey{op: op, a0: a, a1: b})
	}
	switch op {
	case OAdd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.k == 0 {
				return a
			}
			if a.op == OAdd && a.args[1].op == OConst {
				return tb.Bin(OAdd, a.args[0], tb.Const(w, a.args[1].k+b.k))
			}
		}
	case OSub:
		if a == b {
			return tb.Const(w, 0)
		}
		if b.op == OConst {
			return tb.Bin(OAdd, a, tb.Const(w, -b.k))
		}
		if a.op == OAdd && a.args[0] == b {
			return a.args[1]
		}
		if b.op == OAdd && b.args[0] == a && b.args[1].op == OConst {
			return tb.Const(w, -b.args[1].k)
		}
	case OMul:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
		}
	case OBAnd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.k == 0 {
				return b
			}
			if b.k == mask(w) {
				return a
			}
		}
		if a == b {
			return a
		}
	case OBOr, OBXor:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && b.k == 0 {
			return a
		}
		if a == b {
			if op == OBOr {
				return a
			}
			return tb.Const(w, 0)
		}
	case OShl, OLShr, OAShr:
		if b.op == OConst && b.k == 0 {
			return a
		}
	case OUDiv, OSDiv:
		if b.op == OConst && b.k == 1 {
			return a
		}
	}
	return tb.mk(termKey{op: op, w: w, a0: a, a1: b})
}

func (tb *TB) BNot(a *Term) *Term {
	if a.op == OConst {
		return tb.Const(a.w, ^a.k)
	}
	return tb.mk(termKey{op: OBNot, w: a.w, a0: a})
}
func (tb *TB) Neg(a *Term) *Term {
	if a.op == OConst {
		return tb.Const(a.w, -a.k)
	}
	return tb.mk(termKey{op: ONeg, w: a.w, a0: a})
}

// Conv changes the width, sign-extending when sgn.
func (tb *TB) Conv(a *Term, w uint8, sgn bool) *Term {
	switch {
	case a.w == w:
		return a
	case a.op == OConst:
		if sgn {
			return tb.Const(w, uint64(a.sval()))
		}
		return tb.Const(w, a.k)
	case a.w > w:
		if (a.op == OZext || a.op == OSext) && a.args[0].w == w {
			return a.args[0]
		}
		return tb.mk(termKey{op: OTrunc, w: w, a0: a})
	case sgn:
		return tb.mk(termKey{op: OSext, w: w, a0: a})
	default:
		return tb.mk(termKey{op: OZext, w: w, a0: a})
	}
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func qname(s string) string {
	if strings.ContainsAny(s, "|\\") {
		s = strings.NewReplacer("|", "!", "\\", "!").Replace(s)
	}
	return "|" + s + "|"
}

// smt prints t with let-free expansion of shared nodes through a local table.
func (t *Term) smt(sb *strings.Builder) {
	if t.str != "" {
		sb.WriteString(t.str)
		return
	}
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.k != 0 {
				sb.WriteString("true")
			} else {
				sb.WriteString("false")
			}
			return
		}
		fmt.Fprintf(sb, "(_ bv%d %d)", t.k, t.w)
	case OVar:
		sb.WriteString(qname(t.name))
	case OZext, OSext:
		n := "zero_extend"
		if t.op == OSext {
			n = "sign_extend"
		}
		fmt.Fprintf(sb, "((_ %s %d) ", n, t.w-t.args[0].w)
		t.args[0].smt(sb)
		sb.WriteByte(')')
	case OTrunc:
		fmt.Fprintf(sb, "((_ extract %d 0) ", t.w-1)
		t.args[0].smt(sb)
		sb.WriteByte(')')
	default:
		n := opNames[t.op]
		if t.op == OUF {
			n = qname(t.name)
		}
		sb.WriteByte('(')
		sb.WriteString(n)
		for _, a := range t.args {
			sb.WriteByte(' ')
			a.smt(sb)
		}
		sb.WriteByte(')')
	}
}

func (t *Term) String() string {
	if t.str == "" {
		var sb strings.Builder
		t.smt(&sb)
		t.str = sb.String()
	}
	return t.str
}

// eval evaluates t under a model (variables absent from it are 0); UF
// applications are looked up by their printed form.
func (t *Term) eval(m map[string]uint64) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		return m[t.name] & maskb(t.w)
	case OUF:
		return m[t.String()] & maskb(t.w)
	}
	var tmp TB
	_ = tmp
	a := make([]uint64, len(t.args))
	for i, x := range t.args {
		a[i] = x.eval(m)
	}
	b := func(v bool) uint64 {
		if v {
			return 1
		}
		return 0
	}
	switch t.op {
	case ONot:
		return 1 - a[0]
	case OAnd:
		return a[0] & a[1]
	case OOr:
		return a[0] | a[1]
	case OEq:
		return b(a[0] == a[1])
	case OIte:
		if a[0] != 0 {
			return a[1]
		}
		return a[2]
	case OBNot:
		return ^a[0] & mask(t.w)
	case ONeg:
		return -a[0] & mask(t.w)
	case OZext:
		return a[0]
	case OSext:
		return uint64(signed(a[0], t.args[0].w)) & mask(t.w)
	case OTrunc:
		return a[0] & mask(t.w)
	}
	w := t.args[0].w
	x, y := &Term{op: OConst, w: w, k: a[0]}, &Term{op: OConst, w: w, k: a[1]}
	return evalTB.Bin(t.op, x, y).k
}

// evalTB folds constants only; guarded by being used from one goroutine (reporting).
var evalTB = NewTB()

func maskb(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var _ = bits.Len
