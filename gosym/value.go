package main

import (
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	*Term                      bool and every integer type
//	float64                    floating point (concrete)
//	string, *Rope              strings
//	*Value                     pointers (nil: (*Value)(nil))
//	Struct, Array              aggregates
//	[]Value, *OBytes           slices; opaque immutable byte slices
//	*Map, *Chan                maps, channels (may be nil)
//	*ssa.Function, *Closure, *ssa.Builtin, *Native   functions
//	Iface                      interfaces
//	Tuple                      multiple results
//	*Opaque                    engine-level objects behind model types
type Value interface{}

type Struct []Value
type Array []Value
type Tuple []Value

type Closure struct {
	fn  *ssa.Function
	env []Value
}

// Native is a function value implemented by the engine.
type Native struct {
	name string
	f    func(fr *frame, args []Value) Value
}

type Iface struct {
	t types.Type
	v Value
}

type Opaque struct {
	kind string
	v    interface{}
}

// UPtr is an unsafe.Pointer.
type UPtr struct{ v Value }

// ---------------------------------------------------------------- ropes

type segKind uint8

const (
	segLit segKind = iota
	segByte
	segAtom
	segDoc
)

// Seg: a literal, one symbolic byte, an atom (an opaque string identified by a
// 32-bit term) or a structured document (a serialised value kept as a tree).
type Seg struct {
	k    segKind
	lit  string
	t    *Term
	kind string
	doc  *Doc
}

type Rope struct{ segs []Seg }

// Doc is the content of an opaque serialisation.
type Doc struct {
	kind string
	v    interface{}
	id   *Term // identity used in comparisons
}

type OBytes struct{ s Value } // string or *Rope

var internMu sync.Mutex
var internTab = map[string]uint64{"": 0}
var internRev = []string{""}

// litBase keeps literal identities apart from small model values.
const litBase = 0x40000000

func internLit(s string) uint64 {
	internMu.Lock()
	defer internMu.Unlock()
	if id, ok := internTab[s]; ok {
		if s == "" {
			return 0
		}
		return litBase + id
	}
	id := uint64(len(internRev))
	internTab[s] = id
	internRev = append(internRev, s)
	return litBase + id
}

func internGet(id uint64) (string, bool) {
	if id == 0 {
		return "", true
	}
	internMu.Lock()
	defer internMu.Unlock()
	if id >= litBase && id-litBase < uint64(len(internRev)) {
		return internRev[id-litBase], true
	}
	return "", false
}

func mkRope(segs []Seg) Value {
	var out []Seg
	for _, s := range segs {
		if s.k == segByte && s.t.isConst() {
			s = Seg{k: segLit, lit: string([]byte{byte(s.t.k)})}
		}
		if s.k == segAtom && s.t.isConst() {
			if l, ok := internGet(s.t.k); ok {
				s = Seg{k: segLit, lit: l}
			}
		}
		if s.k == segLit {
			if s.lit == "" {
				continue
			}
			if n := len(out); n > 0 && out[n-1].k == segLit {
				out[n-1].lit += s.lit
				continue
			}
		}
		out = append(out, s)
	}
	if len(out) == 0 {
		return ""
	}
	if len(out) == 1 && out[0].k == segLit {
		return out[0].lit
	}
	return &Rope{out}
}

func segsOf(v Value) []Seg {
	switch v := v.(type) {
	case string:
		if v == "" {
			return nil
		}
		return []Seg{{k: segLit, lit: v}}
	case *Rope:
		return v.segs
	}
	panic(unsupported("segsOf %T", v))
}

func concat(vs ...Value) Value {
	all := true
	for _, v := range vs {
		if _, ok := v.(string); !ok {
			all = false
		}
	}
	if all {
		var sb strings.Builder
		for _, v := range vs {
			sb.WriteString(v.(string))
		}
		return sb.String()
	}
	var segs []Seg
	for _, v := range vs {
		segs = append(segs, segsOf(v)...)
	}
	return mkRope(append([]Seg(nil), segs...))
}

func mkAtom(t *Term, kind string) Value {
	return mkRope([]Seg{{k: segAtom, t: t, kind: kind}})
}

func mkDoc(d *Doc) Value { return &Rope{[]Seg{{k: segDoc, doc: d, t: d.id}}} }

// docOf returns the document when v (string, rope or bytes) is exactly one.
func docOf(v Value) *Doc {
	if o, ok := v.(*OBytes); ok {
		v = o.s
	}
	if r, ok := v.(*Rope); ok && len(r.segs) == 1 && r.segs[0].k == segDoc {
		return r.segs[0].doc
	}
	return nil
}

// atomOf returns the single atom of v, if that is what it is.
func atomOf(v Value) (Seg, bool) {
	if r, ok := v.(*Rope); ok && len(r.segs) == 1 && r.segs[0].k == segAtom {
		return r.segs[0], true
	}
	return Seg{}, false
}

// atomTerm gives the identity term of a string that is a literal or one atom
// (or document).
func (p *Path) atomTerm(v Value) *Term {
	switch v := v.(type) {
	case string:
		return p.tb.Const(32, internLit(v))
	case *Rope:
		if len(v.segs) == 1 && (v.segs[0].k == segAtom || v.segs[0].k == segDoc) {
			return v.segs[0].t
		}
		// A compound string: name it by an injective function of its parts.
		return p.catAtom(v)
	}
	panic(unsupported("atomTerm %T", v))
}

// catAtom gives a compound rope an identity of its own, keyed by structure.
func (p *Path) catAtom(r *Rope) *Term {
	key := ropeKey(r)
	t := p.tb.Var("cat!"+key, 32)
	if p.cats == nil {
		p.cats = map[string]*Rope{}
	}
	if p.cats[key] != nil {
		return t
	}
	p.axiom(p.tb.Not(p.tb.Eq(t, p.tb.Const(32, 0))))
	for _, k := range p.catKeys {
		p.axiom(p.tb.Eq(p.tb.Eq(t, p.tb.Var("cat!"+k, 32)), p.eqStr(r, p.cats[k])))
	}
	p.cats[key] = r
	p.catKeys = append(p.catKeys, key)
	return t
}

func ropeKey(r *Rope) string {
	var sb strings.Builder
	for _, s := range r.segs {
		switch s.k {
		case segLit:
			fmt.Fprintf(&sb, "%q", s.lit)
		default:
			fmt.Fprintf(&sb, "<%s>", strings.ReplaceAll(s.t.String(), "|", "'"))
		}
	}
	h := sha1.Sum([]byte(sb.String()))
	return hex.EncodeToString(h[:10])
}

func (p *Path) strLen(v Value) *Term {
	switch v := v.(type) {
	case string:
		return p.tb.Int(len(v))
	case *Rope:
		r := p.tb.Int(0)
		for _, s := range v.segs {
			switch s.k {
			case segLit:
				r = p.tb.Bin(OAdd, r, p.tb.Int(len(s.lit)))
			case segByte:
				r = p.tb.Bin(OAdd, r, p.tb.Int(1))
			case segAtom, segDoc:
				r = p.tb.Bin(OAdd, p.atomLen(s), r)
			}
		}
		return r
	}
	panic(unsupported("strLen %T", v))
}

func (p *Path) atomLen(s Seg) *Term {
	tb := p.tb
	if s.k == segDoc {
		l := tb.UF("strlen", 64, s.t)
		p.axiom(tb.And(tb.Bin(OULt, l, tb.Const(64, 1<<16)), tb.Bin(OULt, tb.Int(3), l)))
		return l
	}
	l := tb.UF("strlen", 64, s.t)
	p.axiom(tb.Bin(OULt, l, tb.Const(64, 1<<16)))
	p.axiom(tb.Eq(tb.Eq(l, tb.Int(0)), tb.Eq(s.t, tb.Const(32, 0))))
	return l
}

// eqStr is string equality as a term.
func (p *Path) eqStr(a, b Value) *Term {
	tb := p.tb
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return tb.Bool(x == y)
		}
	}
	x, y := append([]Seg(nil), segsOf(a)...), append([]Seg(nil), segsOf(b)...)
	res := tb.tt
	strip := func(front bool) bool {
		if len(x) == 0 || len(y) == 0 {
			return false
		}
		var s, t *Seg
		if front {
			s, t = &x[0], &y[0]
		} else {
			s, t = &x[len(x)-1], &y[len(y)-1]
		}
		drop := func(z *[]Seg) {
			if front {
				*z = (*z)[1:]
			} else {
				*z = (*z)[:len(*z)-1]
			}
		}
		if s.k == segLit && t.k == segLit {
			n := len(s.lit)
			if len(t.lit) < n {
				n = len(t.lit)
			}
			if front {
				if s.lit[:n] != t.lit[:n] {
					res = tb.ff
					return false
				}
				s.lit, t.lit = s.lit[n:], t.lit[n:]
			} else {
				if s.lit[len(s.lit)-n:] != t.lit[len(t.lit)-n:] {
					res = tb.ff
					return false
				}
				s.lit, t.lit = s.lit[:len(s.lit)-n], t.lit[:len(t.lit)-n]
			}
			if s.lit == "" {
				drop(&x)
			}
			if t.lit == "" {
				drop(&y)
			}
			return true
		}
		if s.k == segByte && t.k == segByte {
			res = tb.And(res, tb.Eq(s.t, t.t))
			drop(&x)
			drop(&y)
			return res != tb.ff
		}
		byteLit := func(bs, ls *Seg, bz, lz *[]Seg) bool {
			var c byte
			if front {
				c = ls.lit[0]
				ls.lit = ls.lit[1:]
			} else {
				c = ls.lit[len(ls.lit)-1]
				ls.lit = ls.lit[:len(ls.lit)-1]
			}
			res = tb.And(res, tb.Eq(bs.t, tb.Const(8, uint64(c))))
			drop(bz)
			if ls.lit == "" {
				drop(lz)
			}
			return res != tb.ff
		}
		if s.k == segByte && t.k == segLit {
			return byteLit(s, t, &x, &y)
		}
		if s.k == segLit && t.k == segByte {
			return byteLit(t, s, &y, &x)
		}
		if (s.k == segAtom || s.k == segDoc) && s.k == t.k && s.t == t.t {
			drop(&x)
			drop(&y)
			return true
		}
		return false
	}
	for strip(true) {
	}
	for res != tb.ff && strip(false) {
	}
	if res == tb.ff {
		return res
	}
	allEmpty := func(z []Seg) *Term {
		r := tb.tt
		for _, s := range z {
			if s.k != segAtom {
				return tb.ff
			}
			r = tb.And(r, tb.Eq(s.t, tb.Const(32, 0)))
		}
		return r
	}
	if len(x) == 0 {
		return tb.And(res, allEmpty(y))
	}
	if len(y) == 0 {
		return tb.And(res, allEmpty(x))
	}
	isA := func(z []Seg) bool { return len(z) == 1 && (z[0].k == segAtom || z[0].k == segDoc) }
	isL := func(z []Seg) bool { return len(z) == 1 && z[0].k == segLit }
	if isA(x) && isA(y) {
		if x[0].k != y[0].k {
			return tb.ff // a document is never an opaque identifier
		}
		if x[0].k == segDoc {
			return tb.And(res, p.eqDoc(x[0].doc, y[0].doc))
		}
		return tb.And(res, tb.Eq(x[0].t, y[0].t))
	}
	if isA(x) && isL(y) || isL(x) && isA(y) {
		if isL(x) {
			x, y = y, x
		}
		if x[0].k == segDoc {
			return tb.ff
		}
		return tb.And(res, tb.Eq(x[0].t, tb.Const(32, internLit(y[0].lit))))
	}
	// Same shape: atoms do not contain the separators around them, so equality is
	// pairwise.
	if len(x) == len(y) {
		ok := true
		r := res
		for i := range x {
			if x[i].k != y[i].k {
				ok = false
				break
			}
			switch x[i].k {
			case segLit:
				if x[i].lit != y[i].lit {
					r = tb.ff
				}
			default:
				r = tb.And(r, tb.Eq(x[i].t, y[i].t))
			}
		}
		if ok {
			p.note("string equality of compound identifiers taken pairwise (identifiers contain no separators)")
			return r
		}
	}
	// One side is an opaque identifier, the other a compound containing a
	// separator or a document: identifiers are not compounds.
	p.note("opaque identifiers are not equal to compound strings")
	return tb.ff
}

func (p *Path) eqDoc(a, b *Doc) *Term {
	if a == b {
		return p.tb.tt
	}
	if a.kind != b.kind {
		return p.tb.ff
	}
	if a.kind == "json" {
		if t := p.jsonEq(a.v.(*jnode), b.v.(*jnode)); t != nil {
			return t
		}
	}
	return p.tb.Eq(a.id, b.id)
}

// ---------------------------------------------------------------- helpers

func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		r := make(Struct, len(v))
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	case Array:
		r := make(Array, len(v))
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	}
	return v
}

func storeVal(addr *Value, v Value) {
	switch v := v.(type) {
	case Struct:
		if old, ok := (*addr).(Struct); ok && len(old) == len(v) {
			for i := range v {
				storeVal(&old[i], v[i])
			}
			return
		}
		*addr = copyVal(v)
	case Array:
		if old, ok := (*addr).(Array); ok && len(old) == len(v) {
			for i := range v {
				storeVal(&old[i], v[i])
			}
			return
		}
		*addr = copyVal(v)
	default:
		*addr = v
	}
}

func basicWidth(b *types.Basic) (w uint8, sgn bool, ok bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func typeWidth(t types.Type) (w uint8, sgn bool, ok bool) {
	if b, isb := t.Underlying().(*types.Basic); isb {
		return basicWidth(b)
	}
	return 0, false, false
}

func (p *Path) zero(t types.Type) Value {
	switch t := t.(type) {
	case *types.Named, *types.Alias:
		return p.zero(t.Underlying())
	case *types.Basic:
		if w, _, ok := basicWidth(t); ok {
			return p.tb.Const(w, 0)
		}
		switch t.Kind() {
		case types.Float32, types.Float64, types.UntypedFloat:
			return float64(0)
		case types.String, types.UntypedString:
			return ""
		case types.UnsafePointer:
			return UPtr{nil}
		case types.UntypedNil:
			return (*Value)(nil)
		case types.Complex64, types.Complex128:
			return complex128(0)
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Struct:
		s := make(Struct, t.NumFields())
		for i := range s {
			s[i] = p.zero(t.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, t.Len())
		if len(a) > 0 {
			z := p.zero(t.Elem())
			for i := range a {
				if i == 0 {
					a[i] = z
				} else {
					a[i] = copyVal(z)
				}
			}
		}
		return a
	case *types.Slice:
		return []Value(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Tuple:
		if t.Len() == 1 {
			return p.zero(t.At(0).Type())
		}
		r := make(Tuple, t.Len())
		for i := range r {
			r[i] = p.zero(t.At(i).Type())
		}
		return r
	case *types.TypeParam:
		panic(unsupported("zero of type parameter"))
	}
	panic(unsupported("zero of %s", t))
}

func isNilVal(v Value) bool {
	switch v := v.(type) {
	case nil:
		return true
	case *Value:
		return v == nil
	case []Value:
		return v == nil
	case *OBytes:
		return v == nil
	case *Map:
		return v == nil
	case *Chan:
		return v == nil
	case *ssa.Function:
		return v == nil
	case *Closure:
		return v == nil
	case *Native:
		return v == nil
	case Iface:
		return v.t == nil
	case UPtr:
		return v.v == nil || isNilVal(v.v)
	case *Opaque:
		return v == nil
	}
	return false
}

// eqVal is Go's == as a term.
func (p *Path) eqVal(a, b Value) *Term {
	tb := p.tb
	switch x := a.(type) {
	case *Term:
		return tb.Eq(x, b.(*Term))
	case float64:
		return tb.Bool(x == b.(float64))
	case string, *Rope:
		return p.eqStr(a, b)
	case *Value:
		if y, ok := b.(*Value); ok {
			return tb.Bool(x == y)
		}
		return tb.Bool(isNilVal(a) && isNilVal(b))
	case *Chan:
		y, _ := b.(*Chan)
		return tb.Bool(x == y)
	case *Map:
		return tb.Bool(isNilVal(a) && isNilVal(b))
	case []Value, *OBytes:
		if isNilVal(a) || isNilVal(b) {
			return tb.Bool(isNilVal(a) && isNilVal(b))
		}
		panic(unsupported("slice compare"))
	case *ssa.Function, *Closure, *Native:
		return tb.Bool(isNilVal(a) && isNilVal(b))
	case *Opaque:
		if y, ok := b.(*Opaque); ok {
			return tb.Bool(x == y)
		}
		return tb.ff
	case Struct:
		y := b.(Struct)
		r := tb.tt
		for i := range x {
			r = tb.And(r, p.eqVal(x[i], y[i]))
			if r == tb.ff {
				return r
			}
		}
		return r
	case Array:
		y := b.(Array)
		r := tb.tt
		for i := range x {
			r = tb.And(r, p.eqVal(x[i], y[i]))
			if r == tb.ff {
				return r
			}
		}
		return r
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			if isNilVal(b) {
				return tb.Bool(x.t == nil)
			}
			panic(unsupported("iface compare with %T", b))
		}
		if x.t == nil || y.t == nil {
			return tb.Bool(x.t == nil && y.t == nil)
		}
		if x.t != y.t && !types.Identical(x.t, y.t) {
			return tb.ff
		}
		if !types.Comparable(x.t) {
			panic(p.runtimeErr("comparing uncomparable type " + x.t.String()))
		}
		return p.eqVal(x.v, y.v)
	case UPtr:
		y := b.(UPtr)
		if isNilVal(x) || isNilVal(y) {
			return tb.Bool(isNilVal(x) && isNilVal(y))
		}
		return p.eqVal(x.v, y.v)
	case complex128:
		return tb.Bool(x == b.(complex128))
	case nil:
		return tb.Bool(isNilVal(b))
	}
	panic(unsupported("eqVal %T", a))
}

// ---------------------------------------------------------------- maps

type mapEnt struct {
	k, v Value
	dead bool
}

type Map struct {
	ents []*mapEnt
	idx  map[string]*mapEnt
	sym  int // live entries with symbolic keys
	n    int
}

func newMap() *Map { return &Map{idx: map[string]*mapEnt{}} }

// keyStr canonicalises a fully concrete key.
func keyStr(v Value) (string, bool) {
	switch v := v.(type) {
	case *Term:
		if v.isConst() {
			return fmt.Sprintf("i%d", v.k), true
		}
		return "", false
	case string:
		return "s" + v, true
	case *Rope:
		return "", false
	case float64:
		return fmt.Sprintf("f%v", v), true
	case *Value:
		return fmt.Sprintf("p%p", v), true
	case *Chan:
		return fmt.Sprintf("c%p", v), true
	case *Opaque:
		return fmt.Sprintf("o%p", v), true
	case Struct:
		var sb strings.Builder
		for _, x := range v {
			s, ok := keyStr(x)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s", len(s), s)
		}
		return "S" + sb.String(), true
	case Array:
		var sb strings.Builder
		for _, x := range v {
			s, ok := keyStr(x)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s", len(s), s)
		}
		return "A" + sb.String(), true
	case Iface:
		if v.t == nil {
			return "n", true
		}
		s, ok := keyStr(v.v)
		return "I" + v.t.String() + "\x00" + s, ok
	}
	panic(unsupported("map key %T", v))
}

func (p *Path) mapFind(m *Map, k Value) *mapEnt {
	if m == nil {
		return nil
	}
	if f, ok := k.(Iface); ok && f.t != nil && !types.Comparable(f.t) {
		panic(p.runtimeErr("hash of unhashable type " + f.t.String()))
	}
	ks, conc := keyStr(k)
	if conc {
		if e := m.idx[ks]; e != nil {
			return e
		}
		if m.sym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if conc {
			if _, c := keyStr(e.k); c {
				continue
			}
		}
		if p.branch(p.eqVal(e.k, k)) {
			return e
		}
	}
	return nil
}

func (p *Path) mapSet(m *Map, k, v Value) {
	if m == nil {
		panic(p.goPanic("assignment to entry in nil map"))
	}
	if e := p.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	e := &mapEnt{k: k, v: v}
	m.ents = append(m.ents, e)
	m.n++
	if ks, c := keyStr(k); c {
		m.idx[ks] = e
	} else {
		m.sym++
	}
}

func (p *Path) mapDelete(m *Map, k Value) {
	e := p.mapFind(m, k)
	if e == nil {
		return
	}
	e.dead = true
	m.n--
	if ks, c := keyStr(e.k); c {
		delete(m.idx, ks)
	} else {
		m.sym--
	}
	if len(m.ents) > 16 && m.n < len(m.ents)/2 {
		var live []*mapEnt
		for _, x := range m.ents {
			if !x.dead {
				live = append(live, x)
			}
		}
		m.ents = live
	}
}

func (m *Map) live() []*mapEnt {
	if m == nil {
		return nil
	}
	var r []*mapEnt
	for _, e := range m.ents {
		if !e.dead {
			r = append(r, e)
		}
	}
	return r
}
