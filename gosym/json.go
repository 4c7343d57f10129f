package main

// encoding/json as an abstract tree: Marshal produces an opaque document that
// Unmarshal takes apart again, honouring struct tags, embedding, omitempty and
// custom (un)marshalers. Concrete JSON text is parsed.

import (
	"encoding/json"
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type jnode struct {
	kind   string // null bool num float str bytes arr obj time
	b      *Term
	n      *Term
	sgn    bool
	f      float64
	s      Value
	arr    []*jnode
	keys   []string
	skeys  []Value
	vals   []*jnode
	numTxt string
}

// jdocs are the documents known by a handle: with vsym.Handles the text of a
// document is a short concrete name for it, so that it can be cut into bytes
// and put together again by framing code.
type jdocs struct {
	nodes []*jnode
	packs []*Doc
}

func (p *Path) jhandle(s string) *jnode {
	h, _ := p.kv["json-handles"].(*jdocs)
	var i int
	if h == nil || len(s) != 9 {
		return nil
	}
	if n, err := fmt.Sscanf(s, "\"#J%05d\"", &i); n != 1 || err != nil || i >= len(h.nodes) {
		return nil
	}
	return h.nodes[i]
}

func (p *Path) jdoc(n *jnode) Value {
	if h, ok := p.kv["json-handles"].(*jdocs); ok {
		h.nodes = append(h.nodes, n)
		return fmt.Sprintf("\"#J%05d\"", len(h.nodes)-1)
	}
	id := p.fresh("jsondoc", 32)
	return mkDoc(&Doc{kind: "json", v: n, id: id})
}

// jsonEq tells when two documents are the same text; nil if that depends on
// more than their trees.
func (p *Path) jsonEq(a, b *jnode) *Term {
	tb := p.tb
	if a == b {
		return tb.tt
	}
	if a.kind != b.kind {
		loose := func(k string) bool { return k == "num" || k == "float" || k == "bytes" || k == "str" || k == "time" }
		if loose(a.kind) && loose(b.kind) {
			return nil
		}
		return tb.ff
	}
	switch a.kind {
	case "null":
		return tb.tt
	case "bool":
		return tb.Eq(a.b, b.b)
	case "num":
		if a.sgn != b.sgn || a.n == nil || b.n == nil {
			return nil
		}
		return tb.Eq(a.n, b.n)
	case "str", "bytes":
		return p.eqStr(a.s, b.s)
	case "arr":
		if len(a.arr) != len(b.arr) {
			return tb.ff
		}
		r := tb.tt
		for i := range a.arr {
			t := p.jsonEq(a.arr[i], b.arr[i])
			if t == nil {
				return nil
			}
			r = tb.And(r, t)
		}
		return r
	case "obj":
		if len(a.skeys) != 0 || len(b.skeys) != 0 {
			return nil
		}
		if len(a.keys) != len(b.keys) {
			return tb.ff
		}
		r := tb.tt
		for i := range a.keys {
			if a.keys[i] != b.keys[i] {
				return tb.ff
			}
			t := p.jsonEq(a.vals[i], b.vals[i])
			if t == nil {
				return nil
			}
			r = tb.And(r, t)
		}
		return r
	}
	return nil
}

type jfield struct {
	name     string
	index    []int
	typ      types.Type
	omit     bool
	asString bool
	tagged   bool
	viaPtr   bool
}

// jsonFields lists the encoded fields of a struct type under encoding/json's
// visibility rules.
func jsonFields(st *types.Struct) []jfield {
	type q struct {
		st    *types.Struct
		index []int
	}
	var out []jfield
	cur := []q{{st, nil}}
	seen := map[string]bool{}
	for len(cur) > 0 {
		var next []q
		level := map[string][]jfield{}
		var order []string
		for _, c := range cur {
			for i := 0; i < c.st.NumFields(); i++ {
				f := c.st.Field(i)
				tag := reflect.StructTag(c.st.Tag(i)).Get("json")
				if tag == "-" {
					continue
				}
				parts := strings.Split(tag, ",")
				name := parts[0]
				idx := append(append([]int(nil), c.index...), i)
				ft := f.Type()
				if f.Anonymous() {
					et := ft
					if pt, ok := et.Underlying().(*types.Pointer); ok {
						et = pt.Elem()
					}
					es, isS := et.Underlying().(*types.Struct)
					if !f.Exported() && !isS {
						continue
					}
					if name == "" && isS {
						next = append(next, q{es, idx})
						continue
					}
				} else if !f.Exported() {
					continue
				}
				jf := jfield{name: name, index: idx, typ: ft, tagged: name != ""}
				if name == "" {
					jf.name = f.Name()
				}
				for _, o := range parts[1:] {
					if o == "omitempty" {
						jf.omit = true
					}
					if o == "string" {
						jf.asString = true
					}
				}
				if _, ok := level[jf.name]; !ok {
					order = append(order, jf.name)
				}
				level[jf.name] = append(level[jf.name], jf)
			}
		}
		for _, n := range order {
			if seen[n] {
				continue
			}
			fs := level[n]
			seen[n] = true
			if len(fs) == 1 {
				out = append(out, fs[0])
				continue
			}
			var tg []jfield
			for _, f := range fs {
				if f.tagged {
					tg = append(tg, f)
				}
			}
			if len(tg) == 1 {
				out = append(out, tg[0])
			}
		}
		cur = next
	}
	return out
}

type jsonErr struct{ err Value }

func (p *Path) jsonEncode(fr *frame, t types.Type, v Value) *jnode {
	tb := p.tb
	if i, ok := v.(Iface); ok {
		if i.t == nil {
			return &jnode{kind: "null"}
		}
		return p.jsonEncode(fr, i.t, i.v)
	}
	if a, ok := v.(*Value); ok && a == nil {
		return &jnode{kind: "null"}
	}
	if t.String() == "time.Time" {
		return &jnode{kind: "time", n: timeNs(v)}
	}
	if t.String() == "encoding/json.Number" {
		return &jnode{kind: "str", s: v}
	}
	if f := p.w.prog.methodByName(t, "MarshalJSON"); f != nil {
		r := p.callValue(fr, f, []Value{copyVal(v)}).(Tuple)
		if isErr(r[1]) {
			panic(jsonErr{r[1]})
		}
		return p.jsonParse(fr, p.bytesToStr(r[0]))
	}
	if f := p.w.prog.methodByName(t, "MarshalText"); f != nil {
		r := p.callValue(fr, f, []Value{copyVal(v)}).(Tuple)
		if isErr(r[1]) {
			panic(jsonErr{r[1]})
		}
		return &jnode{kind: "str", s: p.bytesToStr(r[0])}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, sgn, ok := basicWidth(u); ok {
			x := v.(*Term)
			if w == 0 {
				return &jnode{kind: "bool", b: x}
			}
			return &jnode{kind: "num", n: tb.Conv(x, 64, sgn), sgn: sgn}
		}
		if u.Info()&types.IsFloat != 0 {
			return &jnode{kind: "float", f: v.(float64)}
		}
		if u.Info()&types.IsString != 0 {
			return &jnode{kind: "str", s: v}
		}
	case *types.Pointer:
		return p.jsonEncode(fr, u.Elem(), *v.(*Value))
	case *types.Struct:
		n := &jnode{kind: "obj"}
		s := v.(Struct)
		for _, f := range jsonFields(u) {
			var x Value = s
			skip := false
			cst := types.Type(u)
			for _, i := range f.index {
				if a, ok := x.(*Value); ok {
					if a == nil {
						skip = true
						break
					}
					x = *a
				}
				_ = cst
				x = x.(Struct)[i]
			}
			if skip {
				continue
			}
			if f.omit && p.branch(p.jsonEmpty(x)) {
				continue
			}
			// An addressable field's pointer marshaler is honoured only via
			// pointers; values passed here follow the type's own method set.
			n.keys = append(n.keys, f.name)
			n.vals = append(n.vals, p.jsonEncode(fr, f.typ, x))
		}
		return n
	case *types.Slice:
		if isNilVal(v) {
			return &jnode{kind: "null"}
		}
		if isByteSlice(t) {
			return &jnode{kind: "bytes", s: p.bytesToStr(v)}
		}
		n := &jnode{kind: "arr"}
		for _, x := range v.([]Value) {
			n.arr = append(n.arr, p.jsonEncode(fr, u.Elem(), x))
		}
		return n
	case *types.Array:
		n := &jnode{kind: "arr"}
		for _, x := range v.(Array) {
			n.arr = append(n.arr, p.jsonEncode(fr, u.Elem(), x))
		}
		return n
	case *types.Map:
		m := v.(*Map)
		if m == nil {
			return &jnode{kind: "null"}
		}
		n := &jnode{kind: "obj"}
		for _, e := range m.live() {
			k := e.k
			if !isString(u.Key()) {
				if f := p.w.prog.methodByName(u.Key(), "MarshalText"); f != nil {
					r := p.callValue(fr, f, []Value{copyVal(k)}).(Tuple)
					k = p.bytesToStr(r[0])
				} else {
					k = p.fmtValue(fr, Iface{u.Key(), k}, 'd')
				}
			}
			if ks, ok := k.(string); ok {
				n.keys = append(n.keys, ks)
				n.vals = append(n.vals, p.jsonEncode(fr, u.Elem(), e.v))
			} else {
				n.keys = append(n.keys, "\x00sym")
				for len(n.skeys) < len(n.vals) {
					n.skeys = append(n.skeys, nil)
				}
				n.skeys = append(n.skeys, k)
				n.vals = append(n.vals, p.jsonEncode(fr, u.Elem(), e.v))
			}
		}
		return n
	}
	panic(unsupported("json encode %s", t))
}

func (p *Path) jsonEmpty(v Value) *Term {
	tb := p.tb
	switch x := v.(type) {
	case *Term:
		return tb.Eq(x, tb.Const(x.w, 0))
	case float64:
		return tb.Bool(x == 0)
	case string, *Rope:
		return p.eqStr(x, "")
	case []Value:
		return tb.Bool(len(x) == 0)
	case *OBytes:
		return p.eqStr(x.s, "")
	case *Map:
		return tb.Bool(x == nil || x.n == 0)
	case *Value:
		return tb.Bool(x == nil)
	case Iface:
		return tb.Bool(x.t == nil)
	case Array:
		return tb.Bool(len(x) == 0)
	}
	return tb.ff
}

// jsonParse turns text (concrete, or with opaque strings inside quotes) or a
// document into a tree; nil on a syntax error.
func (p *Path) jsonParse(fr *frame, s Value) *jnode {
	if d := docOf(s); d != nil {
		if d.kind == "json" {
			return d.v.(*jnode)
		}
		return nil
	}
	if cs, ok := s.(string); ok {
		if n := p.jhandle(strings.TrimSpace(cs)); n != nil {
			return n
		}
	}
	pr := &jparser{p: p, fr: fr}
	for _, g := range segsOf(s) {
		switch g.k {
		case segLit:
			for i := 0; i < len(g.lit); i++ {
				pr.u = append(pr.u, junit{c: g.lit[i]})
			}
		default:
			g := g
			pr.u = append(pr.u, junit{seg: &g})
		}
	}
	n := pr.value()
	pr.ws()
	if pr.bad || pr.i != len(pr.u) {
		return nil
	}
	return n
}

type junit struct {
	c   byte
	seg *Seg
}
type jparser struct {
	p   *Path
	fr  *frame
	u   []junit
	i   int
	bad bool
}

func (j *jparser) peek() byte {
	if j.i >= len(j.u) || j.u[j.i].seg != nil {
		return 0
	}
	return j.u[j.i].c
}
func (j *jparser) ws() {
	for j.i < len(j.u) && j.u[j.i].seg == nil && strings.IndexByte(" \t\r\n", j.u[j.i].c) >= 0 {
		j.i++
	}
}
func (j *jparser) lit(s string) bool {
	for k := 0; k < len(s); k++ {
		if j.peek() != s[k] {
			j.bad = true
			return false
		}
		j.i++
	}
	return true
}
func (j *jparser) str() Value {
	if !j.lit("\"") {
		return ""
	}
	var segs []Seg
	raw := []byte{}
	flush := func() {
		if len(raw) > 0 {
			var s string
			if json.Unmarshal([]byte("\""+string(raw)+"\""), &s) != nil {
				j.bad = true
			}
			segs = append(segs, Seg{k: segLit, lit: s})
			raw = raw[:0]
		}
	}
	for j.i < len(j.u) {
		u := j.u[j.i]
		if u.seg != nil {
			flush()
			if u.seg.k == segByte {
				j.p.note("symbolic bytes inside JSON strings taken literally")
			}
			segs = append(segs, *u.seg)
			j.i++
			continue
		}
		if u.c == '"' {
			flush()
			j.i++
			return mkRope(segs)
		}
		if u.c == '\\' {
			raw = append(raw, u.c)
			j.i++
			if j.i >= len(j.u) {
				break
			}
			u = j.u[j.i]
		}
		raw = append(raw, u.c)
		j.i++
	}
	j.bad = true
	return ""
}
func (j *jparser) value() *jnode {
	if j.bad {
		return nil
	}
	j.ws()
	if j.i < len(j.u) && j.u[j.i].seg != nil {
		sg := j.u[j.i].seg
		if sg.k == segDoc && sg.doc.kind == "json" {
			j.i++
			return sg.doc.v.(*jnode)
		}
		if sg.k == segByte {
			panic(unsupported("symbolic bytes in JSON syntax"))
		}
		j.bad = true
		return nil
	}
	switch c := j.peek(); {
	case c == '{':
		j.i++
		n := &jnode{kind: "obj"}
		j.ws()
		if j.peek() == '}' {
			j.i++
			return n
		}
		for !j.bad {
			j.ws()
			k := j.str()
			j.ws()
			j.lit(":")
			v := j.value()
			ks, ok := k.(string)
			if !ok {
				ks = "\x00sym"
			}
			for len(n.skeys) < len(n.vals) {
				n.skeys = append(n.skeys, nil)
			}
			n.skeys = append(n.skeys, k)
			n.keys = append(n.keys, ks)
			n.vals = append(n.vals, v)
			j.ws()
			if j.peek() == ',' {
				j.i++
				continue
			}
			j.lit("}")
			break
		}
		return n
	case c == '[':
		j.i++
		n := &jnode{kind: "arr"}
		j.ws()
		if j.peek() == ']' {
			j.i++
			return n
		}
		for !j.bad {
			n.arr = append(n.arr, j.value())
			j.ws()
			if j.peek() == ',' {
				j.i++
				continue
			}
			j.lit("]")
			break
		}
		return n
	case c == '"':
		return &jnode{kind: "str", s: j.str()}
	case c == 't':
		j.lit("true")
		return &jnode{kind: "bool", b: j.p.tb.tt}
	case c == 'f':
		j.lit("false")
		return &jnode{kind: "bool", b: j.p.tb.ff}
	case c == 'n':
		j.lit("null")
		return &jnode{kind: "null"}
	case c == '-' || c >= '0' && c <= '9':
		st := j.i
		for j.i < len(j.u) && j.u[j.i].seg == nil && strings.IndexByte("+-.eE0123456789", j.u[j.i].c) >= 0 {
			j.i++
		}
		b := make([]byte, 0, 8)
		for _, u := range j.u[st:j.i] {
			b = append(b, u.c)
		}
		tx := string(b)
		if i, err := strconv.ParseInt(tx, 10, 64); err == nil {
			return &jnode{kind: "num", n: j.p.tb.Const(64, uint64(i)), sgn: true}
		}
		if i, err := strconv.ParseUint(tx, 10, 64); err == nil {
			return &jnode{kind: "num", n: j.p.tb.Const(64, i)}
		}
		f, err := strconv.ParseFloat(tx, 64)
		if err != nil {
			j.bad = true
		}
		return &jnode{kind: "float", f: f}
	}
	j.bad = true
	return nil
}

func (p *Path) jsonTypeErr(n *jnode, t types.Type) Value {
	return p.newErr(fmt.Sprintf("json: cannot unmarshal %s into Go value of type %s", n.kind, t))
}

// jsonDecode stores n into the cell a of type t. It returns an error value.
func (p *Path) jsonDecode(fr *frame, n *jnode, t types.Type, a *Value) Value {
	tb := p.tb
	pt := ptrTo(t)
	_, isPtr := t.Underlying().(*types.Pointer)
	if t.String() == "time.Time" {
		switch n.kind {
		case "time":
			storeVal(a, p.mkTime(n.n))
			return nilErr
		case "null":
			return nilErr
		}
		return p.jsonTypeErr(n, t)
	}
	if !isPtr {
		if _, isI := t.Underlying().(*types.Interface); !isI {
			if f := p.w.prog.methodByName(pt, "UnmarshalJSON"); f != nil && !(n.kind == "null" && false) {
				return p.callValue(fr, f, []Value{a, p.strToBytes(p.jdoc(n))})
			}
			if f := p.w.prog.methodByName(pt, "UnmarshalText"); f != nil && n.kind != "null" {
				if n.kind != "str" {
					return p.jsonTypeErr(n, t)
				}
				return p.callValue(fr, f, []Value{a, p.strToBytes(n.s)})
			}
		}
	}
	if n.kind == "null" {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
			*a = p.zero(t)
		}
		return nilErr
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, sgn, ok := basicWidth(u); ok {
			if w == 0 {
				if n.kind != "bool" {
					return p.jsonTypeErr(n, t)
				}
				*a = n.b
				return nilErr
			}
			if n.kind != "num" {
				return p.jsonTypeErr(n, t)
			}
			// range check
			x := tb.Conv(n.n, w, n.sgn)
			back := tb.Conv(x, 64, sgn)
			ok := tb.Eq(back, n.n)
			if n.sgn != sgn {
				ok = tb.And(ok, tb.Bin(OSLe, tb.Const(64, 0), n.n))
			}
			if !p.branch(ok) {
				return p.jsonTypeErr(n, t)
			}
			*a = x
			return nilErr
		}
		if u.Info()&types.IsFloat != 0 {
			switch n.kind {
			case "float":
				*a = n.f
			case "num":
				if !n.n.isConst() {
					return p.jsonTypeErr(n, t)
				}
				*a = float64(n.n.sval())
			default:
				return p.jsonTypeErr(n, t)
			}
			return nilErr
		}
		if u.Info()&types.IsString != 0 {
			switch n.kind {
			case "str":
				*a = n.s
			case "bytes":
				*a = mkAtom(tb.UF("b64", 32, p.atomTerm(n.s)), "b64")
			case "time":
				*a = mkAtom(tb.UF("timejson", 32, n.n), "time")
			default:
				return p.jsonTypeErr(n, t)
			}
			return nilErr
		}
	case *types.Pointer:
		c, _ := (*a).(*Value)
		if c == nil {
			c = new(Value)
			*c = p.zero(u.Elem())
			if e := p.jsonDecode(fr, n, u.Elem(), c); isErr(e) {
				*a = c
				return e
			}
			*a = c
			return nilErr
		}
		return p.jsonDecode(fr, n, u.Elem(), c)
	case *types.Struct:
		if n.kind != "obj" {
			return p.jsonTypeErr(n, t)
		}
		fs := jsonFields(u)
		for i, k := range n.keys {
			var f *jfield
			for x := range fs {
				if fs[x].name == k {
					f = &fs[x]
					break
				}
			}
			if f == nil {
				for x := range fs {
					if strings.EqualFold(fs[x].name, k) {
						f = &fs[x]
						break
					}
				}
			}
			if f == nil {
				continue
			}
			cell := a
			var ct types.Type = t
			for _, ix := range f.index {
				if pt, ok := ct.Underlying().(*types.Pointer); ok {
					c, _ := (*cell).(*Value)
					if c == nil {
						c = new(Value)
						*c = p.zero(pt.Elem())
						*cell = c
					}
					cell = c
					ct = pt.Elem()
				}
				st := ct.Underlying().(*types.Struct)
				cell = &(*cell).(Struct)[ix]
				ct = st.Field(ix).Type()
			}
			if e := p.jsonDecode(fr, n.vals[i], f.typ, cell); isErr(e) {
				return e
			}
		}
		return nilErr
	case *types.Slice:
		if isByteSlice(t) {
			switch n.kind {
			case "bytes":
				*a = p.strToBytes(n.s)
				return nilErr
			case "str":
				// base64 text
				if at, ok := atomOf(n.s); ok && at.t.op == OUF && at.t.name == "b64" {
					*a = &OBytes{mkAtom(at.t.args[0], "bytes")}
					return nilErr
				}
				if cs, ok := n.s.(string); ok {
					var out []byte
					if err := json.Unmarshal([]byte(strconv.Quote(cs)), &out); err != nil {
						return p.newErr("illegal base64 data")
					}
					*a = p.strBytes(string(out))
					return nilErr
				}
				panic(unsupported("base64 of an opaque string"))
			}
			return p.jsonTypeErr(n, t)
		}
		if n.kind != "arr" {
			return p.jsonTypeErr(n, t)
		}
		s := make([]Value, len(n.arr))
		for i := range s {
			s[i] = p.zero(u.Elem())
			if e := p.jsonDecode(fr, n.arr[i], u.Elem(), &s[i]); isErr(e) {
				return e
			}
		}
		*a = s
		return nilErr
	case *types.Array:
		if n.kind != "arr" {
			return p.jsonTypeErr(n, t)
		}
		arr := (*a).(Array)
		for i := range arr {
			if i < len(n.arr) {
				if e := p.jsonDecode(fr, n.arr[i], u.Elem(), &arr[i]); isErr(e) {
					return e
				}
			}
		}
		return nilErr
	case *types.Map:
		if n.kind != "obj" {
			return p.jsonTypeErr(n, t)
		}
		m, _ := (*a).(*Map)
		if m == nil {
			m = newMap()
			*a = m
		}
		for i, k := range n.keys {
			var kv Value = k
			if k == "\x00sym" {
				kv = n.skeys[i]
			}
			kc := new(Value)
			if isString(u.Key()) {
				*kc = kv
			} else if f := p.w.prog.methodByName(ptrTo(u.Key()), "UnmarshalText"); f != nil {
				*kc = p.zero(u.Key())
				if e := p.callValue(fr, f, []Value{kc, p.strToBytes(kv)}); isErr(e) {
					return e
				}
			} else {
				panic(unsupported("json map key type %s", u.Key()))
			}
			vc := new(Value)
			*vc = p.zero(u.Elem())
			if e := p.jsonDecode(fr, n.vals[i], u.Elem(), vc); isErr(e) {
				return e
			}
			p.mapSet(m, *kc, *vc)
		}
		return nilErr
	case *types.Interface:
		if u.NumMethods() > 0 {
			if cur, ok := (*a).(Iface); ok && cur.t != nil {
				if c, ok := cur.v.(*Value); ok {
					if pt, ok := cur.t.Underlying().(*types.Pointer); ok {
						return p.jsonDecode(fr, n, pt.Elem(), c)
					}
				}
			}
			return p.jsonTypeErr(n, t)
		}
		*a = p.jsonAny(n)
		return nilErr
	}
	panic(unsupported("json decode into %s", t))
}

func (p *Path) jsonAny(n *jnode) Value {
	U := types.Universe
	switch n.kind {
	case "null":
		return Iface{}
	case "bool":
		return Iface{U.Lookup("bool").Type(), n.b}
	case "float":
		return Iface{U.Lookup("float64").Type(), n.f}
	case "num":
		if n.n.isConst() {
			return Iface{U.Lookup("float64").Type(), float64(n.n.sval())}
		}
	case "str":
		return Iface{U.Lookup("string").Type(), n.s}
	case "arr":
		var s []Value
		for _, x := range n.arr {
			s = append(s, p.jsonAny(x))
		}
		return Iface{types.NewSlice(types.NewInterfaceType(nil, nil)), s}
	case "obj":
		m := newMap()
		for i, k := range n.keys {
			var kv Value = k
			if k == "\x00sym" {
				kv = n.skeys[i]
			}
			p.mapSet(m, kv, p.jsonAny(n.vals[i]))
		}
		return Iface{types.NewMap(U.Lookup("string").Type(), types.NewInterfaceType(nil, nil)), m}
	}
	panic(unsupported("json any %s", n.kind))
}

func (p *Path) jsonMarshal(fr *frame, v Iface) (out Value, err Value) {
	defer func() {
		if r := recover(); r != nil {
			if je, ok := r.(jsonErr); ok {
				out, err = []Value(nil), je.err
				return
			}
			panic(r)
		}
	}()
	return p.strToBytes(p.jdoc(p.jsonEncode(fr, v.t, v))), nilErr
}

func (p *Path) jsonUnmarshal(fr *frame, data Value, target Iface) Value {
	n := p.jsonParse(fr, p.bytesToStr(data))
	if n == nil {
		return p.newErr("invalid character in JSON input")
	}
	a, ok := target.v.(*Value)
	if !ok || a == nil {
		return p.newErr("json: Unmarshal(non-pointer)")
	}
	pt := target.t.Underlying().(*types.Pointer)
	// The target itself may be an Unmarshaler.
	return p.jsonDecode(fr, n, pt.Elem(), a)
}

func regJSON() {
	reg("encoding/json.Marshal", func(fr *frame, fn *ssa.Function, a []Value) Value {
		v, e := fr.p.jsonMarshal(fr, a[0].(Iface))
		return Tuple{v, e}
	})
	reg("encoding/json.MarshalIndent", func(fr *frame, fn *ssa.Function, a []Value) Value {
		v, e := fr.p.jsonMarshal(fr, a[0].(Iface))
		return Tuple{v, e}
	})
	reg("encoding/json.Unmarshal", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.p.jsonUnmarshal(fr, a[0], a[1].(Iface))
	})
	reg("encoding/json.Valid", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.p.tb.Bool(fr.p.jsonParse(fr, fr.p.bytesToStr(a[0])) != nil)
	})
	type codec struct {
		rw   Iface
		done bool
	}
	mk := func(typ string) intrinsicFn {
		return func(fr *frame, fn *ssa.Function, a []Value) Value {
			p := fr.p
			c := new(Value)
			*c = p.zero(p.w.prog.typeOf("encoding/json", typ))
			p.side[sideKey{"jsonrw", c}] = &codec{rw: a[0].(Iface)}
			return c
		}
	}
	reg("encoding/json.NewEncoder", mk("Encoder"))
	reg("encoding/json.NewDecoder", mk("Decoder"))
	reg("(*encoding/json.Encoder).SetIndent", noop)
	reg("(*encoding/json.Decoder).DisallowUnknownFields", noop)
	reg("(*encoding/json.Encoder).Encode", func(fr *frame, fn *ssa.Function, a []Value) Value {
		p := fr.p
		c := p.side[sideKey{"jsonrw", a[0].(*Value)}].(*codec)
		v, e := p.jsonMarshal(fr, a[1].(Iface))
		if isErr(e) {
			return e
		}
		r := p.writeTo(fr, c.rw, concat(p.bytesToStr(v), "\n")).(Tuple)
		return r[1]
	})
	reg("(*encoding/json.Decoder).Decode", func(fr *frame, fn *ssa.Function, a []Value) Value {
		p := fr.p
		c := p.side[sideKey{"jsonrw", a[0].(*Value)}].(*codec)
		if c.done {
			return p.ioEOF(fr)
		}
		c.done = true
		r := p.callValue(fr, p.w.prog.pkgs["io"].Func("ReadAll"), []Value{c.rw}).(Tuple)
		if isErr(r[1]) {
			return r[1]
		}
		s := p.bytesToStr(r[0])
		// trailing newline of Encode
		if rp, ok := s.(*Rope); ok && len(rp.segs) == 2 && rp.segs[0].k == segDoc && rp.segs[1].lit == "\n" {
			s = &Rope{rp.segs[:1]}
		}
		if cs, ok := s.(string); ok && strings.TrimSpace(cs) == "" {
			return p.ioEOF(fr)
		}
		return p.jsonUnmarshal(fr, p.strToBytes(s), a[1].(Iface))
	})
}
