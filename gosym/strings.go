package main

import (
	"go/types"
	"path"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

var ptrCache sync.Map

func ptrTo(t types.Type) types.Type {
	if v, ok := ptrCache.Load(t); ok {
		return v.(types.Type)
	}
	v, _ := ptrCache.LoadOrStore(t, types.NewPointer(t))
	return v.(types.Type)
}

// body runs the function's own code, bypassing the intrinsic.
func (fr *frame) body(fn *ssa.Function, args []Value) Value {
	p := fr.p
	info := getInfo(fn)
	if fn.Blocks == nil {
		panic(unsupported("no body: %s", fn))
	}
	p.w.fnCount[fn]++
	nf := &frame{p: p, g: fr.g, caller: fr, fn: fn, info: info, regs: make([]Value, info.n), depth: fr.depth + 1}
	for i := range fn.Params {
		nf.regs[i] = args[i]
	}
	fr.g.fr = nf
	nf.block = fn.Blocks[0]
	nf.run()
	fr.g.fr = fr
	return nf.result
}

// strBuf is the content of a Builder, Buffer or Reader.
type strBuf struct {
	s    Value
	last int
}

func (p *Path) sbuf(a *Value) *strBuf {
	return p.sideOf(sideKey{"sbuf", a}, func() interface{} { return &strBuf{s: ""} }).(*strBuf)
}

func allConc(args []Value) bool {
	for _, a := range args {
		switch x := a.(type) {
		case *Rope:
			return false
		case *OBytes:
			if x != nil {
				return false
			}
		}
	}
	return true
}

func regStrings() {
	ptr := func(v Value, fr *frame) *Value {
		a := v.(*Value)
		if a == nil {
			panic(fr.derefNil())
		}
		return a
	}
	write := func(conv func(p *Path, v Value) Value, tuple int) intrinsicFn {
		return func(fr *frame, fn *ssa.Function, a []Value) Value {
			p := fr.p
			b := p.sbuf(ptr(a[0], fr))
			s := conv(p, a[1])
			b.s = concat(b.s, s)
			switch tuple {
			case 2:
				return Tuple{p.strLen(s), nilErr}
			case 1:
				return nilErr
			}
			return nil
		}
	}
	fromBytes := func(p *Path, v Value) Value { return p.bytesToStr(v) }
	fromStr := func(p *Path, v Value) Value { return v }
	fromByte := func(p *Path, v Value) Value { return mkRope([]Seg{{k: segByte, t: v.(*Term)}}) }
	fromRune := func(p *Path, v Value) Value {
		t := v.(*Term)
		if !t.isConst() {
			if p.branch(p.tb.Bin(OULt, t, p.tb.Const(32, 0x80))) {
				return mkRope([]Seg{{k: segByte, t: p.tb.Conv(t, 8, false)}})
			}
			panic(unsupported("WriteRune of symbolic non-ASCII rune"))
		}
		return string(rune(t.sval()))
	}
	for _, T := range []string{"(*strings.Builder)", "(*bytes.Buffer)"} {
		reg(T+".Write", write(fromBytes, 2))
		reg(T+".WriteString", write(fromStr, 2))
		reg(T+".WriteByte", write(fromByte, 1))
		reg(T+".WriteRune", write(fromRune, 2))
		reg(T+".String", func(fr *frame, fn *ssa.Function, a []Value) Value {
			if a[0].(*Value) == nil {
				return "<nil>"
			}
			return fr.p.sbuf(ptr(a[0], fr)).s
		})
		reg(T+".Len", func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.p.strLen(fr.p.sbuf(ptr(a[0], fr)).s) })
		reg(T+".Cap", func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.p.strLen(fr.p.sbuf(ptr(a[0], fr)).s) })
		reg(T+".Reset", func(fr *frame, fn *ssa.Function, a []Value) Value { fr.p.sbuf(ptr(a[0], fr)).s = ""; return nil })
		reg(T+".Grow", func(fr *frame, fn *ssa.Function, a []Value) Value { return nil })
	}
	reg("(*bytes.Buffer).Bytes", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.p.strToBytes(fr.p.sbuf(ptr(a[0], fr)).s)
	})
	mkBuf := func(typ, pkg string, conv func(p *Path, v Value) Value) intrinsicFn {
		return func(fr *frame, fn *ssa.Function, a []Value) Value {
			p := fr.p
			c := new(Value)
			*c = p.zero(p.w.prog.typeOf(pkg, typ))
			p.sbuf(c).s = conv(p, a[0])
			return c
		}
	}
	reg("bytes.NewBuffer", mkBuf("Buffer", "bytes", fromBytes))
	reg("bytes.NewBufferString", mkBuf("Buffer", "bytes", fromStr))
	reg("bytes.NewReader", mkBuf("Reader", "bytes", fromBytes))
	reg("strings.NewReader", mkBuf("Reader", "strings", fromStr))
	for _, T := range []string{"(*strings.Reader)", "(*bytes.Reader)", "(*bytes.Buffer)"} {
		reg(T+".Read", func(fr *frame, fn *ssa.Function, a []Value) Value {
			p := fr.p
			b := p.sbuf(ptr(a[0], fr))
			dst := a[1].([]Value)
			if len(dst) == 0 {
				return Tuple{p.tb.Int(0), nilErr}
			}
			bs := p.strBytes(b.s)
			if len(bs) == 0 {
				return Tuple{p.tb.Int(0), p.ioEOF(fr)}
			}
			n := copy(dst, bs)
			b.s = p.bytesToStr(append([]Value(nil), bs[n:]...))
			return Tuple{p.tb.Int(n), nilErr}
		})
		reg(T+".ReadByte", func(fr *frame, fn *ssa.Function, a []Value) Value {
			p := fr.p
			b := p.sbuf(ptr(a[0], fr))
			bs := p.strBytes(b.s)
			if len(bs) == 0 {
				return Tuple{p.tb.Const(8, 0), p.ioEOF(fr)}
			}
			b.s = p.bytesToStr(append([]Value(nil), bs[1:]...))
			return Tuple{bs[0], nilErr}
		})
		reg(T+".Len", func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.p.strLen(fr.p.sbuf(ptr(a[0], fr)).s) })
		reg(T+".WriteTo", func(fr *frame, fn *ssa.Function, a []Value) Value {
			p := fr.p
			b := p.sbuf(ptr(a[0], fr))
			s := b.s
			b.s = ""
			r := p.writeTo(fr, a[1], s).(Tuple)
			return Tuple{r[0], r[1]}
		})
	}
	reg("io.ReadAll", func(fr *frame, fn *ssa.Function, a []Value) Value {
		p := fr.p
		r := a[0].(Iface)
		if r.t != nil {
			switch r.t.String() {
			case "*bytes.Buffer", "*bytes.Reader", "*strings.Reader":
				b := p.sbuf(r.v.(*Value))
				s := b.s
				b.s = ""
				return Tuple{p.strToBytes(s), nilErr}
			case "io.nopCloser", "*io.nopCloser":
				inner := r.v.(Struct)[0]
				return p.callValue(fr, fn, []Value{inner})
			}
		}
		if f := p.w.prog.methodByName(r.t, "VsymAll"); f != nil {
			return p.callValue(fr, f, []Value{copyVal(r.v)})
		}
		return fr.body(fn, a)
	})
	intrinsics["io/ioutil.ReadAll"] = func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.p.callValue(fr, fr.p.w.prog.pkgs["io"].Func("ReadAll"), a)
	}

	// bytealg
	toStr := func(p *Path, v Value) Value {
		switch v.(type) {
		case string, *Rope:
			return v
		}
		return p.bytesToStr(v)
	}
	reg2 := func(names []string, f func(fr *frame, a []Value) Value) {
		for _, n := range names {
			reg(n, func(fr *frame, fn *ssa.Function, a []Value) Value { return f(fr, a) })
		}
	}
	reg2([]string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "strings.IndexByte", "bytes.IndexByte"}, func(fr *frame, a []Value) Value {
		p := fr.p
		s := toStr(p, a[0])
		c := a[1].(*Term)
		if cs, ok := s.(string); ok && c.isConst() {
			return p.tb.Int(strings.IndexByte(cs, byte(c.k)))
		}
		if hasAtoms(s) {
			return p.indexByteRope(s.(*Rope), c)
		}
		for i, x := range p.strBytes(s) {
			if p.branch(p.tb.Eq(x.(*Term), c)) {
				return p.tb.Int(i)
			}
		}
		return p.tb.Int(-1)
	})
	reg2([]string{"strings.LastIndexByte", "bytes.LastIndexByte"}, func(fr *frame, a []Value) Value {
		p := fr.p
		s := toStr(p, a[0])
		c := a[1].(*Term)
		if cs, ok := s.(string); ok && c.isConst() {
			return p.tb.Int(strings.LastIndexByte(cs, byte(c.k)))
		}
		bs := p.strBytes(s)
		for i := len(bs) - 1; i >= 0; i-- {
			if p.branch(p.tb.Eq(bs[i].(*Term), c)) {
				return p.tb.Int(i)
			}
		}
		return p.tb.Int(-1)
	})
	reg2([]string{"internal/bytealg.Count", "internal/bytealg.CountString"}, func(fr *frame, a []Value) Value {
		p := fr.p
		s := toStr(p, a[0])
		c := a[1].(*Term)
		n := 0
		for _, x := range p.strBytes(s) {
			if p.branch(p.tb.Eq(x.(*Term), c)) {
				n++
			}
		}
		return p.tb.Int(n)
	})
	reg2([]string{"internal/bytealg.Index", "internal/bytealg.IndexString", "strings.Index", "bytes.Index"}, func(fr *frame, a []Value) Value {
		p := fr.p
		s, t := toStr(p, a[0]), toStr(p, a[1])
		cs, ok1 := s.(string)
		ct, ok2 := t.(string)
		if ok1 && ok2 {
			return p.tb.Int(strings.Index(cs, ct))
		}
		x, y := p.strBytes(s), p.strBytes(t)
		for i := 0; i+len(y) <= len(x); i++ {
			r := p.tb.tt
			for j := range y {
				r = p.tb.And(r, p.tb.Eq(x[i+j].(*Term), y[j].(*Term)))
			}
			if p.branch(r) {
				return p.tb.Int(i)
			}
		}
		return p.tb.Int(-1)
	})
	reg2([]string{"internal/bytealg.Equal", "bytes.Equal"}, func(fr *frame, a []Value) Value {
		return fr.p.eqStr(toStr(fr.p, a[0]), toStr(fr.p, a[1]))
	})
	reg2([]string{"internal/bytealg.Compare", "bytes.Compare", "strings.Compare"}, func(fr *frame, a []Value) Value {
		p := fr.p
		x, y := toStr(p, a[0]), toStr(p, a[1])
		return p.tb.Ite(p.eqStr(x, y), p.tb.Int(0), p.tb.Ite(p.strLess(x, y), p.tb.Int(-1), p.tb.Int(1)))
	})
	// strings functions meaningful on opaque strings
	conc := func(name string, f func(fr *frame, a []Value) (Value, bool)) {
		reg(name, func(fr *frame, fn *ssa.Function, a []Value) Value {
			any := false
			for _, x := range a {
				if hasAtoms(x) {
					any = true
				}
			}
			if any {
				if v, ok := f(fr, a); ok {
					return v
				}
			}
			return fr.body(fn, a)
		})
	}
	noSep := func(s Seg) bool {
		return s.k == segAtom && s.t.op == OUF && (s.t.name == "b58" || s.t.name == "cidstr")
	}
	var hasPre func(p *Path, s, pre Value) *Term
	hasPre = func(p *Path, s, pre Value) *Term {
		x, y := segsOf(s), segsOf(pre)
		if len(x) > 0 && len(y) > 1 {
			if x[0].k == segLit && y[0].k == segLit {
				n := len(y[0].lit)
				if len(x[0].lit) < n {
					n = len(x[0].lit)
				}
				if x[0].lit[:n] != y[0].lit[:n] {
					return p.tb.ff
				}
				cut := func(z []Seg) Value {
					return mkRope(append([]Seg{{k: segLit, lit: z[0].lit[n:]}}, z[1:]...))
				}
				return hasPre(p, cut(x), cut(y))
			}
			// Texts without separators, up to the next separator.
			if noSep(x[0]) && noSep(y[0]) && y[1].k == segLit && y[1].lit[0] == '/' {
				if len(x) == 1 {
					return p.tb.ff
				}
				if x[1].k == segLit && x[1].lit[0] == '/' {
					if r := hasPre(p, mkRope(x[1:]), mkRope(y[1:])); r != nil {
						return p.tb.And(p.tb.Eq(x[0].t, y[0].t), r)
					}
				}
				return nil
			}
		}
		if len(x) == 0 {
			return nil
		}
		if len(y) == 0 {
			return p.tb.tt
		}
		// literal prefix against leading literal
		if len(y) == 1 && y[0].k == segLit {
			if x[0].k == segLit && len(x[0].lit) >= len(y[0].lit) {
				return p.tb.Bool(strings.HasPrefix(x[0].lit, y[0].lit))
			}
			if x[0].k == segLit && !strings.HasPrefix(y[0].lit, x[0].lit) {
				return p.tb.ff
			}
			if x[0].k == segAtom && len(x) == 1 {
				if x[0].t.op == OUF && (x[0].t.name == "b58" || x[0].t.name == "cidstr") {
					// base58/base32 text has no separators
					if strings.ContainsAny(y[0].lit, "/:. ") {
						return p.tb.ff
					}
				}
				p.note("prefix test on an opaque string left uninterpreted")
				return p.tb.UF("hasprefix!"+strconv.Quote(y[0].lit), 0, x[0].t)
			}
		}
		return nil
	}
	conc("strings.HasPrefix", func(fr *frame, a []Value) (Value, bool) {
		t := hasPre(fr.p, a[0], a[1])
		return t, t != nil
	})
	conc("strings.TrimPrefix", func(fr *frame, a []Value) (Value, bool) {
		x := segsOf(a[0])
		pre, ok := a[1].(string)
		if ok && len(x) > 0 && x[0].k == segLit && strings.HasPrefix(x[0].lit, pre) {
			n := append([]Seg{{k: segLit, lit: x[0].lit[len(pre):]}}, x[1:]...)
			return mkRope(n), true
		}
		if t := hasPre(fr.p, a[0], a[1]); t != nil && !fr.p.branch(t) {
			return a[0], true
		}
		return nil, false
	})
	conc("strings.HasSuffix", func(fr *frame, a []Value) (Value, bool) {
		x, ok := a[1].(string)
		s := segsOf(a[0])
		l := s[len(s)-1]
		if ok && l.k == segLit && len(l.lit) >= len(x) {
			return fr.p.tb.Bool(strings.HasSuffix(l.lit, x)), true
		}
		if ok && l.k == segAtom && strings.ContainsAny(x, "/:. \n") {
			fr.p.note("identifiers contain no separators")
			return fr.p.tb.ff, true
		}
		return nil, false
	})
	conc("strings.TrimSuffix", func(fr *frame, a []Value) (Value, bool) {
		x, ok := a[1].(string)
		s := segsOf(a[0])
		l := s[len(s)-1]
		if ok && l.k == segAtom && strings.ContainsAny(x, "/:. \n") {
			return a[0], true
		}
		return nil, false
	})
	conc("strings.TrimSpace", func(fr *frame, a []Value) (Value, bool) {
		s := append([]Seg(nil), segsOf(a[0])...)
		if s[0].k == segLit {
			s[0].lit = strings.TrimLeft(s[0].lit, " \t\r\n")
		}
		if n := len(s) - 1; s[n].k == segLit {
			s[n].lit = strings.TrimRight(s[n].lit, " \t\r\n")
		}
		return mkRope(s), true
	})
	conc("strings.Contains", func(fr *frame, a []Value) (Value, bool) {
		x, ok := a[1].(string)
		if ok && strings.ContainsAny(x, "/:. \n") {
			for _, g := range segsOf(a[0]) {
				if g.k == segLit && strings.Contains(g.lit, x) {
					return fr.p.tb.tt, true
				}
			}
			return fr.p.tb.ff, true
		}
		return nil, false
	})
	splitRope := func(v Value, sep string) []Value {
		var parts []Value
		var cur []Seg
		for _, g := range segsOf(v) {
			if g.k != segLit {
				cur = append(cur, g)
				continue
			}
			fs := strings.Split(g.lit, sep)
			for i, f := range fs {
				if i > 0 {
					parts = append(parts, mkRope(cur))
					cur = nil
				}
				cur = append(cur, Seg{k: segLit, lit: f})
			}
		}
		return append(parts, mkRope(cur))
	}
	conc("strings.Split", func(fr *frame, a []Value) (Value, bool) {
		sep, ok := a[1].(string)
		if !ok || sep == "" {
			return nil, false
		}
		fr.p.note("identifiers contain no separators")
		return splitRope(a[0], sep), true
	})
	clean := func(v Value) Value {
		parts := splitRope(v, "/")
		rooted := false
		if s, ok := parts[0].(string); ok && s == "" {
			rooted = true
		}
		var out []Value
		for _, x := range parts {
			if s, ok := x.(string); ok {
				if s == "" || s == "." {
					continue
				}
				if s == ".." {
					if len(out) > 0 {
						out = out[:len(out)-1]
					}
					continue
				}
			}
			out = append(out, x)
		}
		var r Value = ""
		for i, x := range out {
			if i > 0 || rooted {
				r = concat(r, "/")
			}
			r = concat(r, x)
		}
		if s, ok := r.(string); ok && s == "" {
			if rooted {
				return "/"
			}
			return "."
		}
		return r
	}
	// An empty opaque element disappears from a cleaned path: decide emptiness.
	settle := func(p *Path, v Value) Value {
		s := append([]Seg(nil), segsOf(v)...)
		for i, g := range s {
			if g.k == segAtom {
				if p.branch(p.tb.Eq(g.t, p.tb.Const(32, 0))) {
					s[i] = Seg{k: segLit, lit: ""}
				}
			}
		}
		return mkRope(s)
	}
	conc("path.Clean", func(fr *frame, a []Value) (Value, bool) {
		s := settle(fr.p, a[0])
		if c, ok := s.(string); ok {
			return path.Clean(c), true
		}
		return clean(s), true
	})
	conc("path.Base", func(fr *frame, a []Value) (Value, bool) {
		s := clean(settle(fr.p, a[0]))
		parts := splitRope(s, "/")
		return parts[len(parts)-1], true
	})
	reg("path.Join", func(fr *frame, fn *ssa.Function, a []Value) Value {
		p := fr.p
		var r Value = ""
		for _, x := range varargs(a[0]) {
			if hasAtoms(x) {
				x = settle(p, x)
			}
			if s, ok := x.(string); ok && s == "" {
				continue
			}
			if s, ok := r.(string); ok && s == "" {
				r = x
			} else {
				r = concat(r, "/", x)
			}
		}
		if s, ok := r.(string); ok {
			if s == "" {
				return ""
			}
			return path.Clean(s)
		}
		return clean(r)
	})
	reg("strings.Join", func(fr *frame, fn *ssa.Function, a []Value) Value {
		var r Value = ""
		for i, x := range varargs(a[0]) {
			if i > 0 {
				r = concat(r, a[1])
			}
			r = concat(r, x)
		}
		return r
	})
	reg("strconv.Itoa", func(fr *frame, fn *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		if t.isConst() {
			return strconv.FormatInt(t.sval(), 10)
		}
		return mkAtom(fr.p.tb.UF("fmtint64trued", 32, t), "fmt")
	})
}

// indexByteRope finds a separator in a rope with atoms (which contain none).
func (p *Path) indexByteRope(r *Rope, c *Term) Value {
	if !c.isConst() || !strings.ContainsRune("/:. \n\t", rune(c.k)) {
		panic(unsupported("IndexByte in an opaque string in %s", p.whereNow()))
	}
	off := p.tb.Int(0)
	for _, g := range r.segs {
		switch g.k {
		case segLit:
			if i := strings.IndexByte(g.lit, byte(c.k)); i >= 0 {
				return p.tb.Bin(OAdd, off, p.tb.Int(i))
			}
			off = p.tb.Bin(OAdd, off, p.tb.Int(len(g.lit)))
		case segByte:
			if p.branch(p.tb.Eq(g.t, c)) {
				return off
			}
			off = p.tb.Bin(OAdd, off, p.tb.Int(1))
		default:
			off = p.tb.Bin(OAdd, p.atomLen(g), off)
		}
	}
	return p.tb.Int(-1)
}

func (p *Path) globalVal(fr *frame, pkg, name string) Value {
	pk := p.w.prog.pkgs[pkg]
	if pk == nil {
		panic(unsupported("package %s not loaded", pkg))
	}
	return *p.globalAddr(fr, pk.Members[name].(*ssa.Global))
}

func (p *Path) ioEOF(fr *frame) Value { return p.globalVal(fr, "io", "EOF") }
