package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var noopPkgs = []string{
	"github.com/ipfs/go-log", "github.com/ipfs/go-log/v2", "go.uber.org/zap",
	"go.opencensus.io", "github.com/prometheus",
	repoModule + "/internal/metrics",
}

var theProg *Program

// noop returns zero results; pointer results are fresh zero objects, and a
// context argument is passed through.
func noop(fr *frame, fn *ssa.Function, args []Value) Value {
	p := fr.p
	res := fn.Signature.Results()
	mk := func(t types.Type) Value {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			c := new(Value)
			*c = p.zero(u.Elem())
			return c
		case *types.Interface:
			if t.String() == "context.Context" {
				for i := 0; i < fn.Signature.Params().Len(); i++ {
					if fn.Signature.Params().At(i).Type().String() == "context.Context" {
						k := i
						if fn.Signature.Recv() != nil {
							k++
						}
						return args[k]
					}
				}
			}
		case *types.Signature:
			return &Native{"noop", func(fr *frame, a []Value) Value { return p.zero(u.Results()) }}
		}
		return p.zero(t)
	}
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return mk(res.At(0).Type())
	}
	r := make(Tuple, res.Len())
	for i := range r {
		r[i] = mk(res.At(i).Type())
	}
	return r
}

func (p *Path) newErr(s Value) Value {
	t := p.w.prog.typeOf("errors", "errorString")
	c := new(Value)
	*c = Struct{s}
	return Iface{types.NewPointer(t), c}
}

var ptrTypes = map[types.Type]*types.Pointer{}

func (p *Path) errorValue(msg string) Value      { return p.newErr(msg) }
func (p *Path) runtimeErrValue(msg string) Value { return p.newErr("runtime error: " + msg) }

func isErr(v Value) bool {
	i, ok := v.(Iface)
	return ok && i.t != nil
}

var nilErr = Iface{}

// ---------------------------------------------------------------- fmt

func (p *Path) fmtAny(fr *frame, t types.Type, v Value, verb byte) Value {
	return p.fmtValue(fr, Iface{t, v}, verb)
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// fmtValue renders an operand. Anything it cannot render exactly becomes an
// opaque atom.
func (p *Path) fmtValue(fr *frame, x Iface, verb byte) Value {
	if x.t == nil {
		return "<nil>"
	}
	if verb == 'T' {
		return x.t.String()
	}
	if fr != nil && strings.IndexByte("vsqxX", verb) >= 0 {
		for _, m := range []string{"Error", "String"} {
			if f := p.w.prog.methodByName(x.t, m); f != nil {
				sf := f.(*ssa.Function)
				if sf.Signature.Params().Len() != 0 || sf.Signature.Results().Len() != 1 || !isString(sf.Signature.Results().At(0).Type()) {
					continue
				}
				if a, ok := x.v.(*Value); ok && a == nil {
					return "<nil>"
				}
				r := p.callValue(fr, f, []Value{copyVal(x.v)})
				if verb == 'q' {
					return concat("\"", r, "\"")
				}
				return r
			}
		}
	}
	switch v := x.v.(type) {
	case *Term:
		_, sgn, _ := typeWidth(x.t)
		if v.w == 0 {
			if v.isConst() {
				return strconv.FormatBool(v.k != 0)
			}
			return mkAtom(p.tb.UF("fmtbool", 32, v), "fmt")
		}
		if v.isConst() {
			base := 10
			switch verb {
			case 'x', 'X':
				base = 16
			case 'c':
				return string(rune(v.k))
			case 'b':
				base = 2
			}
			if sgn {
				return strconv.FormatInt(v.sval(), base)
			}
			return strconv.FormatUint(v.k, base)
		}
		return mkAtom(p.tb.UF(fmt.Sprintf("fmtint%d%v%c", v.w, sgn, verb), 32, v), "fmt")
	case float64:
		if verb == 'v' {
			verb = 'g'
		}
		return strconv.FormatFloat(v, verb, -1, 64)
	case string:
		if verb == 'q' {
			return strconv.Quote(v)
		}
		return v
	case *Rope:
		if verb == 'q' {
			return concat("\"", v, "\"")
		}
		return v
	case []Value, *OBytes:
		if isByteSlice(x.t) {
			s := p.bytesToStr(v)
			if verb == 's' || verb == 'v' && hasAtoms(s) {
				return s
			}
			return mkAtom(p.fresh("fmtbytes", 32), "fmt")
		}
		et := x.t.Underlying().(*types.Slice).Elem()
		var r Value = "["
		for i, e := range v.([]Value) {
			if i > 0 {
				r = concat(r, " ")
			}
			r = concat(r, p.fmtElem(fr, et, e, verb))
		}
		return concat(r, "]")
	case *Value:
		if v == nil {
			return "<nil>"
		}
		return "0xc000000000"
	case Struct:
		st := x.t.Underlying().(*types.Struct)
		var r Value = "{"
		for i, e := range v {
			if i > 0 {
				r = concat(r, " ")
			}
			r = concat(r, p.fmtElem(fr, st.Field(i).Type(), e, verb))
		}
		return concat(r, "}")
	case *Map:
		return "map[...]"
	}
	return "?"
}

func (p *Path) fmtElem(fr *frame, t types.Type, v Value, verb byte) Value {
	if i, ok := v.(Iface); ok {
		return p.fmtValue(fr, i, verb)
	}
	return p.fmtValue(fr, Iface{t, v}, verb)
}

func (p *Path) sprintf(fr *frame, format Value, args []Value) (Value, []Iface) {
	f, ok := format.(string)
	if !ok {
		return mkAtom(p.fresh("fmt", 32), "fmt"), nil
	}
	var out []Value
	var wrapped []Iface
	ai := 0
	i := 0
	for i < len(f) {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			out = append(out, f[i:])
			break
		}
		out = append(out, f[i:i+j])
		i += j + 1
		spec := ""
		for i < len(f) && strings.IndexByte("+-# 0123456789.[]*", f[i]) >= 0 {
			spec += string(f[i])
			i++
		}
		if i >= len(f) {
			out = append(out, "%!(NOVERB)")
			break
		}
		verb := f[i]
		i++
		if verb == '%' {
			out = append(out, "%")
			continue
		}
		if strings.ContainsAny(spec, "[*") {
			panic(unsupported("fmt spec %q", spec))
		}
		if ai >= len(args) {
			out = append(out, "%!"+string(verb)+"(MISSING)")
			continue
		}
		a := args[ai].(Iface)
		ai++
		if verb == 'w' {
			wrapped = append(wrapped, a)
			verb = 'v'
		}
		s := p.fmtValue(fr, a, verb)
		if spec != "" {
			if c, ok := s.(string); ok {
				// width / precision for concrete scalars
				switch v := a.v.(type) {
				case *Term:
					_, sgn, _ := typeWidth(a.t)
					if v.w > 0 && v.isConst() && verb != 'v' {
						if sgn {
							s = fmt.Sprintf("%"+spec+string(verb), v.sval())
						} else {
							s = fmt.Sprintf("%"+spec+string(verb), v.k)
						}
					}
				case float64:
					s = fmt.Sprintf("%"+spec+string(verb), v)
				default:
					if verb == 's' || verb == 'v' {
						s = fmt.Sprintf("%"+strings.Trim(spec, "+#")+"s", c)
					}
				}
			}
		}
		out = append(out, s)
	}
	return concat(append([]Value{""}, out...)...), wrapped
}

func (p *Path) sprint(fr *frame, args []Value, ln bool) Value {
	var out []Value
	for i, a := range args {
		x := a.(Iface)
		if i > 0 {
			if ln {
				out = append(out, " ")
			} else {
				_, s1 := x.v.(string)
				_, s2 := args[i-1].(Iface).v.(string)
				if !s1 && !s2 {
					out = append(out, " ")
				}
			}
		}
		out = append(out, p.fmtValue(fr, x, 'v'))
	}
	if ln {
		out = append(out, "\n")
	}
	return concat(append([]Value{""}, out...)...)
}

func varargs(v Value) []Value {
	s, _ := v.([]Value)
	return s
}

// writeTo calls w.Write(bytes).
func (p *Path) writeTo(fr *frame, w Value, s Value) Value {
	r, ok := p.callMethod(fr, w.(Iface), "Write", p.strToBytes(s))
	if !ok {
		panic(unsupported("Write method"))
	}
	return r
}

// ---------------------------------------------------------------- table

var intrinsics map[string]intrinsicFn

func reg(name string, f intrinsicFn) {
	intrinsics[name] = f
}

func termArg(v Value) *Term { return v.(*Term) }

func init() {
	intrinsics = map[string]intrinsicFn{}
	regSync()
	regTime()
	regMisc()
	regStrings()
	regVsym()
	regModels()
	regPack()
	regJSON()
}

func (p *Path) sideOf(k interface{}, mk func() interface{}) interface{} {
	v, ok := p.side[k]
	if !ok {
		v = mk()
		p.side[k] = v
	}
	return v
}

type sideKey struct {
	kind string
	a    *Value
}

func regSync() {
	type T = Value
	ptr := func(v Value, fr *frame) *Value {
		a := v.(*Value)
		if a == nil {
			panic(fr.derefNil())
		}
		return a
	}
	reg("(*sync.Mutex).Lock", func(fr *frame, fn *ssa.Function, a []Value) Value {
		p := fr.p
		l := p.lock(ptr(a[0], fr))
		fr.g.fr = fr
		p.sch.block(fr.g, "Mutex.Lock", func() bool { return !l.w }, l)
		l.w = true
		l.owner = fr.g.id
		return nil
	})
	reg("(*sync.Mutex).TryLock", func(fr *frame, fn *ssa.Function, a []Value) Value {
		p := fr.p
		l := p.lock(ptr(a[0], fr))
		p.sch.yield(fr.g, "TryLock", l)
		if l.w {
			return p.tb.ff
		}
		l.w = true
		return p.tb.tt
	})
	unlock := func(fr *frame, fn *ssa.Function, a []Value) Value {
		l := fr.p.lock(ptr(a[0], fr))
		if !l.w {
			panic(&goPanicVal{msg: "fatal error: unlock of unlocked mutex", v: fr.p.errorValue("unlock of unlocked mutex"), fr: fr})
		}
		l.w = false
		if fr.p.ex.opt.Params["yieldunlock"] > 0 {
			fr.p.sch.yield(fr.g, "Unlock", l)
		}
		return nil
	}
	reg("(*sync.Mutex).Unlock", unlock)
	reg("(*sync.RWMutex).Unlock", unlock)
	reg("(*sync.RWMutex).Lock", func(fr *frame, fn *ssa.Function, a []Value) Value {
		l := fr.p.lock(ptr(a[0], fr))
		fr.g.fr = fr
		l.writers++
		fr.p.sch.block(fr.g, "RWMutex.Lock", func() bool { return !l.w && l.r == 0 }, l)
		l.writers--
		l.w = true
		return nil
	})
	reg("(*sync.RWMutex).RLock", func(fr *frame, fn *ssa.Function, a []Value) Value {
		l := fr.p.lock(ptr(a[0], fr))
		fr.g.fr = fr
		// a waiting writer blocks new readers
		fr.p.sch.block(fr.g, "RWMutex.RLock", func() bool { return !l.w && l.writers == 0 }, l)
		l.r++
		return nil
	})
	reg("(*sync.RWMutex).RUnlock", func(fr *frame, fn *ssa.Function, a []Value) Value {
		l := fr.p.lock(ptr(a[0], fr))
		if l.r == 0 {
			panic(&goPanicVal{msg: "fatal error: RUnlock of unlocked RWMutex", v: fr.p.errorValue("RUnlock"), fr: fr})
		}
		l.r--
		return nil
	})
	type wg struct{ n int64 }
	getwg := func(fr *frame, v Value) *wg {
		return fr.p.sideOf(sideKey{"wg", ptr(v, fr)}, func() interface{} { return &wg{} }).(*wg)
	}
	add := func(fr *frame, w *wg, d int64) {
		w.n += d
		if w.n < 0 {
			panic(fr.p.goPanic("sync: negative WaitGroup counter"))
		}
	}
	reg("(*sync.WaitGroup).Add", func(fr *frame, fn *ssa.Function, a []Value) Value {
		w := getwg(fr, a[0])
		fr.g.fr = fr
		fr.p.sch.yield(fr.g, "WaitGroup.Add", w)
		add(fr, w, a[1].(*Term).sval())
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(fr *frame, fn *ssa.Function, a []Value) Value {
		w := getwg(fr, a[0])
		fr.g.fr = fr
		fr.p.sch.yield(fr.g, "WaitGroup.Done", w)
		add(fr, w, -1)
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(fr *frame, fn *ssa.Function, a []Value) Value {
		w := getwg(fr, a[0])
		fr.g.fr = fr
		fr.p.sch.block(fr.g, "WaitGroup.Wait", func() bool { return w.n == 0 }, w)
		return nil
	})
	type once struct{ st int }
	reg("(*sync.Once).Do", func(fr *frame, fn *ssa.Function, a []Value) Value {
		var o *once
		if fr.p.initDep > 0 {
			o = &once{}
		} else {
			o = fr.p.sideOf(sideKey{"once", ptr(a[0], fr)}, func() interface{} { return &once{} }).(*once)
		}
		fr.g.fr = fr
		fr.p.sch.block(fr.g, "Once.Do", func() bool { return o.st != 1 }, o)
		if o.st == 2 {
			return nil
		}
		o.st = 1
		func() {
			defer func() { o.st = 2; fr.p.sch.touch([]interface{}{o}) }()
			fr.p.callValue(fr, a[1], nil)
		}()
		return nil
	})
	reg("(*sync.Pool).Get", func(fr *frame, fn *ssa.Function, a []Value) Value {
		st := (*ptr(a[0], fr)).(Struct)
		f := st[len(st)-1]
		if isNilVal(f) {
			return Iface{}
		}
		return fr.p.callValue(fr, f, nil)
	})
	reg("(*sync.Pool).Put", func(fr *frame, fn *ssa.Function, a []Value) Value { return nil })

	// sync.Map
	sm := func(fr *frame, v Value) *Map {
		return fr.p.sideOf(sideKey{"syncmap", ptr(v, fr)}, func() interface{} { return newMap() }).(*Map)
	}
	reg("(*sync.Map).Load", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.sch.yield(fr.g, "sync.Map", a[0])
		if e := fr.p.mapFind(sm(fr, a[0]), a[1]); e != nil {
			return Tuple{e.v, fr.p.tb.tt}
		}
		return Tuple{Iface{}, fr.p.tb.ff}
	})
	reg("(*sync.Map).Store", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.sch.yield(fr.g, "sync.Map", a[0])
		fr.p.mapSet(sm(fr, a[0]), a[1], a[2])
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.sch.yield(fr.g, "sync.Map", a[0])
		m := sm(fr, a[0])
		if e := fr.p.mapFind(m, a[1]); e != nil {
			return Tuple{e.v, fr.p.tb.tt}
		}
		fr.p.mapSet(m, a[1], a[2])
		return Tuple{a[2], fr.p.tb.ff}
	})
	reg("(*sync.Map).Delete", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.sch.yield(fr.g, "sync.Map", a[0])
		fr.p.mapDelete(sm(fr, a[0]), a[1])
		return nil
	})
	reg("(*sync.Map).LoadAndDelete", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.sch.yield(fr.g, "sync.Map", a[0])
		m := sm(fr, a[0])
		if e := fr.p.mapFind(m, a[1]); e != nil {
			v := e.v
			fr.p.mapDelete(m, a[1])
			return Tuple{v, fr.p.tb.tt}
		}
		return Tuple{Iface{}, fr.p.tb.ff}
	})
	reg("(*sync.Map).Range", func(fr *frame, fn *ssa.Function, a []Value) Value {
		for _, e := range sm(fr, a[0]).live() {
			if e.dead {
				continue
			}
			r := fr.p.callValue(fr, a[1], []Value{e.k, e.v})
			if !fr.p.branch(r.(*Term)) {
				break
			}
		}
		return nil
	})
	// sync.Cond
	type cond struct {
		waiters []*int
	}
	cnd := func(fr *frame, v Value) *cond {
		return fr.p.sideOf(sideKey{"cond", ptr(v, fr)}, func() interface{} { return &cond{} }).(*cond)
	}
	reg("(*sync.Cond).Wait", func(fr *frame, fn *ssa.Function, a []Value) Value {
		c := cnd(fr, a[0])
		st := (*ptr(a[0], fr)).(Struct)
		var l Iface
		for _, f := range st {
			if i, ok := f.(Iface); ok {
				l = i
			}
		}
		w := new(int)
		c.waiters = append(c.waiters, w)
		fr.p.callMethod(fr, l, "Unlock")
		fr.g.fr = fr
		fr.p.sch.block(fr.g, "Cond.Wait", func() bool { return *w == 1 }, c)
		fr.p.callMethod(fr, l, "Lock")
		return nil
	})
	reg("(*sync.Cond).Signal", func(fr *frame, fn *ssa.Function, a []Value) Value {
		c := cnd(fr, a[0])
		fr.g.fr = fr
		fr.p.sch.yield(fr.g, "Cond.Signal", c)
		if len(c.waiters) > 0 {
			*c.waiters[0] = 1
			c.waiters = c.waiters[1:]
		}
		return nil
	})
	reg("(*sync.Cond).Broadcast", func(fr *frame, fn *ssa.Function, a []Value) Value {
		c := cnd(fr, a[0])
		fr.g.fr = fr
		fr.p.sch.yield(fr.g, "Cond.Broadcast", c)
		for _, w := range c.waiters {
			*w = 1
		}
		c.waiters = nil
		return nil
	})
	// atomics
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		reg("sync/atomic.Load"+ty, func(fr *frame, fn *ssa.Function, a []Value) Value {
			fr.p.sch.yield(fr.g, "atomic", a[0])
			return copyVal(*ptr(a[0], fr))
		})
		reg("sync/atomic.Store"+ty, func(fr *frame, fn *ssa.Function, a []Value) Value {
			fr.p.sch.yield(fr.g, "atomic", a[0])
			*ptr(a[0], fr) = a[1]
			return nil
		})
		reg("sync/atomic.Add"+ty, func(fr *frame, fn *ssa.Function, a []Value) Value {
			fr.p.sch.yield(fr.g, "atomic", a[0])
			c := ptr(a[0], fr)
			*c = fr.p.tb.Bin(OAdd, (*c).(*Term), a[1].(*Term))
			return *c
		})
		reg("sync/atomic.Swap"+ty, func(fr *frame, fn *ssa.Function, a []Value) Value {
			fr.p.sch.yield(fr.g, "atomic", a[0])
			c := ptr(a[0], fr)
			o := *c
			*c = a[1]
			return o
		})
		reg("sync/atomic.CompareAndSwap"+ty, func(fr *frame, fn *ssa.Function, a []Value) Value {
			fr.p.sch.yield(fr.g, "atomic", a[0])
			c := ptr(a[0], fr)
			if fr.p.branch(fr.p.eqVal(*c, a[1])) {
				*c = a[2]
				return fr.p.tb.tt
			}
			return fr.p.tb.ff
		})
	}
	reg("(*sync/atomic.Value).Load", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.sch.yield(fr.g, "atomic", a[0])
		if v, ok := fr.p.side[sideKey{"atomicval", ptr(a[0], fr)}]; ok {
			return v
		}
		return Iface{}
	})
	reg("(*sync/atomic.Value).Store", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.sch.yield(fr.g, "atomic", a[0])
		if a[1].(Iface).t == nil {
			panic(fr.p.goPanic("sync/atomic: store of nil value into Value"))
		}
		fr.p.side[sideKey{"atomicval", ptr(a[0], fr)}] = a[1]
		return nil
	})
	reg("(*sync/atomic.Value).Swap", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.sch.yield(fr.g, "atomic", a[0])
		if a[1].(Iface).t == nil {
			panic(fr.p.goPanic("sync/atomic: swap of nil value into Value"))
		}
		k := sideKey{"atomicval", ptr(a[0], fr)}
		o, ok := fr.p.side[k]
		fr.p.side[k] = a[1]
		if ok {
			return o
		}
		return Iface{}
	})
	reg("(*sync/atomic.Value).CompareAndSwap", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.sch.yield(fr.g, "atomic", a[0])
		k := sideKey{"atomicval", ptr(a[0], fr)}
		var o Value = Iface{}
		if v, ok := fr.p.side[k]; ok {
			o = v
		}
		if fr.p.branch(fr.p.eqVal(o, a[1])) {
			fr.p.side[k] = a[2]
			return fr.p.tb.tt
		}
		return fr.p.tb.ff
	})
	reg("runtime.Gosched", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.sch.yield(fr.g, "Gosched")
		return nil
	})
	for _, n := range []string{"runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC"} {
		reg(n, noop)
	}
}

const timeT = "time"

func timeNs(v Value) *Term { return v.(Struct)[1].(*Term) }

func regTime() {
	tb := func(fr *frame) *TB { return fr.p.tb }
	// instants read by the module under test are inputs of the replay
	readNow := func(fr *frame) *Term {
		if inRepo(fr.fn) {
			fr.g.fr = fr
			fr.p.sch.yield(fr.g, "time.Now", clockObj{})
		}
		n := fr.p.timeNow()
		if fr.p.initDep == 0 && inRepo(fr.fn) {
			fr.p.inputs = append(fr.p.inputs, &InputVal{Kind: "now", Name: n.name, term: n})
		}
		return n
	}
	for _, pre := range []string{"time", vsymPkg} {
		reg(pre+".Now", func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.p.mkTime(readNow(fr)) })
		reg(pre+".Since", func(fr *frame, fn *ssa.Function, a []Value) Value {
			return tb(fr).Bin(OSub, readNow(fr), timeNs(a[0]))
		})
		reg(pre+".Until", func(fr *frame, fn *ssa.Function, a []Value) Value {
			return tb(fr).Bin(OSub, timeNs(a[0]), readNow(fr))
		})
	}
	reg("(time.Time).Add", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.p.mkTime(tb(fr).Bin(OAdd, timeNs(a[0]), a[1].(*Term)))
	})
	reg("(time.Time).Sub", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return tb(fr).Bin(OSub, timeNs(a[0]), timeNs(a[1]))
	})
	reg("(time.Time).After", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return tb(fr).Bin(OSLt, timeNs(a[1]), timeNs(a[0]))
	})
	reg("(time.Time).Before", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return tb(fr).Bin(OSLt, timeNs(a[0]), timeNs(a[1]))
	})
	reg("(time.Time).Equal", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return tb(fr).Eq(timeNs(a[0]), timeNs(a[1]))
	})
	reg("(time.Time).IsZero", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return tb(fr).Eq(timeNs(a[0]), tb(fr).Const(64, 0))
	})
	reg("(time.Time).UnixNano", func(fr *frame, fn *ssa.Function, a []Value) Value { return timeNs(a[0]) })
	reg("(time.Time).Unix", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return tb(fr).Bin(OSDiv, timeNs(a[0]), tb(fr).Const(64, 1e9))
	})
	reg("(time.Time).UnixMilli", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return tb(fr).Bin(OSDiv, timeNs(a[0]), tb(fr).Const(64, 1e6))
	})
	reg("time.Unix", func(fr *frame, fn *ssa.Function, a []Value) Value {
		t := tb(fr)
		return fr.p.mkTime(t.Bin(OAdd, t.Bin(OMul, a[0].(*Term), t.Const(64, 1e9)), a[1].(*Term)))
	})
	for _, m := range []string{"UTC", "Local"} {
		reg("(time.Time)."+m, func(fr *frame, fn *ssa.Function, a []Value) Value { return a[0] })
	}
	for _, m := range []string{"Round", "Truncate"} {
		reg("(time.Time)."+m, func(fr *frame, fn *ssa.Function, a []Value) Value {
			t := tb(fr)
			d := a[1].(*Term)
			if d.isConst() && d.sval() <= 0 {
				return a[0]
			}
			ns := timeNs(a[0])
			return fr.p.mkTime(t.Bin(OSub, ns, t.Bin(OSRem, ns, d)))
		})
	}
	for _, m := range []string{"String", "GoString"} {
		reg("(time.Time)."+m, func(fr *frame, fn *ssa.Function, a []Value) Value {
			return mkAtom(fr.p.tb.UF("timestr", 32, timeNs(a[0])), "time")
		})
	}
	reg("(time.Time).Format", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return mkAtom(fr.p.tb.UF("timestr", 32, timeNs(a[0])), "time")
	})
	reg("(time.Time).Zone", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.note("the time zone is UTC")
		return Tuple{"UTC", fr.p.tb.Int(0)}
	})
	reg("time.runtimeNano", func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.p.tb.Const(64, 1) })
	newTimer := func(fr *frame, d *Term, fnv Value) *Timer {
		p := fr.p
		fr.g.fr = fr
		p.sch.yield(fr.g, "NewTimer", clockObj{})
		now := p.now
		if now == nil {
			now = p.timeNow()
		}
		t := &Timer{ch: &Chan{cap: 1, elem: p.w.prog.typeOf("time", "Time")}, fn: fnv, armed: true, deadline: p.tb.Bin(OAdd, now, d)}
		p.timers = append(p.timers, t)
		return t
	}
	timerStruct := func(fr *frame, t *Timer, typ string) Value {
		p := fr.p
		c := new(Value)
		s := p.zero(p.w.prog.typeOf("time", typ)).(Struct)
		s[0] = t.ch
		*c = s
		p.side[sideKey{"timer", c}] = t
		return c
	}
	reg("time.After", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return newTimer(fr, a[0].(*Term), nil).ch
	})
	reg("time.Tick", func(fr *frame, fn *ssa.Function, a []Value) Value {
		t := newTimer(fr, a[0].(*Term), nil)
		t.period = a[0].(*Term)
		return t.ch
	})
	reg("time.NewTimer", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return timerStruct(fr, newTimer(fr, a[0].(*Term), nil), "Timer")
	})
	reg("time.AfterFunc", func(fr *frame, fn *ssa.Function, a []Value) Value {
		t := newTimer(fr, a[0].(*Term), a[1])
		return timerStruct(fr, t, "Timer")
	})
	reg("time.NewTicker", func(fr *frame, fn *ssa.Function, a []Value) Value {
		d := a[0].(*Term)
		if fr.p.branch(fr.p.tb.Bin(OSLe, d, fr.p.tb.Const(64, 0))) {
			panic(fr.p.goPanic("non-positive interval for NewTicker"))
		}
		t := newTimer(fr, d, nil)
		t.period = d
		return timerStruct(fr, t, "Ticker")
	})
	getT := func(fr *frame, v Value) *Timer {
		c := v.(*Value)
		if c == nil {
			panic(fr.derefNil())
		}
		t, _ := fr.p.side[sideKey{"timer", c}].(*Timer)
		if t == nil {
			panic(fr.p.goPanic("time: Stop called on uninitialized Timer"))
		}
		return t
	}
	stop := func(fr *frame, fn *ssa.Function, a []Value) Value {
		t := getT(fr, a[0])
		fr.g.fr = fr
		fr.p.sch.yield(fr.g, "Timer.Stop", clockObj{}, t)
		was := t.armed
		t.armed = false
		return fr.p.tb.Bool(was)
	}
	reg("(*time.Timer).Stop", stop)
	reg("(*time.Ticker).Stop", func(fr *frame, fn *ssa.Function, a []Value) Value { stop(fr, fn, a); return nil })
	reg("(*time.Timer).Reset", func(fr *frame, fn *ssa.Function, a []Value) Value {
		t := getT(fr, a[0])
		fr.g.fr = fr
		fr.p.sch.yield(fr.g, "Timer.Reset", clockObj{}, t)
		was := t.armed
		t.armed = true
		t.deadline = fr.p.tb.Bin(OAdd, fr.p.timeNow(), a[1].(*Term))
		return fr.p.tb.Bool(was)
	})
	reg("(*time.Ticker).Reset", func(fr *frame, fn *ssa.Function, a []Value) Value {
		t := getT(fr, a[0])
		t.armed = true
		t.period = a[1].(*Term)
		return nil
	})
	reg("time.Sleep", func(fr *frame, fn *ssa.Function, a []Value) Value {
		t := newTimer(fr, a[0].(*Term), nil)
		fr.g.fr = fr
		fr.p.sch.block(fr.g, "Sleep", func() bool { return !t.armed }, t)
		return nil
	})
	reg("(time.Duration).String", func(fr *frame, fn *ssa.Function, a []Value) Value {
		d := a[0].(*Term)
		if d.isConst() {
			return durString(d.sval())
		}
		return mkAtom(fr.p.tb.UF("durstr", 32, d), "dur")
	})
	reg("(time.Duration).Seconds", func(fr *frame, fn *ssa.Function, a []Value) Value {
		d := a[0].(*Term)
		if d.isConst() {
			return float64(d.sval()) / 1e9
		}
		fr.p.note("Duration.Seconds of a symbolic duration taken as 0 (metrics/logging only)")
		return float64(0)
	})
	reg("time.ParseDuration", func(fr *frame, fn *ssa.Function, a []Value) Value {
		p := fr.p
		if s, ok := a[0].(string); ok {
			d, err := parseDur(s)
			if err != nil {
				return Tuple{p.tb.Int(0), p.newErr(err.Error())}
			}
			return Tuple{p.tb.Const(64, uint64(d)), nilErr}
		}
		if at, ok := atomOf(a[0]); ok {
			if at.t.op == OUF && at.t.name == "durstr" {
				return Tuple{at.t.args[0], nilErr}
			}
		}
		panic(unsupported("ParseDuration of symbolic string"))
	})
}

func regMisc() {
	reg("fmt.Sprintf", func(fr *frame, fn *ssa.Function, a []Value) Value {
		s, _ := fr.p.sprintf(fr, a[0], varargs(a[1]))
		return s
	})
	reg("fmt.Sprint", func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.p.sprint(fr, varargs(a[0]), false) })
	reg("fmt.Sprintln", func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.p.sprint(fr, varargs(a[0]), true) })
	reg("fmt.Errorf", func(fr *frame, fn *ssa.Function, a []Value) Value {
		p := fr.p
		s, w := p.sprintf(fr, a[0], varargs(a[1]))
		c := new(Value)
		if len(w) == 1 && w[0].t != nil && p.w.prog.methodByName(w[0].t, "Error") != nil {
			*c = Struct{s, w[0]}
			return Iface{types.NewPointer(p.w.prog.typeOf("fmt", "wrapError")), c}
		}
		return p.newErr(s)
	})
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print"} {
		reg(n, func(fr *frame, fn *ssa.Function, a []Value) Value { return Tuple{fr.p.tb.Int(0), nilErr} })
	}
	reg("fmt.Fprintf", func(fr *frame, fn *ssa.Function, a []Value) Value {
		s, _ := fr.p.sprintf(fr, a[1], varargs(a[2]))
		return fr.p.writeTo(fr, a[0], s)
	})
	reg("fmt.Fprintln", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.p.writeTo(fr, a[0], fr.p.sprint(fr, varargs(a[1]), true))
	})
	reg("fmt.Fprint", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.p.writeTo(fr, a[0], fr.p.sprint(fr, varargs(a[1]), false))
	})
	reg("errors.Is", func(fr *frame, fn *ssa.Function, a []Value) Value {
		p := fr.p
		err, target := a[0].(Iface), a[1].(Iface)
		if target.t == nil || err.t == nil {
			return p.tb.Bool(target.t == nil && err.t == nil)
		}
		for {
			if types.Comparable(target.t) && types.Identical(err.t, target.t) && p.branch(p.eqVal(err, target)) {
				return p.tb.tt
			}
			if f := p.w.prog.methodByName(err.t, "Is"); f != nil {
				if r, ok := p.callValue(fr, f, []Value{copyVal(err.v), target}).(*Term); ok && p.branch(r) {
					return p.tb.tt
				}
			}
			f := p.w.prog.methodByName(err.t, "Unwrap")
			if f == nil {
				return p.tb.ff
			}
			e, ok := p.callValue(fr, f, []Value{copyVal(err.v)}).(Iface)
			if !ok || e.t == nil {
				return p.tb.ff
			}
			err = e
		}
	})
	reg("errors.As", func(fr *frame, fn *ssa.Function, a []Value) Value {
		p := fr.p
		err, target := a[0].(Iface), a[1].(Iface)
		if target.t == nil {
			panic(p.goPanic("errors: target cannot be nil"))
		}
		pt, ok := target.t.Underlying().(*types.Pointer)
		if !ok {
			panic(p.goPanic("errors: target must be a non-nil pointer"))
		}
		et := pt.Elem()
		for err.t != nil {
			if it, ok := et.Underlying().(*types.Interface); ok {
				if p.w.prog.implements(err.t, it) {
					storeVal(target.v.(*Value), err)
					return p.tb.tt
				}
			} else if types.Identical(err.t, et) {
				storeVal(target.v.(*Value), err.v)
				return p.tb.tt
			}
			if f := p.w.prog.methodByName(err.t, "As"); f != nil {
				if r, ok := p.callValue(fr, f, []Value{copyVal(err.v), target}).(*Term); ok && p.branch(r) {
					return p.tb.tt
				}
			}
			f := p.w.prog.methodByName(err.t, "Unwrap")
			if f == nil {
				return p.tb.ff
			}
			e, ok := p.callValue(fr, f, []Value{copyVal(err.v)}).(Iface)
			if !ok {
				return p.tb.ff
			}
			err = e
		}
		return p.tb.ff
	})
	sorter := func(fr *frame, fn *ssa.Function, a []Value) Value {
		p := fr.p
		s, _ := a[0].(Iface).v.([]Value)
		// insertion sort in place, through the real less(i, j)
		less := func(i, j int) bool {
			return p.branch(p.callValue(fr, a[1], []Value{p.tb.Int(i), p.tb.Int(j)}).(*Term))
		}
		for i := 1; i < len(s); i++ {
			for j := i; j > 0 && less(j, j-1); j-- {
				x, y := copyVal(s[j]), copyVal(s[j-1])
				storeVal(&s[j], y)
				storeVal(&s[j-1], x)
			}
		}
		return nil
	}
	reg("sort.Slice", sorter)
	reg("sort.SliceStable", sorter)
	// math
	f1 := func(n string, f func(float64) float64) {
		reg("math."+n, func(fr *frame, fn *ssa.Function, a []Value) Value { return f(a[0].(float64)) })
	}
	f1("Floor", math.Floor)
	f1("Ceil", math.Ceil)
	f1("Sqrt", math.Sqrt)
	f1("Log", math.Log)
	f1("Abs", math.Abs)
	f1("Trunc", math.Trunc)
	reg("math.Pow", func(fr *frame, fn *ssa.Function, a []Value) Value { return math.Pow(a[0].(float64), a[1].(float64)) })
	reg("math.Float64bits", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.p.tb.Const(64, math.Float64bits(a[0].(float64)))
	})
	reg("math.Float64frombits", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return math.Float64frombits(a[0].(*Term).k)
	})
	reg("math.Float32bits", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.p.tb.Const(32, uint64(math.Float32bits(float32(a[0].(float64)))))
	})
	// random
	rnd := func(fr *frame, n *Term, w uint8) Value {
		p := fr.p
		t := p.fresh("rand", w)
		if n != nil {
			p.addPC(p.tb.Bin(OULt, t, n))
		}
		return t
	}
	for _, pre := range []string{"math/rand.", "(*math/rand.Rand)."} {
		off := 0
		if strings.HasPrefix(pre, "(") {
			off = 1
		}
		o := off
		for n, w := range map[string]uint8{"Intn": 64, "Int63n": 64, "Int31n": 32} {
			w := w
			reg(pre+n, func(fr *frame, fn *ssa.Function, a []Value) Value { return rnd(fr, a[o].(*Term), w) })
		}
		reg(pre+"Int", func(fr *frame, fn *ssa.Function, a []Value) Value { return rnd(fr, fr.p.tb.Const(64, 1<<63), 64) })
		reg(pre+"Int63", func(fr *frame, fn *ssa.Function, a []Value) Value { return rnd(fr, fr.p.tb.Const(64, 1<<63), 64) })
		reg(pre+"Uint64", func(fr *frame, fn *ssa.Function, a []Value) Value { return rnd(fr, nil, 64) })
		reg(pre+"Seed", noop)
	}
	reg("math/rand.NewSource", noop)
	reg("math/rand.New", noop)
	reg("crypto/rand.Read", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return Tuple{fr.p.lenOf(a[0]), nilErr}
	})
	reg("os.Getenv", func(fr *frame, fn *ssa.Function, a []Value) Value { return "" })
	reg("os.LookupEnv", func(fr *frame, fn *ssa.Function, a []Value) Value { return Tuple{"", fr.p.tb.ff} })
	reg("runtime/debug.Stack", func(fr *frame, fn *ssa.Function, a []Value) Value { return []Value{} })
	reg("runtime.Caller", func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.p.zero(fn.Signature.Results()) })
	reg("runtime.Callers", func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.p.tb.Int(0) })
	reg("internal/cpu.Initialize", noop)
	reg("internal/godebug.Get", func(fr *frame, fn *ssa.Function, a []Value) Value { return "" })
	reg("reflect.TypeOf", func(fr *frame, fn *ssa.Function, a []Value) Value {
		p := fr.p
		t := p.w.prog.typeOf("reflect", "rtype")
		if a[0].(Iface).t == nil {
			return Iface{}
		}
		c := new(Value)
		*c = &Opaque{"rtype", a[0].(Iface).t}
		return Iface{types.NewPointer(t), c}
	})
	reg("reflect.DeepEqual", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.p.deepEq(a[0], a[1])
	})
}

// deepEq is reflect.DeepEqual.
func (p *Path) deepEq(a, b Value) *Term {
	tb := p.tb
	switch x := a.(type) {
	case Iface:
		y, ok := b.(Iface)
		if !ok || (x.t == nil) != (y.t == nil) {
			return tb.ff
		}
		if x.t == nil {
			return tb.tt
		}
		if !types.Identical(x.t, y.t) {
			return tb.ff
		}
		return p.deepEq(x.v, y.v)
	case Struct:
		y := b.(Struct)
		r := tb.tt
		for i := range x {
			r = tb.And(r, p.deepEq(x[i], y[i]))
		}
		return r
	case Array:
		y := b.(Array)
		r := tb.tt
		for i := range x {
			r = tb.And(r, p.deepEq(x[i], y[i]))
		}
		return r
	case []Value:
		y, ok := b.([]Value)
		if !ok {
			return p.eqStr(p.bytesToStr(a), p.bytesToStr(b))
		}
		if len(x) != len(y) || (x == nil) != (y == nil) {
			return tb.ff
		}
		r := tb.tt
		for i := range x {
			r = tb.And(r, p.deepEq(x[i], y[i]))
		}
		return r
	case *OBytes:
		return p.eqStr(p.bytesToStr(a), p.bytesToStr(b))
	case *Value:
		y := b.(*Value)
		if x == y {
			return tb.tt
		}
		if x == nil || y == nil {
			return tb.ff
		}
		return p.deepEq(*x, *y)
	case *Map:
		y := b.(*Map)
		if (x == nil) != (y == nil) {
			return tb.ff
		}
		if x == nil {
			return tb.tt
		}
		if x.n != y.n {
			return tb.ff
		}
		r := tb.tt
		for _, e := range x.live() {
			f := p.mapFind(y, e.k)
			if f == nil {
				return tb.ff
			}
			r = tb.And(r, p.deepEq(e.v, f.v))
		}
		return r
	}
	return p.eqVal(a, b)
}
