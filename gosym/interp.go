package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type fnInfo struct {
	slots map[ssa.Value]int
	n     int
	tab   []slotEnt // slots by the address of the value
	mask  uintptr
}

type slotEnt struct {
	p    unsafe.Pointer
	slot int
}

func valPtr(v ssa.Value) unsafe.Pointer {
	return (*[2]unsafe.Pointer)(unsafe.Pointer(&v))[1]
}

func slotHash(p unsafe.Pointer) uintptr {
	x := uintptr(p) >> 3
	return x ^ x>>7 ^ x>>13
}

func (in *fnInfo) index() {
	n := 4
	for n < 2*len(in.slots) {
		n *= 2
	}
	in.tab = make([]slotEnt, n)
	in.mask = uintptr(n - 1)
	for v, s := range in.slots {
		p := valPtr(v)
		for i := slotHash(p) & in.mask; ; i = (i + 1) & in.mask {
			if in.tab[i].p == nil {
				in.tab[i] = slotEnt{p, s}
				break
			}
		}
	}
}

func (in *fnInfo) slot(v ssa.Value) int {
	p := valPtr(v)
	for i := slotHash(p) & in.mask; ; i = (i + 1) & in.mask {
		if e := &in.tab[i]; e.p == p {
			return e.slot
		} else if e.p == nil {
			return -1
		}
	}
}

type deferred struct {
	fn   Value
	args []Value
	next *deferred
}

type frame struct {
	p        *Path
	g        *G
	caller   *frame
	fn       *ssa.Function
	info     *fnInfo
	regs     []Value
	env      []Value
	block    *ssa.BasicBlock
	prev     *ssa.BasicBlock
	defers   *deferred
	result   Value
	panicing *goPanicVal
	cur      ssa.Instruction
	depth    int
}

// goPanicVal is a Go-level panic of the interpreted program.
type goPanicVal struct {
	v       Value // the panic argument (an Iface)
	msg     string
	runtime bool
	fr      *frame
	recov   bool
}

func (fr *frame) where() string {
	s := fr.fn.String()
	if fr.cur != nil {
		s += " " + shortPos(fr.p.w.prog, fr.cur)
	}
	return s
}

// repoWhere names the innermost frame that belongs to the code under test
// (function only, so that it survives line changes).
func (fr *frame) repoWhere() string {
	for f := fr; f != nil; f = f.caller {
		if f.fn != nil && inRepo(f.fn) {
			return f.fn.RelString(nil)
		}
	}
	return fr.fn.String()
}

const repoModule = "github.com/filecoin-project/storetheindex"

func fnPkg(fn *ssa.Function) *ssa.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg
	}
	return nil
}

func inRepo(fn *ssa.Function) bool {
	p := fnPkg(fn)
	if p == nil {
		return false
	}
	return strings.HasPrefix(p.Pkg.Path(), repoModule) && !strings.HasPrefix(p.Pkg.Path(), repoModule+"/internal/vsym")
}

func shortPos(pr *Program, in ssa.Instruction) string {
	pos := in.Pos()
	if !pos.IsValid() {
		// find a near instruction with a position
		for _, o := range in.Block().Instrs {
			if o.Pos().IsValid() {
				pos = o.Pos()
				break
			}
		}
	}
	if !pos.IsValid() {
		return ""
	}
	ps := pr.prog.Fset.Position(pos)
	f := ps.Filename
	f = strings.TrimPrefix(f, "/repo/")
	if i := strings.LastIndex(f, "/pkg/mod/"); i >= 0 {
		f = f[i+9:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (p *Path) goPanic(msg string) *goPanicVal {
	return &goPanicVal{msg: msg, v: p.errorValue(msg), fr: p.curFrame()}
}

func (p *Path) runtimeErr(msg string) *goPanicVal {
	return &goPanicVal{msg: "runtime error: " + msg, runtime: true, v: p.runtimeErrValue(msg), fr: p.curFrame()}
}

func (p *Path) curFrame() *frame {
	if p.sch.cur != nil {
		return p.sch.cur.fr
	}
	return nil
}

func (p *Path) panicString(e *goPanicVal) string {
	if e.msg != "" {
		return e.msg
	}
	if i, ok := e.v.(Iface); ok {
		s := p.fmtValue(nil, i, 'v')
		return concreteStr(s, nil)
	}
	return "?"
}

var infoMu sync.RWMutex
var infoTab = map[*ssa.Function]*fnInfo{}

func getInfo(fn *ssa.Function) *fnInfo {
	infoMu.RLock()
	in := infoTab[fn]
	infoMu.RUnlock()
	if in != nil {
		return in
	}
	infoMu.Lock()
	defer infoMu.Unlock()
	if in := infoTab[fn]; in != nil {
		return in
	}
	if pk := fnPkg(fn); pk != nil {
		theProg.build(pk)
	}
	in = &fnInfo{slots: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		in.slots[v] = in.n
		in.n++
	}
	for _, x := range fn.Params {
		add(x)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	in.index()
	infoTab[fn] = in
	return in
}

func (fr *frame) get(v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return fr.p.constVal(v)
	case *ssa.Global:
		return fr.p.globalAddr(fr, v)
	case *ssa.Function:
		return v
	case *ssa.Builtin:
		return v
	case *ssa.FreeVar:
		for i, fv := range fr.fn.FreeVars {
			if fv == v {
				return fr.env[i]
			}
		}
	}
	if i := fr.info.slot(v); i >= 0 {
		return fr.regs[i]
	}
	panic(unsupported("get %T %s in %s", v, v.Name(), fr.fn))
}

func (fr *frame) set(v ssa.Value, x Value) { fr.regs[fr.info.slot(v)] = x }

func (p *Path) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return p.zero(c.Type())
	}
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		if w, sgn, ok := basicWidth(b); ok {
			if w == 0 {
				return p.tb.Bool(constant.BoolVal(c.Value))
			}
			if sgn {
				return p.tb.Const(w, uint64(c.Int64()))
			}
			return p.tb.Const(w, c.Uint64())
		}
		switch b.Kind() {
		case types.Float32:
			return float64(float32(c.Float64()))
		case types.Float64, types.UntypedFloat:
			return c.Float64()
		case types.String, types.UntypedString:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			return string(rune(c.Int64()))
		case types.Complex128, types.Complex64, types.UntypedComplex:
			return c.Complex128()
		case types.UnsafePointer:
			return UPtr{nil}
		}
	}
	panic(unsupported("const %s", c))
}

// globalAddr returns the cell of g, initialising its package on first touch.
func (p *Path) globalAddr(fr *frame, g *ssa.Global) *Value {
	pkg := g.Pkg
	if p.w.prog.frozen(pkg) {
		if p.w.fstate[pkg] == 0 {
			p.w.fstate[pkg] = 1
			p.runInit(fr, pkg, func(x *ssa.Global, v *Value) { p.w.frozen[x] = v })
			p.w.fstate[pkg] = 2
			for _, m := range pkg.Members {
				if x, ok := m.(*ssa.Global); ok {
					p.w.initial[x] = copyVal(*p.w.frozen[x])
					p.touched[x] = true
				}
			}
		}
		a := p.w.frozen[g]
		if p.w.fstate[pkg] == 2 && !p.touched[g] {
			// An earlier path may have changed it.
			p.touched[g] = true
			storeVal(a, p.w.initial[g])
		}
		return a
	}
	if a := p.globals[g]; a != nil {
		return a
	}
	if p.initSt[pkg] == 0 {
		p.initSt[pkg] = 1
		p.runInit(fr, pkg, func(x *ssa.Global, v *Value) { p.globals[x] = v })
		p.initSt[pkg] = 2
	}
	if a := p.globals[g]; a != nil {
		return a
	}
	panic(unsupported("global %s", g))
}

func (p *Path) runInit(fr *frame, pkg *ssa.Package, def func(*ssa.Global, *Value)) {
	p.w.prog.build(pkg)
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			c := new(Value)
			*c = p.zero(g.Type().(*types.Pointer).Elem())
			def(g, c)
		}
	}
	if skipInit(pkg.Pkg.Path()) {
		return
	}
	p.initDep++
	defer func() { p.initDep-- }()
	var g *G
	if fr != nil {
		g = fr.g
	} else {
		g = p.sch.cur
	}
	initFn := pkg.Func("init")
	func() {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(pathEnd); ok && e.kind == "unsupported" {
					p.w.initErr = fmt.Sprintf("init of %s: %s", pkg.Pkg.Path(), e.msg)
					panic(unsupported("%s", p.w.initErr))
				}
				if e, ok := r.(*goPanicVal); ok {
					p.w.initErr = fmt.Sprintf("init of %s panicked: %s", pkg.Pkg.Path(), e.msg)
					panic(unsupported("%s", p.w.initErr))
				}
				panic(r)
			}
		}()
		p.call(nil, initFn, nil, g)
	}()
}

// call runs fn with args on goroutine g.
func (p *Path) call(caller *frame, fn *ssa.Function, args []Value, g *G) Value {
	return p.callFn(caller, fn, args, nil, g)
}

func (p *Path) depth(fr *frame) int {
	n := 0
	for ; fr != nil; fr = fr.caller {
		n++
	}
	return n
}

func (p *Path) callFn(caller *frame, fn *ssa.Function, args []Value, env []Value, g *G) Value {
	depth := 0
	if caller != nil {
		depth = caller.depth + 1
	}
	if depth > 600 {
		panic(pathEnd{"bound", "call depth over 600 in " + fn.String()})
	}
	in := p.w.prog.intrinsic(fn)
	if in != nil {
		cf := caller
		if cf == nil {
			cf = &frame{p: p, g: g, fn: fn}
		}
		return in(cf, fn, args)
	}
	// package init functions only run on demand
	if fn.Synthetic == "package initializer" && caller != nil && caller.fn != nil && caller.fn.Synthetic == "package initializer" {
		return nil
	}
	info := getInfo(fn)
	if fn.Blocks == nil {
		panic(unsupported("no body: %s (in %s)", fn, p.whereNow()))
	}
	p.w.fnCount[fn]++
	if traceFns != nil {
		for _, t := range traceFns {
			if strings.Contains(fn.String(), t) {
				fmt.Printf("%*sg%d %s\n", p.depth(caller), "", g.id, fn)
				defer fmt.Printf("%*sg%d %s returns\n", p.depth(caller), "", g.id, fn)
			}
		}
	}
	fr := &frame{p: p, g: g, caller: caller, fn: fn, info: info, regs: make([]Value, info.n), env: env, depth: depth}
	for i := range fn.Params {
		fr.regs[i] = args[i]
	}
	g.fr = fr
	fr.block = fn.Blocks[0]
	fr.run()
	g.fr = caller
	return fr.result
}

// callValue calls a function value.
func (p *Path) callValue(caller *frame, f Value, args []Value) Value {
	switch f := f.(type) {
	case *ssa.Function:
		if f == nil {
			panic(p.runtimeErr("invalid memory address or nil pointer dereference (nil func)"))
		}
		return p.callFn(caller, f, args, nil, caller.g)
	case *Closure:
		return p.callFn(caller, f.fn, args, f.env, caller.g)
	case *Native:
		return f.f(caller, args)
	case *ssa.Builtin:
		return caller.builtin(f, args, nil)
	}
	panic(unsupported("call of %T", f))
}

// run executes fr to completion, handling defers and panics.
func (fr *frame) run() {
	defer func() {
		if fr.block == nil {
			return // normal return
		}
		r := recover()
		gp, ok := r.(*goPanicVal)
		if !ok {
			panic(r) // engine-level: do not run interpreted defers
		}
		fr.panicing = gp
		fr.runDefers()
		// recovered: return through the recover block, if any
		fr.block = fr.fn.Recover
		if fr.block == nil {
			fr.result = fr.p.zero(fr.fn.Signature.Results())
			if fr.fn.Signature.Results().Len() == 0 {
				fr.result = nil
			}
			return
		}
		fr.exec()
	}()
	fr.exec()
}

func (fr *frame) runDefers() {
	for d := fr.defers; d != nil; d = fr.defers {
		fr.defers = d.next
		func() {
			ok := false
			defer func() {
				if ok {
					return
				}
				r := recover()
				gp, isgp := r.(*goPanicVal)
				if !isgp {
					panic(r)
				}
				fr.panicing = gp // a new panic replaces the old
			}()
			fr.g.fr = fr
			fr.p.callValue(fr, d.fn, d.args)
			ok = true
		}()
	}
	fr.g.fr = fr
	if fr.panicing != nil {
		panic(fr.panicing)
	}
}

func (fr *frame) exec() {
	p := fr.p
	for {
		b := fr.block
		// phis first, in parallel
		i := 0
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[0].(*ssa.Phi); ok {
				edge := 0
				for k, pr := range b.Preds {
					if pr == fr.prev {
						edge = k
						break
					}
				}
				var vals []Value
				for ; i < len(b.Instrs); i++ {
					ph, ok := b.Instrs[i].(*ssa.Phi)
					if !ok {
						break
					}
					vals = append(vals, fr.get(ph.Edges[edge]))
				}
				for k := 0; k < i; k++ {
					fr.set(b.Instrs[k].(*ssa.Phi), vals[k])
				}
			}
		}
		next := false
		for ; i < len(b.Instrs); i++ {
			p.steps++
			if p.steps > p.ex.opt.MaxSteps {
				panic(pathEnd{"bound", fmt.Sprintf("more than %d steps on one path (in %s)", p.ex.opt.MaxSteps, fr.fn)})
			}
			in := b.Instrs[i]
			fr.cur = in
			switch in := in.(type) {
			case *ssa.If:
				c := fr.get(in.Cond).(*Term)
				succ := 1
				if p.branch(c) {
					succ = 0
				}
				fr.prev, fr.block = b, b.Succs[succ]
				next = true
			case *ssa.Jump:
				fr.prev, fr.block = b, b.Succs[0]
				next = true
			case *ssa.Return:
				switch len(in.Results) {
				case 0:
				case 1:
					fr.result = fr.get(in.Results[0])
				default:
					r := make(Tuple, len(in.Results))
					for k, x := range in.Results {
						r[k] = fr.get(x)
					}
					fr.result = r
				}
				fr.block = nil
				return
			default:
				fr.instr(in)
			}
			if next {
				break
			}
		}
		if !next {
			panic(unsupported("fell off block in %s", fr.fn))
		}
	}
}

func (fr *frame) derefNil() *goPanicVal {
	return fr.p.runtimeErr("invalid memory address or nil pointer dereference")
}

func (fr *frame) instr(in ssa.Instruction) {
	p := fr.p
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		fr.set(in, fr.unop(in))
	case *ssa.BinOp:
		fr.set(in, fr.binop(in.Op, in.X.Type(), fr.get(in.X), fr.get(in.Y), in.Y.Type()))
	case *ssa.Call:
		f, args := fr.prepCall(&in.Call)
		var r Value
		if b, ok := f.(*ssa.Builtin); ok {
			r = fr.builtin(b, args, in)
		} else {
			r = p.callValue(fr, f, args)
		}
		fr.g.fr = fr
		fr.set(in, r)
	case *ssa.ChangeInterface:
		fr.set(in, fr.get(in.X))
	case *ssa.ChangeType:
		fr.set(in, fr.get(in.X))
	case *ssa.Convert:
		fr.set(in, fr.convert(in.Type(), in.X.Type(), fr.get(in.X)))
	case *ssa.MultiConvert:
		fr.set(in, fr.convert(in.Type(), in.X.Type(), fr.get(in.X)))
	case *ssa.SliceToArrayPointer:
		s := fr.get(in.X).([]Value)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			panic(p.runtimeErr("cannot convert slice to array pointer"))
		}
		c := new(Value)
		*c = Array(s[:n:n])
		fr.set(in, c)
	case *ssa.MakeInterface:
		fr.set(in, Iface{in.X.Type(), copyVal(fr.get(in.X))})
	case *ssa.Extract:
		fr.set(in, fr.get(in.Tuple).(Tuple)[in.Index])
	case *ssa.Slice:
		fr.set(in, fr.slice(in))
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Panic:
		v := fr.get(in.X).(Iface)
		panic(&goPanicVal{v: v, fr: fr})
	case *ssa.Send:
		ch, _ := fr.get(in.Chan).(*Chan)
		p.sch.chanOp(fr, []chanCase{{ch, true, copyVal(fr.get(in.X))}}, false, "send")
	case *ssa.Store:
		a := fr.get(in.Addr).(*Value)
		if a == nil {
			panic(fr.derefNil())
		}
		storeVal(a, fr.get(in.Val))
	case *ssa.MapUpdate:
		m, _ := fr.get(in.Map).(*Map)
		p.mapSet(m, copyVal(fr.get(in.Key)), copyVal(fr.get(in.Value)))
	case *ssa.Alloc:
		c := new(Value)
		*c = p.zero(in.Type().Underlying().(*types.Pointer).Elem())
		fr.set(in, c)
	case *ssa.MakeSlice:
		n := p.concretize(fr.get(in.Len).(*Term), 0, 32, "make")
		cp := n
		if in.Cap != in.Len {
			cp = p.concretize(fr.get(in.Cap).(*Term), 0, 32, "makecap")
		}
		if n < 0 || n > 1<<26 {
			panic(p.runtimeErr("makeslice: len out of range"))
		}
		if cp < n {
			panic(p.runtimeErr("makeslice: cap out of range"))
		}
		if cp > 1<<31 {
			panic(p.goPanic("out of memory"))
		}
		if cp > 1<<16 && cp > n {
			cp = n
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		s := make([]Value, cp)
		if cp > 0 {
			z := p.zero(et)
			for k := range s {
				s[k] = copyVal(z)
			}
		}
		fr.set(in, s[:n])
	case *ssa.MakeMap:
		fr.set(in, newMap())
	case *ssa.MakeChan:
		n := p.concretize(fr.get(in.Size).(*Term), 0, 16, "makechan")
		if n < 0 {
			panic(p.goPanic("makechan: size out of range"))
		}
		fr.set(in, &Chan{cap: int(n), elem: in.Type().Underlying().(*types.Chan).Elem()})
	case *ssa.MakeClosure:
		env := make([]Value, len(in.Bindings))
		for k, b := range in.Bindings {
			env[k] = fr.get(b)
		}
		fr.set(in, &Closure{in.Fn.(*ssa.Function), env})
	case *ssa.FieldAddr:
		a := fr.get(in.X).(*Value)
		if a == nil {
			panic(fr.derefNil())
		}
		s, ok := (*a).(Struct)
		if !ok {
			panic(unsupported("FieldAddr of %T in %s", *a, fr.where()))
		}
		fr.set(in, &s[in.Field])
	case *ssa.Field:
		fr.set(in, copyVal(fr.get(in.X).(Struct)[in.Field]))
	case *ssa.IndexAddr:
		x := fr.get(in.X)
		idx := fr.get(in.Index).(*Term)
		var s []Value
		switch x := x.(type) {
		case []Value:
			s = x
		case *Value:
			if x == nil {
				panic(fr.derefNil())
			}
			s = []Value((*x).(Array))
		case *OBytes:
			s = p.explode(x)
		default:
			panic(unsupported("IndexAddr %T", x))
		}
		k := fr.index(idx, len(s), in.Index.Type())
		fr.set(in, &s[k])
	case *ssa.Index:
		x := fr.get(in.X)
		idx := fr.get(in.Index).(*Term)
		switch x := x.(type) {
		case Array:
			fr.set(in, copyVal(x[fr.index(idx, len(x), in.Index.Type())]))
		case string, *Rope:
			fr.set(in, fr.strIndex(x, idx, in.Index.Type()))
		default:
			panic(unsupported("Index %T", x))
		}
	case *ssa.Lookup:
		x := fr.get(in.X)
		switch x := x.(type) {
		case *Map:
			e := p.mapFind(x, fr.get(in.Index))
			var v Value
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = p.zero(in.X.Type().Underlying().(*types.Map).Elem())
			}
			if in.CommaOk {
				fr.set(in, Tuple{v, p.tb.Bool(e != nil)})
			} else {
				fr.set(in, v)
			}
		case string, *Rope:
			fr.set(in, fr.strIndex(x, fr.get(in.Index).(*Term), in.Index.Type()))
		default:
			panic(unsupported("Lookup %T", x))
		}
	case *ssa.Range:
		fr.set(in, fr.rangeIter(fr.get(in.X)))
	case *ssa.Next:
		fr.set(in, fr.get(in.Iter).(iterator).next(fr, in))
	case *ssa.TypeAssert:
		fr.set(in, fr.typeAssert(in, fr.get(in.X).(Iface)))
	case *ssa.Defer:
		f, args := fr.prepCall(&in.Call)
		fr.defers = &deferred{f, args, fr.defers}
	case *ssa.Go:
		f, args := fr.prepCall(&in.Call)
		if p.initDep > 0 {
			return // goroutines started by package initialisers are not modelled
		}
		name := goName(&in.Call)
		p.sch.spawn(name, func(g *G) {
			root := &frame{p: p, g: g, fn: fr.fn}
			if b, ok := f.(*ssa.Builtin); ok {
				root.builtin(b, args, nil)
				return
			}
			p.callValue(root, f, args)
		})
	case *ssa.Select:
		var cases []chanCase
		for _, st := range in.States {
			ch, _ := fr.get(st.Chan).(*Chan)
			c := chanCase{ch: ch, send: st.Dir == types.SendOnly}
			if c.send {
				c.val = copyVal(fr.get(st.Send))
			}
			cases = append(cases, c)
		}
		i, v, ok := p.sch.chanOp(fr, cases, !in.Blocking, "select")
		r := Tuple{p.tb.Int(i), p.tb.Bool(ok)}
		if i >= 0 && in.States[i].Dir == types.SendOnly {
			r[1] = p.tb.ff
		}
		for k, st := range in.States {
			if st.Dir == types.RecvOnly {
				if k == i {
					r = append(r, v)
				} else {
					r = append(r, p.zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
			}
		}
		fr.set(in, r)
	default:
		panic(unsupported("instruction %T", in))
	}
}

func goName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return f.Name()
	}
	return "func"
}

func (fr *frame) prepCall(c *ssa.CallCommon) (Value, []Value) {
	p := fr.p
	if !c.IsInvoke() {
		f := fr.get(c.Value)
		args := make([]Value, len(c.Args))
		for i, a := range c.Args {
			args[i] = copyVal(fr.get(a))
		}
		return f, args
	}
	recv := fr.get(c.Value).(Iface)
	if recv.t == nil {
		panic(fr.derefNil())
	}
	args := make([]Value, 1, len(c.Args)+1)
	args[0] = copyVal(recv.v)
	for _, a := range c.Args {
		args = append(args, copyVal(fr.get(a)))
	}
	f := p.w.prog.method(recv.t, c.Method)
	if f == nil {
		panic(unsupported("no method %s on %s", c.Method.Name(), recv.t))
	}
	return f, args
}

// callMethod calls recv.name(args...) if the dynamic type has it.
func (p *Path) callMethod(fr *frame, recv Iface, name string, args ...Value) (Value, bool) {
	f := p.w.prog.methodByName(recv.t, name)
	if f == nil {
		return nil, false
	}
	return p.callValue(fr, f, append([]Value{copyVal(recv.v)}, args...)), true
}

func (fr *frame) index(t *Term, n int, ty types.Type) int {
	p := fr.p
	_, sgn, _ := typeWidth(ty)
	i64 := p.tb.Conv(t, 64, sgn)
	if i64.isConst() {
		k := i64.sval()
		if k < 0 || k >= int64(n) {
			panic(p.runtimeErr(fmt.Sprintf("index out of range [%d] with length %d", k, n)))
		}
		return int(k)
	}
	if !p.branch(p.tb.Bin(OULt, i64, p.tb.Int(n))) {
		panic(p.runtimeErr(fmt.Sprintf("index out of range with length %d", n)))
	}
	return int(p.concretize(i64, 0, int64(n-1), "index"))
}

func (fr *frame) strIndex(s Value, idx *Term, ty types.Type) Value {
	p := fr.p
	if c, ok := s.(string); ok {
		return p.tb.Const(8, uint64(c[fr.index(idx, len(c), ty)]))
	}
	if r, ok := s.(*Rope); ok && idx.isConst() {
		// In a prefix without opaque parts?
		k := p.tb.Conv(idx, 64, true).sval()
		for _, g := range r.segs {
			if k < 0 || g.k != segLit && g.k != segByte {
				break
			}
			if g.k == segByte {
				if k == 0 {
					return g.t
				}
				k--
				continue
			}
			if k < int64(len(g.lit)) {
				return p.tb.Const(8, uint64(g.lit[k]))
			}
			k -= int64(len(g.lit))
		}
	}
	bs := p.strBytes(s)
	return bs[fr.index(idx, len(bs), ty)].(*Term)
}

// strBytes gives the bytes of a string without atoms.
func (p *Path) strBytes(s Value) []Value {
	switch s := s.(type) {
	case string:
		r := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = p.tb.Const(8, uint64(s[i]))
		}
		return r
	case *Rope:
		var r []Value
		for _, g := range s.segs {
			switch g.k {
			case segLit:
				for i := 0; i < len(g.lit); i++ {
					r = append(r, p.tb.Const(8, uint64(g.lit[i])))
				}
			case segByte:
				r = append(r, g.t)
			default:
				panic(unsupported("bytes of an opaque string (%s) in %s", g.kind, p.whereNow()))
			}
		}
		return r
	}
	panic(unsupported("strBytes %T", s))
}

func (p *Path) whereNow() string {
	if f := p.curFrame(); f != nil {
		s := ""
		n := 0
		for x := f; x != nil && n < 4; x = x.caller {
			if x.fn != nil {
				s += x.where() + " < "
				n++
			}
		}
		return s
	}
	return "?"
}

func (p *Path) explode(o *OBytes) []Value { return p.strBytes(o.s) }

// bytesToStr converts a byte slice value to a string value.
func (p *Path) bytesToStr(v Value) Value {
	switch v := v.(type) {
	case *OBytes:
		if v == nil {
			return ""
		}
		return v.s
	case []Value:
		conc := true
		for _, x := range v {
			if !x.(*Term).isConst() {
				conc = false
				break
			}
		}
		if conc {
			b := make([]byte, len(v))
			for i, x := range v {
				b[i] = byte(x.(*Term).k)
			}
			return string(b)
		}
		segs := make([]Seg, len(v))
		for i, x := range v {
			segs[i] = Seg{k: segByte, t: x.(*Term)}
		}
		return mkRope(segs)
	}
	panic(unsupported("bytesToStr %T", v))
}

func hasAtoms(s Value) bool {
	if r, ok := s.(*Rope); ok {
		for _, g := range r.segs {
			if g.k == segAtom || g.k == segDoc {
				return true
			}
		}
	}
	return false
}

func (p *Path) strToBytes(s Value) Value {
	if hasAtoms(s) {
		return &OBytes{s}
	}
	return p.strBytes(s)
}

func (fr *frame) unop(in *ssa.UnOp) Value {
	p := fr.p
	x := fr.get(in.X)
	switch in.Op {
	case token.MUL:
		a, ok := x.(*Value)
		if !ok {
			panic(unsupported("deref of %T", x))
		}
		if a == nil {
			panic(fr.derefNil())
		}
		return copyVal(*a)
	case token.NOT:
		return p.tb.Not(x.(*Term))
	case token.SUB:
		switch x := x.(type) {
		case *Term:
			return p.tb.Neg(x)
		case float64:
			return -x
		case complex128:
			return -x
		}
	case token.XOR:
		return p.tb.BNot(x.(*Term))
	case token.ARROW:
		ch, _ := x.(*Chan)
		_, v, ok := p.sch.chanOp(fr, []chanCase{{ch: ch}}, false, "recv")
		if in.CommaOk {
			return Tuple{v, p.tb.Bool(ok)}
		}
		return v
	}
	panic(unsupported("unop %s %T", in.Op, x))
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (fr *frame) binop(op token.Token, t types.Type, x, y Value, yt types.Type) Value {
	p := fr.p
	tb := p.tb
	switch op {
	case token.EQL:
		return p.eqVal(x, y)
	case token.NEQ:
		return tb.Not(p.eqVal(x, y))
	}
	switch a := x.(type) {
	case *Term:
		b := y.(*Term)
		_, sgn, _ := typeWidth(t)
		switch op {
		case token.ADD:
			return tb.Bin(OAdd, a, b)
		case token.SUB:
			return tb.Bin(OSub, a, b)
		case token.MUL:
			return tb.Bin(OMul, a, b)
		case token.QUO, token.REM:
			if p.branch(tb.Eq(b, tb.Const(b.w, 0))) {
				panic(p.runtimeErr("integer divide by zero"))
			}
			o := OUDiv
			switch {
			case op == token.QUO && sgn:
				o = OSDiv
			case op == token.REM && sgn:
				o = OSRem
			case op == token.REM:
				o = OURem
			}
			return tb.Bin(o, a, b)
		case token.AND:
			if a.w == 0 {
				return tb.And(a, b)
			}
			return tb.Bin(OBAnd, a, b)
		case token.OR:
			if a.w == 0 {
				return tb.Or(a, b)
			}
			return tb.Bin(OBOr, a, b)
		case token.XOR:
			return tb.Bin(OBXor, a, b)
		case token.AND_NOT:
			return tb.Bin(OBAnd, a, tb.BNot(b))
		case token.SHL, token.SHR:
			_, ysgn, _ := typeWidth(yt)
			if ysgn && p.branch(tb.Bin(OSLt, b, tb.Const(b.w, 0))) {
				panic(p.runtimeErr("negative shift amount"))
			}
			// bring the count to a's width, saturating
			var c *Term
			if b.w <= a.w {
				c = tb.Conv(b, a.w, false)
			} else {
				big := tb.Bin(OULe, tb.Const(b.w, uint64(a.w)), b)
				c = tb.Ite(big, tb.Const(a.w, uint64(a.w)), tb.Conv(b, a.w, false))
			}
			if op == token.SHL {
				return tb.Bin(OShl, a, c)
			}
			if sgn {
				return tb.Bin(OAShr, a, c)
			}
			return tb.Bin(OLShr, a, c)
		case token.LSS:
			if sgn {
				return tb.Bin(OSLt, a, b)
			}
			return tb.Bin(OULt, a, b)
		case token.LEQ:
			if sgn {
				return tb.Bin(OSLe, a, b)
			}
			return tb.Bin(OULe, a, b)
		case token.GTR:
			if sgn {
				return tb.Bin(OSLt, b, a)
			}
			return tb.Bin(OULt, b, a)
		case token.GEQ:
			if sgn {
				return tb.Bin(OSLe, b, a)
			}
			return tb.Bin(OULe, b, a)
		}
	case float64:
		b := y.(float64)
		r := 0.0
		switch op {
		case token.ADD:
			r = a + b
		case token.SUB:
			r = a - b
		case token.MUL:
			r = a * b
		case token.QUO:
			r = a / b
		case token.LSS:
			return tb.Bool(a < b)
		case token.LEQ:
			return tb.Bool(a <= b)
		case token.GTR:
			return tb.Bool(a > b)
		case token.GEQ:
			return tb.Bool(a >= b)
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
			r = float64(float32(r))
		}
		return r
	case string, *Rope:
		switch op {
		case token.ADD:
			return concat(x, y)
		case token.LSS:
			return p.strLess(x, y)
		case token.GTR:
			return p.strLess(y, x)
		case token.LEQ:
			return tb.Not(p.strLess(y, x))
		case token.GEQ:
			return tb.Not(p.strLess(x, y))
		}
	case complex128:
		b := y.(complex128)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		}
	}
	panic(unsupported("binop %s %T", op, x))
}

// strLess is lexicographic order. Opaque strings are ordered by an
// uninterpreted injective rank.
func (p *Path) strLess(x, y Value) *Term {
	tb := p.tb
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return tb.Bool(a < b)
		}
	}
	if hasAtoms(x) || hasAtoms(y) {
		a, b := p.atomTerm(x), p.atomTerm(y)
		return tb.Bin(OULt, a, b)
	}
	a, b := p.strBytes(x), p.strBytes(y)
	r := tb.Bool(len(a) < len(b))
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := n - 1; i >= 0; i-- {
		s, t := a[i].(*Term), b[i].(*Term)
		r = tb.Or(tb.Bin(OULt, s, t), tb.And(tb.Eq(s, t), r))
	}
	return r
}

func (fr *frame) convert(to, from types.Type, v Value) Value {
	p := fr.p
	tb := p.tb
	ut, uf := to.Underlying(), from.Underlying()
	if tp, ok := ut.(*types.Basic); ok {
		if tp.Kind() == types.UnsafePointer {
			if u, ok := v.(UPtr); ok {
				return u
			}
			return UPtr{v}
		}
		if w, _, ok := basicWidth(tp); ok && w > 0 {
			switch x := v.(type) {
			case *Term:
				_, sgn, _ := typeWidth(uf)
				return tb.Conv(x, w, sgn)
			case float64:
				if math.IsNaN(x) {
					return tb.Const(w, 0)
				}
				if x < 0 {
					return tb.Const(w, uint64(int64(x)))
				}
				return tb.Const(w, uint64(x))
			case UPtr:
				return tb.Const(w, 0)
			}
		}
		if tp.Info()&types.IsFloat != 0 {
			switch x := v.(type) {
			case *Term:
				_, sgn, _ := typeWidth(uf)
				if !x.isConst() {
					panic(unsupported("symbolic integer to float"))
				}
				var f float64
				if sgn {
					f = float64(x.sval())
				} else {
					f = float64(x.k)
				}
				if tp.Kind() == types.Float32 {
					f = float64(float32(f))
				}
				return f
			case float64:
				if tp.Kind() == types.Float32 {
					return float64(float32(x))
				}
				return x
			}
		}
		if tp.Info()&types.IsString != 0 {
			switch x := v.(type) {
			case string, *Rope:
				return x
			case *Term:
				if !x.isConst() {
					panic(unsupported("symbolic rune to string"))
				}
				return string(rune(x.sval()))
			case []Value, *OBytes:
				if sl, ok := uf.(*types.Slice); ok {
					if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
						var rs []rune
						for _, r := range v.([]Value) {
							rs = append(rs, rune(r.(*Term).sval()))
						}
						return string(rs)
					}
				}
				return p.bytesToStr(x)
			}
		}
		if tp.Info()&types.IsComplex != 0 {
			return v
		}
	}
	if sl, ok := ut.(*types.Slice); ok && isString(uf) {
		b := sl.Elem().Underlying().(*types.Basic)
		if b.Kind() == types.Int32 {
			s, ok := v.(string)
			if !ok {
				panic(unsupported("[]rune of symbolic string"))
			}
			var r []Value
			for _, c := range s {
				r = append(r, tb.Const(32, uint64(c)))
			}
			if r == nil {
				r = []Value{}
			}
			return r
		}
		b2 := p.strToBytes(v)
		if s, ok := b2.([]Value); ok && s == nil {
			return []Value{}
		}
		return b2
	}
	if _, ok := ut.(*types.Pointer); ok {
		if u, ok := v.(UPtr); ok {
			if u.v == nil {
				return (*Value)(nil)
			}
			return u.v
		}
		return v
	}
	if types.Identical(ut, uf) {
		return v
	}
	switch ut.(type) {
	case *types.Struct, *types.Slice, *types.Map, *types.Signature, *types.Chan, *types.Array:
		return v
	}
	panic(unsupported("convert %s to %s (%T)", from, to, v))
}

func (fr *frame) slice(in *ssa.Slice) Value {
	p := fr.p
	x := fr.get(in.X)
	bound := func(v ssa.Value, def int, max int) int {
		if v == nil {
			return def
		}
		t := fr.get(v).(*Term)
		_, sgn, _ := typeWidth(v.Type())
		t = p.tb.Conv(t, 64, sgn)
		if !t.isConst() {
			if !p.branch(p.tb.Bin(OULe, t, p.tb.Int(max))) {
				panic(p.runtimeErr(fmt.Sprintf("slice bounds out of range with capacity %d", max)))
			}
			return int(p.concretize(t, 0, int64(max), "slice"))
		}
		return int(t.sval())
	}
	chk := func(lo, hi, mx, cp int) {
		if lo < 0 || hi < lo || mx < hi || mx > cp {
			panic(p.runtimeErr(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, cp)))
		}
	}
	switch s := x.(type) {
	case string:
		lo := bound(in.Low, 0, len(s))
		hi := bound(in.High, len(s), len(s))
		chk(lo, hi, hi, len(s))
		return s[lo:hi]
	case *Rope:
		return p.sliceRope(fr, in, s)
	case *OBytes:
		if in.Low == nil && in.High == nil {
			return s
		}
		if r, ok := s.s.(*Rope); ok {
			return &OBytes{p.sliceRope(fr, in, r)}
		}
		panic(unsupported("slice of opaque bytes"))
	case []Value:
		cp := cap(s)
		lo := bound(in.Low, 0, cp)
		hi := bound(in.High, len(s), cp)
		mx := bound(in.Max, cp, cp)
		chk(lo, hi, mx, cp)
		if s == nil {
			return s
		}
		return s[lo:hi:mx]
	case *Value:
		if s == nil {
			panic(fr.derefNil())
		}
		a := []Value((*s).(Array))
		cp := len(a)
		lo := bound(in.Low, 0, cp)
		hi := bound(in.High, cp, cp)
		mx := bound(in.Max, cp, cp)
		chk(lo, hi, mx, cp)
		return a[lo:hi:mx]
	}
	panic(unsupported("slice %T", x))
}

// sliceRope cuts a rope at boundaries expressible from its ends.
func (p *Path) sliceRope(fr *frame, in *ssa.Slice, s *Rope) Value {
	if !hasAtoms(s) {
		n := 0
		for _, g := range s.segs {
			if g.k == segLit {
				n += len(g.lit)
			} else {
				n++
			}
		}
		get := func(v ssa.Value, def int) int {
			if v == nil {
				return def
			}
			t := fr.get(v).(*Term)
			_, sgn, _ := typeWidth(v.Type())
			t = p.tb.Conv(t, 64, sgn)
			if !t.isConst() && !p.branch(p.tb.Bin(OULe, t, p.tb.Int(n))) {
				panic(p.runtimeErr("slice bounds out of range"))
			}
			return int(p.concretize(t, 0, int64(n), "slice"))
		}
		lo, hi := get(in.Low, 0), get(in.High, n)
		if lo < 0 || hi < lo || hi > n {
			panic(p.runtimeErr(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n)))
		}
		return p.bytesToStr(p.strBytes(s)[lo:hi])
	}
	segs := append([]Seg(nil), s.segs...)
	cutFront := func(segs []Seg, t *Term) ([]Seg, []Seg) { // (before, after)
		if !t.isConst() {
			// at a segment boundary?
			acc := p.tb.Int(0)
			for i := 0; i <= len(segs); i++ {
				if acc == t {
					return segs[:i], segs[i:]
				}
				if i < len(segs) {
					g := segs[i]
					switch g.k {
					case segLit:
						acc = p.tb.Bin(OAdd, acc, p.tb.Int(len(g.lit)))
					case segByte:
						acc = p.tb.Bin(OAdd, acc, p.tb.Int(1))
					default:
						acc = p.tb.Bin(OAdd, p.atomLen(g), acc)
					}
				}
			}
			panic(unsupported("slice of an opaque string at a symbolic offset in %s", p.whereNow()))
		}
		k := int(t.sval())
		var before []Seg
		for i := 0; i < len(segs); i++ {
			if k == 0 {
				return before, segs[i:]
			}
			g := segs[i]
			switch g.k {
			case segLit:
				if k < len(g.lit) {
					b := append(append([]Seg(nil), before...), Seg{k: segLit, lit: g.lit[:k]})
					a := append([]Seg{{k: segLit, lit: g.lit[k:]}}, segs[i+1:]...)
					return b, a
				}
				k -= len(g.lit)
				before = append(before, g)
			case segByte:
				k--
				before = append(before, g)
			default:
				panic(unsupported("slice inside an opaque string (%s) in %s", g.kind, p.whereNow()))
			}
		}
		if k == 0 {
			return before, nil
		}
		panic(p.runtimeErr("slice bounds out of range"))
	}
	after := segs
	var lowT *Term = p.tb.Int(0)
	if in.High != nil {
		t := p.tb.Conv(fr.get(in.High).(*Term), 64, true)
		after, _ = cutFront(after, t)
	}
	if in.Low != nil {
		lowT = p.tb.Conv(fr.get(in.Low).(*Term), 64, true)
		_, after = cutFront(after, lowT)
	}
	return mkRope(append([]Seg(nil), after...))
}

// ---------------------------------------------------------------- iteration

type iterator interface {
	next(fr *frame, in *ssa.Next) Value
}

type mapIter struct {
	m    *Map
	rest []*mapEnt
	perm bool
}

func (it *mapIter) next(fr *frame, in *ssa.Next) Value {
	p := fr.p
	var live []*mapEnt
	for _, e := range it.rest {
		if !e.dead {
			live = append(live, e)
		}
	}
	it.rest = live
	tt := in.Type().(*types.Tuple)
	if len(live) == 0 {
		z := func(t types.Type) Value {
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return nil
			}
			return p.zero(t)
		}
		return Tuple{p.tb.ff, z(tt.At(1).Type()), z(tt.At(2).Type())}
	}
	i := 0
	if it.perm {
		i = p.choose("maporder", len(live))
	}
	e := live[i]
	it.rest = append(append([]*mapEnt(nil), live[:i]...), live[i+1:]...)
	return Tuple{p.tb.tt, copyVal(e.k), copyVal(e.v)}
}

type strIter struct {
	s   string
	pos int
}

func (it *strIter) next(fr *frame, in *ssa.Next) Value {
	p := fr.p
	if it.pos >= len(it.s) {
		return Tuple{p.tb.ff, p.tb.Int(0), p.tb.Const(32, 0)}
	}
	for i, r := range it.s[it.pos:] {
		_ = i
		k := it.pos
		n := len(string(r))
		if r == 0xFFFD && it.s[it.pos] != 0xEF {
			n = 1
		}
		it.pos += n
		return Tuple{p.tb.tt, p.tb.Int(k), p.tb.Const(32, uint64(r))}
	}
	return nil
}

// byteIter ranges over a string of symbolic bytes, taking bytes below 0x80 as
// runes and forking on the rest as invalid UTF-8 is rejected as unsupported.
type byteIter struct {
	b   []Value
	pos int
}

func (it *byteIter) next(fr *frame, in *ssa.Next) Value {
	p := fr.p
	if it.pos >= len(it.b) {
		return Tuple{p.tb.ff, p.tb.Int(0), p.tb.Const(32, 0)}
	}
	t := it.b[it.pos].(*Term)
	k := it.pos
	it.pos++
	if !p.branch(p.tb.Bin(OULt, t, p.tb.Const(8, 0x80))) {
		p.note("multi-byte runes in symbolic strings are outside the bound")
		panic(pathEnd{"assume", "non-ASCII symbolic rune"})
	}
	return Tuple{p.tb.tt, p.tb.Int(k), p.tb.Conv(t, 32, false)}
}

func (fr *frame) rangeIter(x Value) Value {
	p := fr.p
	switch x := x.(type) {
	case *Map:
		l := x.live()
		perm := len(l) > 1 && len(l) <= p.ex.opt.MapPerm && inRepo(fr.fn)
		return iterator(&mapIter{m: x, rest: l, perm: perm})
	case string:
		return iterator(&strIter{s: x})
	case *Rope:
		return iterator(&byteIter{b: p.strBytes(x)})
	}
	panic(unsupported("range %T", x))
}

// ---------------------------------------------------------------- types

func (fr *frame) typeAssert(in *ssa.TypeAssert, x Iface) Value {
	p := fr.p
	ok := false
	var v Value
	if x.t != nil {
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			if p.w.prog.implements(x.t, it) {
				ok = true
				v = x
			}
		} else if types.Identical(x.t, in.AssertedType) {
			ok = true
			v = copyVal(x.v)
		}
	}
	if in.CommaOk {
		if !ok {
			v = p.zero(in.AssertedType)
		}
		return Tuple{v, p.tb.Bool(ok)}
	}
	if !ok {
		d := "nil"
		if x.t != nil {
			d = x.t.String()
		}
		panic(p.runtimeErr(fmt.Sprintf("interface conversion: interface is %s, not %s", d, in.AssertedType)))
	}
	return v
}

// ---------------------------------------------------------------- builtins

func (fr *frame) builtin(b *ssa.Builtin, args []Value, in *ssa.Call) Value {
	p := fr.p
	tb := p.tb
	switch b.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		// append([]byte, string...)
		x, y := args[0], args[1]
		switch s := y.(type) {
		case string, *Rope:
			y = p.strToBytes(s)
		}
		if ox, ok := x.(*OBytes); ok {
			return &OBytes{concat(ox.s, p.bytesToStr(y))}
		}
		if oy, ok := y.(*OBytes); ok {
			return &OBytes{concat(p.bytesToStr(x), oy.s)}
		}
		xs := x.([]Value)
		ys := y.([]Value)
		if len(ys) == 0 {
			return xs
		}
		// Go's growth policy decides aliasing; keep in-place append when
		// capacity allows, else copy to an exactly doubled slice.
		if len(xs)+len(ys) <= cap(xs) {
			r := xs[:len(xs)+len(ys)]
			for i, v := range ys {
				r[len(xs)+i] = copyVal(v)
			}
			return r
		}
		nc := cap(xs) * 2
		if nc < len(xs)+len(ys) {
			nc = len(xs) + len(ys)
		}
		r := make([]Value, len(xs)+len(ys), nc)
		copy(r, xs)
		for i, v := range ys {
			r[len(xs)+i] = copyVal(v)
		}
		if nc > len(r) {
			// the spare cells need zero values in case the slice is resliced
			if in != nil {
				et := in.Type().Underlying().(*types.Slice).Elem()
				sp := r[:nc]
				for i := len(r); i < nc; i++ {
					sp[i] = p.zero(et)
				}
			} else {
				r = r[:len(r):len(r)]
			}
		}
		return r
	case "copy":
		dst := args[0]
		src := args[1]
		switch s := src.(type) {
		case string, *Rope:
			src = p.strToBytes(s)
		}
		d, ok := dst.([]Value)
		if !ok {
			panic(unsupported("copy into %T", dst))
		}
		s, ok := src.([]Value)
		if !ok {
			panic(unsupported("copy from opaque bytes in %s", p.whereNow()))
		}
		n := len(d)
		if len(s) < n {
			n = len(s)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(s[i])
		}
		copy(d, tmp)
		return tb.Int(n)
	case "len":
		return p.lenOf(args[0])
	case "cap":
		switch x := args[0].(type) {
		case []Value:
			return tb.Int(cap(x))
		case *Chan:
			if x == nil {
				return tb.Int(0)
			}
			return tb.Int(x.cap)
		case *Value:
			return tb.Int(len((*x).(Array)))
		case Array:
			return tb.Int(len(x))
		}
		return p.lenOf(args[0])
	case "close":
		ch, _ := args[0].(*Chan)
		if ch == nil {
			panic(p.goPanic("close of nil channel"))
		}
		p.sch.yield(fr.g, "close", ch)
		if ch.closed {
			panic(p.goPanic("close of closed channel"))
		}
		ch.closed = true
		return nil
	case "delete":
		m, _ := args[0].(*Map)
		p.mapDelete(m, args[1])
		return nil
	case "panic":
		v, _ := args[0].(Iface)
		panic(&goPanicVal{v: v, fr: fr})
	case "recover":
		// called by a deferred function: fr is that function's frame, its
		// caller the panicking frame
		if c := fr.caller; c != nil && c.panicing != nil {
			v := c.panicing.v
			c.panicing = nil
			return v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "ssa:wrapnilchk":
		if isNilVal(args[0]) {
			panic(p.runtimeErr("value method called using nil pointer"))
		}
		return args[0]
	case "ssa:deferstack":
		return (*Value)(nil)
	case "String": // unsafe.String
		if u, ok := args[0].(*Value); ok && u == nil {
			return ""
		}
	case "min", "max":
		_, sgn, ok := typeWidth(in.Type())
		if ok {
			r := args[0].(*Term)
			for _, y := range args[1:] {
				b2 := y.(*Term)
				o := OULt
				if sgn {
					o = OSLt
				}
				c := tb.Bin(o, b2, r)
				if b.Name() == "max" {
					c = tb.Bin(o, r, b2)
				}
				r = tb.Ite(c, b2, r)
			}
			return r
		}
	case "clear":
		if m, ok := args[0].(*Map); ok && m != nil {
			*m = *newMap()
			return nil
		}
	}
	panic(unsupported("builtin %s(%T)", b.Name(), args[0]))
}

func (p *Path) lenOf(v Value) *Term {
	tb := p.tb
	switch x := v.(type) {
	case string, *Rope:
		return p.strLen(x)
	case []Value:
		return tb.Int(len(x))
	case *OBytes:
		if x == nil {
			return tb.Int(0)
		}
		return p.strLen(x.s)
	case *Map:
		if x == nil {
			return tb.Int(0)
		}
		return tb.Int(x.n)
	case *Chan:
		if x == nil {
			return tb.Int(0)
		}
		return tb.Int(len(x.buf))
	case Array:
		return tb.Int(len(x))
	case *Value:
		return tb.Int(len((*x).(Array)))
	}
	panic(unsupported("len %T", v))
}
