package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

const vsymPkg = repoModule + "/internal/vsym"

func (p *Path) input(in *InputVal) { p.inputs = append(p.inputs, in) }

func (p *Path) inName(v Value) string {
	s, _ := v.(string)
	k := "in:" + s
	n := p.names[k]
	p.names[k]++
	if n == 0 {
		return s
	}
	return fmt.Sprintf("%s#%d", s, n)
}

func regVsym() {
	v := func(n string, f func(fr *frame, a []Value) Value) {
		reg(vsymPkg+"."+n, func(fr *frame, fn *ssa.Function, a []Value) Value { return f(fr, a) })
	}
	scalar := func(kind string, w uint8) func(fr *frame, a []Value) Value {
		return func(fr *frame, a []Value) Value {
			p := fr.p
			n := p.inName(a[0])
			t := p.tb.Var("in."+n, w)
			p.input(&InputVal{Kind: kind, Name: n, term: t})
			return t
		}
	}
	v("Bool", scalar("bool", 0))
	v("U64", scalar("u64", 64))
	v("I64", scalar("i64", 64))
	v("U32", scalar("u32", 32))
	v("Byte", scalar("byte", 8))
	v("Int", func(fr *frame, a []Value) Value {
		p := fr.p
		n := p.inName(a[0])
		t := p.tb.Var("in."+n, 64)
		p.input(&InputVal{Kind: "int", Name: n, term: t})
		p.assume(p.tb.And(p.tb.Bin(OSLe, a[1].(*Term), t), p.tb.Bin(OSLe, t, a[2].(*Term))))
		return t
	})
	v("Choice", func(fr *frame, a []Value) Value {
		p := fr.p
		n := p.inName(a[0])
		k := p.choose("choice:"+n, int(a[1].(*Term).sval()))
		p.input(&InputVal{Kind: "int", Name: n, fix: fmt.Sprint(k)})
		return p.tb.Int(k)
	})
	v("Flip", func(fr *frame, a []Value) Value {
		p := fr.p
		n := p.inName(a[0])
		k := p.choose("flip:"+n, 2)
		p.input(&InputVal{Kind: "bool", Name: n, fix: fmt.Sprint(k)})
		return p.tb.Bool(k == 1)
	})
	atom := func(kind string) func(fr *frame, a []Value) Value {
		return func(fr *frame, a []Value) Value {
			p := fr.p
			n := p.inName(a[0])
			t := p.tb.Var("in."+n, 32)
			s := mkAtom(t, kind)
			p.input(&InputVal{Kind: kind, Name: n, term: t, str: s})
			return s
		}
	}
	v("Str", atom("str"))
	v("peerStr", atom("peer"))
	v("cidStr", atom("cid"))
	v("addrStr", atom("addr"))
	v("opaqueBytes", func(fr *frame, a []Value) Value {
		return fr.p.strToBytes(atom("bytes")(fr, a))
	})
	v("StrN", func(fr *frame, a []Value) Value {
		p := fr.p
		n := p.inName(a[0])
		k := int(a[1].(*Term).sval())
		segs := make([]Seg, k)
		for i := range segs {
			segs[i] = Seg{k: segByte, t: p.tb.Var(fmt.Sprintf("in.%s[%d]", n, i), 8)}
		}
		s := mkRope(segs)
		p.input(&InputVal{Kind: "strn", Name: n, str: s})
		return s
	})
	v("Assume", func(fr *frame, a []Value) Value { fr.p.assume(a[0].(*Term)); return nil })
	v("Assert", func(fr *frame, a []Value) Value {
		m, _ := a[1].(string)
		fr.p.assert(fr, a[0].(*Term), m)
		return nil
	})
	v("Fail", func(fr *frame, a []Value) Value {
		m, _ := a[0].(string)
		fr.p.assert(fr, fr.p.tb.ff, m)
		return nil
	})
	v("Reach", func(fr *frame, a []Value) Value { fr.p.reached[a[0].(string)] = true; return nil })
	v("Yield", func(fr *frame, a []Value) Value { fr.g.fr = fr; fr.p.sch.yield(fr.g, "yield"); return nil })
	v("Idle", func(fr *frame, a []Value) Value {
		g := fr.g
		g.fr = fr
		s := fr.p.sch
		s.block(g, "Idle", func() bool {
			for _, o := range s.gs {
				if o != g && o.why != "Idle" && s.enabled(o) {
					return false
				}
				if o != g && o.state == gRunnable {
					return false
				}
			}
			return true
		})
		return nil
	})
	v("Goroutines", func(fr *frame, a []Value) Value {
		n := 0
		for _, o := range fr.p.sch.gs {
			if o.state != gDone {
				n++
			}
		}
		return fr.p.tb.Int(n)
	})
	v("Param", func(fr *frame, a []Value) Value {
		if k, ok := fr.p.ex.opt.Params[a[0].(string)]; ok {
			return fr.p.tb.Int(k)
		}
		return a[1]
	})
	v("Handles", func(fr *frame, a []Value) Value { fr.p.kv["json-handles"] = &jdocs{}; return nil })
	v("NoTimers", func(fr *frame, a []Value) Value { fr.p.kv["no-timers"] = true; return nil })
	v("AllowDeadlock", func(fr *frame, a []Value) Value { fr.p.kv["allow-deadlock"] = true; return nil })
	v("AllowPanic", func(fr *frame, a []Value) Value { fr.p.kv["allow-panic"] = true; return nil })
	v("Symbolic", func(fr *frame, a []Value) Value { return fr.p.tb.tt })
	v("Note", func(fr *frame, a []Value) Value { fr.p.note(a[0].(string)); return nil })
	v("Concretize", func(fr *frame, a []Value) Value {
		t := a[0].(*Term)
		return fr.p.tb.Const(t.w, uint64(fr.p.concretize(t, a[1].(*Term).sval(), a[2].(*Term).sval(), "concretize")))
	})
	v("Quiet", func(fr *frame, a []Value) Value { // run f without preemption
		s := fr.p.sch
		s.atomicN++
		defer func() { s.atomicN-- }()
		fr.p.callValue(fr, a[0], nil)
		return nil
	})
	v("SetPreempt", func(fr *frame, a []Value) Value { fr.p.sch.preempt = int(a[0].(*Term).sval()); return nil })
	v("SetTimerFires", func(fr *frame, a []Value) Value { fr.p.sch.fires = int(a[0].(*Term).sval()); return nil })
	v("Log", func(fr *frame, a []Value) Value {
		if traceOn {
			s, _ := fr.p.sprintf(fr, a[0], varargs(a[1]))
			fmt.Println("   LOG", concreteStr(s, nil))
		}
		return nil
	})
}
