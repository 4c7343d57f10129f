package main

// Contract models of identifiers: peer IDs, multiaddrs and CIDs may be opaque
// atoms; their text forms are injective uninterpreted functions with inverses.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const (
	peerPkg  = "github.com/libp2p/go-libp2p-core/peer"
	maddrPkg = "github.com/multiformats/go-multiaddr"
	mhPkg    = "github.com/multiformats/go-multihash"
	cidPkg   = "github.com/ipfs/go-cid"
)

// inj applies an injective string function with inverse to an atom.
func (p *Path) inj(f string, s Value, kind string, emptyToEmpty bool) Value {
	tb := p.tb
	x := p.atomTerm(s)
	y := tb.UF(f, 32, x)
	p.axiom(tb.Eq(tb.UF("un"+f, 32, y), x))
	p.axiom(tb.UF("valid"+f, 0, y))
	if emptyToEmpty {
		p.axiom(tb.Eq(tb.Eq(y, tb.Const(32, 0)), tb.Eq(x, tb.Const(32, 0))))
	} else {
		p.axiom(tb.Not(tb.Eq(y, tb.Const(32, 0))))
	}
	return mkAtom(y, kind)
}

// uninj inverts f on a string: (value, true) or invalid.
func (p *Path) uninj(f string, s Value, kind string) (Value, bool) {
	tb := p.tb
	if at, ok := atomOf(s); ok && at.t.op == OUF && at.t.name == f {
		if p.branch(tb.Eq(at.t.args[0], tb.Const(32, 0))) {
			return "", false
		}
		return mkAtom(at.t.args[0], kind), true
	}
	if r, ok := s.(*Rope); ok && len(r.segs) > 1 {
		p.note("compound strings are not valid " + kind + " text")
		return "", false
	}
	y := p.atomTerm(s)
	if !p.branch(tb.UF("valid"+f, 0, y)) {
		return "", false
	}
	x := tb.UF("un"+f, 32, y)
	p.axiom(tb.Eq(tb.UF(f, 32, x), y))
	p.axiom(tb.Not(tb.Eq(x, tb.Const(32, 0))))
	p.axiom(tb.Not(tb.Eq(y, tb.Const(32, 0))))
	return mkAtom(x, kind), true
}

func regModels() {
	pstr := func(fr *frame, fn *ssa.Function, a []Value) Value {
		if _, ok := a[0].(*Rope); ok {
			return fr.p.inj("b58", a[0], "peerstr", true)
		}
		return fr.body(fn, a)
	}
	for _, m := range []string{"Pretty", "String"} {
		reg("("+peerPkg+".ID)."+m, pstr)
	}
	reg(peerPkg+".Encode", pstr)
	reg("("+peerPkg+".ID).ShortString", func(fr *frame, fn *ssa.Function, a []Value) Value { return "<peer>" })
	reg(peerPkg+".Decode", func(fr *frame, fn *ssa.Function, a []Value) Value {
		p := fr.p
		if _, ok := a[0].(*Rope); ok {
			v, ok := p.uninj("b58", a[0], "peer")
			if ok {
				return Tuple{v, nilErr}
			}
			return Tuple{"", p.newErr("failed to parse peer ID")}
		}
		return fr.body(fn, a)
	})
	idFrom := func(fr *frame, fn *ssa.Function, a []Value) Value {
		p := fr.p
		s := a[0]
		switch s.(type) {
		case string, *Rope:
		default:
			s = p.bytesToStr(s)
		}
		if at, ok := atomOf(s); ok {
			if at.kind == "peer" {
				if p.branch(p.tb.Eq(at.t, p.tb.Const(32, 0))) {
					return Tuple{"", p.newErr("multihash too short")}
				}
				return Tuple{s, nilErr}
			}
			if p.branch(p.tb.UF("validpeerbytes", 0, at.t)) {
				return Tuple{s, nilErr}
			}
			return Tuple{"", p.newErr("invalid peer ID bytes")}
		}
		return fr.body(fn, a)
	}
	reg(peerPkg+".IDFromString", idFrom)
	reg(peerPkg+".IDFromBytes", idFrom)

	// multiaddr
	maBytes := func(v Value) Value { return (*v.(*Value)).(Struct)[0] }
	reg("(*"+maddrPkg+".multiaddr).String", func(fr *frame, fn *ssa.Function, a []Value) Value {
		if a[0].(*Value) == nil {
			panic(fr.derefNil())
		}
		if o, ok := maBytes(a[0]).(*OBytes); ok && o != nil {
			return fr.p.inj("mastr", o.s, "addrstr", false)
		}
		return fr.body(fn, a)
	})
	newMA := func(p *Path, s Value) Value {
		c := new(Value)
		*c = Struct{&OBytes{s}}
		return Iface{ptrTo(p.w.prog.typeOf(maddrPkg, "multiaddr")), c}
	}
	reg(maddrPkg+".NewMultiaddr", func(fr *frame, fn *ssa.Function, a []Value) Value {
		p := fr.p
		if _, ok := a[0].(*Rope); ok {
			v, ok := p.uninj("mastr", a[0], "addr")
			if ok {
				return Tuple{newMA(p, v), nilErr}
			}
			return Tuple{Iface{}, p.newErr("failed to parse multiaddr")}
		}
		return fr.body(fn, a)
	})
	reg(maddrPkg+".NewMultiaddrBytes", func(fr *frame, fn *ssa.Function, a []Value) Value {
		p := fr.p
		if o, ok := a[0].(*OBytes); ok && o != nil {
			if at, ok := atomOf(o.s); ok {
				if at.kind == "addr" || p.branch(p.tb.UF("validaddrbytes", 0, at.t)) {
					return Tuple{newMA(p, o.s), nilErr}
				}
				return Tuple{Iface{}, p.newErr("invalid multiaddr")}
			}
		}
		return fr.body(fn, a)
	})
	reg(vsymPkg+".mkAddr", func(fr *frame, fn *ssa.Function, a []Value) Value { return newMA(fr.p, a[0]) })

	// cid
	cidS := func(v Value) Value { return v.(Struct)[0] }
	reg("("+cidPkg+".Cid).String", func(fr *frame, fn *ssa.Function, a []Value) Value {
		if _, ok := cidS(a[0]).(*Rope); ok {
			p := fr.p
			if p.branch(p.eqStr(cidS(a[0]), "")) {
				return "b"
			}
			return fr.p.inj("cidstr", cidS(a[0]), "cidstr", true)
		}
		return fr.body(fn, a)
	})
	reg(cidPkg+".Decode", func(fr *frame, fn *ssa.Function, a []Value) Value {
		p := fr.p
		if _, ok := a[0].(*Rope); ok {
			v, ok := p.uninj("cidstr", a[0], "cid")
			if ok {
				return Tuple{Struct{v}, nilErr}
			}
			return Tuple{Struct{""}, p.newErr("invalid cid")}
		}
		return fr.body(fn, a)
	})
	castCid := func(fr *frame, fn *ssa.Function, a []Value) (Value, Value, bool) {
		p := fr.p
		if o, ok := a[0].(*OBytes); ok && o != nil {
			if at, ok := atomOf(o.s); ok {
				if p.branch(p.tb.Eq(at.t, p.tb.Const(32, 0))) {
					return Struct{""}, p.newErr("cid too short"), true
				}
				if at.kind == "cid" || p.branch(p.tb.UF("validcidbytes", 0, at.t)) {
					return Struct{o.s}, nilErr, true
				}
				return Struct{""}, p.newErr("invalid cid"), true
			}
		}
		return nil, nil, false
	}
	reg(cidPkg+".Cast", func(fr *frame, fn *ssa.Function, a []Value) Value {
		if c, e, ok := castCid(fr, fn, a); ok {
			return Tuple{c, e}
		}
		return fr.body(fn, a)
	})
	reg(cidPkg+".CidFromBytes", func(fr *frame, fn *ssa.Function, a []Value) Value {
		if c, e, ok := castCid(fr, fn, a); ok {
			return Tuple{fr.p.lenOf(a[0]), c, e}
		}
		return fr.body(fn, a)
	})
	reg(vsymPkg+".mkCid", func(fr *frame, fn *ssa.Function, a []Value) Value { return Struct{a[0]} })
	reg("github.com/ipfs/go-datastore.RawKey", func(fr *frame, fn *ssa.Function, a []Value) Value {
		if _, ok := a[0].(*Rope); ok {
			return Struct{a[0]}
		}
		return fr.body(fn, a)
	})
	// multihash
	mhText := func(uf string) intrinsicFn {
		return func(fr *frame, fn *ssa.Function, a []Value) Value {
			if o, ok := a[0].(*OBytes); ok && o != nil {
				return fr.p.inj(uf, o.s, "mhstr", true)
			}
			return fr.body(fn, a)
		}
	}
	reg("("+mhPkg+".Multihash).String", mhText("mhhex"))
	reg("("+mhPkg+".Multihash).HexString", mhText("mhhex"))
	reg("("+mhPkg+".Multihash).B58String", mhText("mhb58"))
	reg(mhPkg+".FromB58String", func(fr *frame, fn *ssa.Function, a []Value) Value {
		p := fr.p
		if _, ok := a[0].(*Rope); ok {
			v, ok := p.uninj("mhb58", a[0], "bytes")
			if ok {
				return Tuple{&OBytes{v}, nilErr}
			}
			return Tuple{[]Value(nil), p.newErr("invalid multihash")}
		}
		return fr.body(fn, a)
	})
	reg("("+cidPkg+".Cid).Hash", func(fr *frame, fn *ssa.Function, a []Value) Value {
		p := fr.p
		if at, ok := atomOf(cidS(a[0])); ok {
			y := p.tb.UF("cidhash", 32, at.t)
			p.axiom(p.tb.Not(p.tb.Eq(y, p.tb.Const(32, 0))))
			return &OBytes{mkAtom(y, "bytes")}
		}
		return fr.body(fn, a)
	})
	reg("("+cidPkg+".Cid).Prefix", func(fr *frame, fn *ssa.Function, a []Value) Value {
		p := fr.p
		if _, ok := cidS(a[0]).(*Rope); ok {
			if p.branch(p.eqStr(cidS(a[0]), "")) {
				panic(fr.derefNil())
			}
			p.note("CIDs are version 1, dag-json, sha2-256")
			return Struct{p.tb.Const(64, 1), p.tb.Const(64, 0x129), p.tb.Const(64, 0x12), p.tb.Int(32)}
		}
		return fr.body(fn, a)
	})
	reg("("+cidPkg+".Prefix).Sum", func(fr *frame, fn *ssa.Function, a []Value) Value {
		p := fr.p
		if o, ok := a[1].(*OBytes); ok && o != nil {
			tb := p.tb
			x := p.atomTerm(o.s)
			y := tb.UF("cidsum", 32, x)
			p.axiom(tb.Eq(tb.UF("uncidsum", 32, y), x))
			p.axiom(tb.Not(tb.Eq(y, tb.Const(32, 0))))
			p.axiom(tb.Bin(OULt, y, tb.Const(32, litBase)))
			p.note("hashes are collision free")
			return Tuple{Struct{mkAtom(y, "cid")}, nilErr}
		}
		return fr.body(fn, a)
	})
	reg(mhPkg+".Decode", func(fr *frame, fn *ssa.Function, a []Value) Value {
		p := fr.p
		if o, ok := a[0].(*OBytes); ok && o != nil {
			if p.branch(p.tb.UF("validmh", 0, p.atomTerm(o.s))) {
				c := new(Value)
				*c = p.zero(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
				return Tuple{c, nilErr}
			}
			return Tuple{(*Value)(nil), p.newErr("invalid multihash")}
		}
		return fr.body(fn, a)
	})
	reg(mhPkg+".Encode", func(fr *frame, fn *ssa.Function, a []Value) Value {
		p := fr.p
		if o, ok := a[0].(*OBytes); ok && o != nil {
			tb := p.tb
			x := p.atomTerm(o.s)
			y := tb.UF("mhenc", 32, x)
			p.axiom(tb.Eq(tb.UF("unmhenc", 32, y), x))
			p.axiom(tb.Not(tb.Eq(y, tb.Const(32, 0))))
			return Tuple{p.strToBytes(mkAtom(y, "bytes")), nilErr}
		}
		return fr.body(fn, a)
	})
	// Curves are only set up, never computed with: keys are symbolic.
	reg("crypto/elliptic.P256", func(fr *frame, fn *ssa.Function, a []Value) Value {
		if fr.p.initDep == 0 {
			panic(unsupported("elliptic.P256"))
		}
		return Iface{}
	})
	reg("crypto/sha256.block", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.p.callFn(fr, fn.Pkg.Func("blockGeneric"), a, nil, fr.g)
	})
	for _, f := range []string{"addVV", "subVV", "addVW", "subVW", "shlVU", "shrVU", "mulAddVWW", "addMulVVW"} {
		f := f
		reg("math/big."+f, func(fr *frame, fn *ssa.Function, a []Value) Value {
			return fr.p.callFn(fr, fn.Pkg.Func(f+"_g"), a, nil, fr.g)
		})
	}
	reg("(*encoding/base64.Encoding).EncodeToString", func(fr *frame, fn *ssa.Function, a []Value) Value {
		if o, ok := a[1].(*OBytes); ok && o != nil {
			return fr.p.inj("b64str", o.s, "b64", true)
		}
		return fr.body(fn, a)
	})
	reg("github.com/filecoin-project/go-indexer-core/metrics.MsecSince", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return float64(0)
	})
	reg("github.com/ipfs/go-datastore.NewKey", func(fr *frame, fn *ssa.Function, a []Value) Value {
		if r, ok := a[0].(*Rope); ok {
			if r.segs[0].k == segLit && r.segs[0].lit[0] == '/' {
				return Struct{a[0]}
			}
			return Struct{concat("/", a[0])}
		}
		return fr.body(fn, a)
	})
	reg("log.Printf", noop)
	reg("log.Println", noop)
}
