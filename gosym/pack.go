package main

// Abstract serialisation: Pack turns a value into opaque bytes, Unpack takes
// them apart again. Equal values have equal bytes, distinct values distinct
// ones.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type packed struct {
	t types.Type
	v Value
}

// freeze is a deep snapshot of a value.
func freeze(v Value, d int) Value {
	if d > 40 {
		return v
	}
	switch v := v.(type) {
	case Struct:
		r := make(Struct, len(v))
		for i, x := range v {
			r[i] = freeze(x, d+1)
		}
		return r
	case Array:
		r := make(Array, len(v))
		for i, x := range v {
			r[i] = freeze(x, d+1)
		}
		return r
	case []Value:
		if v == nil {
			return v
		}
		r := make([]Value, len(v))
		for i, x := range v {
			r[i] = freeze(x, d+1)
		}
		return r
	case *Value:
		if v == nil {
			return v
		}
		c := new(Value)
		*c = freeze(*v, d+1)
		return c
	case Iface:
		return Iface{v.t, freeze(v.v, d+1)}
	}
	return v
}

func (p *Path) packDoc(kind string, t types.Type, v Value) Value {
	tb := p.tb
	if h, ok := p.kv["json-handles"].(*jdocs); ok {
		// Equal values have equal names.
		fv := freeze(v, 0)
		for i, o := range h.packs {
			pk := o.v.(*packed)
			if o.kind == "pack:"+kind && types.Identical(pk.t, t) && p.branch(p.deepEq(pk.v, fv)) {
				return p.strToBytes(fmt.Sprintf("<#P%05d>", i))
			}
		}
		h.packs = append(h.packs, &Doc{kind: "pack:" + kind, v: &packed{t, fv}})
		return p.strToBytes(fmt.Sprintf("<#P%05d>", len(h.packs)-1))
	}
	d := &Doc{kind: "pack:" + kind, v: &packed{t, freeze(v, 0)}, id: p.fresh("packdoc", 32)}
	p.axiom(tb.Not(tb.Eq(d.id, tb.Const(32, 0))))
	for _, o := range p.packs {
		if o.kind != d.kind || !types.Identical(o.v.(*packed).t, t) {
			p.axiom(tb.Not(tb.Eq(o.id, d.id)))
			continue
		}
		p.axiom(tb.Eq(tb.Eq(o.id, d.id), p.deepEq(o.v.(*packed).v, d.v.(*packed).v)))
	}
	p.packs = append(p.packs, d)
	return p.strToBytes(mkDoc(d))
}

func (p *Path) unpackDoc(kind string, b Value) (*packed, bool) {
	s := p.bytesToStr(b)
	d := docOf(s)
	if cs, ok := s.(string); ok && d == nil {
		if h, ok := p.kv["json-handles"].(*jdocs); ok {
			var i int
			if n, err := fmt.Sscanf(cs, "<#P%05d>", &i); n == 1 && err == nil && len(cs) == 9 && i < len(h.packs) {
				d = h.packs[i]
			}
		}
	}
	if d == nil || d.kind != "pack:"+kind {
		return nil, false
	}
	return d.v.(*packed), true
}

func regPack() {
	reg(vsymPkg+".Pack", func(fr *frame, fn *ssa.Function, a []Value) Value {
		i := a[1].(Iface)
		return fr.p.packDoc(a[0].(string), i.t, i.v)
	})
	reg(vsymPkg+".Unpack", func(fr *frame, fn *ssa.Function, a []Value) Value {
		pk, ok := fr.p.unpackDoc(a[0].(string), a[1])
		if !ok {
			return Tuple{Iface{}, fr.p.tb.ff}
		}
		return Tuple{Iface{pk.t, freeze(pk.v, 0)}, fr.p.tb.tt}
	})
	reg(vsymPkg+".NewLike", func(fr *frame, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		c := new(Value)
		*c = fr.p.zero(i.t.Underlying().(*types.Pointer).Elem())
		return Iface{i.t, c}
	})
	for _, pk := range []string{"github.com/gogo/protobuf/proto", "github.com/golang/protobuf/proto", "google.golang.org/protobuf/proto"} {
		reg(pk+".Marshal", func(fr *frame, fn *ssa.Function, a []Value) Value {
			i := a[0].(Iface)
			ptr, _ := i.v.(*Value)
			if i.t == nil || ptr == nil {
				return Tuple{fr.p.zero(fn.Signature.Results().At(0).Type()), fr.p.newErr("proto: Marshal called with nil")}
			}
			return Tuple{fr.p.packDoc("proto", i.t, *ptr), nilErr}
		})
		reg(pk+".Unmarshal", func(fr *frame, fn *ssa.Function, a []Value) Value {
			p := fr.p
			i := a[1].(Iface)
			pk, ok := p.unpackDoc("proto", a[0])
			if !ok || !types.Identical(pk.t, i.t) {
				p.note("protobuf text is either a marshalled message of the same type or malformed")
				return p.newErr("proto: malformed message")
			}
			storeVal(i.v.(*Value), freeze(pk.v, 0))
			return nilErr
		})
		reg(pk+".RegisterType", noop)
		reg(pk+".RegisterFile", noop)
		reg(pk+".RegisterEnum", noop)
		reg(pk+".Size", func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.p.tb.Int(64) })
	}
	reg("github.com/libp2p/go-buffer-pool.Put", noop)
	reg("github.com/multiformats/go-multihash.Sum", func(fr *frame, fn *ssa.Function, a []Value) Value {
		p := fr.p
		if o, ok := a[0].(*OBytes); ok && o != nil {
			tb := p.tb
			x := p.atomTerm(o.s)
			y := tb.UF("mhsum", 32, x)
			p.axiom(tb.Eq(tb.UF("unmhsum", 32, y), x))
			p.axiom(tb.Not(tb.Eq(y, tb.Const(32, 0))))
			p.axiom(tb.Eq(tb.UF("strlen", 64, y), tb.Int(34)))
			p.note("hashes are collision free")
			return Tuple{p.strToBytes(mkAtom(y, "mh")), nilErr}
		}
		if b, ok := a[0].([]Value); ok {
			for _, x := range b {
				if t, ok := x.(*Term); ok && !t.isConst() {
					// Bytes of a known number: equal sums are of equal bytes.
					d := docOf(p.bytesToStr(p.packDoc("mhsum", fn.Signature.Params().At(0).Type(), a[0])))
					y := p.tb.UF("mhsum", 32, d.id)
					p.axiom(p.tb.Eq(p.tb.UF("unmhsum", 32, y), d.id))
					p.axiom(p.tb.Not(p.tb.Eq(y, p.tb.Const(32, 0))))
					p.axiom(p.tb.Eq(p.tb.UF("strlen", 64, y), p.tb.Int(34)))
					p.note("hashes are collision free")
					return Tuple{p.strToBytes(mkAtom(y, "mh")), nilErr}
				}
			}
		}
		return fr.body(fn, a)
	})
}
