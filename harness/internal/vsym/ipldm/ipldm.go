// Package ipldm makes IPLD blocks for the harnesses and models, for the engine
// only, what IPLD codecs and bindnode do with them. A block is a packed Tree:
// equal trees have equal bytes and equal CIDs, distinct trees distinct ones.
// Native replays use the real codecs.
package ipldm

import (
	"bytes"
	"errors"
	"io"

	"github.com/filecoin-project/storetheindex/api/v0/ingest/schema"
	"github.com/filecoin-project/storetheindex/internal/vsym"
	"github.com/ipfs/go-cid"
	hamt "github.com/ipld/go-ipld-adl-hamt"
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/codec"
	"github.com/ipld/go-ipld-prime/codec/dagjson"
	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/linking"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/ipld/go-ipld-prime/node/basicnode"
	ischema "github.com/ipld/go-ipld-prime/schema"
	"github.com/multiformats/go-multicodec"
	"github.com/multiformats/go-multihash"
)

// Kinds of tree.
const (
	Null = iota
	Bool
	Int
	String
	Bytes
	Link
	List
	Map
)

// Tree is an IPLD data model value.
type Tree struct {
	Kind int
	Keys []string
	Vals []Tree
	S    string
	B    []byte
	L    cid.Cid
	Flag bool
	N    int64
}

func TStr(s string) Tree    { return Tree{Kind: String, S: s} }
func TBytes(b []byte) Tree  { return Tree{Kind: Bytes, B: b} }
func TLink(c cid.Cid) Tree  { return Tree{Kind: Link, L: c} }
func TBool(b bool) Tree     { return Tree{Kind: Bool, Flag: b} }
func TInt(n int64) Tree     { return Tree{Kind: Int, N: n} }
func TList(ts ...Tree) Tree { return Tree{Kind: List, Vals: ts} }

// With is a map with one more entry.
func (t Tree) With(k string, v Tree) Tree {
	return Tree{Kind: Map, Keys: append(append([]string(nil), t.Keys...), k), Vals: append(append([]Tree(nil), t.Vals...), v)}
}

// Without is a map with one entry less.
func (t Tree) Without(k string) Tree {
	r := Tree{Kind: Map}
	for i := range t.Keys {
		if t.Keys[i] != k {
			r = r.With(t.Keys[i], t.Vals[i])
		}
	}
	return r
}

// Get finds an entry of a map.
func (t Tree) Get(k string) (Tree, bool) {
	if t.Kind == Map {
		for i := range t.Keys {
			if t.Keys[i] == k {
				return t.Vals[i], true
			}
		}
	}
	return Tree{}, false
}

// AdTree is the tree of an advertisement.
func AdTree(ad schema.Advertisement) Tree {
	t := Tree{Kind: Map}
	if ad.PreviousID != nil {
		t = t.With("PreviousID", TLink(ad.PreviousID.(cidlink.Link).Cid))
	}
	t = t.With("Provider", TStr(ad.Provider))
	as := Tree{Kind: List}
	for _, a := range ad.Addresses {
		as.Vals = append(as.Vals, TStr(a))
	}
	t = t.With("Addresses", as)
	t = t.With("Signature", TBytes(ad.Signature))
	if ad.Entries != nil {
		t = t.With("Entries", TLink(ad.Entries.(cidlink.Link).Cid))
	}
	t = t.With("ContextID", TBytes(ad.ContextID))
	t = t.With("Metadata", TBytes(ad.Metadata))
	return t.With("IsRm", TBool(ad.IsRm))
}

// ChunkTree is the tree of an entry chunk.
func ChunkTree(c schema.EntryChunk) Tree {
	es := Tree{Kind: List}
	for _, e := range c.Entries {
		es.Vals = append(es.Vals, TBytes(e))
	}
	t := Tree{Kind: Map}.With("Entries", es)
	if c.Next != nil {
		t = t.With("Next", TLink(c.Next.(cidlink.Link).Cid))
	}
	return t
}

// Block is the block of a tree and its CID.
func Block(t Tree) (cid.Cid, []byte) {
	var b []byte
	if vsym.Symbolic() {
		b = vsym.Pack("ipld", t)
	} else {
		nb := basicnode.Prototype.Any.NewBuilder()
		if err := assemble(t, nb); err != nil {
			panic(err)
		}
		var buf bytes.Buffer
		if err := dagjson.Encode(nb.Build(), &buf); err != nil {
			panic(err)
		}
		b = buf.Bytes()
	}
	return Hash(b), b
}

// Hash is the CID of a block.
func Hash(b []byte) cid.Cid {
	c, err := cid.Prefix{Version: 1, Codec: uint64(multicodec.DagJson), MhType: multihash.SHA2_256, MhLength: 32}.Sum(b)
	if err != nil {
		panic(err)
	}
	return c
}

// Ad is the block of an advertisement.
func Ad(ad schema.Advertisement) (cid.Cid, []byte) { return Block(AdTree(ad)) }

// Chunk is the block of an entry chunk.
func Chunk(c schema.EntryChunk) (cid.Cid, []byte) { return Block(ChunkTree(c)) }

func assemble(t Tree, na datamodel.NodeAssembler) error {
	switch t.Kind {
	case Null:
		return na.AssignNull()
	case Bool:
		return na.AssignBool(t.Flag)
	case Int:
		return na.AssignInt(t.N)
	case String:
		return na.AssignString(t.S)
	case Bytes:
		return na.AssignBytes(t.B)
	case Link:
		return na.AssignLink(cidlink.Link{Cid: t.L})
	case List:
		la, err := na.BeginList(int64(len(t.Vals)))
		if err != nil {
			return err
		}
		for _, v := range t.Vals {
			if err := assemble(v, la.AssembleValue()); err != nil {
				return err
			}
		}
		return la.Finish()
	}
	ma, err := na.BeginMap(int64(len(t.Vals)))
	if err != nil {
		return err
	}
	for i, v := range t.Vals {
		ea, err := ma.AssembleEntry(t.Keys[i])
		if err != nil {
			return err
		}
		if err := assemble(v, ea); err != nil {
			return err
		}
	}
	return ma.Finish()
}

// treeOf reads a node back.
func treeOf(n datamodel.Node) Tree {
	switch n.Kind() {
	case datamodel.Kind_Bool:
		b, _ := n.AsBool()
		return TBool(b)
	case datamodel.Kind_Int:
		i, _ := n.AsInt()
		return TInt(i)
	case datamodel.Kind_String:
		s, _ := n.AsString()
		return TStr(s)
	case datamodel.Kind_Bytes:
		b, _ := n.AsBytes()
		return TBytes(b)
	case datamodel.Kind_Link:
		l, _ := n.AsLink()
		return TLink(l.(cidlink.Link).Cid)
	case datamodel.Kind_List:
		t := Tree{Kind: List}
		for it := n.ListIterator(); !it.Done(); {
			_, v, err := it.Next()
			if err != nil {
				panic(err)
			}
			t.Vals = append(t.Vals, treeOf(v))
		}
		return t
	case datamodel.Kind_Map:
		t := Tree{Kind: Map}
		for it := n.MapIterator(); !it.Done(); {
			k, v, err := it.Next()
			if err != nil {
				panic(err)
			}
			s, _ := k.AsString()
			t.Keys = append(t.Keys, s)
			t.Vals = append(t.Vals, treeOf(v))
		}
		return t
	}
	return Tree{}
}

var errSchema = errors.New("block does not match the schema")

//vsym:replace github.com/ipld/go-ipld-prime.LoadSchemaBytes
func mLoadSchema(src []byte) (*ischema.TypeSystem, error) { return new(ischema.TypeSystem), nil }

//vsym:replace (github.com/ipld/go-ipld-prime/schema.TypeSystem).TypeByName
func mTypeByName(ts ischema.TypeSystem, name string) ischema.Type { return nil }

type symProto struct {
	ischema.TypedPrototype
	ptr interface{}
}

type symBuilder struct {
	datamodel.NodeBuilder
	p   *symProto
	val interface{}
}

type symNode struct {
	ischema.TypedNode
	p   *symProto
	val interface{}
}

//vsym:replace github.com/ipld/go-ipld-prime/node/bindnode.Prototype
func mPrototype(ptr interface{}, t ischema.Type) ischema.TypedPrototype {
	return &symProto{ptr: ptr}
}

//vsym:replace github.com/ipld/go-ipld-prime/node/bindnode.Wrap
func mWrap(ptr interface{}, t ischema.Type) ischema.TypedNode {
	return &symNode{p: &symProto{ptr: ptr}, val: ptr}
}

//vsym:replace github.com/ipld/go-ipld-prime/node/bindnode.Unwrap
func mUnwrap(n datamodel.Node) interface{} {
	if s, ok := n.(*symNode); ok {
		return s.val
	}
	return nil
}

func (p *symProto) Type() ischema.Type                { return nil }
func (p *symProto) NewBuilder() datamodel.NodeBuilder { return &symBuilder{p: p} }
func (b *symBuilder) Build() datamodel.Node {
	if b.val == nil {
		panic("bindnode: built nothing")
	}
	return &symNode{p: b.p, val: b.val}
}
func (b *symBuilder) AssignNode(n datamodel.Node) error  { return b.set(treeOf(n)) }
func (b *symBuilder) Prototype() datamodel.NodePrototype { return b.p }
func (n *symNode) Prototype() datamodel.NodePrototype    { return n.p }
func (n *symNode) Representation() datamodel.Node        { return n }

func want(t Tree, k string, kind int) (Tree, error) {
	v, ok := t.Get(k)
	if !ok || v.Kind != kind {
		return Tree{}, errSchema
	}
	return v, nil
}

func only(t Tree, keys ...string) error {
	if t.Kind != Map {
		return errSchema
	}
next:
	for _, k := range t.Keys {
		for _, x := range keys {
			if x == k {
				continue next
			}
		}
		return errSchema
	}
	return nil
}

func (b *symBuilder) set(t Tree) error {
	var err error
	switch b.p.ptr.(type) {
	case *schema.Advertisement:
		b.val, err = toAd(t)
	case *schema.EntryChunk:
		b.val, err = toChunk(t)
	case *hamt.HashMapRoot:
		b.val, err = toRoot(t)
	case *hamt.HashMapNode:
		b.val, err = toHNode(t)
	default:
		panic("ipldm: no model of this type")
	}
	return err
}

func toAd(t Tree) (interface{}, error) {
	if err := only(t, "PreviousID", "Provider", "Addresses", "Signature", "Entries", "ContextID", "Metadata", "IsRm"); err != nil {
		return nil, err
	}
	ad := &schema.Advertisement{}
	if v, ok := t.Get("PreviousID"); ok {
		if v.Kind != Link {
			return nil, errSchema
		}
		ad.PreviousID = cidlink.Link{Cid: v.L}
	}
	v, err := want(t, "Provider", String)
	if err != nil {
		return nil, err
	}
	ad.Provider = v.S
	if v, err = want(t, "Addresses", List); err != nil {
		return nil, err
	}
	for _, a := range v.Vals {
		if a.Kind != String {
			return nil, errSchema
		}
		ad.Addresses = append(ad.Addresses, a.S)
	}
	if v, err = want(t, "Signature", Bytes); err != nil {
		return nil, err
	}
	ad.Signature = v.B
	if v, err = want(t, "Entries", Link); err != nil {
		return nil, err
	}
	ad.Entries = cidlink.Link{Cid: v.L}
	if v, err = want(t, "ContextID", Bytes); err != nil {
		return nil, err
	}
	ad.ContextID = v.B
	if v, err = want(t, "Metadata", Bytes); err != nil {
		return nil, err
	}
	ad.Metadata = v.B
	if v, err = want(t, "IsRm", Bool); err != nil {
		return nil, err
	}
	ad.IsRm = v.Flag
	return ad, nil
}

func toChunk(t Tree) (interface{}, error) {
	if err := only(t, "Entries", "Next"); err != nil {
		return nil, err
	}
	c := &schema.EntryChunk{}
	v, err := want(t, "Entries", List)
	if err != nil {
		return nil, err
	}
	for _, e := range v.Vals {
		if e.Kind != Bytes {
			return nil, errSchema
		}
		c.Entries = append(c.Entries, multihash.Multihash(e.B))
	}
	if v, ok := t.Get("Next"); ok {
		if v.Kind != Link {
			return nil, errSchema
		}
		c.Next = cidlink.Link{Cid: v.L}
	}
	return c, nil
}

func toRoot(t Tree) (interface{}, error) {
	if err := only(t, "hashAlg", "bucketSize", "hamt"); err != nil {
		return nil, err
	}
	r := &hamt.HashMapRoot{}
	v, err := want(t, "hashAlg", Int)
	if err != nil {
		return nil, err
	}
	r.HashAlg = multicodec.Code(v.N)
	if v, err = want(t, "bucketSize", Int); err != nil {
		return nil, err
	}
	r.BucketSize = int(v.N)
	if v, err = want(t, "hamt", Map); err != nil {
		return nil, err
	}
	n, err := toHNode(v)
	if err != nil {
		return nil, err
	}
	r.Hamt = *n.(*hamt.HashMapNode)
	return r, nil
}

// The indexer reads HAMTs in the form of their types, not of the representation
// their schema gives.
func toHNode(t Tree) (interface{}, error) {
	if err := only(t, "map", "data"); err != nil {
		return nil, err
	}
	m, err := want(t, "map", Bytes)
	if err != nil {
		return nil, err
	}
	d, err := want(t, "data", List)
	if err != nil {
		return nil, err
	}
	n := &hamt.HashMapNode{Map: m.B}
	for _, e := range d.Vals {
		var el hamt.Element
		if e.Kind != Map || len(e.Keys) != 1 {
			return nil, errSchema
		}
		switch v := e.Vals[0]; e.Keys[0] {
		case "Link__HashMapNode":
			if v.Kind != Link {
				return nil, errSchema
			}
			var l ipld.Link = cidlink.Link{Cid: v.L}
			el.HashMapNode = &l
		case "Bucket":
			if v.Kind != List {
				return nil, errSchema
			}
			bk := hamt.Bucket{}
			for _, x := range v.Vals {
				if err := only(x, "key", "value"); err != nil {
					return nil, err
				}
				k, err := want(x, "key", Bytes)
				if err != nil {
					return nil, err
				}
				if _, ok := x.Get("value"); !ok {
					return nil, errSchema
				}
				bk = append(bk, hamt.BucketEntry{Key: k.B})
			}
			el.Bucket = &bk
		default:
			return nil, errSchema
		}
		n.Data = append(n.Data, el)
	}
	return n, nil
}

// HNode is a HAMT node.
func HNode(bits []byte, els ...Tree) Tree {
	return Tree{Kind: Map}.With("map", TBytes(bits)).With("data", TList(els...))
}

// HRoot is the root of a HAMT.
func HRoot(n Tree) Tree {
	return Tree{Kind: Map}.With("hashAlg", TInt(0x22)).With("bucketSize", TInt(3)).With("hamt", n)
}

// HLink is a HAMT element that is a subtree.
func HLink(c cid.Cid) Tree { return Tree{Kind: Map}.With("Link__HashMapNode", TLink(c)) }

// HBucket is a HAMT element that is a bucket.
func HBucket(keys ...multihash.Multihash) Tree {
	b := TList()
	for _, k := range keys {
		b.Vals = append(b.Vals, Tree{Kind: Map}.With("key", TBytes(k)).With("value", TInt(1)))
	}
	return Tree{Kind: Map}.With("Bucket", b)
}

//vsym:replace github.com/ipld/go-ipld-prime/multicodec.LookupDecoder
func mLookupDecoder(c uint64) (codec.Decoder, error) {
	if c != uint64(multicodec.DagJson) && c != uint64(multicodec.DagCbor) {
		return nil, errors.New("no decoder registered for multicodec code")
	}
	return decode, nil
}

func decode(na datamodel.NodeAssembler, r io.Reader) error {
	b, err := io.ReadAll(r)
	if err != nil {
		return err
	}
	v, ok := vsym.Unpack("ipld", b)
	if !ok {
		return errors.New("malformed block")
	}
	t := v.(Tree)
	if sb, ok := na.(*symBuilder); ok {
		return sb.set(t)
	}
	return assemble(t, na)
}

//vsym:replace (*github.com/ipld/go-ipld-prime/linking.LinkSystem).Load
func mLoad(ls *linking.LinkSystem, lc linking.LinkContext, l datamodel.Link, p datamodel.NodePrototype) (datamodel.Node, error) {
	r, err := ls.StorageReadOpener(lc, l)
	if err != nil {
		return nil, err
	}
	b, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	if Hash(b) != l.(cidlink.Link).Cid {
		return nil, errors.New("hash mismatch")
	}
	nb := p.NewBuilder()
	if err := decode(nb, bytes.NewBuffer(b)); err != nil {
		return nil, err
	}
	return nb.Build(), nil
}
