package vsym

import (
	"bytes"
	"context"
	"errors"
	"io"

	indexer "github.com/filecoin-project/go-indexer-core"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multihash"
)

// Index is an indexer core that keeps what its contract says and records what
// it was asked to do.
type Index struct {
	Vals []*IxVal
	Log  []IxOp
	// Fault, if set, may fail an operation before it has any effect.
	Fault func(op string) error
	// OnOp, if set, is told about every mutation before it happens.
	OnOp  func(op IxOp)
	// Slow makes storing take a while before the multihashes are looked at.
	Slow  bool
	Bytes int64
}

type IxVal struct {
	V   indexer.Value
	Mhs []multihash.Multihash
}

type IxOp struct {
	Op  string // put, remove, removeProvider, removeContext, flush
	V   indexer.Value
	Mhs []multihash.Multihash
}

var _ indexer.Interface = (*Index)(nil)

func (x *Index) op(o IxOp) error {
	if x.OnOp != nil {
		x.OnOp(o)
	}
	if x.Fault != nil {
		if err := x.Fault(o.Op); err != nil {
			return err
		}
	}
	x.Log = append(x.Log, o)
	return nil
}

func (x *Index) find(v indexer.Value) *IxVal {
	for _, e := range x.Vals {
		if e.V.ProviderID == v.ProviderID && bytes.Equal(e.V.ContextID, v.ContextID) {
			return e
		}
	}
	return nil
}

// Reboot is the index after a crash, when n operations had been done, at which
// it had lost up to lost of those that were not flushed.
func (x *Index) Reboot(n, lost int) *Index {
	flushed := 0
	for i := 0; i < n; i++ {
		if x.Log[i].Op == "flush" {
			flushed = i + 1
		}
	}
	if lost > n-flushed {
		lost = n - flushed
	}
	if lost > 0 {
		n -= Choice("lost", lost+1)
	}
	y := &Index{}
	for _, o := range x.Log[:n] {
		switch o.Op {
		case "put":
			y.Put(o.V, o.Mhs...)
		case "remove":
			y.Remove(o.V, o.Mhs...)
		case "removeProvider":
			y.RemoveProvider(context.Background(), o.V.ProviderID)
		case "removeContext":
			y.RemoveProviderContext(o.V.ProviderID, o.V.ContextID)
		}
	}
	return y
}

// Lookup is Get without side effects.
func (x *Index) Lookup(mh multihash.Multihash) []indexer.Value {
	var out []indexer.Value
	for _, e := range x.Vals {
		for _, m := range e.Mhs {
			if bytes.Equal(m, mh) {
				out = append(out, e.V)
				break
			}
		}
	}
	return out
}

func (x *Index) Get(mh multihash.Multihash) ([]indexer.Value, bool, error) {
	if x.Fault != nil {
		if err := x.Fault("get"); err != nil {
			return nil, false, err
		}
	}
	out := x.Lookup(mh)
	return out, len(out) != 0, nil
}

func (x *Index) Put(v indexer.Value, mhs ...multihash.Multihash) error {
	if len(v.MetadataBytes) == 0 {
		return errors.New("value missing metadata")
	}
	if x.Slow {
		Yield()
	}
	mhs = append([]multihash.Multihash(nil), mhs...)
	if err := x.op(IxOp{"put", v, mhs}); err != nil {
		return err
	}
	e := x.find(v)
	if e == nil {
		if len(mhs) == 0 {
			return nil
		}
		e = &IxVal{V: v}
		x.Vals = append(x.Vals, e)
	}
	e.V.MetadataBytes = v.MetadataBytes
	for _, m := range mhs {
		dup := false
		for _, o := range e.Mhs {
			if bytes.Equal(m, o) {
				dup = true
				break
			}
		}
		if !dup {
			e.Mhs = append(e.Mhs, m)
		}
	}
	return nil
}

func (x *Index) Remove(v indexer.Value, mhs ...multihash.Multihash) error {
	mhs = append([]multihash.Multihash(nil), mhs...)
	if err := x.op(IxOp{"remove", v, mhs}); err != nil {
		return err
	}
	if e := x.find(v); e != nil {
		var left []multihash.Multihash
	next:
		for _, o := range e.Mhs {
			for _, m := range mhs {
				if bytes.Equal(m, o) {
					continue next
				}
			}
			left = append(left, o)
		}
		e.Mhs = left
	}
	return nil
}

func (x *Index) drop(keep func(v indexer.Value) bool) {
	var left []*IxVal
	for _, e := range x.Vals {
		if keep(e.V) {
			left = append(left, e)
		}
	}
	x.Vals = left
}

func (x *Index) RemoveProvider(ctx context.Context, id peer.ID) error {
	if err := x.op(IxOp{"removeProvider", indexer.Value{ProviderID: id}, nil}); err != nil {
		return err
	}
	x.drop(func(v indexer.Value) bool { return v.ProviderID != id })
	return nil
}

func (x *Index) RemoveProviderContext(id peer.ID, ctxID []byte) error {
	if err := x.op(IxOp{"removeContext", indexer.Value{ProviderID: id, ContextID: ctxID}, nil}); err != nil {
		return err
	}
	x.drop(func(v indexer.Value) bool { return v.ProviderID != id || !bytes.Equal(v.ContextID, ctxID) })
	return nil
}

func (x *Index) Size() (int64, error) {
	if x.Fault != nil {
		if err := x.Fault("size"); err != nil {
			return 0, err
		}
	}
	return x.Bytes, nil
}

func (x *Index) Flush() error { return x.op(IxOp{Op: "flush"}) }

func (x *Index) Close() error { return nil }

func (x *Index) Iter() (indexer.Iterator, error) { return ixEnd{}, nil }

type ixEnd struct{}

func (ixEnd) Next() (multihash.Multihash, []indexer.Value, error) { return nil, nil, io.EOF }
