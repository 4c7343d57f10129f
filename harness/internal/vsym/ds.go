package vsym

import (
	"context"
	"errors"
	"strings"

	"github.com/ipfs/go-datastore"
	"github.com/ipfs/go-datastore/query"
)

// DS is a datastore with the contract of go-datastore and nothing more: a
// write that was not synced may or may not survive a crash. It can fail
// (Faults) and it can take a crash image (Crashes) at any operation.
type DS struct {
	cur     []dsRec
	durable []dsRec
	pend    []dsOp
	// und are writes of before a crash of which is not yet decided whether
	// they survived it.
	und []dsOp

	// Faults is how many operations may still fail.
	Faults int
	// Failed is how many failed.
	Failed int
	// Crashes allows one crash image.
	Crashes bool
	// OnCrash runs when the crash image is taken.
	OnCrash func()
	// OnOp observes every operation before it happens.
	OnOp  func(kind string, key string, val []byte)
	image *dsImage
	// Closed is how often the datastore was closed.
	Closed int
}

type dsRec struct {
	key string
	val []byte
}

type dsOp struct {
	key string
	val []byte
	del bool
}

type dsImage struct {
	durable []dsRec
	pend    []dsOp
}

// ErrFault is what an operation that fails returns.
var ErrFault = errors.New("injected datastore failure")

func dsApply(recs []dsRec, o dsOp) []dsRec {
	out := make([]dsRec, 0, len(recs)+1)
	for _, r := range recs {
		if r.key != o.key {
			out = append(out, r)
		}
	}
	if !o.del {
		out = append(out, dsRec{o.key, o.val})
	}
	return out
}

// Crash takes the crash image now.
func (d *DS) Crash() {
	d.decide(func(string) bool { return true })
	d.image = &dsImage{durable: append([]dsRec(nil), d.durable...), pend: append([]dsOp(nil), d.pend...)}
	d.Crashes = false
	if d.OnCrash != nil {
		d.OnCrash()
	}
}

// Crashed tells whether a crash image was taken.
func (d *DS) Crashed() bool { return d.image != nil }

// Reboot is the datastore after the crash: any of the writes that were not
// synced may be missing.
func (d *DS) Reboot() *DS {
	return &DS{
		durable: append([]dsRec(nil), d.image.durable...),
		cur:     append([]dsRec(nil), d.image.durable...),
		und:     d.image.pend,
	}
}

// decide settles which writes that match survived the crash. Of the writes of a
// key only the last that survived matters.
func (d *DS) decide(match func(key string) bool) {
	for len(d.und) > 0 {
		var key string
		found := false
		var mine, left []dsOp
		for _, o := range d.und {
			if !found && match(o.key) {
				found, key = true, o.key
			}
			if found && o.key == key {
				mine = append(mine, o)
			} else {
				left = append(left, o)
			}
		}
		if !found {
			return
		}
		d.und = left
		// The outcomes that differ.
		gone := true
		for _, r := range d.cur {
			if r.key == key {
				gone = false
			}
		}
		var outs []dsOp
		for _, o := range mine {
			if o.del {
				if gone {
					continue
				}
				gone = true
			}
			outs = append(outs, o)
		}
		if k := Choice("survives", len(outs)+1); k > 0 {
			d.durable = dsApply(d.durable, outs[k-1])
			d.cur = dsApply(d.cur, outs[k-1])
		}
	}
}

// Reopen is the datastore after an orderly shutdown.
func (d *DS) Reopen() *DS {
	d.decide(func(string) bool { return true })
	return &DS{cur: append([]dsRec(nil), d.cur...), durable: append([]dsRec(nil), d.cur...)}
}

func (d *DS) step(kind, key string, val []byte, mut bool) error {
	if d.OnOp != nil {
		d.OnOp(kind, key, val)
	}
	if mut && d.Crashes && Flip("crash") {
		d.Crash()
	}
	if d.Faults > 0 && Flip("dsfault") {
		d.Faults--
		d.Failed++
		return ErrFault
	}
	return nil
}

func (d *DS) Put(ctx context.Context, key datastore.Key, value []byte) error {
	if err := d.step("put", key.String(), value, true); err != nil {
		return err
	}
	d.forget(key.String())
	o := dsOp{key: key.String(), val: value}
	d.cur = dsApply(d.cur, o)
	d.pend = append(d.pend, o)
	return nil
}

func (d *DS) Delete(ctx context.Context, key datastore.Key) error {
	if err := d.step("delete", key.String(), nil, true); err != nil {
		return err
	}
	d.forget(key.String())
	o := dsOp{key: key.String(), del: true}
	d.cur = dsApply(d.cur, o)
	d.pend = append(d.pend, o)
	return nil
}

func (d *DS) Sync(ctx context.Context, prefix datastore.Key) error {
	if err := d.step("sync", prefix.String(), nil, true); err != nil {
		return err
	}
	var left []dsOp
	for _, o := range d.pend {
		if under(o.key, prefix.String()) {
			d.durable = dsApply(d.durable, o)
		} else {
			left = append(left, o)
		}
	}
	d.pend = left
	return nil
}

// under tells whether a key is the prefix or below it.
func under(key, prefix string) bool {
	return key == prefix || prefix == "/" || strings.HasPrefix(key, prefix+"/")
}

// forget drops what is undecided about a key that is written now.
func (d *DS) forget(key string) {
	if len(d.und) == 0 {
		return
	}
	var left []dsOp
	for _, o := range d.und {
		if o.key != key {
			left = append(left, o)
		}
	}
	d.und = left
}

// settle settles a key.
func (d *DS) settle(key string) { d.decide(func(k string) bool { return k == key }) }

func (d *DS) find(key string) ([]byte, bool) {
	d.settle(key)
	for _, r := range d.cur {
		if r.key == key {
			return r.val, true
		}
	}
	return nil, false
}

// Has1 looks at a key without any fault.
func (d *DS) Has1(key string) bool { _, ok := d.find(key); return ok }

// Get1 reads a key without any fault.
func (d *DS) Get1(key string) ([]byte, bool) { return d.find(key) }

// Count is the number of records.
func (d *DS) Count() int {
	d.decide(func(string) bool { return true })
	return len(d.cur)
}

func (d *DS) Get(ctx context.Context, key datastore.Key) ([]byte, error) {
	if err := d.step("get", key.String(), nil, false); err != nil {
		return nil, err
	}
	v, ok := d.find(key.String())
	if !ok {
		return nil, datastore.ErrNotFound
	}
	return v, nil
}

func (d *DS) Has(ctx context.Context, key datastore.Key) (bool, error) {
	if err := d.step("has", key.String(), nil, false); err != nil {
		return false, err
	}
	_, ok := d.find(key.String())
	return ok, nil
}

func (d *DS) GetSize(ctx context.Context, key datastore.Key) (int, error) {
	v, err := d.Get(ctx, key)
	if err != nil {
		return -1, err
	}
	return len(v), nil
}

func (d *DS) Query(ctx context.Context, q query.Query) (query.Results, error) {
	if err := d.step("query", q.Prefix, nil, false); err != nil {
		return nil, err
	}
	r := &dsResults{q: q}
	pre := datastore.NewKey(q.Prefix)
	d.decide(func(k string) bool { return under(k, pre.String()) })
	for _, e := range d.cur {
		if e.key == pre.String() || !under(e.key, pre.String()) {
			continue
		}
		en := query.Entry{Key: e.key, Value: e.val}
		if q.KeysOnly {
			en.Value = nil
		}
		r.es = append(r.es, query.Result{Entry: en})
	}
	return r, nil
}

func (d *DS) Close() error {
	d.Closed++
	return nil
}

type dsResults struct {
	query.Results
	q  query.Query
	es []query.Result
}

func (r *dsResults) Query() query.Query { return r.q }

func (r *dsResults) Next() <-chan query.Result {
	ch := make(chan query.Result, len(r.es))
	for _, e := range r.es {
		ch <- e
	}
	r.es = nil
	close(ch)
	return ch
}

func (r *dsResults) NextSync() (query.Result, bool) {
	if len(r.es) == 0 {
		return query.Result{}, false
	}
	e := r.es[0]
	r.es = r.es[1:]
	return e, true
}

func (r *dsResults) Rest() ([]query.Entry, error) {
	var out []query.Entry
	for _, e := range r.es {
		out = append(out, e.Entry)
	}
	r.es = nil
	return out, nil
}

func (r *dsResults) Close() error { return nil }

// Batch collects writes and applies them one by one.
func (d *DS) Batch(ctx context.Context) (datastore.Batch, error) { return &dsBatch{d: d}, nil }

type dsBatch struct {
	d   *DS
	ops []dsOp
}

func (b *dsBatch) Put(ctx context.Context, key datastore.Key, value []byte) error {
	b.ops = append(b.ops, dsOp{key: key.String(), val: value})
	return nil
}

func (b *dsBatch) Delete(ctx context.Context, key datastore.Key) error {
	b.ops = append(b.ops, dsOp{key: key.String(), del: true})
	return nil
}

func (b *dsBatch) Commit(ctx context.Context) error {
	for _, o := range b.ops {
		var err error
		if o.del {
			err = b.d.Delete(ctx, datastore.RawKey(o.key))
		} else {
			err = b.d.Put(ctx, datastore.RawKey(o.key), o.val)
		}
		if err != nil {
			return err
		}
	}
	b.ops = nil
	return nil
}
