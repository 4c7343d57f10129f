// Package leveldb stands in for the datastore: the harness provides it.
package leveldb

import ds "github.com/ipfs/go-datastore"

type Datastore struct{ ds.Batching }

type Options struct{}

// VerifOpen opens a datastore.
var VerifOpen func(path string) (ds.Batching, error)

func NewDatastore(path string, opts *Options) (*Datastore, error) {
	d, err := VerifOpen(path)
	if err != nil {
		return nil, err
	}
	return &Datastore{d}, nil
}
