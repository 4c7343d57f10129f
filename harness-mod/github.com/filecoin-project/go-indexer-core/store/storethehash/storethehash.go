// Package storethehash stands in for the value store: the harness provides it.
package storethehash

import (
	"context"

	"github.com/filecoin-project/go-indexer-core"
)

// VerifOpen opens a value store.
var VerifOpen func(dir string) (indexer.Interface, error)

func New(ctx context.Context, dir string, options ...Option) (indexer.Interface, error) {
	return VerifOpen(dir)
}
