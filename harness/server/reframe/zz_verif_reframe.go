package reframe

import (
	"bytes"
	"context"
	"errors"

	indexer "github.com/filecoin-project/go-indexer-core"
	"github.com/filecoin-project/storetheindex/internal/vsym"
	"github.com/filecoin-project/storetheindex/server/finder/handler"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multihash"
)

func vrMh(n byte) multihash.Multihash {
	d := make([]byte, 32)
	d[0] = n
	return append(multihash.Multihash{0x12, 32}, d...)
}

// VerifReframe: a delegated lookup returns the visible providers that have the
// content by bitswap, each with its addresses, and no others.
func VerifReframe() {
	vsym.NoTimers()
	reg, ps := handler.VerifSomeProviders(vsym.Param("provs", 2))
	ix := &vsym.Index{}
	bitswap := []byte{0x80, 0x12}
	key := vrMh(1)
	want := map[int]int{}
	nv := vsym.Param("values", 2)
	for i := 0; i < nv; i++ {
		k := vsym.Choice("vprov", len(ps))
		v := indexer.Value{ProviderID: ps[k].ID, ContextID: []byte{byte(i)}, MetadataBytes: bitswap}
		other := vsym.Flip("other transport")
		if other {
			v.MetadataBytes = vsym.Bytes("meta")
			vsym.Assume(len(v.MetadataBytes) > 0 && !bytes.Equal(v.MetadataBytes, bitswap))
		}
		m := vrMh(byte(1 + vsym.Choice("vmh", 2)))
		vsym.Assert(ix.Put(v, m) == nil, "the core stores")
		if !other && m[2] == 1 && ps[k].Visible {
			want[k]++
		}
	}
	fault := vsym.Flip("fault")
	if fault {
		ix.Fault = func(op string) error {
			if op == "get" {
				return errors.New("core failure")
			}
			return nil
		}
	}
	c := cid.NewCidV1(cid.Raw, key)
	ch, err := NewReframeService(handler.NewFinderHandler(ix, reg)).FindProviders(context.Background(), c)
	if fault {
		vsym.Assert(err != nil, "a failure is reported")
		vsym.Reach("failure")
		return
	}
	vsym.Assert(err == nil, "a delegated lookup succeeds")
	var got []peer.AddrInfo
	for r := range ch {
		vsym.Assert(r.Err == nil, "a delegated lookup succeeds")
		got = append(got, r.AddrInfo...)
	}
	n := 0
	for k, p := range ps {
		count := 0
		for _, g := range got {
			if g.ID != p.ID {
				continue
			}
			count++
			same := len(g.Addrs) == len(p.Addrs)
			for i := 0; same && i < len(g.Addrs); i++ {
				same = g.Addrs[i].String() == p.Addrs[i].String()
			}
			vsym.Assert(same, "a provider is returned with its addresses")
		}
		n += count
		vsym.Assert((count > 0) == (want[k] > 0) && count <= want[k], "the visible providers that have the content by bitswap are returned")
		if count > 0 {
			vsym.Reach("found")
		}
	}
	vsym.Assert(n == len(got), "nobody else is returned")
}
