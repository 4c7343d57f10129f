// Package sigx drives the signing and verification of advertisements.
package sigx

import (
	"bytes"

	"github.com/filecoin-project/storetheindex/api/v0/ingest/schema"
	"github.com/filecoin-project/storetheindex/internal/vsym"
	"github.com/ipfs/go-cid"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/libp2p/go-libp2p-core/peer"
)

func anyAd(naddrs int) schema.Advertisement {
	ad := schema.Advertisement{
		Provider: vsym.Peer("provider").String(), ContextID: vsym.Bytes("ctx"), Metadata: vsym.Bytes("md"), IsRm: vsym.Bool("rm"),
		Entries: cidlink.Link{Cid: vsym.Cid("entries")},
	}
	if vsym.Flip("prev") {
		ad.PreviousID = cidlink.Link{Cid: vsym.Cid("previous")}
	}
	for i := 0; i < naddrs; i++ {
		ad.Addresses = append(ad.Addresses, vsym.Addr("addr").String())
	}
	return ad
}

// VerifSign: the signature of an advertisement proves who signed it, and with
// it no advertisement is accepted but the one that was signed.
func VerifSign() {
	signer := vsym.Peer("signer")
	n := vsym.Choice("addrs", vsym.Param("addrs", 3))
	ad := anyAd(n)
	err := ad.Sign(vsym.Key(signer))
	vsym.Assert(err == nil, "an advertisement can be signed")
	got, err := ad.VerifySignature()
	vsym.Assert(err == nil && got == signer, "the signature of an advertisement names its signer")

	other := anyAd(n)
	other.Signature = ad.Signature
	got, err = other.VerifySignature()
	if err != nil {
		vsym.Reach("refused")
		return
	}
	vsym.Assert(got == signer, "a signature never names anyone but its signer")
	vsym.Assert(other.Provider == ad.Provider, "the signature covers the provider")
	vsym.Assert((other.PreviousID == nil) == (ad.PreviousID == nil) && (ad.PreviousID == nil || other.PreviousID.(cidlink.Link).Cid == ad.PreviousID.(cidlink.Link).Cid), "the signature covers the previous advertisement")
	vsym.Assert(other.Entries.(cidlink.Link).Cid == ad.Entries.(cidlink.Link).Cid, "the signature covers the entries")
	for i := range ad.Addresses {
		vsym.Assert(other.Addresses[i] == ad.Addresses[i], "the signature covers the addresses")
	}
	vsym.Assert(bytes.Equal(other.Metadata, ad.Metadata), "the signature covers the metadata")
	vsym.Assert(other.IsRm == ad.IsRm, "the signature covers whether this is a removal")
	vsym.Reach("accepted")
}

// VerifSignContext: likewise for the context ID.
func VerifSignContext() {
	signer := vsym.Peer("signer")
	ad := anyAd(1)
	err := ad.Sign(vsym.Key(signer))
	vsym.Assert(err == nil, "an advertisement can be signed")
	other := ad
	other.ContextID = vsym.Bytes("ctx2")
	_, err = other.VerifySignature()
	vsym.Assert(err != nil || bytes.Equal(other.ContextID, ad.ContextID), "the signature covers the context ID")
	vsym.Reach("done")
}

// VerifForged: nobody signs for anyone else: a signature made of anything but
// the signer's own key is not taken for the signer's.
func VerifForged() {
	signer, forger := vsym.Peer("signer"), vsym.Peer("forger")
	vsym.Assume(signer != forger)
	ad := anyAd(1)
	if err := ad.Sign(vsym.Key(forger)); err != nil {
		vsym.Fail("an advertisement can be signed")
	}
	sig := ad.Signature
	switch vsym.Choice("forgery", 3) {
	case 0:
	case 1:
		ad.Signature = nil
	case 2:
		ad.Signature = vsym.Bytes("forged")
		vsym.Assume(!bytes.Equal(ad.Signature, sig))
	}
	got, err := ad.VerifySignature()
	vsym.Assert(err != nil || got == forger, "nobody signs for anyone else")
	var none peer.ID
	vsym.Assert(err == nil || got == none, "a refused signature names nobody")
	vsym.Reach("done")
}

func text(name string, most int) string { return vsym.StrN(name, vsym.Choice(name+" len", most+1)) }

func shortAd() schema.Advertisement {
	h := make([]byte, 34)
	h[0], h[1] = 0x12, 32
	ad := schema.Advertisement{Provider: text("provider", 1), Metadata: []byte(text("md", 2)), Entries: cidlink.Link{Cid: cid.NewCidV1(cid.Raw, h)}}
	for i := vsym.Choice("addrs", 3); i > 0; i-- {
		ad.Addresses = append(ad.Addresses, text("addr", 1))
	}
	return ad
}

// VerifSignBoundaries: the signature covers where one field ends and the next
// begins.
func VerifSignBoundaries() {
	ad, other := shortAd(), shortAd()
	if err := ad.Sign(vsym.Key(vsym.Peer("signer"))); err != nil {
		vsym.Fail("an advertisement can be signed")
	}
	other.Signature = ad.Signature
	if _, err := other.VerifySignature(); err == nil {
		shape := len(other.Provider) == len(ad.Provider) && len(other.Addresses) == len(ad.Addresses) && len(other.Metadata) == len(ad.Metadata)
		for i := range ad.Addresses {
			shape = shape && len(other.Addresses[i]) == len(ad.Addresses[i])
		}
		vsym.Assert(shape, "the signature covers where one field ends and the next begins")
		same := other.Provider == ad.Provider && bytes.Equal(other.Metadata, ad.Metadata)
		for i := range ad.Addresses {
			same = same && other.Addresses[i] == ad.Addresses[i]
		}
		vsym.Assert(same, "the signature covers every byte of provider, addresses and metadata")
	}
	vsym.Reach("done")
}
