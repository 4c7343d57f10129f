package vsym

// The cryptography of libp2p, for the engine only: a key is the identity of
// its peer, a signature is the pair of signer and message, so signatures are
// unforgeable and verification is exact. Native replays use the real thing.

import (
	"errors"

	ic "github.com/libp2p/go-libp2p-core/crypto"
	pb "github.com/libp2p/go-libp2p-core/crypto/pb"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/record"
)

type symKey struct{ id string }
type symPub struct{ id string }

type symSig struct {
	id   string
	data []byte
}

type symUnsigned struct {
	domain      string
	payloadType []byte
	payload     []byte
}

func (k *symKey) Equals(o ic.Key) bool { x, ok := o.(*symKey); return ok && x.id == k.id }
func (k *symKey) Raw() ([]byte, error) { return Pack("privkey", k.id), nil }
func (k *symKey) Type() pb.KeyType     { return pb.KeyType_Ed25519 }
func (k *symKey) GetPublic() ic.PubKey { return &symPub{k.id} }
func (k *symKey) Sign(b []byte) ([]byte, error) {
	return Pack("sig", symSig{k.id, b}), nil
}

func (k *symPub) Equals(o ic.Key) bool { x, ok := o.(*symPub); return ok && x.id == k.id }
func (k *symPub) Raw() ([]byte, error) { return Pack("pubkey", k.id), nil }
func (k *symPub) Type() pb.KeyType     { return pb.KeyType_Ed25519 }
func (k *symPub) Verify(data []byte, sig []byte) (bool, error) {
	v, ok := Unpack("sig", sig)
	if !ok {
		return false, nil
	}
	s := v.(symSig)
	return s.id == k.id && string(s.data) == string(data), nil
}

//vsym:replace github.com/libp2p/go-libp2p-core/crypto.UnmarshalEd25519PublicKey
func mUnmarshalPub(data []byte) (ic.PubKey, error) {
	v, ok := Unpack("pubkey", data)
	if !ok {
		return nil, errors.New("bad public key")
	}
	return &symPub{v.(string)}, nil
}

//vsym:replace github.com/libp2p/go-libp2p-core/crypto.UnmarshalEd25519PrivateKey
func mUnmarshalPriv(data []byte) (ic.PrivKey, error) {
	v, ok := Unpack("privkey", data)
	if !ok {
		return nil, errors.New("bad private key")
	}
	return &symKey{v.(string)}, nil
}

//vsym:replace github.com/libp2p/go-libp2p-core/peer.IDFromPublicKey
func mIDFromPublicKey(pk ic.PubKey) (peer.ID, error) {
	return peer.ID(pk.(*symPub).id), nil
}

//vsym:replace (github.com/libp2p/go-libp2p-core/peer.ID).ExtractPublicKey
func mExtractPublicKey(id peer.ID) (ic.PubKey, error) {
	return &symPub{string(id)}, nil
}

var recordTypes = map[string]record.Record{}

//vsym:replace github.com/libp2p/go-libp2p-core/record.RegisterType
func mRegisterType(r record.Record) { recordTypes[string(r.Codec())] = r }

//vsym:replace github.com/libp2p/go-libp2p-core/record.blankRecordForPayloadType
func mBlankRecord(payloadType []byte) (record.Record, error) {
	r, ok := recordTypes[string(payloadType)]
	if string(payloadType) == string(peer.PeerRecordEnvelopePayloadType) {
		return &peer.PeerRecord{}, nil
	}
	if !ok {
		return nil, record.ErrPayloadTypeNotRegistered
	}
	return NewLike(r).(record.Record), nil
}

//vsym:replace github.com/libp2p/go-libp2p-core/record.makeUnsigned
func mMakeUnsigned(domain string, payloadType []byte, payload []byte) ([]byte, error) {
	return Pack("unsigned", symUnsigned{domain, payloadType, payload}), nil
}
