// Package vsym is the harness interface of the symbolic engine. The engine
// intercepts every function of this package; the bodies below are what runs
// when a counterexample is replayed natively: they read the solver's values
// from the file named by VSYM_REPLAY.
package vsym

import (
	"crypto/ed25519"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/ipfs/go-cid"
	ic "github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

type input struct {
	Kind, Name, Val string
}

type replay struct {
	Inputs []input
	Params map[string]int
}

var (
	mu     sync.Mutex
	loaded bool
	rep    replay
	vals   map[string]string
	seen   map[string]int
	nows   []int64
	keys   = map[peer.ID]ic.PrivKey{}
)

// Failure is the panic of a failed assertion in a native replay.
type Failure struct{ Msg string }

// Skip is the panic of an assumption that the replayed values break.
type Skip struct{ Msg string }

func load() {
	if loaded {
		return
	}
	loaded = true
	vals = map[string]string{}
	seen = map[string]int{}
	b, err := os.ReadFile(os.Getenv("VSYM_REPLAY"))
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &rep); err != nil {
		panic(err)
	}
	for _, in := range rep.Inputs {
		if in.Kind == "now" {
			n, _ := strconv.ParseUint(in.Val, 10, 64)
			nows = append(nows, int64(n))
			continue
		}
		vals[in.Name] = in.Val
	}
}

func get(name string) string {
	mu.Lock()
	defer mu.Unlock()
	load()
	n := seen[name]
	seen[name]++
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	v, ok := vals[name]
	if !ok {
		return "0"
	}
	return v
}

func num(name string) uint64 {
	n, err := strconv.ParseUint(get(name), 10, 64)
	if err != nil {
		panic(err)
	}
	return n
}

// Now is time.Now for the code under replay.
func Now() time.Time {
	mu.Lock()
	defer mu.Unlock()
	load()
	if len(nows) == 0 {
		return time.Now()
	}
	n := nows[0]
	if len(nows) > 1 {
		nows = nows[1:]
	}
	return time.Unix(0, n)
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Bool(name string) bool                  { return num(name) != 0 }
func U64(name string) uint64                 { return num(name) }
func I64(name string) int64                  { return int64(num(name)) }
func U32(name string) uint32                 { return uint32(num(name)) }
func Byte(name string) byte                  { return byte(num(name)) }
func Int(name string, lo, hi int) int        { return int(num(name)) }
func Choice(name string, n int) int          { return int(num(name)) }
func Flip(name string) bool                  { return num(name) != 0 }
func Concretize(v int64, lo, hi int64) int64 { return v }

// Str is an arbitrary string.
func Str(name string) string {
	v := get(name)
	if strings.HasPrefix(v, "=") {
		return v[1:]
	}
	if v == "#0" || v == "0" {
		return ""
	}
	return "s" + v[1:]
}

// StrN is an arbitrary string of n bytes.
func StrN(name string, n int) string {
	v := get(name)
	if v == "0" {
		return string(make([]byte, n))
	}
	s, err := strconv.Unquote(v)
	if err != nil {
		panic(err)
	}
	return s
}

func atomID(v string) (uint64, string, bool) {
	if strings.HasPrefix(v, "=") {
		return 0, v[1:], true
	}
	n, _ := strconv.ParseUint(strings.TrimPrefix(v, "#"), 10, 64)
	return n, "", false
}

func peerStr(name string) string {
	n, lit, ok := atomID(get(name))
	if ok {
		return lit
	}
	if n == 0 {
		return ""
	}
	seed := sha256.Sum256([]byte(fmt.Sprint("vsym-peer-", n)))
	k, _, err := ic.KeyPairFromStdKey(ptr(ed25519.NewKeyFromSeed(seed[:])))
	if err != nil {
		panic(err)
	}
	id, err := peer.IDFromPrivateKey(k)
	if err != nil {
		panic(err)
	}
	mu.Lock()
	keys[id] = k
	mu.Unlock()
	return string(id)
}

func ptr(k ed25519.PrivateKey) *ed25519.PrivateKey { return &k }

func cidStr(name string) string {
	n, lit, ok := atomID(get(name))
	if ok {
		return lit
	}
	if n == 0 {
		return ""
	}
	h, err := multihash.Sum([]byte(fmt.Sprint("vsym-cid-", n)), multihash.SHA2_256, -1)
	if err != nil {
		panic(err)
	}
	return cid.NewCidV1(cid.Raw, h).KeyString()
}

func addrStr(name string) string {
	n, lit, ok := atomID(get(name))
	if ok {
		return lit
	}
	if n == 0 {
		return ""
	}
	h := sha256.Sum256([]byte(fmt.Sprint("vsym-addr-", n)))
	a, err := multiaddr.NewMultiaddr(fmt.Sprintf("/ip4/%d.%d.%d.%d/tcp/%d", 10+h[0]%100, h[1], h[2], h[3], 1+binary.BigEndian.Uint16(h[4:])%60000))
	if err != nil {
		panic(err)
	}
	return string(a.Bytes())
}

func opaqueBytes(name string) []byte {
	n, lit, ok := atomID(get(name))
	if ok {
		return []byte(lit)
	}
	if n == 0 {
		return []byte{}
	}
	return []byte(fmt.Sprint("bytes-", n))
}

func mkAddr(s string) multiaddr.Multiaddr {
	a, err := multiaddr.NewMultiaddrBytes([]byte(s))
	if err != nil {
		panic(err)
	}
	return a
}

func mkCid(s string) cid.Cid {
	if s == "" {
		return cid.Undef
	}
	c, err := cid.Cast([]byte(s))
	if err != nil {
		panic(err)
	}
	return c
}

// PeerAny is an arbitrary peer ID, the empty one included.
func PeerAny(name string) peer.ID { return peer.ID(peerStr(name)) }

// Peer is an arbitrary non-empty peer ID.
func Peer(name string) peer.ID {
	p := peer.ID(peerStr(name))
	Assume(p != "")
	return p
}

// Addr is an arbitrary multiaddr.
func Addr(name string) multiaddr.Multiaddr {
	s := addrStr(name)
	Assume(s != "")
	return mkAddr(s)
}

// AddrText is the text of an arbitrary multiaddr.
func AddrText(name string) string { return Addr(name).String() }

// Cid is an arbitrary defined CID.
func Cid(name string) cid.Cid {
	s := cidStr(name)
	Assume(s != "")
	return mkCid(s)
}

// Bytes is an arbitrary byte string of unspecified length.
func Bytes(name string) []byte { return opaqueBytes(name) }

// Key is the private key of a peer made by Peer.
func Key(id peer.ID) ic.PrivKey {
	if Symbolic() {
		return &symKey{string(id)}
	}
	mu.Lock()
	defer mu.Unlock()
	return keys[id]
}

func Assume(c bool) {
	if !c {
		panic(Skip{"assumption does not hold for the replayed values"})
	}
}

func Assert(c bool, msg string) {
	if !c {
		panic(Failure{msg})
	}
}

func Fail(msg string)                { panic(Failure{msg}) }
func Reach(what string)              {}
func Yield()                         { time.Sleep(time.Millisecond) }
func Idle()                          { time.Sleep(50 * time.Millisecond) }
func Goroutines() int                { return 1 }
func AllowDeadlock()                 {}
func NoTimers()                      {}
func Handles()                       {}
func AllowPanic()                    {}
func Symbolic() bool                 { return false }
func Note(s string)                  {}
func Quiet(f func())                 { f() }
func SetPreempt(n int)               {}
func SetTimerFires(n int)            {}
func Log(f string, a ...interface{}) {}

// Param is a bound chosen by the check.
func Param(name string, def int) int {
	mu.Lock()
	defer mu.Unlock()
	load()
	if v, ok := rep.Params[name]; ok {
		return v
	}
	return def
}

// Pack turns a value into opaque bytes that only Unpack can read. Symbolic
// mode only (contract models of serialisations).
func Pack(kind string, v interface{}) []byte { panic("vsym.Pack: symbolic only") }

// Unpack reads what Pack wrote.
func Unpack(kind string, b []byte) (interface{}, bool) { panic("vsym.Unpack: symbolic only") }

// NewLike is a new zero value of the type that the pointer x points to, as a
// pointer. Symbolic mode only.
func NewLike(x interface{}) interface{} { panic("vsym.NewLike: symbolic only") }
