package kit

import (
	"crypto/hmac"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"hash"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/crypto/vrf"
)

// FakeSuite is a fast stand-in cipher suite: real SHA-256 hashing and
// commitments, MACs in place of signatures and of the VRF. The harness'
// adversary never uses the keys, so unforgeability is preserved. SharedBits
// makes VRF outputs share that many leading bits, which deepens prefix trees.
type FakeSuite struct{ SharedBits int }

var _ suites.CipherSuite = FakeSuite{}

func (s FakeSuite) Id() uint16                   { return 0xF001 }
func (s FakeSuite) Hash() hash.Hash              { return sha256.New() }
func (s FakeSuite) HashSize() int                { return 32 }
func (s FakeSuite) CommitmentOpeningSize() int   { return 16 }
func (s FakeSuite) CommitmentFixedBytes() []byte { return []byte("fixed-bytes-0123") }
func (s FakeSuite) VrfProofSize() int            { return 32 }

func mac(key []byte, tag byte, msg []byte) []byte {
	h := hmac.New(sha256.New, key)
	h.Write([]byte{tag})
	h.Write(msg)
	return h.Sum(nil)
}

type fakeSig struct{ key []byte }

func (k fakeSig) Sign(m []byte) ([]byte, error)   { return mac(k.key, 1, m), nil }
func (k fakeSig) Public() suites.SigningPublicKey { return fakeSigPub{k.key} }

type fakeSigPub struct{ key []byte }

func (k fakeSigPub) Verify(m, sig []byte) bool { return hmac.Equal(mac(k.key, 1, m), sig) }
func (k fakeSigPub) Bytes() []byte             { return k.key }

type fakeVrf struct {
	key  []byte
	bits int
}

func (k fakeVrf) output(m []byte) []byte {
	out := mac(k.key, 2, m)
	for i := 0; i < k.bits; i++ {
		out[i/8] &^= 1 << (7 - i%8)
	}
	return out
}
func (k fakeVrf) Prove(m []byte) ([]byte, []byte) { return k.output(m), mac(k.key, 3, m) }
func (k fakeVrf) PublicKey() vrf.PublicKey        { return fakeVrfPub{k} }

type fakeVrfPub struct{ k fakeVrf }

func (k fakeVrfPub) Verify(m, proof []byte) ([]byte, error) {
	if !hmac.Equal(proof, mac(k.k.key, 3, m)) {
		return nil, errors.New("vrf proof does not verify")
	}
	return k.k.output(m), nil
}
func (k fakeVrfPub) Bytes() []byte { return k.k.key }

func (s FakeSuite) ParseSigningPrivateKey(raw []byte) (suites.SigningPrivateKey, error) {
	return fakeSig{raw}, nil
}
func (s FakeSuite) ParseSigningPublicKey(raw []byte) (suites.SigningPublicKey, error) {
	return fakeSigPub{raw}, nil
}
func (s FakeSuite) ParseVRFPrivateKey(raw []byte) (vrf.PrivateKey, error) {
	return fakeVrf{raw, s.SharedBits}, nil
}
func (s FakeSuite) ParseVRFPublicKey(raw []byte) (vrf.PublicKey, error) {
	return fakeVrfPub{fakeVrf{raw, s.SharedBits}}, nil
}

// H32 is a deterministic 32-byte value.
func H32(tag byte, x uint64) []byte {
	var b [9]byte
	b[0] = tag
	binary.BigEndian.PutUint64(b[1:], x)
	s := sha256.Sum256(b[:])
	return s[:]
}

func Ptr[T any](x T) *T { return &x }

func Dup(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

func Dup2(b [][]byte) [][]byte {
	out := make([][]byte, len(b))
	for i := range b {
		out[i] = Dup(b[i])
	}
	return out
}
