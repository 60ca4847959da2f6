package kit

import (
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"math/big"
)

// This file is an independent, slow implementation of the two VRFs of RFC 9381
// on plain big integers, written from the RFC.

func hexInt(s string) *big.Int { x, _ := new(big.Int).SetString(s, 16); return x }

// ---- ECVRF-P256-SHA256-TAI ----

var (
	P256P  = hexInt("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff")
	P256N  = hexInt("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551")
	p256B  = hexInt("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b")
	p256Gx = hexInt("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296")
	p256Gy = hexInt("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5")
)

// WPoint is an affine point on P-256; nil coordinates are infinity.
type WPoint struct{ X, Y *big.Int }

func P256Base() WPoint { return WPoint{p256Gx, p256Gy} }

func (p WPoint) inf() bool { return p.X == nil }

func P256Add(a, b WPoint) WPoint {
	if a.inf() {
		return b
	}
	if b.inf() {
		return a
	}
	var l *big.Int
	if a.X.Cmp(b.X) == 0 {
		s := new(big.Int).Add(a.Y, b.Y)
		if s.Mod(s, P256P).Sign() == 0 {
			return WPoint{}
		}
		l = new(big.Int).Mul(a.X, a.X)
		l.Mul(l, big.NewInt(3)).Sub(l, big.NewInt(3))
		l.Mul(l, new(big.Int).ModInverse(new(big.Int).Lsh(a.Y, 1), P256P))
	} else {
		dx := new(big.Int).Sub(b.X, a.X)
		dx.Mod(dx, P256P)
		l = new(big.Int).Sub(b.Y, a.Y)
		l.Mul(l, dx.ModInverse(dx, P256P))
	}
	l.Mod(l, P256P)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, a.X).Sub(x, b.X).Mod(x, P256P)
	y := new(big.Int).Sub(a.X, x)
	y.Mul(y, l).Sub(y, a.Y).Mod(y, P256P)
	return WPoint{x, y}
}

func P256Mul(k *big.Int, p WPoint) WPoint {
	var r WPoint
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = P256Add(r, r)
		if k.Bit(i) == 1 {
			r = P256Add(r, p)
		}
	}
	return r
}

func (p WPoint) Compressed() []byte {
	if p.inf() {
		return []byte{0}
	}
	out := make([]byte, 33)
	out[0] = 2 + byte(p.Y.Bit(0))
	p.X.FillBytes(out[1:])
	return out
}

func (p WPoint) Uncompressed() []byte {
	out := make([]byte, 65)
	out[0] = 4
	p.X.FillBytes(out[1:33])
	p.Y.FillBytes(out[33:])
	return out
}

// P256Decompress reads a compressed point; ok is false when there is none.
func P256Decompress(raw []byte) (WPoint, bool) {
	if len(raw) != 33 || raw[0] != 2 && raw[0] != 3 {
		return WPoint{}, false
	}
	x := new(big.Int).SetBytes(raw[1:])
	if x.Cmp(P256P) >= 0 {
		return WPoint{}, false
	}
	y := new(big.Int).Exp(x, big.NewInt(3), P256P)
	y.Sub(y, new(big.Int).Mul(x, big.NewInt(3))).Add(y, p256B).Mod(y, P256P)
	if y.ModSqrt(y, P256P) == nil {
		return WPoint{}, false
	}
	if byte(y.Bit(0)) != raw[0]&1 {
		y.Sub(P256P, y)
	}
	return WPoint{x, y}, true
}

func P256HashToCurve(salt, m []byte) WPoint {
	for ctr := 0; ctr < 256; ctr++ {
		h := sha256.New()
		h.Write([]byte{1, 1})
		h.Write(salt)
		h.Write(m)
		h.Write([]byte{byte(ctr), 0})
		if p, ok := P256Decompress(append([]byte{2}, h.Sum(nil)...)); ok {
			return p
		}
	}
	panic("no point")
}

func p256Nonce(x *big.Int, h []byte) *big.Int { // RFC 6979 with SHA-256
	m := func(k []byte, parts ...[]byte) []byte {
		h := hmac.New(sha256.New, k)
		for _, p := range parts {
			h.Write(p)
		}
		return h.Sum(nil)
	}
	h1 := sha256.Sum256(h)
	hi := new(big.Int).SetBytes(h1[:])
	hi.Mod(hi, P256N)
	xb := x.FillBytes(make([]byte, 32))
	// RFC 6979 reduces the hash modulo q (bits2octets); RFC 9381's vectors do
	// the same. The reduction matters once in 2^32 hashes.
	hb := hi.FillBytes(make([]byte, 32))
	V, K := make([]byte, 32), make([]byte, 32)
	for i := range V {
		V[i] = 1
	}
	K = m(K, V, []byte{0}, xb, hb)
	V = m(K, V)
	K = m(K, V, []byte{1}, xb, hb)
	V = m(K, V)
	for {
		V = m(K, V)
		k := new(big.Int).SetBytes(V)
		if k.Sign() > 0 && k.Cmp(P256N) < 0 {
			return k
		}
		K = m(K, V, []byte{0})
		V = m(K, V)
	}
}

func P256Challenge(pts ...[]byte) []byte {
	h := sha256.New()
	h.Write([]byte{1, 2})
	for _, p := range pts {
		h.Write(p)
	}
	h.Write([]byte{0})
	return h.Sum(nil)[:16]
}

func P256Output(gamma []byte) []byte {
	h := sha256.New()
	h.Write([]byte{1, 3})
	h.Write(gamma)
	h.Write([]byte{0})
	return h.Sum(nil)
}

// P256Prove returns output and proof for private key x.
func P256Prove(x *big.Int, m []byte) (out, proof []byte) {
	Y := P256Mul(x, P256Base()).Compressed()
	H := P256HashToCurve(Y, m)
	G := P256Mul(x, H).Compressed()
	k := p256Nonce(x, H.Compressed())
	c := P256Challenge(Y, H.Compressed(), G, P256Mul(k, P256Base()).Compressed(), P256Mul(k, H).Compressed())
	s := new(big.Int).Mul(new(big.Int).SetBytes(c), x)
	s.Add(s, k).Mod(s, P256N)
	proof = append(append(Dup(G), c...), s.FillBytes(make([]byte, 32))...)
	return P256Output(G), proof
}

// ---- ECVRF-EDWARDS25519-SHA512-TAI, output truncated to 32 bytes ----

var (
	EdP = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
	EdL = func() *big.Int {
		l, _ := new(big.Int).SetString("27742317777372353535851937790883648493", 10)
		return l.Add(l, new(big.Int).Lsh(big.NewInt(1), 252))
	}()
	edD = func() *big.Int {
		d := new(big.Int).ModInverse(big.NewInt(121666), EdP)
		return d.Mul(d, big.NewInt(-121665)).Mod(d, EdP)
	}()
	edBase = func() EPoint {
		y := new(big.Int).ModInverse(big.NewInt(5), EdP)
		y.Mul(y, big.NewInt(4)).Mod(y, EdP)
		p, ok := EdDecode(le32(y))
		if !ok {
			panic("base point")
		}
		return p
	}()
)

// EPoint is a point on edwards25519 in extended coordinates.
type EPoint struct{ X, Y, Z, T *big.Int }

func EdBase() EPoint { return edBase }
func EdIdentity() EPoint {
	return EPoint{big.NewInt(0), big.NewInt(1), big.NewInt(1), big.NewInt(0)}
}

func mod(x *big.Int) *big.Int { return x.Mod(x, EdP) }
func mul(a, b *big.Int) *big.Int {
	return mod(new(big.Int).Mul(a, b))
}

func EdAdd(p, q EPoint) EPoint {
	A := mul(mod(new(big.Int).Sub(p.Y, p.X)), mod(new(big.Int).Sub(q.Y, q.X)))
	B := mul(mod(new(big.Int).Add(p.Y, p.X)), mod(new(big.Int).Add(q.Y, q.X)))
	C := mul(mul(new(big.Int).Lsh(p.T, 1), edD), q.T)
	D := mul(new(big.Int).Lsh(p.Z, 1), q.Z)
	E := mod(new(big.Int).Sub(B, A))
	F := mod(new(big.Int).Sub(D, C))
	G := mod(new(big.Int).Add(D, C))
	H := mod(new(big.Int).Add(B, A))
	return EPoint{mul(E, F), mul(G, H), mul(F, G), mul(E, H)}
}

func EdNeg(p EPoint) EPoint {
	return EPoint{mod(new(big.Int).Neg(p.X)), p.Y, p.Z, mod(new(big.Int).Neg(p.T))}
}

func EdMul(k *big.Int, p EPoint) EPoint {
	r := EdIdentity()
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = EdAdd(r, r)
		if k.Bit(i) == 1 {
			r = EdAdd(r, p)
		}
	}
	return r
}

func le32(x *big.Int) []byte {
	b := x.FillBytes(make([]byte, 32))
	for i := 0; i < 16; i++ {
		b[i], b[31-i] = b[31-i], b[i]
	}
	return b
}

// LE32 is the little-endian encoding of a scalar below 2^256.
func LE32(x *big.Int) []byte { return le32(x) }

// FromLE reads a little-endian integer.
func FromLE(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

func (p EPoint) Encode() []byte {
	zi := new(big.Int).ModInverse(p.Z, EdP)
	x, y := mul(p.X, zi), mul(p.Y, zi)
	b := le32(y)
	b[31] |= byte(x.Bit(0)) << 7
	return b
}

// EdDecode reads a point encoding (RFC 8032, 5.1.3).
func EdDecode(raw []byte) (EPoint, bool) {
	if len(raw) != 32 {
		return EPoint{}, false
	}
	b := Dup(raw)
	sign := uint(b[31] >> 7)
	b[31] &= 0x7f
	y := FromLE(b)
	if y.Cmp(EdP) >= 0 {
		return EPoint{}, false
	}
	y2 := mul(y, y)
	u := mod(new(big.Int).Sub(y2, big.NewInt(1)))
	v := mod(new(big.Int).Add(mul(edD, y2), big.NewInt(1)))
	x := mul(u, new(big.Int).ModInverse(v, EdP))
	if x.ModSqrt(x, EdP) == nil {
		return EPoint{}, false
	}
	if x.Sign() == 0 && sign == 1 {
		return EPoint{}, false
	}
	if x.Bit(0) != sign {
		x = mod(x.Neg(x))
	}
	return EPoint{x, y, big.NewInt(1), mul(x, y)}, true
}

// EdHashToCurve is encode_to_curve with trial and increment.
func EdHashToCurve(salt, m []byte) EPoint {
	for ctr := 0; ctr < 256; ctr++ {
		h := sha512.New()
		h.Write([]byte{3, 1})
		h.Write(salt)
		h.Write(m)
		h.Write([]byte{byte(ctr), 0})
		if p, ok := EdDecode(h.Sum(nil)[:32]); ok {
			return EdMul(big.NewInt(8), p)
		}
	}
	panic("no point")
}

func EdChallenge(pts ...[]byte) []byte {
	h := sha512.New()
	h.Write([]byte{3, 2})
	for _, p := range pts {
		h.Write(p)
	}
	h.Write([]byte{0})
	return h.Sum(nil)[:16]
}

func EdOutput(gamma EPoint) []byte {
	h := sha512.New()
	h.Write([]byte{3, 3})
	h.Write(EdMul(big.NewInt(8), gamma).Encode())
	h.Write([]byte{0})
	return h.Sum(nil)[:32]
}

// EdSecret expands a 32-byte secret key.
func EdSecret(sk []byte) (x *big.Int, upper []byte) {
	h := sha512.Sum512(sk)
	h[0] &= 248
	h[31] &= 127
	h[31] |= 64
	return FromLE(h[:32]), Dup(h[32:])
}

func EdProve(sk, m []byte) (out, proof []byte) {
	x, upper := EdSecret(sk)
	Y := EdMul(x, edBase).Encode()
	H := EdHashToCurve(Y, m)
	G := EdMul(x, H)
	kh := sha512.Sum512(append(upper, H.Encode()...))
	k := FromLE(kh[:])
	k.Mod(k, EdL)
	c := EdChallenge(Y, H.Encode(), G.Encode(), EdMul(k, edBase).Encode(), EdMul(k, H).Encode())
	s := new(big.Int).Mul(FromLE(c), x)
	s.Add(s, k).Mod(s, EdL)
	return EdOutput(G), append(append(G.Encode(), c...), le32(s)...)
}

// WrongGamma runs the prover honestly except that gamma is moved by delta·H.
func WrongGamma(kind string, sk, m []byte, delta int64) []byte {
	if kind == "p256" {
		x := new(big.Int).SetBytes(sk)
		Y := P256Mul(x, P256Base()).Compressed()
		H := P256HashToCurve(Y, m)
		x2 := new(big.Int).Add(x, big.NewInt(delta))
		G := P256Mul(x2.Mod(x2, P256N), H).Compressed()
		k := p256Nonce(x, H.Compressed())
		c := P256Challenge(Y, H.Compressed(), G, P256Mul(k, P256Base()).Compressed(), P256Mul(k, H).Compressed())
		s := new(big.Int).Mul(new(big.Int).SetBytes(c), x)
		s.Add(s, k).Mod(s, P256N)
		if len(G) == 1 { // infinity
			G = make([]byte, 33)
		}
		return append(append(Dup(G), c...), s.FillBytes(make([]byte, 32))...)
	}
	x, upper := EdSecret(sk)
	Y := EdMul(x, edBase).Encode()
	H := EdHashToCurve(Y, m)
	G := EdMul(new(big.Int).Add(x, big.NewInt(delta)), H)
	kh := sha512.Sum512(append(upper, H.Encode()...))
	k := FromLE(kh[:])
	k.Mod(k, EdL)
	c := EdChallenge(Y, H.Encode(), G.Encode(), EdMul(k, edBase).Encode(), EdMul(k, H).Encode())
	s := new(big.Int).Mul(FromLE(c), x)
	s.Add(s, k).Mod(s, EdL)
	return append(append(G.Encode(), c...), le32(s)...)
}

// edTorsion is a point of order 8.
var edTorsion = func() EPoint {
	for y := int64(2); ; y++ {
		if p, ok := EdDecode(le32(big.NewInt(y))); ok {
			t := EdMul(EdL, p)
			e := EdMul(big.NewInt(4), t).Encode()
			if string(e) != string(EdIdentity().Encode()) {
				return t
			}
		}
	}
}()

// EdSmallOrder lists the encodings of the points of small order, the
// non-canonical ones included.
func EdSmallOrder() [][]byte {
	var out [][]byte
	for i := int64(0); i < 8; i++ {
		out = append(out, EdMul(big.NewInt(i), edTorsion).Encode())
	}
	// y = 0 and y = 1 written as p and p+1, with both signs
	for d := int64(0); d < 2; d++ {
		for sign := byte(0); sign < 2; sign++ {
			b := le32(new(big.Int).Add(EdP, big.NewInt(d)))
			b[31] |= sign << 7
			out = append(out, b)
		}
	}
	return out
}

// EdTorsionProof makes, with the private key, a proof whose gamma differs from
// the right one by n times a point of order 8 and which satisfies the
// verification equation (the challenge is searched to be a multiple of 8).
func EdTorsionProof(sk, m []byte, n int) []byte {
	x, _ := EdSecret(sk)
	Y := EdMul(x, edBase).Encode()
	H := EdHashToCurve(Y, m)
	G := EdAdd(EdMul(x, H), EdMul(big.NewInt(int64(n)), edTorsion))
	for i := int64(1); i < 60; i++ {
		k := big.NewInt(i * 7919)
		c := EdChallenge(Y, H.Encode(), G.Encode(), EdMul(k, edBase).Encode(), EdMul(k, H).Encode())
		ci := FromLE(c)
		if new(big.Int).And(ci, big.NewInt(7)).Sign() != 0 {
			continue
		}
		s := new(big.Int).Mul(ci, x)
		s.Add(s, k).Mod(s, EdL)
		return append(append(G.Encode(), c...), le32(s)...)
	}
	return nil
}
