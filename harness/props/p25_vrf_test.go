package props

import (
	"bytes"
	"math/big"
	"testing"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/crypto/vrf"
	"pgregory.net/rapid"

	"verif/kit"
)

// vrfKind is one of the two VRFs with its reference implementation.
type vrfKind struct {
	name    string
	cs      suites.CipherSuite
	prove   func(sk, m []byte) (out, proof []byte)
	public  func(sk []byte) []byte
	gamma   int // length of the first proof field
	invalid func(rt *rapid.T) []byte
}

var vrfKinds = []vrfKind{
	{
		name:  "p256",
		cs:    suites.KTSha256P256{},
		gamma: 33,
		prove: func(sk, m []byte) ([]byte, []byte) { return kit.P256Prove(new(big.Int).SetBytes(sk), m) },
		public: func(sk []byte) []byte {
			return kit.P256Mul(new(big.Int).SetBytes(sk), kit.P256Base()).Compressed()
		},
		invalid: func(rt *rapid.T) []byte { // private keys that must be refused
			switch kit.Flat(rt, 5, "invalid") {
			case 0:
				return make([]byte, 32)
			case 3: // a valid number, padded
				return append(make([]byte, kit.Int(rt, 1, 40, "zeroes")), kit.H32('k', uint64(kit.Int(rt, 0, 99, "key")))...)
			case 1:
				return new(big.Int).Add(kit.P256N, big.NewInt(int64(kit.Int(rt, 0, 9, "above")))).FillBytes(make([]byte, 32))
			case 2:
				return bytes.Repeat([]byte{0xff}, 32)
			}
			return kit.Bytes(rt, 0, 31, "short")
		},
	},
	{
		name:  "edwards25519",
		cs:    suites.KTSha256Ed25519{},
		gamma: 32,
		prove: kit.EdProve,
		public: func(sk []byte) []byte {
			x, _ := kit.EdSecret(sk)
			return kit.EdMul(x, kit.EdBase()).Encode()
		},
		invalid: func(rt *rapid.T) []byte {
			if kit.Bool(rt, "long") {
				return kit.Bytes(rt, 33, 70, "key")
			}
			return kit.Bytes(rt, 0, 31, "key")
		},
	},
}

// drawSecret draws a valid private key, small and large ones included.
func drawSecret(rt *rapid.T, k vrfKind) []byte {
	sk := rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(rt, "secret")
	if k.name == "p256" {
		x := new(big.Int).SetBytes(sk)
		switch kit.Flat(rt, 4, "secretKind") {
		case 0:
			x.SetInt64(int64(kit.Int(rt, 1, 3, "tiny")))
		case 1:
			x.Sub(kit.P256N, big.NewInt(int64(kit.Int(rt, 1, 3, "tiny"))))
		}
		x.Mod(x, kit.P256N)
		if x.Sign() == 0 {
			x.SetInt64(1)
		}
		return x.FillBytes(make([]byte, 32))
	}
	return sk
}

func drawMessage(rt *rapid.T) []byte {
	if kit.Prob(rt, 20, "long") {
		return bytes.Repeat([]byte{byte(kit.Int(rt, 0, 255, "fill"))}, kit.Int(rt, 0, 400, "len"))
	}
	return kit.Bytes(rt, 0, 24, "message")
}

func vrfPair(rt *rapid.T, k vrfKind, sk []byte) (vrf.PrivateKey, vrf.PublicKey) {
	priv, err := k.cs.ParseVRFPrivateKey(kit.Dup(sk))
	if err != nil {
		rt.Fatalf("private key %x is refused: %v", sk, err)
	}
	ref := k.public(sk)
	if got := priv.PublicKey().Bytes(); !bytes.Equal(got, ref) {
		rt.Fatalf("public key of %x is %x, should be %x", sk, got, ref)
	}
	pub, err := k.cs.ParseVRFPublicKey(kit.Dup(ref))
	if err != nil {
		rt.Fatalf("public key %x is refused: %v", ref, err)
	}
	if !bytes.Equal(pub.Bytes(), ref) {
		rt.Fatalf("public key changes when parsed: %x, %x", ref, pub.Bytes())
	}
	return priv, pub
}

func propVrfHonest(rt *rapid.T, c *kit.Case) {
	k := kit.Pick(rt, vrfKinds, "vrf")
	sk, m := drawSecret(rt, k), drawMessage(rt)
	c.Logf("%s key %x message %x", k.name, sk, m)
	c.Class(k.name)
	c.NonTrivial()
	priv, pub := vrfPair(rt, k, sk)

	m1 := kit.Dup(m)
	out, proof := priv.Prove(m1)
	if !bytes.Equal(m1, m) {
		rt.Fatalf("proving changed the message")
	}
	refOut, refProof := k.prove(sk, m)
	if !bytes.Equal(out, refOut) {
		rt.Fatalf("output %x, RFC 9381 says %x", out, refOut)
	}
	if len(proof) != k.cs.VrfProofSize() || len(out) != k.cs.HashSize() {
		rt.Fatalf("proof of %d and output of %d bytes", len(proof), len(out))
	}
	if !bytes.Equal(proof, refProof) {
		rt.Fatalf("proof %x, RFC 9381 says %x", proof, refProof)
	}
	for i := 0; i < 2; i++ { // every evaluation, also after others
		for _, key := range []vrf.PublicKey{pub, priv.PublicKey()} {
			got, err := key.Verify(m, proof)
			if err != nil {
				rt.Fatalf("honest proof is refused: %v", err)
			} else if !bytes.Equal(got, out) {
				rt.Fatalf("verification gives %x, evaluation %x", got, out)
			}
		}
		priv.Prove(append(kit.Dup(m), 1))
		again, proof2 := priv.Prove(m)
		if !bytes.Equal(again, out) || !bytes.Equal(proof2, proof) {
			rt.Fatalf("evaluating again gives another result")
		}
	}
	// Whatever is returned belongs to the caller.
	out[0] ^= 1
	proof[0] ^= 1
	if again, proof2 := priv.Prove(m); !bytes.Equal(again, refOut) || !bytes.Equal(proof2, refProof) {
		rt.Fatalf("changing a returned slice changes later evaluations")
	}
}

// An adversary, with or without the private key, tries to have another output
// accepted.
func propVrfForged(rt *rapid.T, c *kit.Case) {
	k := kit.Pick(rt, vrfKinds, "vrf")
	sk, m := drawSecret(rt, k), drawMessage(rt)
	priv, pub := vrfPair(rt, k, sk)
	out, proof := priv.Prove(m)
	c.Logf("%s key %x message %x", k.name, sk, m)
	c.NonTrivial()

	// check demands that whatever happened no other output is accepted; with
	// strict nothing must be accepted at all.
	check := func(what string, key vrf.PublicKey, m, p []byte, strict bool) {
		c.Logf("%s %x", what, p)
		c.Class(k.name + " " + what)
		kit.NoPanic(rt, "verifying", func() {
			got, err := key.Verify(m, p)
			if err == nil && strict {
				rt.Fatalf("%s: accepted\nkey %x message %x\nproof %x", what, key.Bytes(), m, p)
			} else if err == nil && !bytes.Equal(got, out) {
				rt.Fatalf("%s: output %x accepted, the only one is %x", what, got, out)
			}
		})
	}
	for i := 0; i < 4; i++ {
		p := kit.Dup(proof)
		switch kit.Flat(rt, 9, "forgery") {
		case 0:
			at := kit.Flat(rt, len(p)*8, "bit")
			p[at/8] ^= 1 << (at % 8)
			check("flipped bit", pub, m, p, true)
		case 1:
			n := kit.Int(rt, 0, len(p)+20, "len")
			if n == len(p) {
				n--
			}
			p = append(p, make([]byte, 20)...)[:n]
			check("wrong length", pub, m, p, true)
		case 2:
			m2 := append(kit.Dup(m), byte(kit.Flat(rt, 3, "tail")))
			if len(m) > 0 && kit.Bool(rt, "cut") {
				m2 = m[:len(m)-1]
			} else if len(m) > 0 && kit.Bool(rt, "flip") {
				m2 = kit.Dup(m)
				m2[kit.Flat(rt, len(m), "at")] ^= 1
			}
			check("another message", pub, m2, p, true)
		case 3:
			sk2 := drawSecret(rt, k)
			if !bytes.Equal(k.public(sk2), k.public(sk)) {
				_, pub2 := vrfPair(rt, k, sk2)
				check("another key", pub2, m, p, true)
			}
		case 4: // scalars that are not reduced, or extreme
			s := p[k.gamma+16:]
			if k.name == "edwards25519" {
				x := kit.FromLE(s)
				x.Add(x, new(big.Int).Mul(kit.EdL, big.NewInt(int64(kit.Int(rt, 1, 14, "times")))))
				copy(s, kit.LE32(x))
				check("unreduced scalar", pub, m, p, true)
			} else {
				copy(s, kit.Pick(rt, [][]byte{make([]byte, 32), bytes.Repeat([]byte{0xff}, 32), kit.P256N.Bytes()}, "scalar"))
				check("extreme scalar", pub, m, p, true)
			}
		case 5: // a proof for another output, made with the private key
			_, other := k.prove(drawSecret(rt, k), m)
			copy(p[:k.gamma], other[:k.gamma])
			if !bytes.Equal(p, proof) {
				check("another gamma", pub, m, p, true)
			}
		case 6: // the honest transcript over a wrong gamma
			p = kit.WrongGamma(k.name, sk, m, int64(kit.Int(rt, 1, 1000, "delta")))
			check("transcript over a wrong gamma", pub, m, p, true)
		case 7: // gamma off by a point of small order
			if k.name != "edwards25519" {
				continue
			}
			p = kit.EdTorsionProof(sk, m, kit.Flat(rt, 7, "torsion")+1)
			if p == nil {
				continue
			}
			check("gamma off by a small-order point", pub, m, p, false)
		case 8:
			p = rapid.SliceOfN(rapid.Byte(), len(p), len(p)).Draw(rt, "random")
			if kit.Bool(rt, "keepGamma") {
				copy(p, proof[:k.gamma])
			}
			check("random", pub, m, p, true)
		}
	}
}

// Keys of any kind are parsed or refused, and never crash anything.
func propVrfKeys(rt *rapid.T, c *kit.Case) {
	k := kit.Pick(rt, vrfKinds, "vrf")
	c.NonTrivial()
	bad := k.invalid(rt)
	kit.NoPanic(rt, "parsing a private key", func() {
		if _, err := k.cs.ParseVRFPrivateKey(bad); err == nil {
			rt.Fatalf("%s: private key %x accepted", k.name, bad)
		}
	})
	var pk []byte
	mustFail := ""
	switch kit.Flat(rt, 5, "kind") {
	case 0:
		pk = kit.Bytes(rt, 0, 70, "bytes")
	case 1:
		pk = rapid.SliceOfN(rapid.Byte(), k.gamma, k.gamma).Draw(rt, "bytes")
		if k.name == "p256" {
			pk[0] = byte(kit.Flat(rt, 5, "form"))
		}
	case 2: // identity and small order
		if k.name == "p256" {
			pk, mustFail = []byte{0}, "infinity"
		} else {
			pk, mustFail = kit.Pick(rt, kit.EdSmallOrder(), "point"), "a point of small order"
		}
	case 3: // off the curve
		for {
			pk = rapid.SliceOfN(rapid.Byte(), k.gamma, k.gamma).Draw(rt, "bytes")
			if k.name == "p256" {
				pk[0] = 2 + pk[0]&1
				if _, ok := kit.P256Decompress(pk); !ok {
					break
				}
			} else {
				pk[31] &= 0x7f
				if _, ok := kit.EdDecode(pk); !ok && kit.FromLE(pk).Cmp(kit.EdP) < 0 {
					break
				}
			}
		}
		mustFail = "a point off the curve"
	case 4: // a valid key of the wrong length
		pk = k.public(drawSecret(rt, k))
		if kit.Bool(rt, "longer") {
			pk = append(pk, kit.Bytes(rt, 1, 5, "tail")...)
		} else {
			pk = pk[:kit.Int(rt, 0, len(pk)-1, "len")]
		}
		mustFail = "wrong length"
	}
	c.Logf("%s private %x public %x %s", k.name, bad, pk, mustFail)
	kit.NoPanic(rt, "parsing a public key", func() {
		pub, err := k.cs.ParseVRFPublicKey(kit.Dup(pk))
		if err != nil {
			c.Class(k.name + " refused")
			return
		}
		if mustFail != "" {
			rt.Fatalf("%s: public key %x accepted (%s)", k.name, pk, mustFail)
		}
		c.Class(k.name + " parsed")
		if again, err := k.cs.ParseVRFPublicKey(pub.Bytes()); err != nil || !bytes.Equal(again.Bytes(), pub.Bytes()) {
			rt.Fatalf("%s: key %x is not stable: %v", k.name, pk, err)
		}
		m := drawMessage(rt)
		_, proof := k.prove(drawSecret(rt, k), m)
		if _, err := pub.Verify(m, proof); err == nil && !bytes.Equal(pub.Bytes(), pk) {
			rt.Fatalf("%s: a proof of another key is accepted", k.name)
		}
	})
}

func TestP25(t *testing.T) {
	kit.Run(t, "a proof was produced, verified and compared with the RFC 9381 reference, or a forged proof or key was judged",
		kit.Sub{Name: "honest", Quick: 900, Thorough: 40000, Prop: propVrfHonest},
		kit.Sub{Name: "forged", Quick: 1500, Thorough: 60000, Prop: propVrfForged},
		kit.Sub{Name: "keys", Quick: 1500, Thorough: 60000, Prop: propVrfKeys},
	)
}
