package props

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha256"
	"math/big"
	"testing"

	"github.com/Bren2010/katie/crypto/commitments"
	"github.com/Bren2010/katie/crypto/suites"
	"pgregory.net/rapid"

	"verif/kit"
)

var realSuites = []suites.CipherSuite{suites.KTSha256P256{}, suites.KTSha256Ed25519{}}

// The fixed bytes of both suites in the specification.
var commitmentKey = []byte{0xd8, 0x21, 0xf8, 0x79, 0x0d, 0x97, 0x70, 0x97, 0x96, 0xb4, 0xd7, 0x90, 0x33, 0x57, 0xc3, 0xf5}

// refHMAC is HMAC-SHA-256 from its definition.
func refHMAC(key []byte, parts ...[]byte) []byte {
	k := make([]byte, 64)
	copy(k, key)
	inner, outer := sha256.New(), sha256.New()
	for _, b := range k {
		inner.Write([]byte{b ^ 0x36})
		outer.Write([]byte{b ^ 0x5c})
	}
	for _, p := range parts {
		inner.Write(p)
	}
	outer.Write(inner.Sum(nil))
	return outer.Sum(nil)
}

func mutate(rt *rapid.T, b []byte, fixed bool) []byte {
	b = kit.Dup(b)
	k := kit.Flat(rt, 4, "mutation")
	if fixed || len(b) == 0 {
		k = 3
	}
	switch k {
	case 0:
		return b[:len(b)-1]
	case 1:
		return append(b, byte(kit.Flat(rt, 2, "tail")))
	case 2:
		return append([]byte{byte(kit.Flat(rt, 2, "head"))}, b...)
	}
	if len(b) == 0 {
		return []byte{0}
	}
	b[kit.Flat(rt, len(b), "at")] ^= 1 << kit.Flat(rt, 8, "bit")
	return b
}

func propCommitments(rt *rapid.T, c *kit.Case) {
	cs := kit.Pick(rt, realSuites, "suite")
	opening := rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(rt, "opening")
	body := kit.Bytes(rt, 0, 80, "body")
	if kit.Prob(rt, 10, "long") {
		body = bytes.Repeat(append(body, 1), 50)
	}
	c.Logf("suite %d opening %x body %x", cs.Id(), opening, body)
	c.NonTrivial()
	com := commitments.Commit(cs, opening, body)
	if want := refHMAC(commitmentKey, opening, body); !bytes.Equal(com, want) {
		rt.Fatalf("commitment %x, the specification says %x", com, want)
	}
	if !commitments.Verify(cs, opening, body, com) {
		rt.Fatalf("a commitment does not open")
	}
	for i := 0; i < 4; i++ {
		o, b, x := opening, body, com
		switch kit.Flat(rt, 5, "what") {
		case 0:
			o = mutate(rt, o, true)
		case 1:
			b = mutate(rt, b, false)
		case 2:
			x = mutate(rt, x, false)
		case 3:
			o = rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(rt, "opening")
			b = kit.Bytes(rt, 0, 80, "body")
		case 4: // parts of a commitment
			x = x[:kit.Int(rt, 0, len(x)-1, "prefix")]
		}
		if bytes.Equal(o, opening) && bytes.Equal(b, body) && bytes.Equal(x, com) {
			continue
		}
		if commitments.Verify(cs, o, b, x) {
			rt.Fatalf("opens with opening %x body %x commitment %x", o, b, x)
		}
	}
	// Openings are the right size and never come twice.
	seen := map[string]bool{}
	or, and := make([]byte, 16), bytes.Repeat([]byte{0xff}, 16)
	for i := 0; i < 40; i++ {
		o := commitments.GenerateOpening(cs)
		if len(o) != cs.CommitmentOpeningSize() || seen[string(o)] {
			rt.Fatalf("opening %x is of the wrong size or came before", o)
		}
		seen[string(o)] = true
		for j := range o {
			or[j] |= o[j]
			and[j] &= o[j]
		}
	}
	for j := range or { // every byte varies (all equal by chance: 256^-39)
		if or[j] == and[j] {
			rt.Fatalf("byte %d of openings never varies", j)
		}
	}
}

func drawSigningKey(rt *rapid.T, cs suites.CipherSuite) []byte {
	sk := rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(rt, "key")
	if cs.Id() == 1 {
		x := new(big.Int).SetBytes(sk)
		x.Mod(x, kit.P256N)
		if kit.Prob(rt, 10, "tiny") {
			x.SetInt64(int64(kit.Int(rt, 1, 5, "tiny")))
		}
		if x.Sign() == 0 {
			x.SetInt64(1)
		}
		x.FillBytes(sk)
	}
	return sk
}

func propSignatures(rt *rapid.T, c *kit.Case) {
	cs := kit.Pick(rt, realSuites, "suite")
	sk, m := drawSigningKey(rt, cs), drawMessage(rt)
	c.Logf("suite %d key %x message %x", cs.Id(), sk, m)
	c.NonTrivial()
	priv, err := cs.ParseSigningPrivateKey(kit.Dup(sk))
	if err != nil {
		rt.Fatalf("key %x is refused: %v", sk, err)
	}
	// The public key in its specified encoding.
	var want []byte
	var std func(m, sig []byte) bool // an independent verifier
	var sign func(m []byte) []byte   // an independent signer
	if cs.Id() == 1 {
		pt := kit.P256Mul(new(big.Int).SetBytes(sk), kit.P256Base())
		want = pt.Uncompressed()
		pk := &ecdsa.PublicKey{Curve: elliptic.P256(), X: pt.X, Y: pt.Y}
		std = func(m, sig []byte) bool {
			h := sha256.Sum256(m)
			return len(sig) == 64 && ecdsa.Verify(pk, h[:], new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:]))
		}
		sign = func(m []byte) []byte {
			h := sha256.Sum256(m)
			r, s, err := ecdsa.Sign(rand.Reader, &ecdsa.PrivateKey{PublicKey: *pk, D: new(big.Int).SetBytes(sk)}, h[:])
			if err != nil {
				rt.Fatalf("reference signer: %v", err)
			}
			return append(r.FillBytes(make([]byte, 32)), s.FillBytes(make([]byte, 32))...)
		}
	} else {
		k := ed25519.NewKeyFromSeed(sk)
		want = kit.Dup(k[32:])
		std = func(m, sig []byte) bool { return len(sig) == 64 && ed25519.Verify(ed25519.PublicKey(want), m, sig) }
		sign = func(m []byte) []byte { return ed25519.Sign(k, m) }
	}
	pub := priv.Public()
	if !bytes.Equal(pub.Bytes(), want) {
		rt.Fatalf("public key %x, should be %x", pub.Bytes(), want)
	}
	pub2, err := cs.ParseSigningPublicKey(kit.Dup(want))
	if err != nil || !bytes.Equal(pub2.Bytes(), want) {
		rt.Fatalf("public key %x does not survive parsing: %v", want, err)
	}
	priv2, err := cs.ParseSigningPrivateKey(kit.Dup(sk))
	if err != nil {
		rt.Fatalf("key refused the second time: %v", err)
	}
	var sig []byte
	for i := 0; i < 3; i++ {
		m := append(kit.Dup(m), bytes.Repeat([]byte{7}, i)...)
		s, err := priv.Sign(m)
		if err != nil {
			rt.Fatalf("signing: %v", err)
		}
		if i == 0 {
			sig = s
		}
		if len(s) != 64 {
			rt.Fatalf("signature of %d bytes", len(s))
		}
		if !pub.Verify(m, s) || !pub2.Verify(m, s) || !std(m, s) {
			rt.Fatalf("signature %x over %x does not verify", s, m)
		}
		if s2 := sign(m); !pub.Verify(m, s2) {
			rt.Fatalf("an independent signer's signature %x over %x is refused", s2, m)
		}
		if s2, err := priv2.Sign(m); err != nil || !pub.Verify(m, s2) {
			rt.Fatalf("the key parsed again signs differently: %v", err)
		}
	}
	for i := 0; i < 5; i++ {
		key, m2, s := pub2, m, kit.Dup(sig)
		what := ""
		switch kit.Flat(rt, 7, "what") {
		case 0:
			m2, what = mutate(rt, m, false), "another message"
		case 1:
			at := kit.Flat(rt, 512, "bit")
			s[at/8] ^= 1 << (at % 8)
			what = "a flipped bit"
		case 2:
			s, what = s[:kit.Int(rt, 0, 63, "len")], "a cut signature"
		case 3:
			s, what = append(s, kit.Bytes(rt, 1, 4, "tail")...), "a longer signature"
		case 4:
			other := drawSigningKey(rt, cs)
			if bytes.Equal(other, sk) {
				continue
			}
			p, err := cs.ParseSigningPrivateKey(other)
			if err != nil {
				rt.Fatalf("key %x is refused: %v", other, err)
			}
			if bytes.Equal(p.Public().Bytes(), want) {
				continue
			}
			key, what = p.Public(), "another key"
		case 5:
			s, what = kit.Pick(rt, [][]byte{nil, make([]byte, 64), bytes.Repeat([]byte{0xff}, 64), append(make([]byte, 32), sig[32:]...), append(kit.Dup(sig[:32]), make([]byte, 32)...)}, "odd"), "an odd signature"
		case 6: // scalars beyond the group order
			if cs.Id() == 2 {
				x := new(big.Int).Add(kit.FromLE(s[32:]), kit.EdL)
				copy(s[32:], kit.LE32(x))
				what = "an unreduced scalar"
			} else {
				copy(s[32:], kit.P256N.Bytes())
				what = "an extreme scalar"
			}
		}
		c.Class(what)
		kit.NoPanic(rt, "verifying "+what, func() {
			if key.Verify(m2, s) {
				rt.Fatalf("%s: signature %x over %x accepted", what, s, m2)
			}
		})
	}
}

func propSigningKeys(rt *rapid.T, c *kit.Case) {
	cs := kit.Pick(rt, realSuites, "suite")
	c.NonTrivial()
	raw := kit.Bytes(rt, 0, 70, "bytes")
	mustFail := ""
	private := kit.Bool(rt, "private")
	switch kit.Flat(rt, 4, "kind") {
	case 0:
		if private {
			raw = rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(rt, "key")
		} else if cs.Id() == 1 {
			raw = append([]byte{byte(kit.Flat(rt, 8, "form"))}, rapid.SliceOfN(rapid.Byte(), 64, 64).Draw(rt, "key")...)
			mustFail = "off the curve" // on it with probability 2^-256
		}
	case 1:
		valid := drawSigningKey(rt, cs)
		if !private {
			p, err := cs.ParseSigningPrivateKey(valid)
			if err != nil {
				rt.Fatalf("key %x is refused: %v", valid, err)
			}
			valid = kit.Dup(p.Public().Bytes())
		}
		if kit.Bool(rt, "longer") {
			raw = append(valid, kit.Bytes(rt, 1, 5, "tail")...)
		} else {
			raw = valid[:kit.Int(rt, 0, len(valid)-1, "len")]
		}
		mustFail = "wrong length"
	case 2:
		if cs.Id() == 1 && private {
			raw, mustFail = kit.Pick(rt, [][]byte{make([]byte, 32), kit.P256N.Bytes(), bytes.Repeat([]byte{0xff}, 32)}, "scalar"), "scalar out of range"
		} else if cs.Id() == 1 {
			raw, mustFail = []byte{0}, "infinity"
		}
	}
	c.Logf("suite %d private %v %x %s", cs.Id(), private, raw, mustFail)
	kit.NoPanic(rt, "parsing a key", func() {
		if private {
			p, err := cs.ParseSigningPrivateKey(kit.Dup(raw))
			if err == nil && mustFail != "" {
				rt.Fatalf("private key %x accepted (%s)", raw, mustFail)
			} else if err == nil {
				c.Class("private parsed")
				sig, err := p.Sign([]byte("m"))
				if err != nil || !p.Public().Verify([]byte("m"), sig) {
					rt.Fatalf("accepted private key %x does not sign: %v", raw, err)
				}
			}
			return
		}
		p, err := cs.ParseSigningPublicKey(kit.Dup(raw))
		if err == nil && mustFail != "" {
			rt.Fatalf("public key %x accepted (%s)", raw, mustFail)
		} else if err == nil {
			c.Class("public parsed")
			if !bytes.Equal(p.Bytes(), raw) {
				rt.Fatalf("public key %x becomes %x", raw, p.Bytes())
			}
			p.Verify([]byte("m"), make([]byte, 64))
			p.Verify(nil, nil)
			p.Verify([]byte("m"), raw)
		}
	})
}

func TestP26(t *testing.T) {
	kit.Run(t, "a commitment or signature was made, compared with an independent implementation and attacked, or a key was parsed",
		kit.Sub{Name: "commitments", Quick: 5000, Thorough: 300000, Prop: propCommitments},
		kit.Sub{Name: "signatures", Quick: 3000, Thorough: 100000, Prop: propSignatures},
		kit.Sub{Name: "keys", Quick: 6000, Thorough: 300000, Prop: propSigningKeys},
	)
}
