package props

import (
	"bytes"
	"encoding/binary"
	"testing"

	"github.com/Bren2010/katie/tree/prefix"
	"pgregory.net/rapid"

	"verif/kit"
)

// rawResult is one search result as it stands on the wire.
type rawResult struct {
	typ       byte
	leafKey   []byte
	leafValue []byte
	depth     int
}

type rawProof struct {
	results  []rawResult
	elements [][]byte
}

func (p rawProof) bytes() []byte {
	b := &bytes.Buffer{}
	b.WriteByte(byte(len(p.results)))
	for _, r := range p.results {
		b.WriteByte(r.typ)
		if r.typ == 2 {
			b.Write(r.leafKey)
			b.Write(r.leafValue)
		}
		b.WriteByte(byte(r.depth))
	}
	binary.Write(b, binary.BigEndian, uint16(len(p.elements)))
	for _, e := range p.elements {
		b.Write(e)
	}
	return b.Bytes()
}

// claim is what the adversary says about one key.
type claim struct {
	key        []byte
	commitment []byte // given to the verifier as the key's value
	res        rawResult
}

func honestClaim(m kit.PrefixModel, key []byte) claim {
	d, leaf := m.Terminal(key)
	c := claim{key: key}
	switch {
	case leaf == "":
		c.res = rawResult{typ: 3, depth: d}
	case leaf == string(key):
		c.commitment = m[leaf]
		c.res = rawResult{typ: 1, depth: d}
	default:
		c.res = rawResult{typ: 2, leafKey: []byte(leaf), leafValue: m[leaf], depth: d}
	}
	return c
}

// copath lists, from left to right, the value of every node beside the claimed
// search paths – as they are in the true tree.
func copath(m kit.PrefixModel, claims []claim, prefixKey []byte, depth int) [][]byte {
	if len(claims) == 0 {
		return [][]byte{m.HashUnder(prefixKey, depth)}
	}
	for _, c := range claims {
		if c.res.depth <= depth {
			return nil // a terminal node
		}
	}
	var l, r []claim
	for _, c := range claims {
		if kit.Bit(c.key, depth) {
			r = append(r, c)
		} else {
			l = append(l, c)
		}
	}
	lk, rk := kit.Dup(prefixKey), kit.Dup(prefixKey)
	lk[depth/8] &^= 1 << (7 - depth%8)
	rk[depth/8] |= 1 << (7 - depth%8)
	return append(copath(m, l, lk, depth+1), copath(m, r, rk, depth+1)...)
}

func assemble(m kit.PrefixModel, claims []claim) rawProof {
	p := rawProof{elements: copath(m, claims, make([]byte, 32), 0)}
	for _, c := range claims {
		p.results = append(p.results, c.res)
	}
	return p
}

// drawModel draws a tree that may contain deep paths.
func drawModel(rt *rapid.T, c *kit.Case, maxKeys int) (kit.PrefixModel, keyPool, int) {
	pool := drawPool(rt)
	n := kit.Int(rt, 0, maxKeys, "poolKeys")
	m := kit.PrefixModel{}
	for i := 0; i < n; i++ {
		if kit.Bool(rt, "in") {
			m[string(pool.key(i))] = kit.H32(24, uint64(i))
		}
	}
	c.Logf("tree of %d keys, pool %+v", len(m), pool)
	return m, pool, n
}

func drawQueries(rt *rapid.T, pool keyPool, n, max int) [][]byte {
	var out [][]byte
	seen := map[string]bool{}
	for i := kit.Int(rt, 1, max, "queries"); i > 0; i-- {
		k := pool.key(kit.Flat(rt, n+3, "query"))
		if kit.Prob(rt, 15, "near") {
			k = kit.Dup(k)
			bit := kit.Flat(rt, 256, "flip")
			k[bit/8] ^= 1 << (7 - bit%8)
		}
		if !seen[string(k)] {
			seen[string(k)] = true
			out = append(out, k)
		}
	}
	return out
}

// distort makes a claim false or odd. It returns a short name of what it did.
func distort(rt *rapid.T, m kit.PrefixModel, c *claim, others []claim) string {
	d, leaf := m.Terminal(c.key)
	anyLeaf := func() ([]byte, []byte) {
		if leaf != "" && kit.Bool(rt, "sameLeaf") {
			return []byte(leaf), m[leaf]
		}
		if ks := m.Keys(); len(ks) > 0 && kit.Bool(rt, "otherLeaf") {
			k := kit.Pick(rt, ks, "leaf")
			return []byte(k), m[k]
		}
		return kit.H32(25, uint64(kit.Flat(rt, 4, "fake"))), kit.H32(26, uint64(kit.Flat(rt, 4, "fakeValue")))
	}
	switch kit.Flat(rt, 9, "distortion") {
	case 0:
		c.res = rawResult{typ: 1, depth: d}
		c.commitment = kit.H32(27, uint64(kit.Flat(rt, 3, "value")))
		return "claims another value"
	case 1:
		k, v := anyLeaf()
		c.res, c.commitment = rawResult{typ: 2, leafKey: k, leafValue: v, depth: d}, nil
		return "claims a leaf"
	case 2:
		c.res, c.commitment = rawResult{typ: 2, leafKey: c.key, leafValue: m[string(c.key)], depth: d}, nil
		if c.res.leafValue == nil {
			c.res.leafValue = make([]byte, 32)
		}
		return "claims absence beside its own leaf"
	case 3:
		c.res, c.commitment = rawResult{typ: 3, depth: d}, nil
		return "claims emptiness"
	case 4:
		c.res = rawResult{typ: 1, depth: d}
		if len(leaf) > 0 {
			c.commitment = m[leaf]
		}
		return "claims its neighbour's value"
	case 5:
		c.res.depth = max(0, min(255, c.res.depth+kit.Pick(rt, []int{-2, -1, 1, 2}, "delta")))
		return "moves the depth"
	case 6:
		c.res.depth = kit.Int(rt, 0, 255, "depth")
		return "draws the depth"
	case 7:
		if len(others) > 0 {
			o := kit.Pick(rt, others, "other")
			c.res, c.commitment = o.res, o.commitment
		}
		return "borrows another key's result"
	default:
		// Stop above the true end, in a place where the subtree is a parent,
		// pretending that it is empty or a leaf.
		c.res.depth = kit.Int(rt, 0, d, "shallow")
		c.res.typ = byte(kit.Flat(rt, 3, "typ") + 1)
		c.res.leafKey, c.res.leafValue = anyLeaf()
		if c.res.typ != 1 {
			c.commitment = nil
		}
		return "stops early"
	}
}

func distortElements(rt *rapid.T, p *rawProof) string {
	n := len(p.elements)
	switch kit.Flat(rt, 5, "elementDistortion") {
	case 0:
		if n > 0 {
			i := kit.Flat(rt, n, "at")
			p.elements = append(append([][]byte{}, p.elements[:i]...), p.elements[i+1:]...)
		}
		return "drops an element"
	case 1:
		i := kit.Flat(rt, n+1, "at")
		e := make([]byte, 32)
		if kit.Bool(rt, "junk") {
			e = kit.H32(28, 1)
		}
		p.elements = append(append(append([][]byte{}, p.elements[:i]...), e), p.elements[i:]...)
		return "adds an element"
	case 2:
		if n > 1 {
			i, j := kit.Flat(rt, n, "i"), kit.Flat(rt, n, "j")
			p.elements[i], p.elements[j] = p.elements[j], p.elements[i]
		}
		return "swaps elements"
	case 3:
		if n > 0 {
			p.elements[kit.Flat(rt, n, "at")] = make([]byte, 32)
		}
		return "zeroes an element"
	default:
		if n > 0 {
			p.elements[kit.Flat(rt, n, "at")] = kit.H32(28, 2)
		}
		return "replaces an element"
	}
}

func decodeProof(rt *rapid.T, raw []byte) *prefix.PrefixProof {
	var p *prefix.PrefixProof
	var err error
	buf := bytes.NewBuffer(raw)
	kit.NoPanic(rt, "NewPrefixProof", func() { p, err = prefix.NewPrefixProof(kit.FakeSuite{}, buf) })
	if err != nil || buf.Len() != 0 {
		rt.Fatalf("well-formed proof does not decode: %v", err)
	}
	return p
}

func TestP04(t *testing.T) {
	cs := kit.FakeSuite{}
	kit.Run(t, "proofs assembled from the true tree with chosen result types, depths, leaves and copath elements, against the tree's true root; non-trivial: the claims are false or the proof was changed after an honest one was accepted",
		kit.Sub{Name: "assembled", Quick: 40000, Thorough: 1500000, Prop: func(rt *rapid.T, c *kit.Case) {
			m, pool, n := drawModel(rt, c, kit.Pick(rt, []int{3, 8, 30}, "size"))
			root := m.Root()
			var claims []claim
			for _, k := range drawQueries(rt, pool, n, 4) {
				claims = append(claims, honestClaim(m, k))
			}
			entries := func() (out []prefix.Entry) {
				for _, cl := range claims {
					out = append(out, prefix.Entry{VrfOutput: cl.key, Commitment: cl.commitment})
				}
				return
			}
			honest := assemble(m, claims)
			if err := prefix.Verify(cs, entries(), decodeProof(rt, honest.bytes()), root); err != nil {
				rt.Fatalf("true proof for %d keys of a tree of %d rejected: %v", len(claims), len(m), err)
			}
			for i := kit.Int(rt, 1, 2, "distortions"); i > 0; i-- {
				cl := &claims[kit.Flat(rt, len(claims), "which")]
				held := cl.commitment
				what := distort(rt, m, cl, claims)
				if cl.commitment == nil && held != nil && kit.Bool(rt, "held") {
					// The verifier knows the value of the key that's said to
					// be absent.
					cl.commitment = held
					what += ", value known"
				}
				c.Logf("%s", what)
				c.Class(what)
			}
			p := assemble(m, claims)
			if kit.Prob(rt, 25, "elements") {
				what := distortElements(rt, &p)
				c.Logf("%s", what)
				c.Class(what)
			}
			proof := decodeProof(rt, p.bytes())
			es := entries()
			var got []byte
			var err, verr error
			kit.NoPanic(rt, "Evaluate", func() { got, err = prefix.Evaluate(cs, es, proof) })
			kit.NoPanic(rt, "Verify", func() { verr = prefix.Verify(cs, es, proof, root) })
			c.NonTrivial()
			if (verr == nil) != (err == nil && bytes.Equal(got, root)) {
				rt.Fatalf("Verify and Evaluate disagree: %v, %v", verr, err)
			}
			if verr != nil {
				return
			}
			c.Class("accepted")
			for i, cl := range claims {
				want, ok := m[string(cl.key)]
				in := proof.Results[i].Inclusion()
				if in != ok {
					rt.Fatalf("accepted: key %d present=%v, though present=%v in the tree", i, in, ok)
				}
				if ok && !bytes.Equal(want, cl.commitment) {
					rt.Fatalf("accepted: key %d has a commitment that is not in the tree", i)
				}
			}
		}},
		kit.Sub{Name: "mutated", Quick: 20000, Thorough: 500000, Prop: func(rt *rapid.T, c *kit.Case) {
			// Byte-level changes of an honest proof.
			m, pool, n := drawModel(rt, c, 12)
			root := m.Root()
			var claims []claim
			var es []prefix.Entry
			for _, k := range drawQueries(rt, pool, n, 4) {
				cl := honestClaim(m, k)
				claims = append(claims, cl)
				es = append(es, prefix.Entry{VrfOutput: cl.key, Commitment: cl.commitment})
			}
			raw := assemble(m, claims).bytes()
			raw, what := mutateBytes(rt, raw)
			c.Logf("%d keys, %s", len(claims), what)
			var proof *prefix.PrefixProof
			var err error
			kit.NoPanic(rt, "NewPrefixProof", func() { proof, err = prefix.NewPrefixProof(cs, bytes.NewBuffer(raw)) })
			if err != nil {
				c.Class("undecodable")
				return
			}
			c.NonTrivial()
			// The verifier may also hold other values for the keys.
			for i := range es {
				switch kit.Flat(rt, 6, "entry") {
				case 0:
					es[i].Commitment = kit.H32(27, 9)
				case 1:
					es[i].Commitment = nil
				case 2:
					es[i].Commitment = m[string(es[i].VrfOutput)]
				}
			}
			var verr error
			kit.NoPanic(rt, "Verify", func() { verr = prefix.Verify(cs, es, proof, root) })
			if verr != nil {
				return
			}
			c.Class("accepted")
			for i, e := range es {
				want, ok := m[string(e.VrfOutput)]
				if in := proof.Results[i].Inclusion(); in != ok || (ok && !bytes.Equal(want, e.Commitment)) {
					rt.Fatalf("accepted: key %d present=%v commitment %x; tree: %v %x", i, in, e.Commitment, ok, want)
				}
			}
		}},
		kit.Sub{Name: "malformed", Quick: 8000, Thorough: 200000, Prop: func(rt *rapid.T, c *kit.Case) {
			// Entry lists that do not fit the proof must be refused.
			m, pool, n := drawModel(rt, c, 12)
			var claims []claim
			var es []prefix.Entry
			for _, k := range drawQueries(rt, pool, n, 4) {
				cl := honestClaim(m, k)
				claims = append(claims, cl)
				es = append(es, prefix.Entry{VrfOutput: cl.key, Commitment: cl.commitment})
			}
			p := assemble(m, claims)
			i := kit.Flat(rt, len(es), "i")
			kind := kit.Flat(rt, 6, "kind")
			switch kind {
			case 0:
				es = es[:len(es)-1]
			case 1:
				es = append(es, prefix.Entry{VrfOutput: kit.H32(30, 1)})
			case 2:
				es[i].VrfOutput = es[i].VrfOutput[:kit.Int(rt, 0, 31, "len")]
			case 3:
				es[i].VrfOutput = append(kit.Dup(es[i].VrfOutput), 0)
			case 4:
				es[i].Commitment = kit.H32(27, 3)[:kit.Int(rt, 0, 31, "len")]
				if proofIn := p.results[i].typ == 1; !proofIn && len(es[i].Commitment) == 0 {
					return
				}
			case 5:
				es = append(es, es[i])
				p.results = append(p.results, p.results[i])
			}
			proof := decodeProof(rt, p.bytes())
			var err error
			kit.NoPanic(rt, "Verify", func() { err = prefix.Verify(cs, es, proof, m.Root()) })
			if err == nil {
				rt.Fatalf("entry list with defect %d accepted", kind)
			}
			c.Logf("defect %d", kind)
			c.NonTrivial()
		}},
	)
}

// mutateBytes changes an encoded message in one or a few places.
func mutateBytes(rt *rapid.T, raw []byte) ([]byte, string) {
	raw = kit.Dup(raw)
	what := ""
	for i := kit.Int(rt, 1, 3, "mutations"); i > 0; i-- {
		if len(raw) == 0 {
			return raw, what + "empty"
		}
		at := kit.Flat(rt, len(raw), "at")
		switch kit.Flat(rt, 6, "mutation") {
		case 0:
			raw[at] ^= 1 << kit.Flat(rt, 8, "bit")
			what += "bit "
		case 1:
			raw[at] = byte(kit.Pick(rt, []int{0, 1, 2, 3, 127, 128, 255}, "byte"))
			what += "byte "
		case 2:
			raw = append(raw[:at:at], raw[at+1:]...)
			what += "delete "
		case 3:
			raw = append(append(raw[:at:at], byte(kit.Flat(rt, 256, "ins"))), raw[at:]...)
			what += "insert "
		case 4:
			raw = raw[:at]
			what += "truncate "
		case 5:
			raw[at] += byte(kit.Pick(rt, []int{1, 255}, "inc"))
			what += "step "
		}
	}
	return raw, what
}
