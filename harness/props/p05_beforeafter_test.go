package props

import (
	"bytes"
	"testing"

	"github.com/Bren2010/katie/tree/prefix"
	"pgregory.net/rapid"

	"verif/kit"
)

const (
	knownLone = "lone-sibling"
	knownLong = "batch-too-long"

	knownLongUpdate = "update-too-long"
)

func TestP05(t *testing.T) {
	cs := kit.FakeSuite{}
	kit.Run(t, "accepted add/remove batches on generated trees, re-evaluated from the returned proof, and update proofs assembled by an adversary; non-trivial: the batch is not empty and the tree before it is not empty",
		kit.Sub{Name: "honest", Quick: 6000, Thorough: 150000, Prop: func(rt *rapid.T, c *kit.Case) {
			w := newPrefixWorld(rt, c, kit.Pick(rt, []int{4, 10, 40, 150}, "poolSize"))
			removePct := kit.Pick(rt, []int{0, 5, 30, 80}, "removePct")
			for i := kit.Int(rt, 1, 8, "rounds"); i > 0; i-- {
				_, m := w.cur()
				b := w.drawBatch(kit.Pick(rt, []int{1, 3, 20}, "maxAdd"), removePct)
				proof := w.apply(b)
				if len(b.add)+len(b.remove) > 255 {
					continue
				}
				raw := &bytes.Buffer{}
				if err := proof.Marshal(raw); err != nil {
					rt.Fatalf("update proof does not encode: %v", err)
				}
				proof = decodeProof(rt, raw.Bytes())
				var removed []prefix.Entry
				for _, k := range b.remove {
					removed = append(removed, prefix.Entry{VrfOutput: k, Commitment: m[string(k)]})
				}
				var before, after []byte
				var err error
				kit.NoPanic(rt, "EvaluateBeforeAfter", func() { before, after, err = prefix.EvaluateBeforeAfter(cs, b.add, removed, proof) })
				if err != nil {
					rt.Fatalf("proof of an accepted batch (+%d -%d, %d both) rejected: %v", len(b.add), len(b.remove), b.both, err)
				}
				if !bytes.Equal(before, m.Root()) {
					rt.Fatalf("proof evaluates to another root before the batch")
				}
				if b.both > 0 {
					c.Class("replaced entry")
				}
				if !bytes.Equal(after, b.after.Root()) {
					if kit.LoneSibling(m, b.after, b.keys) {
						kit.Known(knownLone)
						c.Class("lone unrevealed sibling (known finding)")
					} else {
						rt.Fatalf("proof evaluates to another root after the batch (+%d -%d)", len(b.add), len(b.remove))
					}
				}
				if len(m) > 0 && len(b.add)+len(b.remove) > 0 {
					c.NonTrivial()
					if len(b.remove) > 0 {
						c.Class("removal")
					}
				}
			}
		}},
		kit.Sub{Name: "adversary", Quick: 30000, Thorough: 1000000, Prop: func(rt *rapid.T, c *kit.Case) {
			m, pool, n := drawModel(rt, c, kit.Pick(rt, []int{3, 8, 30}, "size"))
			var claims []claim
			var add, remove []prefix.Entry
			honest := true
			split := 0
			queries := drawQueries(rt, pool, n, 5)
			both := [][]byte{}
			for _, k := range queries {
				_, ok := m[string(k)]
				if !ok && kit.Prob(rt, 12, "removeAbsent") {
					honest = false
					continue
				}
				if !ok || kit.Prob(rt, 20, "addPresent") {
					e := prefix.Entry{VrfOutput: k, Commitment: kit.H32(31, uint64(len(add)))}
					add = append(add, e)
					claims = append(claims, honestClaim(m, k))
					if ok {
						if kit.Bool(rt, "both") {
							both = append(both, k)
						} else {
							honest = false
						}
					}
				}
			}
			split = len(add)
			for _, k := range queries {
				isBoth := false
				for _, b := range both {
					isBoth = isBoth || bytes.Equal(b, k)
				}
				inAdd := false
				for _, a := range add {
					inAdd = inAdd || bytes.Equal(a.VrfOutput, k)
				}
				if isBoth || !inAdd {
					v, ok := m[string(k)]
					if !ok {
						v = kit.H32(32, uint64(len(remove)))
						c.Class("removal of an absent key")
					}
					remove = append(remove, prefix.Entry{VrfOutput: k, Commitment: v})
					claims = append(claims, honestClaim(m, k))
				}
			}
			// Distort claims or values.
			for i := kit.Int(rt, 0, 2, "distortions"); i > 0 && len(claims) > 0; i-- {
				j := kit.Flat(rt, len(claims), "which")
				what := distort(rt, m, &claims[j], claims)
				c.Logf("%s", what)
				honest = false
				if j >= split && kit.Bool(rt, "useValue") && claims[j].commitment != nil {
					remove[j-split].Commitment = claims[j].commitment
				}
			}
			unique := claims[:0:0]
			seen := map[string]bool{}
			for _, cl := range claims {
				if !seen[string(cl.key)] {
					seen[string(cl.key)] = true
					unique = append(unique, cl)
				}
			}
			p := rawProof{elements: copath(m, unique, make([]byte, 32), 0)}
			for _, cl := range claims {
				p.results = append(p.results, cl.res)
			}
			if kit.Prob(rt, 10, "elements") {
				c.Logf("%s", distortElements(rt, &p))
				honest = false
			}
			if kit.Prob(rt, 5, "dupAdd") && len(add) > 0 {
				add = append([]prefix.Entry{add[0]}, add...)
				p.results = append([]rawResult{p.results[0]}, p.results...)
				honest = false
			}
			proof := decodeProof(rt, p.bytes())
			var before, after []byte
			var err error
			kit.NoPanic(rt, "EvaluateBeforeAfter", func() { before, after, err = prefix.EvaluateBeforeAfter(cs, add, remove, proof) })
			c.Logf("+%d -%d both=%d", len(add), len(remove), len(both))
			if len(m) > 0 && len(claims) > 0 {
				c.NonTrivial()
			}
			if honest && (err != nil || !bytes.Equal(before, m.Root())) {
				rt.Fatalf("true update proof rejected: %v", err)
			}
			if err != nil || !bytes.Equal(before, m.Root()) {
				return
			}
			if honest {
				c.Class("honest")
			} else {
				c.Class("distorted but valid")
			}
			// The proof convinced us about the tree before; then the batch must
			// be one the tree would accept and the outcome the true one.
			am := m.Clone()
			keys := map[string]bool{}
			for i, e := range remove {
				if v, ok := m[string(e.VrfOutput)]; !ok || !bytes.Equal(v, e.Commitment) {
					rt.Fatalf("accepted: removal %d of an entry that is not in the tree", i)
				}
				delete(am, string(e.VrfOutput))
				keys[string(e.VrfOutput)] = true
			}
			for i, e := range add {
				if _, ok := am[string(e.VrfOutput)]; ok {
					rt.Fatalf("accepted: addition %d of a key that is already in the tree", i)
				}
				am[string(e.VrfOutput)] = e.Commitment
				keys[string(e.VrfOutput)] = true
			}
			if !bytes.Equal(after, am.Root()) {
				if kit.LoneSibling(m, am, keys) {
					kit.Known(knownLone)
				} else {
					rt.Fatalf("accepted update proof evaluates to a false root after the batch")
				}
			}
		}},
	)
}
