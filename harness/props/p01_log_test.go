package props

import (
	"bytes"
	"fmt"
	"slices"
	"testing"

	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/log"
	"pgregory.net/rapid"

	"verif/kit"
)

// uniformStore is a LogStore that already holds a tree of base equal leaves
// (chunks of eight same-level full subtree values, keyed by the chunk's root)
// and records everything written on top.
type uniformStore struct {
	*memory.LogStore
	m *kit.LogModel
}

func (s *uniformStore) BatchGet(keys []uint64) (map[uint64][]byte, error) {
	out, err := s.LogStore.BatchGet(keys)
	if err != nil {
		return nil, err
	}
	for _, id := range keys {
		if _, ok := out[id]; ok {
			continue
		}
		level := 0
		for x := id; x&1 == 1; x >>= 1 {
			level++
		}
		start := (id - (1<<uint(level) - 1)) / 2
		var data []byte
		for j := uint64(0); j < 8; j++ {
			lo := start + j<<uint(level-3)
			hi := lo + 1<<uint(level-3)
			if hi > s.m.Base || hi < lo {
				break
			}
			data = append(data, s.m.UniformAt(level-3)...)
		}
		if data != nil {
			out[id] = data
		}
	}
	return out, nil
}

type logWorld struct {
	rt    *rapid.T
	c     *kit.Case
	cs    kit.FakeSuite
	model *kit.LogModel
	tree  *log.Tree
	subs  [][]byte // current full subtrees as maintained incrementally
}

func newLogWorld(rt *rapid.T, c *kit.Case, base uint64) *logWorld {
	cs := kit.FakeSuite{}
	m := kit.NewLogModel(base, kit.H32(9, 0))
	w := &logWorld{rt: rt, c: c, cs: cs, model: m}
	w.tree = log.NewTree(cs, &uniformStore{memory.NewLogStore(), m})
	if base > 0 {
		w.subs = m.FullSubtrees(base)
	}
	c.Logf("log base=%d", base)
	return w
}

func (w *logWorld) append(k int, salt uint64) {
	for i := 0; i < k; i++ {
		n := w.model.Size()
		leaf := kit.H32(8, n^salt<<40)
		if n == 1<<63 {
			// The greatest size a log can have.
			if _, err := w.tree.Append(n, leaf); err == nil {
				w.rt.Fatalf("append to a log of the greatest size succeeded")
			}
			w.c.Class("full")
			break
		}
		got, err := w.tree.Append(n, leaf)
		if err != nil {
			w.rt.Fatalf("append at size %d: %v", n, err)
		}
		inc, err := log.Append(w.cs, n, w.subs, leaf)
		if err != nil {
			w.rt.Fatalf("incremental append at size %d: %v", n, err)
		}
		w.model.Leaves = append(w.model.Leaves, leaf)
		want := w.model.FullSubtrees(n + 1)
		if !kit.Equal2(got, want) {
			w.rt.Fatalf("append to size %d: stored tree's full subtrees differ from the reference", n+1)
		}
		if !kit.Equal2(inc, want) {
			w.rt.Fatalf("append to size %d: incremental full subtrees differ from the reference", n+1)
		}
		w.subs = inc
		root, err := log.Root(w.cs, n+1, got)
		if err != nil || !bytes.Equal(root, w.model.Root(n+1)) {
			w.rt.Fatalf("root at size %d differs from the reference (%v)", n+1, err)
		}
	}
	w.c.Logf("append %d", k)
}

type logQuery struct {
	entries []uint64
	values  [][]byte
	n       uint64
	nP, m   *uint64
	proof   [][]byte
}

func opt(x *uint64) string {
	if x == nil {
		return "-"
	}
	return fmt.Sprint(*x)
}

// drawQuery asks the tree for a proof. The store only ever grows, so the
// current size is used.
func (w *logWorld) drawQuery() logQuery {
	rt := w.rt
	n := w.model.Size()
	q := logQuery{n: n, entries: kit.Subset(rt, n, 7, "entries")}
	if kit.Bool(rt, "hasM") {
		q.m = kit.Ptr(kit.Size(rt, 1, n, "m"))
	}
	if kit.Bool(rt, "hasNP") {
		q.nP = kit.Ptr(kit.Size(rt, 1, n, "nP"))
	}
	for _, x := range q.entries {
		q.values = append(q.values, w.model.Leaf(x))
	}
	ask := append([]uint64{}, q.entries...)
	if kit.Bool(rt, "reversed") {
		for i, j := 0, len(ask)-1; i < j; i, j = i+1, j-1 {
			ask[i], ask[j] = ask[j], ask[i]
		}
	}
	var err error
	q.proof, err = w.tree.GetBatch(ask, n, q.nP, q.m)
	if err != nil {
		rt.Fatalf("GetBatch(%v, n=%d, nP=%s, m=%s): %v", q.entries, n, opt(q.nP), opt(q.m), err)
	}
	w.c.Logf("query %v n=%d nP=%s m=%s", q.entries, n, opt(q.nP), opt(q.m))
	return q
}

func (w *logWorld) checkQuery() {
	rt := w.rt
	q := w.drawQuery()
	v := log.NewVerifier(w.cs)
	if q.m != nil {
		if kit.Prob(rt, 20, "retained something else before") {
			m := 1 + kit.U64(rt, 0, q.n-1, "before")
			if err := v.Retain(m, w.model.FullSubtrees(m)); err != nil {
				rt.Fatalf("Retain(%d): %v", m, err)
			}
		}
		if err := v.Retain(*q.m, w.model.FullSubtrees(*q.m)); err != nil {
			rt.Fatalf("Retain(%d): %v", *q.m, err)
		}
		if v.Last() == nil || *v.Last() != *q.m || !kit.Equal2(v.FullSubtrees(), w.model.FullSubtrees(*q.m)) {
			rt.Fatalf("verifier does not report what it retained")
		}
	}
	full, add, err := v.Evaluate(q.entries, q.n, q.nP, q.values, q.proof)
	if err != nil {
		rt.Fatalf("honest proof rejected: entries=%v n=%d nP=%s m=%s: %v", q.entries, q.n, opt(q.nP), opt(q.m), err)
	}
	if !kit.Equal2(full, w.model.FullSubtrees(q.n)) {
		rt.Fatalf("full subtrees from proof differ from the reference: entries=%v n=%d nP=%s m=%s", q.entries, q.n, opt(q.nP), opt(q.m))
	}
	if q.nP != nil && !kit.Equal2(add, w.model.FullSubtrees(*q.nP)) {
		rt.Fatalf("additional full subtrees differ from the reference: entries=%v n=%d nP=%s m=%s", q.entries, q.n, opt(q.nP), opt(q.m))
	}
	if q.nP == nil && len(add) != 0 {
		rt.Fatalf("additional subtrees returned though none were requested")
	}
	if q.n >= 3 && (q.m != nil || q.nP != nil || len(q.entries) >= 2) {
		w.c.NonTrivial()
	}
	if q.m != nil && q.nP != nil && len(q.entries) > 0 {
		w.c.Class("m+nP+entries")
	}
	if q.n&(q.n-1) == 0 {
		w.c.Class("n is a power of two")
	}
}

func TestP01(t *testing.T) {
	kit.Run(t, "append sequences on empty trees and on huge trees with a uniform prefix, then batch proofs; non-trivial: size>=3 and (previous size, additional size or >=2 entries)",
		kit.Sub{Name: "small", Quick: 3000, Thorough: 60000, Prop: func(rt *rapid.T, c *kit.Case) {
			w := newLogWorld(rt, c, 0)
			for i := kit.Int(rt, 1, 5, "rounds"); i > 0; i-- {
				w.append(kit.Int(rt, 1, 40, "k"), 0)
				for j := kit.Int(rt, 1, 4, "queries"); j > 0; j-- {
					w.checkQuery()
				}
			}
		}},
		kit.Sub{Name: "huge", Quick: 4000, Thorough: 80000, Prop: func(rt *rapid.T, c *kit.Case) {
			base := kit.Size(rt, 1, 1<<62, "base")
			if kit.Prob(rt, 20, "at the limit") {
				base = 1<<63 - uint64(kit.Int(rt, 0, 25, "below"))
			}
			w := newLogWorld(rt, c, base)
			for i := kit.Int(rt, 1, 3, "rounds"); i > 0; i-- {
				w.append(kit.Int(rt, 0, 20, "k"), 0)
				for j := kit.Int(rt, 1, 3, "queries"); j > 0; j-- {
					w.checkQuery()
				}
			}
		}},
		kit.Sub{Name: "exhaustive-small", Quick: 16, Thorough: 64, Prop: func(rt *rapid.T, c *kit.Case) {
			// All (n, m, nP) up to a bound with every single leaf, every
			// adjacent pair and the whole tree.
			limit := 12
			if kit.Thorough() {
				limit = 20
			}
			n := kit.Flat(rt, limit, "n") + 1
			w := newLogWorld(rt, c, 0)
			w.append(n, 1)
			var sets [][]uint64
			sets = append(sets, nil)
			all := []uint64{}
			for x := 0; x < n; x++ {
				sets = append(sets, []uint64{uint64(x)})
				if x > 0 {
					sets = append(sets, []uint64{uint64(x - 1), uint64(x)})
				}
				all = append(all, uint64(x))
			}
			sets = append(sets, all)
			for m := 0; m <= n; m++ {
				for nP := 0; nP <= n; nP++ {
					for _, set := range sets {
						var mp, np *uint64
						v := log.NewVerifier(w.cs)
						if m > 0 {
							mp = kit.Ptr(uint64(m))
							if err := v.Retain(*mp, w.model.FullSubtrees(*mp)); err != nil {
								rt.Fatal(err)
							}
						}
						if nP > 0 {
							np = kit.Ptr(uint64(nP))
						}
						var values [][]byte
						for _, x := range set {
							values = append(values, w.model.Leaf(x))
						}
						proof, err := w.tree.GetBatch(append([]uint64{}, set...), uint64(n), np, mp)
						if err != nil {
							rt.Fatalf("GetBatch(%v,%d,%s,%s): %v", set, n, opt(np), opt(mp), err)
						}
						full, add, err := v.Evaluate(set, uint64(n), np, values, proof)
						if err != nil || !kit.Equal2(full, w.model.FullSubtrees(uint64(n))) {
							rt.Fatalf("Evaluate(%v,%d,%s,%s): %v", set, n, opt(np), opt(mp), err)
						}
						if nP > 0 && !kit.Equal2(add, w.model.FullSubtrees(uint64(nP))) {
							rt.Fatalf("Evaluate(%v,%d,%s,%s): wrong additional subtrees", set, n, opt(np), opt(mp))
						}
					}
				}
			}
			c.NonTrivial()
		}},
		kit.Sub{Name: "rejects", Quick: 1500, Thorough: 20000, Prop: func(rt *rapid.T, c *kit.Case) {
			w := newLogWorld(rt, c, kit.Size(rt, 1, 1<<40, "base"))
			n := w.model.Size()
			before := w.model.FullSubtrees(n)
			// Sizes that no log has: zero and everything beyond 2^63.
			none := kit.Pick(rt, []uint64{0, 1<<63 + 1, 1<<63 + 2, 3 << 62, 1<<64 - 1}, "no size")
			var some []uint64
			if kit.Bool(rt, "some") {
				some = []uint64{kit.U64(rt, 0, n-1, "x")}
			}
			var some2 [][]byte
			for _, x := range some {
				some2 = append(some2, w.model.Leaf(x))
			}
			proof, perr := w.tree.GetBatch(append([]uint64{}, some...), n, nil, nil)
			if perr != nil {
				rt.Fatalf("GetBatch: %v", perr)
			}
			v := log.NewVerifier(w.cs)
			beyond := func() uint64 {
				if kit.Bool(rt, "none") {
					return none
				}
				return n + 1 + kit.U64(rt, 0, 5, "over")
			}
			kind := kit.Flat(rt, 21, "kind")
			c.Logf("invalid request kind %d no-size %d entries %v", kind, none, some)
			var err error
			kit.NoPanic(rt, "invalid log request", func() {
				switch kind {
				case 0:
					_, err = w.tree.GetBatch(append([]uint64{}, some...), none, nil, nil)
				case 1:
					_, err = w.tree.GetBatch([]uint64{n + kit.U64(rt, 0, 5, "over")}, n, nil, nil)
				case 2:
					x := kit.U64(rt, 0, n-1, "x")
					_, err = w.tree.GetBatch([]uint64{x, x}, n, nil, nil)
				case 3:
					_, err = w.tree.GetBatch(append([]uint64{}, some...), n, nil, kit.Ptr(beyond()))
				case 4:
					_, err = w.tree.GetBatch(append([]uint64{}, some...), n, kit.Ptr(beyond()), nil)
				case 5:
					_, err = w.tree.Append(n, kit.Bytes(rt, 0, 31, "short"))
				case 6:
					_, err = log.Root(w.cs, n, before[1:])
				case 7:
					_, err = log.Root(w.cs, none, before[:kit.Flat(rt, 2, "v")])
				case 8:
					_, err = log.Root(w.cs, 0, nil)
				case 9:
					err = v.Retain(none, nil)
				case 10:
					err = v.Retain(none, before[:1])
				case 11:
					err = v.Retain(n, before[1:])
				case 12:
					err = v.Retain(n, append(kit.Dup2(before), before[0]))
				case 13:
					short := kit.Dup2(before)
					i := kit.Flat(rt, len(short), "i")
					short[i] = short[i][:kit.Int(rt, 0, 31, "len")]
					err = v.Retain(n, short)
				case 14:
					_, _, err = v.Evaluate(some, none, nil, some2, proof)
				case 15:
					_, _, err = v.Evaluate(some, n, kit.Ptr(beyond()), some2, proof)
				case 16:
					if err := v.Retain(n, before); err != nil {
						rt.Fatalf("Retain: %v", err)
					}
					if n == 1 {
						err = fmt.Errorf("no smaller tree")
						break
					}
					_, _, err = v.Evaluate(nil, n-1, nil, nil, nil)
				case 17:
					_, _, err = v.Evaluate([]uint64{n + kit.U64(rt, 0, 5, "over")}, n, nil, before[:1], proof)
				case 18:
					_, _, err = v.Evaluate(some, n, nil, append(some2, before[0]), proof)
				case 19:
					_, _, err = v.Evaluate(some, n, nil, some2, append(proof, before[0]))
				case 20:
					if len(proof) == 0 {
						err = fmt.Errorf("the proof is empty")
						break
					}
					_, _, err = v.Evaluate(some, n, nil, some2, proof[1:])
				}
			})
			if err == nil {
				rt.Fatalf("invalid request of kind %d was not rejected", kind)
			}
			w.append(1, 0) // the log still works
			w.checkQuery()
		}},
	)
}

func TestP02(t *testing.T) {
	kit.Run(t, "honest proofs (small and huge trees) with one or more manipulations of values, indices, proof elements, sizes, retained or forked subtrees; non-trivial: the manipulated input differs from the honest one and was evaluated",
		kit.Sub{Name: "tamper", Quick: 20000, Thorough: 600000, Prop: func(rt *rapid.T, c *kit.Case) {
			var w *logWorld
			if kit.Bool(rt, "huge") {
				w = newLogWorld(rt, c, kit.Size(rt, 1, 1<<50, "base"))
				w.append(kit.Int(rt, 0, 6, "k"), 0)
			} else {
				w = newLogWorld(rt, c, 0)
				w.append(kit.Int(rt, 1, 24, "k"), 0)
			}
			q := w.drawQuery()
			var retained [][]byte
			if q.m != nil {
				retained = kit.Dup2(w.model.FullSubtrees(*q.m))
			}
			values, proof := kit.Dup2(q.values), kit.Dup2(q.proof)
			entries := append([]uint64{}, q.entries...)
			n, nP, m := q.n, q.nP, q.m
			forged := func() []byte {
				// Either garbage, or a genuine value of some other node.
				if kit.Bool(rt, "genuine") {
					r := kit.Decompose(w.model.Size())
					x := kit.Pick(rt, r, "node")
					l := kit.Int(rt, 0, x.Level, "level")
					return w.model.Full(x.Start, l)
				}
				return kit.H32(77, uint64(kit.Int(rt, 0, 3, "garbage")))
			}
			for k := kit.Int(rt, 1, 3, "edits"); k > 0; k-- {
				kind := kit.Flat(rt, 12, "edit")
				c.Logf("edit %d", kind)
				switch kind {
				case 0:
					if len(values) > 0 {
						values[kit.Flat(rt, len(values), "i")] = forged()
					}
				case 1:
					if len(proof) > 0 {
						proof[kit.Flat(rt, len(proof), "i")] = forged()
					}
				case 2:
					if len(proof) > 1 {
						i, j := kit.Flat(rt, len(proof), "i"), kit.Flat(rt, len(proof), "j")
						proof[i], proof[j] = proof[j], proof[i]
					}
				case 3:
					if len(proof) > 0 {
						i := kit.Flat(rt, len(proof), "i")
						proof = append(proof[:i:i], proof[i+1:]...)
					}
				case 4:
					proof = append(proof, forged())
				case 5:
					if len(retained) > 0 {
						retained[kit.Flat(rt, len(retained), "i")] = forged()
					}
				case 6:
					if len(entries) > 0 {
						i := kit.Flat(rt, len(entries), "i")
						entries[i] = kit.U64(rt, 0, n-1, "x")
					}
				case 7:
					if len(values) > 1 {
						i, j := kit.Flat(rt, len(values), "i"), kit.Flat(rt, len(values), "j")
						values[i], values[j] = values[j], values[i]
					}
				case 8:
					nP = kit.Ptr(kit.Size(rt, 1, n, "nP'"))
				case 9:
					if m != nil {
						m = kit.Ptr(kit.Size(rt, 1, n, "m'"))
						f := kit.NewLogModel(w.model.Base, w.model.Uniform)
						f.Leaves = w.model.Leaves
						retained = kit.Dup2(f.FullSubtrees(*m))
					}
				case 10:
					// A verifier that lives on a fork.
					if m != nil {
						f := kit.NewLogModel(w.model.Size()-w.model.Size()%2, kit.H32(5, 5))
						for f.Size() < w.model.Size() {
							f.Leaves = append(f.Leaves, kit.H32(6, f.Size()))
						}
						retained = kit.Dup2(f.FullSubtrees(*m))
					}
				case 11:
					if len(values) > 0 {
						i := kit.Flat(rt, len(values), "i")
						values[i] = values[i][:kit.Int(rt, 0, 31, "len")]
					}
				}
			}
			var full, add [][]byte
			var err error
			kit.NoPanic(rt, "Verifier on a manipulated proof", func() {
				v := log.NewVerifier(w.cs)
				if m != nil {
					if err = v.Retain(*m, retained); err != nil {
						return
					}
				}
				full, add, err = v.Evaluate(entries, n, nP, values, proof)
			})
			if err != nil {
				c.Class("rejected")
				c.NonTrivial()
				return
			}
			// Nothing is missing from an accepted proof, and nothing is added.
			distinct := append([]uint64{}, entries...)
			slices.Sort(distinct)
			distinct = slices.Compact(distinct)
			want, err := w.tree.GetBatch(distinct, n, nP, m)
			if err != nil {
				rt.Fatalf("GetBatch(%v, n=%d, nP=%s, m=%s): %v", distinct, n, opt(nP), opt(m), err)
			}
			if len(want) != len(proof) {
				rt.Fatalf("a proof of %d elements is accepted where one has %d", len(proof), len(want))
			}
			root, err := log.Root(w.cs, n, full)
			if err != nil {
				rt.Fatalf("accepted proof has no root: %v", err)
			}
			if !bytes.Equal(root, w.model.Root(n)) {
				c.Class("other root")
				c.NonTrivial()
				return
			}
			c.Class("true root")
			if !kit.Equal2(full, w.model.FullSubtrees(n)) {
				rt.Fatalf("full subtrees differ from the true ones although the root is the true root")
			}
			for i, x := range entries {
				if !bytes.Equal(values[i], w.model.Leaf(x)) {
					rt.Fatalf("false leaf value accepted for entry %d under the true root", x)
				}
			}
			if m != nil && !kit.Equal2(retained, w.model.FullSubtrees(*m)) {
				rt.Fatalf("verifier that retained false subtrees of size %d accepted the true root of size %d", *m, n)
			}
			if nP != nil && !kit.Equal2(add, w.model.FullSubtrees(*nP)) {
				rt.Fatalf("false additional subtrees for size %d accepted under the true root", *nP)
			}
		}},
		kit.Sub{Name: "sizes", Quick: 5000, Thorough: 100000, Prop: func(rt *rapid.T, c *kit.Case) {
			// Inconsistent sizes and lengths: error, never a crash.
			w := newLogWorld(rt, c, 0)
			w.append(kit.Int(rt, 1, 24, "k"), 0)
			q := w.drawQuery()
			n := q.n
			v := log.NewVerifier(w.cs)
			if q.m != nil {
				if err := v.Retain(*q.m, w.model.FullSubtrees(*q.m)); err != nil {
					rt.Fatal(err)
				}
			}
			entries, values, proof, nP := q.entries, q.values, q.proof, q.nP
			kind := kit.Flat(rt, 6, "kind")
			c.Logf("kind %d", kind)
			mustFail := true
			switch kind {
			case 0: // smaller tree than the one retained
				if q.m == nil || *q.m < 2 {
					return
				}
				n = kit.U64(rt, 1, *q.m-1, "n'")
				entries, values, nP = nil, nil, nil
				proof = proof[:min(len(proof), kit.Int(rt, 0, 8, "plen"))]
			case 1:
				n = 0
			case 2:
				entries = append(append([]uint64{}, entries...), n+kit.U64(rt, 0, 3, "over"))
				values = append(append([][]byte{}, values...), kit.H32(1, 1))
			case 3:
				nP = kit.Ptr(n + 1 + kit.U64(rt, 0, 5, "over"))
			case 4:
				values = append(append([][]byte{}, values...), kit.H32(1, 1))
			case 5:
				n = kit.Size(rt, 1, 1<<63, "n'")
				mustFail = n < q.n && q.m != nil && n < *q.m
			}
			var err error
			kit.NoPanic(rt, "Verifier.Evaluate with inconsistent sizes", func() {
				_, _, err = v.Evaluate(entries, n, nP, values, proof)
			})
			if mustFail && err == nil {
				rt.Fatalf("inconsistent sizes accepted: kind %d n=%d nP=%s m=%s", kind, n, opt(nP), opt(q.m))
			}
			c.NonTrivial()
		}},
	)
}
