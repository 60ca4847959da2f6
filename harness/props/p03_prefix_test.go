package props

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/prefix"
	"pgregory.net/rapid"

	"verif/kit"
)

// keyPool yields keys (VRF outputs). Keys of one cluster share a drawn number
// of leading bits; some keys come in pairs that differ only very deep down.
type keyPool struct {
	shared int
	pairs  int
}

func drawPool(rt *rapid.T) keyPool {
	return keyPool{
		shared: kit.Pick(rt, []int{0, 0, 0, 3, 9, 30, 100, 236}, "shared"),
		pairs:  kit.Pick(rt, []int{0, 0, 12, 40, 150, 200, 247, 254}, "pairs"),
	}
}

func (p keyPool) key(id int) []byte {
	k := kit.H32(21, uint64(id))
	if p.pairs > 0 && id%2 == 1 {
		// Same leading bits as key id-1, different at bit p.pairs.
		base := p.key(id - 1)
		k = copyBits(k, base, p.pairs)
		if kit.Bit(k, p.pairs) == kit.Bit(base, p.pairs) {
			k[p.pairs/8] ^= 1 << (7 - p.pairs%8)
		}
		return k
	}
	cluster := kit.H32(22, uint64(id%3))
	return copyBits(k, cluster, p.shared)
}

func copyBits(dst, src []byte, n int) []byte {
	out := append([]byte{}, dst...)
	for i := 0; i < n; i++ {
		out[i/8] &^= 1 << (7 - i%8)
		out[i/8] |= src[i/8] & (1 << (7 - i%8))
	}
	return out
}

type prefixWorld struct {
	rt    *rapid.T
	c     *kit.Case
	cs    kit.FakeSuite
	pool  keyPool
	store *memory.PrefixStore
	tree  *prefix.Tree
	vers  []kit.PrefixModel // vers[i] is version i; vers[0] is empty
	roots [][]byte
	ctr   uint64
	max   int
}

func newPrefixWorld(rt *rapid.T, c *kit.Case, max int) *prefixWorld {
	w := &prefixWorld{rt: rt, c: c, pool: drawPool(rt), store: memory.NewPrefixStore(), max: max}
	w.tree = prefix.NewTree(w.cs, w.store)
	w.vers = []kit.PrefixModel{{}}
	w.roots = [][]byte{make([]byte, 32)}
	c.Logf("pool=%+v", w.pool)
	return w
}

func (w *prefixWorld) cur() (uint64, kit.PrefixModel) {
	v := len(w.vers) - 1
	return uint64(v), w.vers[v]
}

type prefixBatch struct {
	add    []prefix.Entry
	remove [][]byte
	after  kit.PrefixModel
	keys   map[string]bool
	both   int
}

// drawBatch draws a valid batch: additions of absent keys (or of keys removed
// in the same batch) and removals of present keys, in arbitrary order.
func (w *prefixWorld) drawBatch(maxAdd, removePct int) prefixBatch {
	rt := w.rt
	_, m := w.cur()
	b := prefixBatch{after: m.Clone(), keys: map[string]bool{}}
	for _, k := range m.Keys() {
		if removePct > 0 && kit.Prob(rt, removePct, "remove") {
			b.remove = append(b.remove, []byte(k))
			delete(b.after, k)
			b.keys[k] = true
		}
	}
	for i := kit.Int(rt, 0, maxAdd, "adds"); i > 0; i-- {
		id := kit.Flat(rt, w.max, "id")
		k := w.pool.key(id)
		if _, ok := b.after[string(k)]; ok {
			continue
		}
		if b.keys[string(k)] {
			b.both++
		}
		w.ctr++
		e := prefix.Entry{VrfOutput: k, Commitment: kit.H32(23, w.ctr)}
		b.add = append(b.add, e)
		b.after[string(k)] = e.Commitment
		b.keys[string(k)] = true
	}
	if len(b.remove) > 1 && kit.Bool(rt, "reverseRemovals") {
		for i, j := 0, len(b.remove)-1; i < j; i, j = i+1, j-1 {
			b.remove[i], b.remove[j] = b.remove[j], b.remove[i]
		}
	}
	return b
}

func (w *prefixWorld) apply(b prefixBatch) *prefix.PrefixProof {
	rt := w.rt
	ver, m := w.cur()
	addCopy := append([]prefix.Entry{}, b.add...)
	root, proof, commitments, err := w.tree.Mutate(ver, b.add, b.remove)
	if err != nil {
		rt.Fatalf("valid batch (+%d -%d, %d both) on version %d with %d keys rejected: %v", len(b.add), len(b.remove), b.both, ver, len(m), err)
	}
	w.c.Logf("mutate v%d +%d -%d both=%d", ver, len(b.add), len(b.remove), b.both)
	for i := range addCopy {
		if !bytes.Equal(addCopy[i].VrfOutput, b.add[i].VrfOutput) {
			rt.Fatalf("Mutate reordered its caller's additions")
		}
	}
	want := b.after.Root()
	if !bytes.Equal(root, want) {
		rt.Fatalf("root of version %d (%d keys, batch +%d -%d) is not the canonical root of its contents", ver+1, len(b.after), len(b.add), len(b.remove))
	}
	if len(commitments) != len(b.remove) {
		rt.Fatalf("%d removed commitments for %d removals", len(commitments), len(b.remove))
	}
	for i, k := range b.remove {
		if !bytes.Equal(commitments[i], m[string(k)]) {
			rt.Fatalf("removed commitment %d is not the one that was stored", i)
		}
	}
	w.vers = append(w.vers, b.after)
	w.roots = append(w.roots, want)
	return proof
}

// checkSearch searches several keys in several versions with one call.
func (w *prefixWorld) checkSearch() {
	rt := w.rt
	ver, _ := w.cur()
	if ver == 0 {
		return
	}
	var searches []prefix.PrefixSearch
	for i := kit.Int(rt, 1, 5, "searches"); i > 0; i-- {
		v := uint64(kit.Flat(rt, int(ver), "ver") + 1)
		if kit.Bool(rt, "recent") {
			v = ver - uint64(kit.Flat(rt, min(int(ver), 3), "back"))
		}
		s := prefix.PrefixSearch{Version: v}
		seen := map[string]bool{}
		keys := kit.Int(rt, 1, 6, "keys")
		if w.max > 255 && kit.Bool(rt, "wide") {
			keys = kit.Pick(rt, []int{100, 400, 800}, "many")
		}
		for j := keys; j > 0 && len(seen) < 255; j-- { // as many as an encoding holds
			k := w.pool.key(kit.Flat(rt, w.max+4, "key"))
			if !seen[string(k)] {
				seen[string(k)] = true
				s.VrfOutputs = append(s.VrfOutputs, k)
			}
		}
		searches = append(searches, s)
	}
	var res []prefix.SearchResult
	var err error
	kit.NoPanic(rt, "Search", func() { res, err = w.tree.Search(searches) })
	if err != nil {
		rt.Fatalf("search failed: %v", err)
	}
	if len(res) != len(searches) {
		rt.Fatalf("%d results for %d searches", len(res), len(searches))
	}
	for i, s := range searches {
		m := w.vers[s.Version]
		var entries []prefix.Entry
		if len(res[i].Commitments) != len(s.VrfOutputs) || len(res[i].Proof.Results) != len(s.VrfOutputs) {
			rt.Fatalf("result lengths do not match the search")
		}
		for j, k := range s.VrfOutputs {
			want, ok := m[string(k)]
			if res[i].Proof.Results[j].Inclusion() != ok || !bytes.Equal(res[i].Commitments[j], want) {
				rt.Fatalf("version %d, key %d of search %d: reported inclusion=%v commitment=%x, model says %v %x", s.Version, j, i, res[i].Proof.Results[j].Inclusion(), res[i].Commitments[j], ok, want)
			}
			if ok {
				w.c.Class("present")
			} else {
				w.c.Class("absent")
			}
			entries = append(entries, prefix.Entry{VrfOutput: k, Commitment: want})
		}
		// The proof also has to survive its own encoding.
		raw := &bytes.Buffer{}
		if err := res[i].Proof.Marshal(raw); err != nil {
			rt.Fatalf("honest proof does not encode: %v", err)
		}
		dec, err := prefix.NewPrefixProof(w.cs, raw)
		if err != nil || raw.Len() != 0 {
			rt.Fatalf("honest proof does not decode: %v (%d bytes left)", err, raw.Len())
		}
		for _, p := range []*prefix.PrefixProof{&res[i].Proof, dec} {
			if err := prefix.Verify(w.cs, entries, p, w.roots[s.Version]); err != nil {
				rt.Fatalf("honest proof for version %d rejected: %v", s.Version, err)
			}
			got, err := prefix.Evaluate(w.cs, entries, p)
			if err != nil || !bytes.Equal(got, w.roots[s.Version]) {
				rt.Fatalf("honest proof for version %d evaluates to another root (%v)", s.Version, err)
			}
		}
		if len(s.VrfOutputs) == 255 {
			w.c.Class("255 keys at once")
		}
	}
	w.c.Logf("search %d in versions of %d", len(searches), ver)
	if len(w.store.Data) > int(ver) {
		w.c.Class("multi-tile")
	}
	if ver >= 2 {
		w.c.NonTrivial()
	}
}

func (w *prefixWorld) reject() {
	rt := w.rt
	ver, m := w.cur()
	keys := m.Keys()
	kind := kit.Flat(rt, 7, "bad")
	fresh := func(i int) []byte { return kit.H32(29, uint64(i)) }
	b := w.drawBatch(3, 10)
	add, remove := b.add, b.remove
	switch kind {
	case 0:
		if len(keys) == 0 {
			return
		}
		k := []byte(kit.Pick(rt, keys, "dup"))
		for _, r := range remove {
			if bytes.Equal(r, k) {
				return
			}
		}
		add = append(add, prefix.Entry{VrfOutput: k, Commitment: fresh(1)})
	case 1:
		remove = append(remove, fresh(2))
	case 2:
		add = append(add, prefix.Entry{VrfOutput: fresh(3), Commitment: fresh(1)}, prefix.Entry{VrfOutput: fresh(3), Commitment: fresh(4)})
	case 3:
		if len(keys) == 0 {
			return
		}
		k := []byte(kit.Pick(rt, keys, "dup"))
		remove = append(append([][]byte{}, remove...), k, k)
	case 4:
		add = append(add, prefix.Entry{VrfOutput: fresh(3)[:kit.Int(rt, 0, 31, "len")], Commitment: fresh(1)})
	case 5:
		add = append(add, prefix.Entry{VrfOutput: fresh(3), Commitment: fresh(1)[:kit.Int(rt, 0, 31, "len")]})
	case 6:
		remove = append(remove, fresh(3)[:kit.Int(rt, 0, 31, "len")])
	}
	var err error
	before := fmt.Sprint(len(w.store.Data))
	kit.NoPanic(rt, "Mutate", func() { _, _, _, err = w.tree.Mutate(ver, add, remove) })
	if err == nil {
		rt.Fatalf("invalid batch of kind %d accepted", kind)
	}
	if before != fmt.Sprint(len(w.store.Data)) {
		rt.Fatalf("rejected batch of kind %d wrote to the store", kind)
	}
	w.c.Logf("rejected batch kind %d", kind)
	w.c.Class("rejected batch")
}

func TestP03(t *testing.T) {
	kit.Run(t, "histories of add/remove batches over a pool of keys with shared prefixes, searched in all versions; non-trivial: a multi-key search over a history of at least two versions",
		kit.Sub{Name: "history", Quick: 4000, Thorough: 100000, Prop: func(rt *rapid.T, c *kit.Case) {
			w := newPrefixWorld(rt, c, kit.Pick(rt, []int{6, 20, 60, 200}, "poolSize"))
			removePct := kit.Pick(rt, []int{0, 5, 30, 80}, "removePct")
			for i := kit.Int(rt, 1, 12, "rounds"); i > 0; i-- {
				if kit.Prob(rt, 15, "reject") {
					w.reject()
				}
				w.apply(w.drawBatch(kit.Pick(rt, []int{1, 3, 12, 40}, "maxAdd"), removePct))
				w.checkSearch()
			}
			w.checkSearch()
		}},
		kit.Sub{Name: "large", Quick: 160, Thorough: 4000, Prop: func(rt *rapid.T, c *kit.Case) {
			// Trees of many tiles: large batches, then small ones on top.
			w := newPrefixWorld(rt, c, 3000)
			for i := kit.Int(rt, 1, 3, "bulk"); i > 0; i-- {
				_, m := w.cur()
				b := prefixBatch{after: m.Clone()}
				off := kit.Flat(rt, 1000, "offset")
				for j := kit.Int(rt, 50, 400, "n"); j > 0; j-- {
					k := w.pool.key(off + j)
					if _, ok := b.after[string(k)]; ok {
						continue
					}
					w.ctr++
					e := prefix.Entry{VrfOutput: k, Commitment: kit.H32(23, w.ctr)}
					b.add = append(b.add, e)
					b.after[string(k)] = e.Commitment
				}
				w.apply(b)
				w.checkSearch()
			}
			for i := kit.Int(rt, 1, 8, "small"); i > 0; i-- {
				w.apply(w.drawBatch(4, kit.Pick(rt, []int{0, 1, 3}, "removePct")))
				w.checkSearch()
			}
			if len(w.store.Data) > 30 {
				c.Class(">30 tiles")
			}
		}},
		kit.Sub{Name: "canonical", Quick: 1500, Thorough: 30000, Prop: func(rt *rapid.T, c *kit.Case) {
			// Two different histories towards the same contents.
			w1 := newPrefixWorld(rt, c, 40)
			w2 := &prefixWorld{rt: rt, c: c, pool: w1.pool, store: memory.NewPrefixStore(), max: 40}
			w2.tree = prefix.NewTree(w2.cs, w2.store)
			w2.vers = []kit.PrefixModel{{}}
			w2.roots = [][]byte{make([]byte, 32)}
			for _, w := range []*prefixWorld{w1, w2} {
				for i := kit.Int(rt, 1, 5, "rounds"); i > 0; i-- {
					w.apply(w.drawBatch(10, 30))
				}
			}
			// Bring w2 to w1's contents in one batch.
			_, target := w1.cur()
			ver, m := w2.cur()
			var add []prefix.Entry
			var remove [][]byte
			for _, k := range m.Keys() {
				if v, ok := target[k]; !ok || !bytes.Equal(v, m[k]) {
					remove = append(remove, []byte(k))
				}
			}
			for _, k := range target.Keys() {
				if v, ok := m[k]; !ok || !bytes.Equal(v, target[k]) {
					add = append(add, prefix.Entry{VrfOutput: []byte(k), Commitment: target[k]})
				}
			}
			root, _, _, err := w2.tree.Mutate(ver, add, remove)
			if err != nil {
				rt.Fatalf("conversion batch rejected: %v", err)
			}
			if !bytes.Equal(root, w1.roots[len(w1.roots)-1]) {
				rt.Fatalf("same contents, different roots")
			}
			c.NonTrivial()
		}},
	)
}
