package props

import (
	"fmt"
	"math/bits"
	"sort"
	"testing"

	logmath "github.com/Bren2010/katie/tree/log/math"
	trmath "github.com/Bren2010/katie/tree/transparency/math"
	"pgregory.net/rapid"

	"verif/kit"
)

// span is a subtree given by the range of leaves (or entries) it covers.
type span struct{ lo, size uint64 }

func p2le(n uint64) uint64 { return 1 << (bits.Len64(n) - 1) } // greatest power of two <= n
func p2lt(n uint64) uint64 { return 1 << (bits.Len64(n-1) - 1) }

// Left-balanced Merkle tree: leaf i has id 2i, an inner node over [lo,lo+size)
// sits between its children.
func (s span) id() uint64 {
	if s.size == 1 {
		return 2 * s.lo
	}
	return 2*(s.lo+p2lt(s.size)) - 1
}
func (s span) kids() (l, r span) {
	k := p2lt(s.size)
	return span{s.lo, k}, span{s.lo + k, s.size - k}
}
func (s span) full() bool { return s.size&(s.size-1) == 0 }

// logPath lists the spans from the root of an n-leaf tree to node x.
func logPath(x, n uint64) []span {
	s := span{0, n}
	out := []span{s}
	for s.id() != x {
		l, r := s.kids()
		if x < s.id() {
			s = l
		} else {
			s = r
		}
		out = append(out, s)
	}
	return out
}

func (s span) fullParts() []uint64 {
	if s.full() {
		return []uint64{s.id()}
	}
	l, r := s.kids()
	return append(l.fullParts(), r.fullParts()...)
}

// Implicit search tree over [lo,lo+size).
func (s span) mid() uint64 { return s.lo + p2le(s.size) - 1 }

func treePath(x, n uint64) []span {
	s := span{0, n}
	out := []span{s}
	for s.mid() != x {
		m := s.mid()
		if x < m {
			s = span{s.lo, m - s.lo}
		} else {
			s = span{m + 1, s.lo + s.size - m - 1}
		}
		out = append(out, s)
	}
	return out
}

func refBatch(s span, targets []uint64, include map[uint64]bool) []uint64 {
	// targets: sorted node ids below (or at) s.
	if len(targets) == 0 {
		return s.fullParts()
	}
	if len(targets) == 1 && targets[0] == s.id() {
		if include[s.id()] {
			return []uint64{s.id()}
		}
		return nil
	}
	l, r := s.kids()
	var lt, rt []uint64
	for _, x := range targets {
		if x < s.id() {
			lt = append(lt, x)
		} else if x > s.id() {
			rt = append(rt, x)
		}
	}
	return append(refBatch(l, lt, include), refBatch(r, rt, include)...)
}

func eqs(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func TestP22(t *testing.T) {
	const max = uint64(1) << 63
	kit.Run(t, "nodes of trees of all magnitudes up to 2^63, compared with recursive definitions over leaf ranges; non-trivial: the size is not a power of two",
		kit.Sub{Name: "log", Quick: 100000, Thorough: 3000000, Prop: func(rt *rapid.T, c *kit.Case) {
			n := kit.Size(rt, 1, max, "n")
			if kit.Bool(rt, "small") {
				n = kit.U64(rt, 1, 70, "smallN")
			}
			x := kit.Size(rt, 0, 2*(n-1), "x")
			if kit.Bool(rt, "leaf") {
				x = 2 * kit.Size(rt, 0, n-1, "leafIndex")
			}
			c.Logf("n=%d x=%d", n, x)
			if n&(n-1) != 0 {
				c.NonTrivial()
			}
			bad := func(what string, got, want any) {
				rt.Fatalf("%s of node %d in a tree of %d leaves is %v, definition says %v", what, x, n, got, want)
			}
			path := logPath(x, n)
			self := path[len(path)-1]
			if got := logmath.Root(n); got != path[0].id() {
				bad("root", got, path[0].id())
			}
			// The level counts the full binary tree's levels.
			lvl := uint64(0)
			if self.size > 1 {
				lvl = uint64(bits.Len64(p2lt(self.size)))
			}
			if got := logmath.Level(x); got != lvl {
				bad("level", got, lvl)
			}
			if got := logmath.IsLeaf(x); got != (self.size == 1) {
				bad("leafness", got, !got)
			}
			if got := logmath.IsFullSubtree(x, n); got != self.full() {
				bad("fullness", got, self.full())
			}
			if self.size > 1 {
				l, r := self.kids()
				if got := logmath.Left(x); got != l.id() {
					bad("left child", got, l.id())
				}
				if got := logmath.Right(x, n); got != r.id() {
					bad("right child", got, r.id())
				}
			}
			var direct, copath []uint64
			for i := len(path) - 2; i >= 0; i-- {
				direct = append(direct, path[i].id())
				l, r := path[i].kids()
				if l == path[i+1] {
					copath = append(copath, r.id())
				} else {
					copath = append(copath, l.id())
				}
			}
			if len(direct) > 0 {
				if got := logmath.Parent(x, n); got != direct[0] {
					bad("parent", got, direct[0])
				}
				if got := logmath.Sibling(x, n); got != copath[0] {
					bad("sibling", got, copath[0])
				}
			}
			if got := logmath.DirectPath(x, n); !eqs(got, direct) {
				bad("direct path", got, direct)
			}
			if got := logmath.Copath(x, n); !eqs(got, copath) {
				bad("copath", got, copath)
			}
			if got := logmath.FullSubtrees(x, n); !eqs(got, self.fullParts()) {
				bad("full subtrees", got, self.fullParts())
			}
			// The chunk is the ancestor in the infinite tree at the next level
			// that is 3 modulo 4.
			top := lvl - lvl%4 + 3
			want := uint64(1)<<top - 1
			if top < 63 {
				want += x >> (top + 1) << (top + 1)
			}
			if got := logmath.Chunk(x); got != want {
				bad("chunk", got, want)
			}
		}},
		kit.Sub{Name: "batch", Quick: 60000, Thorough: 1500000, Prop: func(rt *rapid.T, c *kit.Case) {
			n := kit.Size(rt, 1, max, "n")
			if kit.Bool(rt, "small") {
				n = kit.U64(rt, 1, 40, "smallN")
			}
			leaves := kit.Subset(rt, n, 6, "leaves")
			var nP, m *uint64
			if kit.Bool(rt, "hasNP") {
				nP = kit.Ptr(kit.Size(rt, 1, n, "nP"))
			}
			if kit.Bool(rt, "hasM") {
				m = kit.Ptr(kit.Size(rt, 1, n, "m"))
			}
			targets, include := map[uint64]struct{}{}, map[uint64]bool{}
			for _, x := range leaves {
				targets[2*x] = struct{}{}
			}
			if nP != nil {
				for _, x := range (span{0, *nP}).fullParts() {
					targets[x] = struct{}{}
					include[x] = true
				}
			}
			if m != nil {
				for _, x := range (span{0, *m}).fullParts() {
					targets[x] = struct{}{}
				}
			}
			want := refBatch(span{0, n}, kit.SortedKeys(targets), include)
			shuffled := append([]uint64{}, leaves...)
			if kit.Bool(rt, "reverse") {
				sort.Slice(shuffled, func(i, j int) bool { return shuffled[i] > shuffled[j] })
			}
			var got []uint64
			kit.NoPanic(rt, "BatchCopath", func() { got = logmath.BatchCopath(shuffled, n, nP, m) })
			c.Logf("n=%d leaves=%v nP=%s m=%s", n, leaves, show(nP), show(m))
			if n&(n-1) != 0 {
				c.NonTrivial()
			}
			if !eqs(got, want) {
				rt.Fatalf("batch copath of leaves %v, additional size %s, previous size %s in a tree of %d is %v, definition says %v", leaves, show(nP), show(m), n, got, want)
			}
		}},
		kit.Sub{Name: "search tree", Quick: 100000, Thorough: 3000000, Prop: func(rt *rapid.T, c *kit.Case) {
			n := kit.Size(rt, 1, max, "n")
			if kit.Bool(rt, "small") {
				n = kit.U64(rt, 1, 70, "smallN")
			}
			x := kit.Size(rt, 0, n-1, "x")
			c.Logf("n=%d x=%d", n, x)
			if n&(n+1) != 0 {
				c.NonTrivial()
			}
			bad := func(what string, got, want any) {
				rt.Fatalf("%s of entry %d in a search tree of %d is %v, definition says %v", what, x, n, got, want)
			}
			path := treePath(x, n)
			self := path[len(path)-1]
			if got := trmath.Root(n); got != path[0].mid() {
				bad("root", got, path[0].mid())
			}
			// Whether the node has a left child does not depend on n.
			if got := trmath.IsLeaf(x); got != (self.lo == x) {
				bad("leafness", got, self.lo == x)
			}
			if self.lo < x {
				if got := trmath.Left(x); got != (span{self.lo, x - self.lo}).mid() {
					bad("left child", got, (span{self.lo, x - self.lo}).mid())
				}
				if end := self.lo + self.size; x+1 < end {
					r := span{x + 1, end - x - 1}
					if got := trmath.Right(x, n); got != r.mid() {
						bad("right child", got, r.mid())
					}
				}
			}
			var left, right []uint64
			for i := len(path) - 2; i >= 0; i-- {
				if a := path[i].mid(); a < x {
					left = append(left, a)
				} else {
					right = append(right, a)
				}
			}
			if len(path) > 1 {
				if got := trmath.Parent(x, n); got != path[len(path)-2].mid() {
					bad("parent", got, path[len(path)-2].mid())
				}
			}
			if got := trmath.LeftDirectPath(x); !eqs(got, left) {
				bad("left direct path", got, left)
			}
			if got := trmath.RightDirectPath(x, n); !eqs(got, right) {
				bad("right direct path", got, right)
			}
			if got := trmath.Frontier(n); !eqs(got, refFrontier(n)) {
				bad("frontier", got, refFrontier(n))
			}
			// Timestamps needed to move a view from size x to size n.
			var m *uint64
			if x > 0 {
				m = kit.Ptr(x)
			} else if kit.Bool(rt, "zero") {
				m = kit.Ptr(uint64(0))
			}
			var want []uint64
			if m == nil || *m == 0 {
				want = refFrontier(n)
			} else {
				// Right ancestors of the old last entry, then the frontier
				// below the topmost of them (or below the entry itself).
				last := x - 1
				p := treePath(last, n)
				for i := len(p) - 2; i >= 0; i-- {
					if p[i].mid() > last {
						want = append(want, p[i].mid())
					}
				}
				from := last
				if len(want) > 0 {
					from = want[len(want)-1]
				}
				for _, y := range refFrontier(n) {
					if y > from {
						want = append(want, y)
					}
				}
			}
			if got := trmath.UpdateView(n, m); !eqs(got, want) {
				bad(fmt.Sprintf("view update from %s", show(m)), got, want)
			}
		}},
	)
}
