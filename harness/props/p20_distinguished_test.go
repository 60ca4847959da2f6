package props

import (
	"fmt"
	"testing"

	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency/algorithms"
	"github.com/Bren2010/katie/tree/transparency/math"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"pgregory.net/rapid"

	"verif/kit"
)

// tsHandle serves timestamps from a function; everything else is out of scope.
type tsHandle struct {
	algorithms.ProofHandle
	ts   func(x uint64) uint64
	seen map[uint64]int
}

func (h *tsHandle) GetTimestamp(x uint64) (uint64, error) {
	h.seen[x]++
	return h.ts(x), nil
}

var _ prefix.PrefixSearchResult = fakeResult{}

// distinguishedSet is the definition: starting at the root of the implicit
// search tree with bounds 0 and the rightmost timestamp, a node is
// distinguished if the bounds are at least the window apart, and then its
// children are considered with its own timestamp as the inner bound.
func distinguishedSet(ts []uint64, n int, window uint64) map[int]bool {
	out := map[int]bool{}
	var rec func(lo, hi int, left, right uint64)
	rec = func(lo, hi int, left, right uint64) {
		if lo >= hi || right-left < window {
			return
		}
		x := lo + pow2Below(hi-lo) - 1
		out[x] = true
		rec(lo, x, left, ts[x])
		rec(x+1, hi, ts[x], right)
	}
	if n > 0 {
		rec(0, n, 0, ts[n-1])
	}
	return out
}

// pow2Below is the greatest power of two that is at most n.
func pow2Below(n int) int {
	p := 1
	for p*2 <= n {
		p *= 2
	}
	return p
}

func greatestBelow(set map[int]bool, n int) *uint64 {
	for x := n - 1; x >= 0; x-- {
		if set[x] {
			return kit.Ptr(uint64(x))
		}
	}
	return nil
}

func show(p *uint64) string {
	if p == nil {
		return "none"
	}
	return fmt.Sprint(*p)
}

func same(a, b *uint64) bool { return show(a) == show(b) }

// drawTimestamps draws a non-decreasing sequence with bursts and gaps.
func drawTimestamps(rt *rapid.T, n int, window uint64) []uint64 {
	ts := make([]uint64, n)
	cur := kit.Pick(rt, []uint64{0, window / 2, window - min(window, 1), window, 10 * window, 1 << 40}, "start")
	step := kit.Pick(rt, []uint64{1, 3, window/8 + 1, window/3 + 1, window, 2*window + 1}, "step")
	for i := range ts {
		add := uint64(0)
		switch kit.Flat(rt, 10, "gap") {
		case 0, 1:
		case 2:
			add = kit.U64(rt, 0, 3*window, "big")
		case 3:
			add = window
		case 4:
			add = window - min(window, 1)
		default:
			add = kit.U64(rt, 0, step, "small")
		}
		if cur+add < cur { // the end of time
			add = ^cur
		}
		cur += add
		ts[i] = cur
	}
	return ts
}

func plainConfig(window uint64) *structs.PublicConfig {
	return &structs.PublicConfig{Config: structs.Config{
		Suite: kit.FakeSuite{}, Mode: structs.ContactMonitoring,
		MaxAhead: 1 << 62, MaxBehind: 1 << 62, ReasonableMonitoringWindow: window,
	}}
}

func TestP20(t *testing.T) {
	provider := func(ts []uint64) *algorithms.DataProvider {
		return algorithms.NewDataProvider(kit.FakeSuite{}, &tsHandle{ts: func(x uint64) uint64 { return ts[x] }, seen: map[uint64]int{}})
	}
	kit.Run(t, "non-decreasing timestamp sequences with bursts and gaps around the monitoring window, compared at every size with the recursive definition; non-trivial: some but not all entries are distinguished",
		kit.Sub{Name: "definition", Quick: 20000, Thorough: 600000, Prop: func(rt *rapid.T, c *kit.Case) {
			window := kit.Pick(rt, []uint64{0, 1, 2, 7, 100, 86400000, 86400000, 1 << 63, 1<<64 - 1, 1<<64 - 1<<41}, "window")
			n := kit.Int(rt, 1, kit.Pick(rt, []int{4, 9, 17, 40, 70}, "max"), "n")
			ts := drawTimestamps(rt, n, window)
			cfg := plainConfig(window)
			prev := map[int]bool{}
			for size := 0; size <= n; size++ {
				set := distinguishedSet(ts, size, window)
				for x := range prev {
					if !set[x] {
						rt.Fatalf("entry %d was distinguished at size %d but not at %d", x, size-1, size)
					}
				}
				prev = set
				var got *uint64
				var err error
				kit.NoPanic(rt, "RightmostDistinguished", func() { got, err = algorithms.RightmostDistinguished(cfg, uint64(size), provider(ts)) })
				if want := greatestBelow(set, size); err != nil || !same(got, want) {
					rt.Fatalf("window %d, timestamps %v: rightmost distinguished entry of size %d is %s (%v), definition says %s", window, ts[:size], size, show(got), err, show(want))
				}
				if size == 0 {
					continue
				}
				kit.NoPanic(rt, "PreviousRightmost", func() { got, err = algorithms.PreviousRightmost(cfg, uint64(size), provider(ts)) })
				if want := greatestBelow(set, size-1); err != nil || !same(got, want) {
					rt.Fatalf("window %d, timestamps %v: previous rightmost distinguished entry of size %d is %s (%v), definition says %s", window, ts[:size], size, show(got), err, show(want))
				}
				if len(set) > 0 && len(set) < size {
					c.NonTrivial()
				}
			}
			c.Logf("window %d timestamps %v distinguished %d", window, ts, len(prev))
			c.Class(fmt.Sprintf("distinguished share %d/4", len(prev)*4/n))
		}},
		kit.Sub{Name: "large", Quick: 6000, Thorough: 200000, Prop: func(rt *rapid.T, c *kit.Case) {
			// Huge logs with a closed-form clock.
			n := kit.Size(rt, 1, 1<<63, "n")
			window := kit.Pick(rt, []uint64{1, 1000, 1 << 20, 1 << 35, 1 << 50}, "window")
			shift := kit.Int(rt, 0, 40, "shift")
			pivot := kit.U64(rt, 0, n-1, "pivot")
			jump := kit.Pick(rt, []uint64{0, window - 1, window, 3 * window}, "jump")
			f := func(x uint64) uint64 {
				v := x >> shift
				if x > pivot {
					v += jump
				}
				return v
			}
			isD := func(x uint64) bool {
				// Follow the path from the root to x.
				left, right := uint64(0), f(n-1)
				lo, hi := uint64(0), n
				for {
					if right-left < window {
						return false
					}
					k := uint64(1)
					for k <= (hi-lo)/2 {
						k *= 2
					}
					y := lo + k - 1
					switch {
					case y == x:
						return true
					case x < y:
						hi, right = y, f(y)
					default:
						lo, left = y+1, f(y)
					}
				}
			}
			cfg := plainConfig(window)
			mk := func() *algorithms.DataProvider {
				return algorithms.NewDataProvider(kit.FakeSuite{}, &tsHandle{ts: f, seen: map[uint64]int{}})
			}
			var r, p *uint64
			var err error
			kit.NoPanic(rt, "RightmostDistinguished", func() { r, err = algorithms.RightmostDistinguished(cfg, n, mk()) })
			if err != nil {
				rt.Fatalf("RightmostDistinguished: %v", err)
			}
			kit.NoPanic(rt, "PreviousRightmost", func() { p, err = algorithms.PreviousRightmost(cfg, n, mk()) })
			if err != nil {
				rt.Fatalf("PreviousRightmost: %v", err)
			}
			c.Logf("n=%d window=%d shift=%d pivot=%d jump=%d: %s %s", n, window, shift, pivot, jump, show(r), show(p))
			for _, x := range []*uint64{r, p} {
				if x != nil && !isD(*x) {
					rt.Fatalf("entry %d of %d is not distinguished", *x, n)
				}
			}
			if p != nil && *p == n-1 {
				rt.Fatalf("previous rightmost is the rightmost entry")
			}
			// Nothing to the right of the answers may be distinguished: try
			// the neighbours and everything on the frontier.
			probe := []uint64{n - 1, n - 1 - min(n-1, 1), n - 1 - min(n-1, 2)}
			for lo, hi := uint64(0), n; lo < hi; {
				k := uint64(1)
				for k <= (hi-lo)/2 {
					k *= 2
				}
				probe = append(probe, lo+k-1)
				lo += k
			}
			for i := 0; i < 8; i++ {
				base := uint64(0)
				if r != nil {
					base = *r
				}
				probe = append(probe, kit.U64(rt, base, n-1, "probe"))
				if p != nil {
					base = *p
				}
				probe = append(probe, kit.U64(rt, base, n-1, "probe"), min(n-1, base+uint64(i)))
			}
			for _, x := range probe {
				if !isD(x) {
					continue
				}
				if r == nil || x > *r {
					rt.Fatalf("entry %d is distinguished, but rightmost of %d is %s", x, n, show(r))
				}
				if x != n-1 && (p == nil || x > *p) {
					rt.Fatalf("entry %d is distinguished, but previous rightmost of %d is %s", x, n, show(p))
				}
			}
			if r != nil {
				c.NonTrivial()
			}
		}},
		kit.Sub{Name: "view", Quick: 15000, Thorough: 400000, Bubble: true, Prop: func(rt *rapid.T, c *kit.Case) {
			// Updating the view from size m to n leaves every frontier
			// timestamp of n known, without asking twice, and never asks for
			// one that was retained.
			window := kit.Pick(rt, []uint64{1, 7, 100}, "window")
			n := kit.Size(rt, 1, 1<<40, "n")
			var m *uint64
			if kit.Prob(rt, 80, "hasM") {
				m = kit.Ptr(kit.Size(rt, 1, n, "m"))
				if kit.Bool(rt, "close") {
					m = kit.Ptr(n - min(n-1, uint64(kit.Flat(rt, 12, "back"))))
				}
			}
			h := &tsHandle{ts: func(x uint64) uint64 { return x }, seen: map[uint64]int{}}
			dp := algorithms.NewDataProvider(kit.FakeSuite{}, h)
			retained := map[uint64]structs.LogEntry{}
			if m != nil {
				for _, x := range refFrontier(*m) {
					retained[x] = structs.LogEntry{Timestamp: x, PrefixTree: make([]byte, 32)}
				}
				dp.AddRetained(nil, retained)
			}
			cfg := plainConfig(window)
			var err error
			kit.NoPanic(rt, "UpdateView", func() { err = algorithms.UpdateView(cfg, n, m, dp) })
			if err != nil {
				rt.Fatalf("UpdateView(%d, %s): %v", n, show(m), err)
			}
			for x, k := range h.seen {
				if _, ok := retained[x]; ok || k > 1 || x >= n {
					rt.Fatalf("UpdateView(%d, %s) asked for entry %d (%d times, retained %v)", n, show(m), x, k, ok)
				}
			}
			for _, x := range refFrontier(n) {
				_, ok := retained[x]
				if h.seen[x] == 0 && !ok {
					rt.Fatalf("UpdateView(%d, %s) leaves frontier entry %d unknown", n, show(m), x)
				}
			}
			for _, x := range math.UpdateView(n, m) {
				if x >= n {
					rt.Fatalf("math.UpdateView(%d, %s) names entry %d", n, show(m), x)
				}
			}
			c.Logf("n=%d m=%s asked %d", n, show(m), len(h.seen))
			if m != nil && *m < n {
				c.NonTrivial()
			}
		}},
	)
}

// refFrontier is the path from the root to the last entry of the implicit
// search tree.
func refFrontier(n uint64) []uint64 {
	var out []uint64
	for lo := uint64(0); lo < n; {
		k := uint64(1)
		for k <= (n-lo)/2 {
			k *= 2
		}
		out = append(out, lo+k-1)
		lo += k
	}
	return out
}
