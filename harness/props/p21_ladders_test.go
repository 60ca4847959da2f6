package props

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency/math"
	"pgregory.net/rapid"

	"verif/kit"
)

type fakeResult struct{ in bool }

func (r fakeResult) Inclusion() bool           { return r.in }
func (r fakeResult) Depth() int                { return 0 }
func (r fakeResult) Marshal(buf *bytes.Buffer) {}

// refLadder is the ladder's definition in unbounded arithmetic.
func refLadder(t uint64) []uint64 {
	out := []uint64{}
	for k := 0; ; k++ {
		v := uint64(1)<<k - 1
		out = append(out, v)
		if v > t {
			break
		}
	}
	lo, hi := out[len(out)-2], out[len(out)-1]
	for lo+1 < hi {
		v := (lo + hi) / 2
		out = append(out, v)
		if v <= t {
			lo = v
		} else {
			hi = v
		}
	}
	return out
}

func drawVersion(rt *rapid.T, label string) uint32 {
	if kit.Bool(rt, label+"/small") {
		return kit.U32(rt, 0, 70, label)
	}
	return uint32(kit.Size(rt, 0, 1<<32-1, label))
}

func sign(a, b int64) int {
	if a < b {
		return -1
	} else if a > b {
		return 1
	}
	return 0
}

func proofOf(in []bool) *prefix.PrefixProof {
	p := &prefix.PrefixProof{}
	for _, x := range in {
		p.Results = append(p.Results, fakeResult{x})
	}
	return p
}

const maxU32 = int64(1<<32 - 1)

func TestP21(t *testing.T) {
	kit.Run(t, "target and greatest versions over all of 32 bits with consistent sets of omitted lookups; non-trivial: target above 3",
		kit.Sub{Name: "decide", Quick: 60000, Thorough: 2000000, Prop: func(rt *rapid.T, c *kit.Case) {
			tgt := drawVersion(rt, "target")
			var g int64
			switch kit.Flat(rt, 4, "greatest") {
			case 0:
				g = int64(drawVersion(rt, "g"))
			case 1:
				g = int64(tgt)
			case 2:
				g = int64(tgt) + int64(kit.Int(rt, -3, 3, "near"))
			default:
				l := refLadder(uint64(tgt))
				g = int64(l[kit.Flat(rt, len(l), "rung")]) + int64(kit.Int(rt, -1, 1, "near"))
			}
			g = max(-1, min(g, maxU32))
			// Versions already shown to the left exist here too, and versions
			// absent to the right are absent here too.
			left, right := map[uint32]struct{}{}, map[uint32]struct{}{}
			gl := min(g, int64(tgt)) - int64(kit.Int(rt, 0, 5, "gl"))
			gr := max(g, int64(tgt)) + int64(kit.Int(rt, 0, 5, "gr"))
			for _, v := range refLadder(uint64(tgt)) {
				if int64(v) <= gl && kit.Bool(rt, "omitLeft") {
					left[uint32(v)] = struct{}{}
				}
				if int64(v) > gr && int64(v) <= maxU32 && kit.Bool(rt, "omitRight") {
					right[uint32(v)] = struct{}{}
				}
			}
			var full, client, server []uint32
			kit.NoPanic(rt, "SearchBinaryLadder", func() {
				full = math.SearchBinaryLadder(tgt, tgt, nil, nil)
				client = math.SearchBinaryLadder(tgt, tgt, left, right)
				if g < 0 {
					server = []uint32{0}
				} else {
					server = math.SearchBinaryLadder(tgt, uint32(g), left, right)
				}
			})
			c.Logf("target %d greatest %d omit %d+%d lookups %v", tgt, g, len(left), len(right), server)
			if tgt > 3 {
				c.NonTrivial()
			}
			if len(full) > 66 {
				rt.Fatalf("ladder for %d has %d steps", tgt, len(full))
			}
			want := refLadder(uint64(tgt))
			if int64(tgt) < maxU32 && fmt.Sprint(full) != fmt.Sprint(want) {
				rt.Fatalf("ladder for %d is %v, definition says %v", tgt, full, want)
			}
			if len(server) > len(client) || (g >= 0 && fmt.Sprint(server) != fmt.Sprint(client[:len(server)])) {
				rt.Fatalf("target %d, greatest %d: lookups %v are not a prefix of what the verifier expects %v", tgt, g, server, client)
			}
			for _, v := range server {
				_, l := left[v]
				_, r := right[v]
				if l || r {
					rt.Fatalf("omitted lookup %d repeated", v)
				}
			}
			if g < 0 {
				return
			}
			in := make([]bool, len(server))
			for i, v := range server {
				in[i] = int64(v) <= g
			}
			var res int
			var err error
			kit.NoPanic(rt, "InterpretSearchLadder", func() { res, err = math.InterpretSearchLadder(client, tgt, proofOf(in)) })
			if err != nil || res != sign(g, int64(tgt)) {
				rt.Fatalf("target %d, greatest %d, lookups %v (omitted %v %v): interpreted as %d (%v)", tgt, g, server, left, right, res, err)
			}
			c.Class(fmt.Sprint("outcome ", res))
		}},
		kit.Sub{Name: "sound", Quick: 60000, Thorough: 2000000, Prop: func(rt *rapid.T, c *kit.Case) {
			// Arbitrary answers: if they are accepted with an outcome, then
			// every greatest version that fits the answers has that outcome.
			tgt := drawVersion(rt, "target")
			left, right := map[uint32]struct{}{}, map[uint32]struct{}{}
			lo, hi := int64(-1), maxU32+1 // greatest included, least absent
			for _, v := range refLadder(uint64(tgt)) {
				if int64(v) <= int64(tgt) && kit.Prob(rt, 15, "omitLeft") {
					left[uint32(v)] = struct{}{}
					lo = max(lo, int64(v))
				} else if int64(v) > int64(tgt) && int64(v) <= maxU32 && kit.Prob(rt, 15, "omitRight") {
					right[uint32(v)] = struct{}{}
					hi = min(hi, int64(v))
				}
			}
			ladder := math.SearchBinaryLadder(tgt, tgt, left, right)
			k := len(ladder) + kit.Pick(rt, []int{0, 0, 0, -1, 1}, "len")
			cut := kit.Flat(rt, len(ladder)+2, "cut")
			in := make([]bool, max(0, k))
			for i := range in {
				if i < len(ladder) {
					in[i] = ladder[i] <= tgt
				}
				if i == cut {
					in[i] = !in[i]
					if kit.Bool(rt, "stop") {
						in = in[:i+1]
						break
					}
				}
			}
			var res int
			var err error
			kit.NoPanic(rt, "InterpretSearchLadder", func() { res, err = math.InterpretSearchLadder(ladder, tgt, proofOf(in)) })
			c.Logf("target %d ladder %v answers %v: %d %v", tgt, ladder, in, res, err)
			if tgt > 3 {
				c.NonTrivial()
			}
			if err != nil {
				c.Class("refused")
				return
			}
			if len(in) > len(ladder) {
				rt.Fatalf("accepted more answers than lookups")
			}
			c.Class(fmt.Sprint("outcome ", res))
			for i, x := range in {
				if x != (ladder[i] <= tgt) && i+1 < len(in) {
					rt.Fatalf("target %d: answers %v to %v are accepted although the lookup of %d ends the ladder", tgt, in, ladder, ladder[i])
				}
				if x {
					lo = max(lo, int64(ladder[i]))
				} else {
					hi = min(hi, int64(ladder[i]))
				}
			}
			if lo >= hi {
				return // contradictory answers; no greatest version fits
			}
			for _, g := range []int64{lo, hi - 1} {
				if sign(g, int64(tgt)) != res {
					rt.Fatalf("target %d: answers %v to %v accepted as %d, but greatest version %d fits them", tgt, in, ladder, res, g)
				}
			}
		}},
		kit.Sub{Name: "monitoring", Quick: 30000, Thorough: 500000, Prop: func(rt *rapid.T, c *kit.Case) {
			tgt := drawVersion(rt, "target")
			var got []uint32
			kit.NoPanic(rt, "MonitoringBinaryLadder", func() { got = math.MonitoringBinaryLadder(tgt) })
			var want []uint32
			for _, v := range refLadder(uint64(tgt)) {
				if v <= uint64(tgt) {
					want = append(want, uint32(v))
				}
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				rt.Fatalf("monitoring ladder for %d is %v, definition says %v", tgt, got, want)
			}
			c.Logf("target %d", tgt)
			if tgt > 3 {
				c.NonTrivial()
			}
		}},
		kit.Sub{Name: "tracker", Quick: 20000, Thorough: 400000, Prop: func(rt *rapid.T, c *kit.Case) {
			// Both sides of a search derive the same omissions from what was
			// exchanged before, and the omissions are justified.
			tgt := drawVersion(rt, "target")
			var srv, cli math.VersionTracker
			lo, hi := uint64(0), uint64(1)<<30
			type known struct {
				pos uint64
				v   uint32
				in  bool
			}
			var log []known
			for i := kit.Int(rt, 1, 6, "steps"); i > 0 && lo < hi; i-- {
				x := kit.U64(rt, lo, hi-1, "pos")
				g := int64(tgt) + int64(kit.Int(rt, -2, 2, "g"))
				g = max(0, min(g, maxU32))
				omit := kit.Prob(rt, 85, "omit")
				l, r := srv.SearchMaps(x, omit)
				l2, r2 := cli.SearchMaps(x, omit)
				if fmt.Sprint(l, r) != fmt.Sprint(l2, r2) {
					rt.Fatalf("the two sides disagree about omissions at %d", x)
				}
				for v := range l {
					ok := false
					for _, k := range log {
						ok = ok || (k.in && k.v == v && k.pos < x)
					}
					if !ok {
						rt.Fatalf("lookup %d omitted at %d without inclusion to the left", v, x)
					}
				}
				for v := range r {
					ok := false
					for _, k := range log {
						ok = ok || (!k.in && k.v == v && k.pos > x)
					}
					if !ok {
						rt.Fatalf("lookup %d omitted at %d without non-inclusion to the right", v, x)
					}
				}
				ladder := math.SearchBinaryLadder(tgt, uint32(g), l, r)
				in := make([]bool, len(ladder))
				for j, v := range ladder {
					in[j] = int64(v) <= g
					if omit {
						log = append(log, known{x, v, in[j]})
					}
				}
				if omit {
					for _, k := range log {
						_, a := l[k.v]
						_, b := r[k.v]
						if k.pos < x && k.in && !a || k.pos > x && !k.in && !b {
							rt.Fatalf("known lookup %d not offered for omission at %d", k.v, x)
						}
					}
				}
				srv.AddLadder(x, omit, int(g), ladder)
				cli.AddResults(x, omit, ladder, proofOf(in).Results)
				if g < int64(tgt) {
					lo = x + 1
				} else {
					hi = x
				}
				c.Logf("at %d g=%d omit=%v: %v", x, g, omit, ladder)
			}
			c.NonTrivial()
		}},
	)
}
