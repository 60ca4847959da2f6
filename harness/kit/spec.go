package kit

import (
	"fmt"
	"slices"

	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"pgregory.net/rapid"
)

// This file is a second description of the protocol's algorithms: which
// timestamps, binary ladders and prefix roots the proof of an honest response
// has to contain, from the definitions and the model of the log only.

// BaseLadder are the versions that decide which version is the greatest if it
// is t: 0, 1, 3, 7, ... up to the first that is greater, then a bisection of
// what lies between the last two.
func BaseLadder(t uint32) []uint32 {
	var out []uint32
	lo, hi := int64(-1), int64(-1)
	for k := uint(0); ; k++ {
		v := int64(1)<<k - 1
		if v > 1<<32-1 {
			return out
		}
		out = append(out, uint32(v))
		if v > int64(t) {
			hi = v
			break
		}
		lo = v
	}
	for hi-lo > 1 {
		mid := (lo + hi) / 2
		out = append(out, uint32(mid))
		if mid <= int64(t) {
			lo = mid
		} else {
			hi = mid
		}
	}
	return out
}

// Lookups are the searches of one prefix proof: in the prefix tree of entry
// Pos, for the versions Vers.
type Lookups struct {
	Pos  uint64
	Vers []uint32
}

// Spec collects what a proof should contain.
type Spec struct {
	w     *World
	label string
	n     uint64
	dles  map[uint64]bool
	ts    []uint64

	kept   map[uint64]bool // entries the client retains
	Stamps []uint64
	Proofs []Lookups

	// Versions whose presence or absence was proven in a chain of ladders.
	present, missing map[uint64][]uint32
}

// Spine are the entries on the right edge of the search tree of n entries.
func Spine(n uint64) []uint64 {
	var out []uint64
	lo := uint64(0)
	for lo < n {
		p := uint64(1)
		for p*2 <= n-lo {
			p *= 2
		}
		out = append(out, lo+p-1)
		lo += p
	}
	return out
}

// pathTo is the path from the root of the search tree of n entries to x.
func pathTo(x, n uint64) []uint64 {
	var out []uint64
	lo, hi := uint64(0), n
	for lo < hi {
		p := uint64(1)
		for p*2 <= hi-lo {
			p *= 2
		}
		y := lo + p - 1
		out = append(out, y)
		if y == x {
			break
		} else if y > x {
			hi = y
		} else {
			lo = y + 1
		}
	}
	return out
}

func (w *World) newSpec(label []byte, n uint64, last *uint64) *Spec {
	s := &Spec{w: w, label: string(label), n: n, dles: w.DLEsAt(n), ts: w.Timestamps()[:n], kept: map[uint64]bool{},
		present: map[uint64][]uint32{}, missing: map[uint64][]uint32{}}
	if last != nil {
		for _, x := range Spine(*last) {
			s.kept[x] = true
		}
	}
	// Updating the view: the entries to the right of the last one known that
	// are its ancestors, then the right edge from there.
	if last == nil {
		for _, x := range Spine(n) {
			s.stamp(x)
		}
		return s
	}
	top := *last - 1
	for _, x := range RightPath(top, n) {
		s.stamp(x)
		top = x
	}
	for _, x := range Spine(n) {
		if x > top {
			s.stamp(x)
		}
	}
	return s
}

func (s *Spec) stamp(x uint64) {
	if !s.kept[x] && !slices.Contains(s.Stamps, x) {
		s.Stamps = append(s.Stamps, x)
	}
}

// greatest is the greatest version in entry x, -1 if there is none.
func (s *Spec) greatest(x uint64) int { return len(s.w.History[x][s.label]) - 1 }

// ladder is a search binary ladder for version t in entry x; it says how the
// greatest version there compares to t.
func (s *Spec) ladder(x uint64, t uint32, chained bool) int {
	s.stamp(x)
	g := s.greatest(x)
	skip := func(v uint32) bool {
		if !chained {
			return false
		}
		for p, vs := range s.present {
			if p < x && slices.Contains(vs, v) {
				return true
			}
		}
		for p, vs := range s.missing {
			if p > x && slices.Contains(vs, v) {
				return true
			}
		}
		return false
	}
	l := Lookups{Pos: x}
	for _, v := range BaseLadder(t) {
		if !skip(v) {
			l.Vers = append(l.Vers, v)
		}
		if there := int64(v) <= int64(g); there != (v <= t) {
			break
		}
	}
	s.Proofs = append(s.Proofs, l)
	for _, v := range l.Vers {
		if !chained {
			break
		} else if int64(v) <= int64(g) {
			s.present[x] = append(s.present[x], v)
		} else {
			s.missing[x] = append(s.missing[x], v)
		}
	}
	switch {
	case int64(g) < int64(t):
		return -1
	case int64(g) > int64(t):
		return 1
	}
	return 0
}

func (s *Spec) lookUp(x uint64, vers []uint32) {
	if len(vers) > 0 {
		s.stamp(x)
		s.Proofs = append(s.Proofs, Lookups{x, vers})
	}
}

// greatestSearch looks at the right edge from the rightmost distinguished entry.
func (s *Spec) greatestSearch() {
	t := uint32(max(0, s.greatest(s.n-1)))
	from := RightmostDLE(s.dles, s.n)
	for _, x := range Spine(s.n) {
		if int64(x) >= from {
			s.ladder(x, t, true)
		}
	}
}

// fixedSearch bisects the search tree.
func (s *Spec) fixedSearch(t uint32) {
	life := s.w.Config.MaximumLifetime
	terminal := int64(-1)
	lo, hi := uint64(0), s.n
	for lo < hi {
		p := uint64(1)
		for p*2 <= hi-lo {
			p *= 2
		}
		x := lo + p - 1
		s.stamp(x)
		if life > 0 && s.ts[s.n-1]-s.ts[x] >= life {
			lo = x + 1
			continue
		}
		switch s.ladder(x, t, true) {
		case -1:
			lo = x + 1
		case 1:
			terminal, hi = int64(x), x
		default:
			return
		}
	}
	if terminal >= 0 {
		s.lookUp(uint64(terminal), []uint32{t})
	}
}

// descend demands the distinguished entries on the way to x, other than x.
func (s *Spec) descend(x uint64) (first *uint64) {
	for _, y := range pathTo(x, s.n) {
		if !s.dles[y] {
			return &y
		} else if y != x {
			s.stamp(y)
		}
	}
	return nil
}

// contact monitors the pointers of a map, from the right.
func (s *Spec) contact(entries []structs.MonitorMapEntry, owner *uint64) {
	seen := map[uint64]bool{}
	entries = slices.Clone(entries)
	slices.SortFunc(entries, func(a, b structs.MonitorMapEntry) int {
		if a.Position > b.Position {
			return -1
		}
		return 1
	})
	for _, e := range entries {
		s.descend(e.Position)
		if s.dles[e.Position] {
			continue
		}
		for _, y := range RightPath(e.Position, s.n) {
			if s.dles[y] && owner != nil && e.Position >= *owner {
				break // owner monitoring looks there
			}
			if seen[y] {
				break // a greater version was looked for there
			}
			seen[y] = true
			var vers []uint32
			for _, v := range BaseLadder(e.Version) {
				if v <= e.Version {
					vers = append(vers, v)
				}
			}
			s.stamp(y)
			s.Proofs = append(s.Proofs, Lookups{y, vers})
			if s.dles[y] {
				break
			}
		}
	}
}

// ownerMonitor looks at the distinguished entries after start in order, until
// there is a version the owner does not know or there are limit prefix proofs
// (how much fits one response is the server's choice, but there is some progress).
func (s *Spec) ownerMonitor(start uint64, known, limit int) {
	limit = max(limit, len(s.Proofs)+1)
	stopped := false
	var walk func(lo, hi uint64)
	walk = func(lo, hi uint64) {
		if lo >= hi {
			return
		}
		p := uint64(1)
		for p*2 <= hi-lo {
			p *= 2
		}
		x := lo + p - 1
		if !s.dles[x] {
			return
		}
		if x <= start {
			if x+1 < hi {
				s.stamp(x)
				walk(x+1, hi)
			}
			return
		}
		if lo < x {
			s.stamp(x)
			walk(lo, x)
		}
		g := s.greatest(x)
		if stopped = stopped || len(s.Proofs) >= limit || g > known; stopped {
			return
		}
		s.ladder(x, uint32(max(0, g)), false)
		walk(x+1, hi)
	}
	walk(0, s.n)
}

// LeftOfStart are the entries on the way to start, in a log of size n, that are
// to its left.
func LeftOfStart(start, n uint64) (xs []uint64) {
	for _, y := range pathTo(start, n) {
		if y < start {
			xs = append(xs, y)
		}
	}
	return
}

// init looks at the start and the unexpired entries on the way to it that are
// to its left, from the right; it returns the versions there.
func (s *Spec) init(start uint64) (versions []uint32) {
	life := s.w.Config.MaximumLifetime
	var xs []uint64
	for _, y := range pathTo(start, s.n) {
		s.stamp(y)
		if y <= start && !(life > 0 && s.ts[s.n-1]-s.ts[y] >= life) {
			xs = append(xs, y)
		}
	}
	slices.Reverse(xs)
	for _, x := range xs {
		if g := s.greatest(x); g >= 0 {
			versions = append(versions, uint32(g))
		}
	}
	for i, x := range xs {
		t := uint32(0)
		if i < len(versions) {
			t = versions[i]
		}
		s.ladder(x, t, false)
	}
	return
}

// update proves that count versions were added in entry pos, and that none of
// those was there before. The last version before was added at lastUpdate.
func (s *Spec) update(pos uint64, before, count int, lastUpdate uint64) {
	end := uint32(before + count)
	if first := s.descend(pos - 1); first != nil {
		// The entries of the old tree's right edge from there.
		x := *first
		spine := Spine(pos)
		lo, _ := subtree(x, s.n)
		for x > pos-1 {
			x = rootOf(lo, x)
		}
		for i, y := range spine {
			if y < x {
				continue
			}
			known := func(v uint32) bool { return false }
			if y == x && i > 0 {
				g := s.greatest(spine[i-1])
				known = func(v uint32) bool { return int64(v) <= int64(g) }
			} else if y > x {
				known = func(v uint32) bool { return int64(v) <= int64(before) }
			}
			if y > lastUpdate {
				l := Lookups{Pos: y}
				if before < 0 {
					l.Vers = []uint32{0}
				} else {
					for _, v := range BaseLadder(uint32(before)) {
						if !known(v) {
							l.Vers = append(l.Vers, v)
						}
					}
				}
				s.stamp(y)
				s.Proofs = append(s.Proofs, l)
			}
		}
		if before >= 0 {
			for _, v := range BaseLadder(uint32(before)) {
				if int64(v) <= int64(before) {
					s.present[0] = append(s.present[0], v) // all of them to the left of pos
				}
			}
		}
	}
	if s.descend(pos) != nil {
		s.ladder(pos, end, true)
	}
	var more []uint32
	for v := uint32(before + 1); v <= end; v++ {
		if !slices.Contains(BaseLadder(end), v) {
			more = append(more, v)
		}
	}
	s.lookUp(pos, more)
}

// subtree is the range of entries below x.
func subtree(x, n uint64) (lo, hi uint64) {
	hi = n
	for {
		y := rootOf(lo, hi)
		if y == x {
			return
		} else if y > x {
			hi = y
		} else {
			lo = y + 1
		}
	}
}

func rootOf(lo, hi uint64) uint64 {
	p := uint64(1)
	for p*2 <= hi-lo {
		p *= 2
	}
	return lo + p - 1
}

// CheckProof compares an honest response with what it has to contain.
func (w *World) CheckProof(rt *rapid.T, p *Pending, res structs.Marshaller) *Spec {
	n := TreeSize(res, p.Last())
	s := w.newSpec(p.Label, n, p.Last())
	var ladder []uint32                            // versions in the response's binary ladder
	commit := func(v uint32) bool { return false } // of which the commitment is given
	var steps []structs.BinaryLadderStep
	switch r := res.(type) {
	case *structs.SearchResponse:
		g := s.greatest(n - 1)
		t := uint32(max(0, g))
		if p.Ver != nil {
			t = *p.Ver
			s.fixedSearch(t)
		} else {
			s.greatestSearch()
			if r.Version == nil || *r.Version != t {
				rt.Fatalf("%s is answered with version %v, the greatest is %d", p, r.Version, t)
			}
		}
		ladder, steps = BaseLadder(t), r.BinaryLadder
		commit = func(v uint32) bool {
			if v == t || int64(v) > int64(g) {
				return false
			}
			if v < t {
				return true
			}
			for _, l := range s.Proofs {
				if slices.Contains(l.Vers, v) && int64(v) <= int64(s.greatest(l.Pos)) {
					return true
				}
			}
			return false
		}
	case *structs.ContactMonitorResponse:
		s.contact(p.Mon.(*structs.ContactMonitorRequest).Entries, nil)
	case *structs.OwnerMonitorResponse:
		req := p.Mon.(*structs.OwnerMonitorRequest)
		known := -1
		if req.GreatestVersion != nil {
			known = int(*req.GreatestVersion)
		}
		s.contact(req.Entries, &req.Start)
		s.ownerMonitor(req.Start, known, len(r.Monitor.PrefixProofs))
	case *structs.OwnerInitResponse:
		vs := s.init(p.Init.Start)
		if !slices.Equal(vs, r.GreatestVersions) {
			rt.Fatalf("%s from %d is answered with versions %v, they are %v", p, p.Init.Start, r.GreatestVersions, vs)
		}
		set := map[uint32]bool{0: true}
		for _, t := range vs {
			for _, v := range BaseLadder(t) {
				set[v] = true
			}
		}
		for v := range set {
			ladder = append(ladder, v)
		}
		slices.Sort(ladder)
		steps = r.BinaryLadder
		commit = func(v uint32) bool { return int64(v) <= int64(s.greatest(p.Init.Start)) }
	case *structs.UpdateResponse:
		vs := w.Labels[s.label]
		before := 0
		for before < len(vs) && vs[before].Pos < r.Position {
			before++
		}
		lastUpdate := uint64(0)
		if before > 0 {
			lastUpdate = vs[before-1].Pos
		}
		s.update(r.Position, before-1, len(r.Info), lastUpdate)
		steps = r.BinaryLadder
		end := uint32(before + len(r.Info) - 1)
		known := BaseLadder(uint32(max(0, before-1)))
		if before == 0 {
			known = []uint32{0}
		}
		for _, v := range BaseLadder(end) {
			if !slices.Contains(known, v) {
				ladder = append(ladder, v)
			}
		}
		for v := uint32(before); v < end; v++ {
			if !slices.Contains(known, v) && !slices.Contains(ladder, v) {
				ladder = append(ladder, v)
			}
		}
		slices.Sort(ladder)
		commit = func(v uint32) bool { return int64(v) < int64(before) }
	}
	what := fmt.Sprintf("%s in a log of size %d (knowing %s)", p, n, showLast(p.Last()))

	pf := Proof(res)
	var want []uint64
	for _, x := range s.Stamps {
		want = append(want, s.ts[x])
	}
	if !slices.Equal(pf.Timestamps, want) {
		rt.Fatalf("%s: the proof has the timestamps %v, those of entries %v are due: %v", what, pf.Timestamps, s.Stamps, want)
	}
	if len(pf.PrefixProofs) != len(s.Proofs) {
		rt.Fatalf("%s: %d prefix proofs, due are %v", what, len(pf.PrefixProofs), s.Proofs)
	}
	rooted := map[uint64]bool{}
	for i, l := range s.Proofs {
		rooted[l.Pos] = true
		at := w.Entries[l.Pos].Prefix
		var there []bool
		var entries []prefix.Entry
		for _, v := range l.Vers {
			vrf := w.Vrf([]byte(s.label), v)
			com, ok := at[string(vrf)]
			there = append(there, ok)
			entries = append(entries, prefix.Entry{VrfOutput: vrf, Commitment: com})
		}
		var got []bool
		for _, r := range pf.PrefixProofs[i].Results {
			got = append(got, r.Inclusion())
		}
		if !slices.Equal(got, there) {
			rt.Fatalf("%s: prefix proof %d shows %v, due is a lookup of %v in entry %d, which shows %v (all: %v)", what, i, got, l.Vers, l.Pos, there, s.Proofs)
		}
		if len(entries) == 0 {
			continue
		}
		root, err := prefix.Evaluate(w.Config.Suite, entries, &pf.PrefixProofs[i])
		if err != nil || string(root) != string(at.Root()) {
			rt.Fatalf("%s: prefix proof %d is not one for versions %v in entry %d: %v (all: %v)", what, i, l.Vers, l.Pos, err, s.Proofs)
		}
	}
	var roots [][]byte
	stamps := slices.Clone(s.Stamps)
	slices.Sort(stamps)
	for _, x := range stamps {
		if !rooted[x] {
			roots = append(roots, w.Entries[x].Prefix.Root())
		}
	}
	if !Equal2(pf.PrefixRoots, roots) {
		rt.Fatalf("%s: %d prefix roots, those of the %d entries of %v without a ladder (%v) are due", what, len(pf.PrefixRoots), len(roots), stamps, s.Proofs)
	}

	if len(steps) != len(ladder) {
		rt.Fatalf("%s: the binary ladder has %d steps, due are those for %v", what, len(steps), ladder)
	}
	for i, v := range ladder {
		out, err := w.Config.VrfKey.PublicKey().Verify(VrfInput([]byte(s.label), v), steps[i].Proof)
		if err != nil || string(out) != string(w.Vrf([]byte(s.label), v)) {
			rt.Fatalf("%s: step %d of the binary ladder does not prove the output for version %d: %v", what, i, v, err)
		}
		due := ""
		if commit(v) {
			due = string(w.Labels[s.label][v].Commitment)
		}
		if string(steps[i].Commitment) != due {
			rt.Fatalf("%s: step %d of the binary ladder (version %d) has the commitment %x, due is %x", what, i, v, steps[i].Commitment, due)
		}
	}
	return s
}

func showLast(last *uint64) string {
	if last == nil {
		return "nothing"
	}
	return fmt.Sprint(*last)
}
