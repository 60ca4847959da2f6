package props

import (
	"errors"
	"testing"

	"github.com/Bren2010/katie/tree/transparency/algorithms"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"pgregory.net/rapid"

	. "verif/kit"
)

func TestP09(t *testing.T) {
	Run(t, "the log has at least 4 entries and one client verified at least 2 search responses, one of them with retained state",
		Sub{Name: "journeys", Quick: 12000, Thorough: 300000, Bubble: true, Prop: propJourneys},
		Sub{Name: "long", Quick: 240, Thorough: 6000, Bubble: true, Prop: propLongLog},
	)
}

// isAbsent says whether err tells that a version does not exist.
func isAbsent(err error) bool {
	return errors.Is(err, algorithms.ErrLabelNotFound) || errors.Is(err, algorithms.ErrLabelExpired)
}

// mustFind says whether a fixed-version search has to succeed: nothing in the
// log is expired, or some unexpired distinguished entry is before the version's
// creation (so the repository's own tests pin it).
func mustFind(w *World, v Ver) bool { return mustFindAt(w, v, w.N()) }

func mustFindAt(w *World, v Ver, n uint64) bool {
	ts := w.Timestamps()[:n]
	last := ts[len(ts)-1]
	expired := func(x uint64) bool {
		return w.Config.MaximumLifetime > 0 && last-ts[x] >= w.Config.MaximumLifetime
	}
	if !expired(0) {
		return true
	}
	for x := range Distinguished(ts, w.Config.ReasonableMonitoringWindow) {
		if x < v.Pos && !expired(x) {
			return true
		}
	}
	return false
}

// searchOnce makes one honest search over the wire and checks its outcome.
func searchOnce(rt *rapid.T, c *Case, w *World, u *User, label []byte, ver *uint32) (accepted bool) {
	vs := w.Labels[string(label)]
	before := u.DB.Dump()
	var req *structs.SearchRequest
	var verify func(*structs.SearchResponse) error
	var err error
	NoPanic(rt, "making a search request", func() {
		if ver == nil {
			c.Logf("%s: search %s", u.Name, Short(label))
			r, v, e := u.C.GreatestVersionSearch(Dup(label))
			req, verify, err = r, v, e
		} else {
			c.Logf("%s: search %s v%d", u.Name, Short(label), *ver)
			r, v, e := u.C.FixedVersionSearch(Dup(label), *ver)
			req, verify, err = r, v, e
		}
	})
	if err != nil {
		rt.Fatalf("making a search request failed: %v", err)
	}
	target := uint32(max(len(vs)-1, 0))
	if ver != nil {
		target = *ver
	}
	exists := int64(target) < int64(len(vs))
	res, err := w.AskSearch(rt, w.Tree, req)
	if err != nil {
		if errors.Is(err, algorithms.ErrLabelExpired) && ver != nil && (!exists || !mustFind(w, vs[target])) {
			c.Class("server says expired")
			return false
		}
		rt.Fatalf("the server refuses an honest search (%q, version %v of %d): %v", label, ver, len(vs), err)
	}
	NoPanic(rt, "verifying a search response", func() { err = verify(res) })
	if !exists {
		if !isAbsent(err) {
			rt.Fatalf("searching for a version that does not exist (%q, %d of %d) is answered with %v instead of a proof of absence", label, target, len(vs), err)
		}
		if u.DB.Dump() != before {
			rt.Fatalf("a search that found nothing changed the client's state")
		}
		c.Class("absent")
		return false
	}
	if isAbsent(err) && ver != nil && !mustFind(w, vs[target]) {
		c.Class("expired")
		return false
	}
	if err != nil {
		rt.Fatalf("the client rejects an honest search response (%q, version %v of %d): %v", label, ver, len(vs), err)
	}
	if ver == nil && (res.Version == nil || *res.Version != target) {
		rt.Fatalf("the accepted response gives %v as the greatest version of %q, it is %d", res.Version, label, target)
	}
	v := vs[target]
	if string(res.Value.Value) != string(v.Value) {
		rt.Fatalf("the accepted response gives %q for version %d of %q, which is %q", res.Value.Value, target, label, v.Value)
	}
	if st := u.State(rt); st == nil || st.TreeHead.TreeSize != w.N() {
		rt.Fatalf("the client accepted a response for the log of size %d but retains %+v", w.N(), st)
	}
	w.CheckUser(rt, u)
	if before != u.DB.Dump() {
		c.Class("state advanced")
	} else {
		c.Class("same head")
	}
	return true
}

// drawVersion draws a version to ask for, existing or not.
func pickVersion(rt *rapid.T, n int) *uint32 {
	switch Flat(rt, 8, "which version") {
	case 0, 1, 2:
		return nil
	case 3:
		return Ptr(uint32(n))
	case 4:
		return Ptr(Pick(rt, []uint32{1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1, 63, 64, uint32(n + 1), uint32(2*n + 1)}, "odd version"))
	default:
		return Ptr(uint32(Int(rt, 0, max(n-1, 0), "version")))
	}
}

// monitorOnce makes the client monitor one label, if it wants to.
func monitorOnce(rt *rapid.T, c *Case, w *World, u *User) (asked bool) {
	st := u.State(rt)
	if st == nil {
		return false
	}
	if RightmostDLE(Distinguished(w.Timestamps()[:st.TreeHead.TreeSize], w.Config.ReasonableMonitoringWindow), st.TreeHead.TreeSize) < 0 {
		return false
	}
	var req structs.Marshaller
	var verify func(structs.Marshaller) error
	var err error
	NoPanic(rt, "Monitor", func() {
		r, v, e := u.C.Monitor()
		req, verify, err = r, v, e
	})
	if err != nil {
		rt.Fatalf("making a monitoring request failed: %v", err)
	}
	if req == nil {
		return false
	}
	c.Logf("%s: monitor", u.Name)
	res, err := w.AskMonitor(rt, w.Tree, req)
	if err != nil {
		rt.Fatalf("the server refuses an honest monitoring request (%+v): %v", req, err)
	}
	NoPanic(rt, "verifying a monitoring response", func() { err = verify(res) })
	MustAccept(rt, "monitoring", err)
	w.CheckUser(rt, u)
	return true
}

func drawUsers(rt *rapid.T, w *World, max int) []*User {
	n := Int(rt, 1, max, "users")
	var out []*User
	for i := 0; i < n; i++ {
		out = append(out, w.NewUser(rt, string(rune('A'+i))))
	}
	return out
}

func propJourneys(rt *rapid.T, c *Case) {
	w := NewWorld(rt, c, Opts{Real: 6, Stores: []string{"tx", "tx", "tx", "memory"}})
	users := drawUsers(rt, w, 3)
	w.Grow(rt, c, 5)
	accepted := map[*User]int{}
	withState := false
	steps := Int(rt, 6, 30, "steps")
	for i := 0; i < steps; i++ {
		switch Flat(rt, 12, "step") {
		case 0, 1, 2:
			w.Grow(rt, c, 6)
		case 3:
			// Remove a label.
			w.Tick(rt, c)
			b := drawBatch(rt, w, true)
			if _, err := w.Mutate(rt, c, b); err != nil {
				rt.Fatalf("an allowed mutation failed: %v", err)
			}
			w.KeepAudited(rt)
		case 4:
			w.Reopen(rt)
		case 5:
			u := Pick(rt, users, "user")
			u.Restart(rt)
		case 6:
			u := Pick(rt, users, "user")
			for k := 0; k < 3 && monitorSafe(rt, c, w, u); k++ {
			}
		default:
			u := Pick(rt, users, "user")
			label := Pick(rt, w.Pool, "label")
			if Prob(rt, 8, "unknown") {
				label = []byte("nobody")
			}
			if w.Gone[string(label)] {
				if settled(w, string(label)) {
					c.Class("removed label")
					if u.Label(rt, label) != nil { // it may be about removed versions
						u = w.NewUser(rt, "N")
					}
					if searchOnce(rt, c, w, u, label, nil) {
						c.Class("label removed and added again")
					}
				}
				continue
			}
			had := u.DB.State != nil
			if searchOnce(rt, c, w, u, label, pickVersion(rt, len(w.Labels[string(label)]))) {
				accepted[u]++
				if had {
					withState = true
				}
			}
		}
	}
	for _, u := range users {
		if accepted[u] >= 2 && withState && w.N() >= 4 {
			c.NonTrivial()
		}
	}
}

// settled says whether the removal of a label is covered by a distinguished log
// entry: entries from the rightmost one on agree about the label's versions.
func settled(w *World, label string) bool {
	d := RightmostDLE(Distinguished(w.Timestamps(), w.Config.ReasonableMonitoringWindow), w.N())
	return d >= 0 && settledFrom(w, label, uint64(d))
}

// settledFrom says whether the entries from d on, and others, agree about a
// label.
func settledFrom(w *World, label string, d uint64, others ...uint64) bool {
	now := w.Labels[label]
	for x := d; x < w.N(); x++ {
		others = append(others, x)
	}
	for _, x := range others {
		vs := w.History[x][label]
		if len(vs) > len(now) {
			return false
		}
		for i, v := range vs {
			if v.Pos != now[i].Pos {
				return false
			}
		}
	}
	return true
}

// monitorSafe monitors unless the client still watches a label that was
// removed, for which monitoring must fail.
func monitorSafe(rt *rapid.T, c *Case, w *World, u *User) bool {
	for l := range u.DB.Labels {
		if w.Gone[l] {
			return false
		}
	}
	return monitorOnce(rt, c, w, u)
}

// propLongLog searches a log of some hundred entries.
func propLongLog(rt *rapid.T, c *Case) {
	w := NewWorld(rt, c, Opts{Windows: []uint64{1, 10, 1000}})
	u := w.NewUser(rt, "A")
	n := Int(rt, 20, 300, "entries")
	if Thorough() {
		n = Int(rt, 20, 1500, "entries")
	}
	label := w.Pool[0]
	step := 0
	accepted := 0
	for w.N() < uint64(n) {
		k := Int(rt, 1, 1+n/3, "run")
		for j := 0; j < k && w.N() < uint64(n); j++ {
			b := Batch{}
			if step++; step%7 == 0 || w.N() == 0 {
				b.Add = w.DrawAdds(rt, 3, nil)
			}
			w.Sleep(c, uint64(step%5)*w.Config.ReasonableMonitoringWindow/3)
			if _, err := w.Mutate(rt, c, b); err != nil {
				rt.Fatalf("a mutation failed: %v", err)
			}
		}
		w.KeepAudited(rt)
		for j := 0; j < 3; j++ {
			if searchOnce(rt, c, w, u, Pick(rt, append(w.Pool, label), "label"), pickVersion(rt, len(w.Labels[string(label)]))) {
				accepted++
			}
		}
		monitorSafe(rt, c, w, u)
	}
	if accepted >= 3 {
		c.NonTrivial()
	}
}
