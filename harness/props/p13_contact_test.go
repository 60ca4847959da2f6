package props

import (
	"fmt"
	"slices"
	"testing"

	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/math"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"pgregory.net/rapid"

	. "verif/kit"
)

func TestP13(t *testing.T) {
	Run(t, "a client verified at least 2 monitoring responses, at least one of which moved or ended the monitoring of a version, on a log of at least 4 entries; or a manipulated log or response was judged at least 3 times",
		Sub{Name: "watchers", Quick: 12000, Thorough: 300000, Bubble: true, Prop: propWatchers},
		Sub{Name: "owners", Quick: 4000, Thorough: 100000, Bubble: true, Prop: propOwnLookups},
		Sub{Name: "pace", Quick: 8000, Thorough: 250000, Bubble: true, Prop: propPace},
		Sub{Name: "dropped", Quick: 6000, Thorough: 200000, Bubble: true, Prop: propDropped},
	)
}

// checkLookup says that a version that was just looked up is either covered by
// a distinguished entry or will be monitored.
func checkLookup(rt *rapid.T, w *World, u *User, label []byte, target uint32) {
	if w.Config.Mode != structs.ContactMonitoring {
		if st := u.Label(rt, label); st != nil && st.Owner == nil {
			rt.Fatalf("%s retains contact monitoring state for %q although there is a third party", u.Name, label)
		}
		return
	}
	n := u.State(rt).TreeHead.TreeSize
	pos := w.History[n-1][string(label)][target].Pos
	if RightmostDLE(w.DLEsAt(n), n) >= int64(pos) {
		return
	}
	if st := u.Label(rt, label); st != nil {
		for _, e := range st.Contact {
			if e.Version >= target && e.Position >= pos {
				return
			}
		}
	}
	rt.Fatalf("%s looked up version %d of %q, which is not covered by a distinguished entry at size %d, but does not monitor it", u.Name, target, label, n)
}

// monitorAll monitors until the client wants no more, and checks each step.
// Labels in behind may be monitored without success.
func monitorAll(rt *rapid.T, c *Case, w *World, u *User, rounds int) (accepted, moved int) {
	limit := rounds
	if rounds < 0 {
		limit = 10 + 2*len(u.DB.Labels) + int(w.N())
	}
	for k := 0; k < limit; k++ {
		st := u.State(rt)
		if st == nil || RightmostDLE(w.DLEsAt(st.TreeHead.TreeSize), st.TreeHead.TreeSize) < 0 {
			return
		}
		p := u.StartMonitor(rt)
		if p == nil && u.Err != nil {
			rt.Fatalf("%s can not make a monitoring request although it knows a distinguished entry: %v", u.Name, u.Err)
		} else if p == nil {
			dle := RightmostDLE(w.DLEsAt(st.TreeHead.TreeSize), st.TreeHead.TreeSize)
			for l := range u.DB.Labels {
				ls := u.Label(rt, []byte(l))
				top := uint64(0)
				for _, e := range ls.Contact {
					top = max(top, e.Position)
				}
				if ls.Owner == nil && int64(top) <= dle {
					rt.Fatalf("%s wants no monitoring although %v of %q can be covered by entry %d", u.Name, ls.Contact, l, dle)
				} else if ls.Owner != nil && int64(top) <= dle && int64(ls.Owner.Starting) < dle {
					rt.Fatalf("%s wants no monitoring although it owns %q since %d and there is a later distinguished entry %d", u.Name, l, ls.Owner.Starting, dle)
				}
			}
			return
		}
		before := u.Label(rt, p.Label)
		c.Logf("%s", p)
		dle := RightmostDLE(w.DLEsAt(st.TreeHead.TreeSize), st.TreeHead.TreeSize)
		useful := before.Owner != nil && int64(before.Owner.Starting) < dle
		for _, e := range before.Contact {
			useful = useful || int64(e.Position) <= dle
		}
		if !useful {
			rt.Fatalf("%s wants to monitor %q again although nothing is new: %v, %+v, rightmost distinguished entry %d", u.Name, p.Label, before.Contact, before.Owner, dle)
		}
		res, err := p.Ask(rt, w, w.Tree)
		if err != nil {
			rt.Fatalf("the server refuses an honest monitoring request (%s, %v): %v", p, before.Contact, err)
		}
		MustAccept(rt, p.String(), p.Verify(rt, res))
		w.CheckUser(rt, u)
		w.CheckMonitored(rt, u, p.Label, before)
		w.CheckOwner(rt, u, p.Label)
		accepted++
		c.Class("monitored")
		after := u.Label(rt, p.Label)
		if after == nil || len(after.Contact) < len(before.Contact) || len(after.Contact) > 0 && after.Contact[0] != before.Contact[0] {
			moved++
			c.Class("monitored: moved or ended")
		}
		if n := u.State(rt).TreeHead.TreeSize; n != w.N() {
			rt.Fatalf("%s verified a response for size %d and retains %d", u.Name, w.N(), n)
		}
	}
	if rounds < 0 {
		state := ""
		for l := range u.DB.Labels {
			ls := u.Label(rt, []byte(l))
			state += fmt.Sprintf("%s@%d %v %+v (%d versions); ", Short([]byte(l)), u.DB.Labels[l].Terminal, ls.Contact, ls.Owner, len(w.Labels[l]))
		}
		rt.Fatalf("%s still wants monitoring after %d rounds on the same log of size %d with distinguished entries %v: %s", u.Name, limit, w.N(), SortedKeys(w.DLEs()), state)
	}
	return
}

const epoch0 = 946684800000 + 5 // the first entries are not distinguished

// growSlowly lets several entries be added within one monitoring window.
func growSlowly(rt *rapid.T, c *Case, w *World) {
	for k := 1 + Flat(rt, 3, "entries"); k > 0; k-- {
		if Prob(rt, 25, "tick") {
			w.Tick(rt, c)
		} else {
			w.Sleep(c, U64(rt, 0, w.Config.ReasonableMonitoringWindow/6, "ms"))
		}
		if _, err := w.Mutate(rt, c, Batch{Add: w.DrawAdds(rt, 4, nil)}); err != nil {
			rt.Fatalf("a mutation of only additions failed: %v", err)
		}
	}
	w.KeepAudited(rt)
}

func propWatchers(rt *rapid.T, c *Case) {
	w := NewWorld(rt, c, Opts{Real: 4, Stores: []string{"tx", "tx", "tx", "memory"},
		Windows: []uint64{7, 1000, 1000, 86400000, 86400000, 86400000, 300000000000, epoch0},
		Modes:   []structs.DeploymentMode{structs.ContactMonitoring, structs.ContactMonitoring, structs.ContactMonitoring, structs.ContactMonitoring, structs.ContactMonitoring, structs.ThirdPartyAuditing, structs.ThirdPartyManagement}})
	users := drawUsers(rt, w, 3)
	for _, u := range users {
		u.DB.Stale = func(l []string) int { return Flat(rt, len(l), "stale") }
	}
	w.Stretch(rt, c)
	w.Grow(rt, c, 5)
	accepted, moved := 0, 0
	for i := 8 + Flat(rt, 40, "steps"); i > 0; i-- {
		switch Flat(rt, 12, "step") {
		case 0, 1, 2:
			growSlowly(rt, c, w)
		case 3:
			w.Reopen(rt)
		case 4:
			Pick(rt, users, "user").Restart(rt)
		case 5:
			// Remove a label that nobody watches.
			label := Pick(rt, w.Pool, "label")
			watched := !w.RemovalAllowed(label) || len(w.Labels[string(label)]) == 0
			for _, u := range users {
				if _, ok := u.DB.Labels[string(label)]; ok {
					watched = true
				}
			}
			if !watched {
				if _, err := w.Mutate(rt, c, Batch{Remove: [][]byte{label}}); err != nil {
					rt.Fatalf("an allowed removal failed: %v", err)
				}
				w.KeepAudited(rt)
			}
		case 6, 7:
			rounds := -1
			if Bool(rt, "few") {
				rounds = Int(rt, 1, 2, "rounds")
			}
			a, m := monitorAll(rt, c, w, Pick(rt, users, "user"), rounds)
			accepted, moved = accepted+a, moved+m
		default:
			u := Pick(rt, users, "user")
			label := Pick(rt, w.Pool, "label")
			for k := 0; k < 3 && (w.Gone[string(label)] || len(w.Labels[string(label)]) == 0); k++ {
				label = Pick(rt, w.Pool, "label")
			}
			ver := pickVersion(rt, len(w.Labels[string(label)]))
			if w.Gone[string(label)] {
				// Whoever has a state for the label got it after the removal.
				if !settled(w, string(label)) {
					continue
				}
				ver = nil
				c.Class("label removed and added again")
			}
			if searchOnce(rt, c, w, u, label, ver) {
				target := uint32(len(w.Labels[string(label)]) - 1)
				if ver != nil {
					target = *ver
				}
				checkLookup(rt, w, u, label, target)
			}
		}
	}
	a, m := coverAll(rt, c, w, users)
	accepted, moved = accepted+a, moved+m
	if accepted >= 2 && moved > 0 && w.N() >= 4 {
		c.NonTrivial()
	}
}

// coverAll lets enough time pass for everything to be covered by distinguished
// entries, and checks that monitoring ends then.
func coverAll(rt *rapid.T, c *Case, w *World, users []*User) (accepted, moved int) {
	last := []byte("last label")
	v := DrawValue(rt)
	if _, err := w.Mutate(rt, c, Batch{Add: []transparency.LabelValue{{Label: last, Value: structs.UpdateValue{Value: v, UpdateSuffix: structs.UpdateSuffix{Signature: w.Sign(rt, last, 0, v)}}}}}); err != nil {
		rt.Fatalf("an addition failed: %v", err)
	}
	for _, u := range users {
		if u.State(rt) == nil {
			continue
		}
		for k := 0; k < 3; k++ {
			w.Sleep(c, w.Config.ReasonableMonitoringWindow)
			if _, err := w.Mutate(rt, c, Batch{}); err != nil {
				rt.Fatalf("an empty mutation failed: %v", err)
			}
			w.KeepAudited(rt)
		}
		// Only a search that finds something moves the client's view on.
		searchOnce(rt, c, w, u, last, nil)
		a, m := monitorAll(rt, c, w, u, -1)
		accepted, moved = accepted+a, moved+m
		a, m = monitorAll(rt, c, w, u, -1)
		accepted, moved = accepted+a, moved+m
		dle := RightmostDLE(w.DLEs(), w.N())
		for l := range u.DB.Labels {
			contact := u.Label(rt, []byte(l)).Contact
			for _, e := range contact {
				// Monitoring is due when all of a label's entries can be covered.
				// (Time may have stood still, at the end of the clock's range.)
				if int64(e.Position) <= dle && int64(contact[len(contact)-1].Position) <= dle {
					rt.Fatalf("%s still monitors %+v of %q although %d is distinguished", u.Name, e, l, dle)
				}
			}
		}
	}
	return
}

// propOwnLookups makes the clients that look labels up also own some of them
// and make updates, which can be far newer than the entry that is monitored.
func propOwnLookups(rt *rapid.T, c *Case) {
	s := drawOwners(rt, c, Opts{Real: 3, Stores: []string{"tx", "tx", "tx", "memory"},
		Windows: []uint64{1000, 1000, 86400000, 86400000, 86400000, 300000000000},
		Modes:   []structs.DeploymentMode{structs.ContactMonitoring, structs.ContactMonitoring, structs.ContactMonitoring, structs.ThirdPartyAuditing}})
	moved := 0
	for i := 8 + Flat(rt, 24, "steps"); i > 0; i-- {
		var owned []string
		for l, o := range s.owner {
			if o != nil {
				owned = append(owned, l)
			}
		}
		slices.Sort(owned)
		if len(owned) == 0 || Bool(rt, "any") {
			s.step(rt, c)
			continue
		}
		label := []byte(Pick(rt, owned, "owned"))
		u := s.owner[string(label)]
		switch Flat(rt, 4, "own") {
		case 0:
			s.grow(rt, c)
		case 1:
			s.verify += s.update(rt, c, u, label, DrawValues(rt, 3))
		case 2:
			if ver := pickVersion(rt, len(s.w.Labels[string(label)])); searchOnce(rt, c, s.w, u, label, ver) {
				target := uint32(len(s.w.Labels[string(label)]) - 1)
				if ver != nil {
					target = *ver
				}
				checkLookup(rt, s.w, u, label, target)
			}
		case 3:
			a, m := monitorAll(rt, c, s.w, u, Pick(rt, []int{1, 1, 2, -1}, "rounds"))
			s.verify, moved = s.verify+a, moved+m
		}
	}
	a, m := coverAll(rt, c, s.w, s.users)
	if s.inits > 0 && a+s.verify >= 2 && m+moved > 0 && s.w.N() >= 4 {
		c.NonTrivial()
	}
}

// checkWatched says that every version that a client monitored was there, with
// the value the client saw, in all entries that an accepted monitoring
// response is about, and so were the lower versions that are looked up with it.
// It returns whether there was anything to detect.
func checkWatched(rt *rapid.T, w *World, u *User, label []byte, before *structs.ClientLabelState, n uint64, accepted bool) (missing bool) {
	seen := map[uint64]bool{}
	for i := len(before.Contact) - 1; i >= 0; i-- {
		e := before.Contact[i]
		path, _ := w.Inspected(e.Position, n)
		vs := w.History[e.Position][string(label)]
		for _, y := range path {
			if seen[y] {
				break // only a greater version is looked up there
			}
			seen[y] = true
			for _, ver := range math.MonitoringBinaryLadder(e.Version) {
				if v := vs[ver]; string(w.Entries[y].Prefix[string(v.Vrf)]) != string(v.Commitment) {
					if accepted {
						rt.Fatalf("%s monitors version %d of %q at %d and accepted a response for size %d, but version %d is not in entry %d", u.Name, e.Version, label, e.Position, n, ver, y)
					}
					missing = true
				}
			}
		}
	}
	return
}

func propDropped(rt *rapid.T, c *Case) {
	w := NewWorld(rt, c, Opts{Stores: []string{"tx"}, Modes: []structs.DeploymentMode{structs.ContactMonitoring}, NoExpiry: true,
		Windows: []uint64{1000, 86400000, 86400000, 300000000000}})
	u := w.NewUser(rt, "A")
	w.Stretch(rt, c)
	w.Grow(rt, c, 5)
	for i := 3 + Flat(rt, 8, "steps"); i > 0; i-- {
		if Flat(rt, 3, "step") == 0 {
			growSlowly(rt, c, w)
		} else {
			label := Pick(rt, w.Pool, "label")
			if n := len(w.Labels[string(label)]); n > 0 {
				searchOnce(rt, c, w, u, label, Pick(rt, []*uint32{nil, nil, Ptr(uint32(Flat(rt, n, "version")))}, "which"))
			}
		}
	}
	var watched []string
	for l := range u.DB.Labels {
		watched = append(watched, l)
	}
	if len(watched) == 0 {
		return
	}
	slices.Sort(watched)
	label := []byte(Pick(rt, watched, "watched"))
	u.DB.Stale = func(ls []string) int { return max(0, slices.Index(ls, string(label))) }

	// The log goes on without, or with another value for, one of the versions.
	good := w.Fork(rt)
	if n := Flat(rt, 4, "wait"); n > 0 {
		for ; n > 1; n-- {
			growSlowly(rt, c, w)
		}
	}
	contact := u.Label(rt, label).Contact
	e := Pick(rt, contact, "pointer")
	ver := e.Version
	if Prob(rt, 30, "lower version") {
		ver = Pick(rt, math.MonitoringBinaryLadder(e.Version), "which of the ladder")
	}
	v := w.History[e.Position][string(label)][ver]
	var add []prefix.Entry
	if Bool(rt, "replaced") {
		add = []prefix.Entry{{VrfOutput: v.Vrf, Commitment: H32('e', 1)}}
	}
	w.Sleep(c, U64(rt, 0, w.Config.ReasonableMonitoringWindow/6, "ms"))
	c.Logf("version %d of %q dropped at %d (%d)", ver, label, w.N(), len(add))
	w.EvilEntry(rt, Now(), add, [][]byte{v.Vrf})
	for k := Flat(rt, 4, "later"); k > 0; k-- {
		growSlowly(rt, c, w)
		growSlowly(rt, c, good)
	}
	if Bool(rt, "back again") {
		var gone [][]byte
		if add != nil {
			gone = [][]byte{v.Vrf}
		}
		w.EvilEntry(rt, Now(), []prefix.Entry{{VrfOutput: v.Vrf, Commitment: v.Commitment}}, gone)
	}
	judged, threatened := 0, 0
	for round := 0; round < 3; round++ {
		growSlowly(rt, c, w)
		growSlowly(rt, c, good)
		// The client's view moves on by another lookup.
		for _, l := range w.Pool {
			if string(l) == string(label) || len(w.Labels[string(l)]) == 0 {
				continue
			}
			p := u.StartSearch(rt, l, nil)
			if res := p.Try(rt, w, w.Tree); res != nil {
				p.Verify(rt, res)
				break
			}
		}
		st := u.State(rt)
		if RightmostDLE(w.DLEsAt(st.TreeHead.TreeSize), st.TreeHead.TreeSize) < 0 {
			continue
		}
		p := u.StartMonitor(rt)
		if p == nil {
			continue
		}
		before := u.Label(rt, p.Label)
		var donors []any
		if r := p.Try(rt, good, good.Tree); r != nil {
			donors = append(donors, r)
		}
		res := p.Try(rt, w, w.Tree)
		if res == nil {
			c.Class("server fails")
			if len(donors) == 0 {
				continue
			}
			res = DeepCopy(donors[0].(*structs.ContactMonitorResponse))
		}
		base := u
		for k := 0; k < 5; k++ {
			q := base.Clone(rt)
			p := q.StartMonitor(rt)
			m := res.(*structs.ContactMonitorResponse)
			if k == 3 {
				if m, _ = w.EvilContact(rt, p, w.IndexOf(label), int64(ver)).(*structs.ContactMonitorResponse); m == nil {
					continue
				}
			} else if k > 0 {
				m = DeepCopy(m)
				what := Mangle(rt, m, donors)
				if Bool(rt, "again") {
					what += Mangle(rt, m, donors)
				}
				c.Logf("[%s]", what)
				if m, _ = p.Recode(rt, w, m).(*structs.ContactMonitorResponse); m == nil {
					continue
				}
			}
			dump := q.DB.Dump()
			err := p.Verify(rt, m)
			if err != nil && q.DB.Dump() != dump {
				rt.Fatalf("a response is rejected (%v) but the client's state changed", err)
			}
			n := TreeSize(m, p.Last())
			if err == nil && (n == 0 || n > w.N()) {
				rt.Fatalf("a response about a log of size %d is accepted, the log has %d entries", n, w.N())
			} else if n == 0 || n > w.N() {
				continue
			}
			judged++
			if err == nil && n <= good.N() && !Equal2(q.State(rt).FullSubtrees, w.Log.FullSubtrees(n)) &&
				Equal2(q.State(rt).FullSubtrees, good.Log.FullSubtrees(n)) {
				// Everything that matters was taken from the answer about the
				// other log, which the same operator signed. It is accepted
				// rightly: the client has not seen where the logs part.
				c.Class("accepted for the other log")
				good.CheckUser(rt, q)
				good.CheckMonitored(rt, q, p.Label, before)
				continue
			}
			if checkWatched(rt, w, q, p.Label, before, n, err == nil) {
				threatened++
				c.Class("dropped version rejected")
			}
			if err == nil {
				c.Class("accepted")
				w.CheckUser(rt, q)
				w.CheckMonitored(rt, q, p.Label, before)
				if k == 0 {
					u = q
				}
			}
		}
	}
	if judged >= 3 && threatened > 0 {
		c.NonTrivial()
	}
}

// propPace lets many entries be added within a monitoring window, so that
// entries become distinguished long after they were added, while one client
// looks up, monitors and moves its view on, with several requests under way at
// a time. Every version it looked up is covered or monitored at any time, and it
// wants to monitor whenever that gets a version any further.
func propPace(rt *rapid.T, c *Case) {
	w := NewWorld(rt, c, Opts{Stores: []string{"tx"}, Modes: []structs.DeploymentMode{structs.ContactMonitoring}, NoExpiry: true,
		Windows: []uint64{86400000, 300000000000, 300000000000}})
	u := w.NewUser(rt, "A")
	u.DB.Stale = func(l []string) int { return Flat(rt, len(l), "stale") }
	win := w.Config.ReasonableMonitoringWindow
	w.Stretch(rt, c)
	w.Grow(rt, c, 2)
	pace := win / Pick(rt, []uint64{2, 4, 6, 8, 12, 16, 24, 32}, "pace")
	hot := Pick(rt, w.Pool, "hot") // gets most of the updates
	// grow adds an entry, after a time that makes some entry in the given range
	// the rightmost distinguished one (if that is possible).
	grow := func(lo, hi int64) {
		add := w.DrawAdds(rt, 1, nil)
		if Prob(rt, 60, "update") && (len(add) == 0 || string(add[0].Label) != string(hot)) {
			v := DrawValue(rt)
			add = append(add, transparency.LabelValue{Label: Dup(hot), Value: structs.UpdateValue{
				Value: v, UpdateSuffix: structs.UpdateSuffix{Signature: w.Sign(rt, hot, uint32(len(w.Labels[string(hot)])), v)},
			}})
		}
		ms := pace / 8 * uint64(Flat(rt, 17, "ms"))
		for k := uint64(0); k < 17 && hi > lo; k++ {
			s := win / 16 * k
			ts := append(w.Timestamps(), Now()+s)
			if d := RightmostDLE(Distinguished(ts, win), w.N()+1); d >= lo && d < hi {
				ms = s
				break
			}
		}
		w.Sleep(c, ms)
		if _, err := w.Mutate(rt, c, Batch{Add: add}); err != nil {
			rt.Fatalf("a mutation of only additions failed: %v", err)
		}
	}
	for k := Flat(rt, 40, "before"); k > 0; k-- {
		grow(0, 0)
	}
	w.KeepAudited(rt)
	type lookup struct {
		label string
		ver   uint32
		pos   uint64
	}
	var seen []lookup
	open := map[lookup]bool{}        // not covered yet
	monitored := map[string]uint64{} // in a log of this size, since the last lookup
	type request struct {
		p      *Pending
		res    structs.Marshaller
		before *structs.ClientLabelState
		target uint32
	}
	var held []request
	moved, recommended, overlapped, follow := 0, 0, 0, false
	check := func() {
		n := u.State(rt).TreeHead.TreeSize
		dle := RightmostDLE(w.DLEsAt(n), n)
		stale := false
		for _, l := range seen {
			if !open[l] {
				continue
			} else if int64(l.pos) <= dle {
				// Covered, although the client may not have noticed.
				delete(open, l)
				continue
			}
			found := false
			if st := u.Label(rt, []byte(l.label)); st != nil {
				for _, e := range st.Contact {
					found = found || e.Version >= l.ver && e.Position >= l.pos
				}
			}
			if !found {
				rt.Fatalf("version %d of %q, which was looked up in entry %d, is not covered at size %d (rightmost distinguished %d) but no longer monitored: %+v",
					l.ver, l.label, l.pos, n, dle, u.Label(rt, []byte(l.label)))
			}
		}
		for l := range u.DB.Labels {
			top := uint64(0)
			for _, e := range u.Label(rt, []byte(l)).Contact {
				top = max(top, e.Position)
			}
			stale = stale || int64(top) <= dle
			if top := int64(top); top <= dle && dle < int64(monitored[l]) {
				c.Class("an entry of the monitored log became distinguished")
			}
		}
		if dle >= 0 && stale {
			recommended++
			if q := u.Clone(rt); q.StartMonitor(rt) == nil {
				rt.Fatalf("the client wants no monitoring at size %d (rightmost distinguished %d, all %v) although monitored entries can be covered: %+v", n, dle, SortedKeys(w.DLEsAt(n)), q.Err)
			}
		}
	}
	verify := func(r request) {
		last := r.p.Last()
		st := u.State(rt)
		same := (last == nil) == (st == nil) && (last == nil || *last == st.TreeHead.TreeSize)
		dump := u.DB.Dump()
		err := r.p.Verify(rt, r.res)
		c.Logf("%s: %v", r.p, err)
		if err != nil {
			if same && sameContact(r.before, u.Label(rt, r.p.Label)) {
				rt.Fatalf("%s: an honest response is rejected (%v) although the client's state is what it was", r.p, err)
			} else if u.DB.Dump() != dump {
				rt.Fatalf("%s: a response is rejected (%v) but the client's state changed", r.p, err)
			}
			c.Class("late response rejected")
			return
		}
		w.CheckUser(rt, u)
		if r.p.Search != nil {
			n := u.State(rt).TreeHead.TreeSize
			delete(monitored, string(r.p.Label))
			l := lookup{string(r.p.Label), r.target, w.History[n-1][string(r.p.Label)][r.target].Pos}
			seen = append(seen, l)
			open[l] = true
			if ls := u.Label(rt, r.p.Label); ls != nil && len(ls.Contact) > 1 {
				c.Class("several entries to monitor")
				if u.DB.Labels[string(r.p.Label)].Terminal < ls.Contact[len(ls.Contact)-1].Position {
					c.Class("several entries to monitor, the first soon")
					follow = true
				}
			}
		} else {
			moved++
			monitored[string(r.p.Label)] = u.State(rt).TreeHead.TreeSize
			if ls := u.Label(rt, r.p.Label); ls == nil {
				c.Class("monitoring ended")
			} else if len(ls.Contact) < len(r.before.Contact) {
				c.Class("monitoring ended in part")
			} else {
				c.Class("monitoring goes on")
			}
		}
		check()
	}
	holding := 30
	ask := func(p *Pending, target uint32) {
		r := request{p: p, target: target, before: u.Label(rt, p.Label)}
		res, err := p.Ask(rt, w, w.Tree)
		if err != nil {
			rt.Fatalf("the server refuses an honest request (%s): %v", p, err)
		}
		r.res = res
		if Prob(rt, holding, "hold") {
			held = append(held, r)
			return
		}
		verify(r)
	}
	recent := func() []byte {
		if Prob(rt, 60, "hot") {
			return hot
		}
		return Pick(rt, w.Pool, "label")
	}
	search := func(label []byte) {
		n := len(w.Labels[string(label)])
		if n == 0 {
			return
		}
		ver, target := (*uint32)(nil), uint32(n-1)
		if Prob(rt, 40, "fixed") {
			// Versions that are not covered yet are of most interest.
			dle, first := RightmostDLE(w.DLEs(), w.N()), 0
			for first < n-1 && int64(w.Labels[string(label)][first].Pos) <= dle && !Prob(rt, 5, "from here") {
				first++
			}
			target = uint32(first + Flat(rt, n-first, "version"))
			ver = &target
		}
		ask(u.StartSearch(rt, label, ver), target)
	}
	monitor := func(label []byte) {
		if u.State(rt) == nil {
			return
		}
		u.DB.Stale = func(l []string) int {
			if i := slices.Index(l, string(label)); i >= 0 {
				return i
			}
			return Flat(rt, len(l), "stale")
		}
		if p := u.StartMonitor(rt); p != nil {
			ask(p, 0)
		}
	}
	late := func() {
		j := Flat(rt, len(held), "which")
		r := held[j]
		held = slices.Delete(held, j, j+1)
		verify(r)
		overlapped++
	}
	// volley makes several requests about one label without any growth in between.
	volley := func(label []byte) {
		if Prob(rt, 40, "monitor twice") {
			// and look something else up before the second response is verified.
			holding = 100
			monitor(label)
			holding = 0
			monitor(label)
			search(label)
			holding = 30
		}
		for k := 2 + Flat(rt, 5, "volley"); k > 0; k-- {
			switch Flat(rt, 3, "kind") {
			case 0, 1:
				search(label)
			case 2:
				monitor(label)
			}
			if len(held) > 0 && Prob(rt, 40, "late one") {
				late()
			}
		}
		for len(held) > 0 {
			late()
		}
	}
	for i := 12 + Flat(rt, 40, "steps"); i > 0; i-- {
		if follow {
			// One of the entries to monitor becomes distinguished before the
			// others; the client learns that by looking other labels up.
			follow = false
			for k := 3 + Flat(rt, 8, "follow"); k > 0; k-- {
				lo, hi := int64(0), int64(0)
				if ls := u.Label(rt, hot); ls != nil && len(ls.Contact) > 0 {
					lo, hi = int64(u.DB.Labels[string(hot)].Terminal), int64(ls.Contact[len(ls.Contact)-1].Position)
					if m := int64(monitored[string(hot)]); m > 0 {
						lo, hi = hi, m
					}
				}
				grow(lo, hi)
				w.KeepAudited(rt)
				if l := Pick(rt, w.Pool, "label"); string(l) != string(hot) {
					search(l)
				}
				if Prob(rt, 30, "volley") {
					volley(hot)
				} else if Prob(rt, 70, "monitor") {
					monitor(hot)
				}
			}
			continue
		}
		switch Flat(rt, 9, "step") {
		case 0, 1, 2:
			grow(0, 0)
			w.KeepAudited(rt)
		case 3, 4:
			search(recent())
		case 5:
			volley(recent())
		case 6, 7:
			monitor(recent())
		case 8:
			for len(held) > 0 {
				late()
			}
		}
	}
	if moved > 0 && recommended > 0 && len(seen) >= 3 {
		c.NonTrivial()
	}
	if overlapped > 0 {
		c.Class("overlapping")
	}
}

func sameContact(a, b *structs.ClientLabelState) bool {
	if a == nil || b == nil {
		return a == b
	}
	return slices.Equal(a.Contact, b.Contact)
}
