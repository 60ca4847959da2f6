package props

import (
	"testing"

	"github.com/Bren2010/katie/tree/transparency/algorithms"
	"pgregory.net/rapid"

	. "verif/kit"
)

func TestP14(t *testing.T) {
	Run(t, "an owner was initialised and afterwards verified at least 2 update or owner monitoring responses on a log of at least 4 entries",
		Sub{Name: "owners", Quick: 8000, Thorough: 200000, Bubble: true, Prop: propOwners},
		Sub{Name: "pages", Quick: 160, Thorough: 4000, Bubble: true, Prop: propPages},
	)
}

// ownerWindows make both distinguished and other entries likely.
var ownerWindows = []uint64{1, 7, 1000, 1000, 86400000, 86400000, 86400000, 300000000000}

// settledInit says whether the entries that an owner sees who starts at start
// agree about a label that was removed.
func settledInit(w *World, label string, start uint64) bool {
	return settledFrom(w, label, start, LeftOfStart(start, w.N())...)
}

// initOwner makes u the owner of label, if that is possible now.
func initOwner(rt *rapid.T, c *Case, w *World, u *User, label []byte) bool {
	p := u.StartInit(rt, label)
	if p == nil {
		st, ls := u.State(rt), u.Label(rt, label)
		if (ls == nil || ls.Owner == nil) && st != nil && RightmostDLE(w.DLEsAt(st.TreeHead.TreeSize), st.TreeHead.TreeSize) >= 0 {
			rt.Fatalf("%s can not ask for the ownership of %q although it knows a distinguished entry and does not own it (%+v): %v", u.Name, label, ls, u.Err)
		}
		return false
	}
	n := u.State(rt).TreeHead.TreeSize
	if dle := RightmostDLE(w.DLEsAt(n), n); dle != int64(p.Init.Start) {
		rt.Fatalf("%s wants to start its ownership at %d, the rightmost distinguished entry it knows is %d", u.Name, p.Init.Start, dle)
	}
	if w.Gone[string(label)] {
		if !settledInit(w, string(label), p.Init.Start) {
			// It may be accepted, but can not be monitored.
			u = u.Clone(rt)
			p = u.StartInit(rt, label)
		} else {
			c.Class("label removed before")
		}
	}
	c.Logf("%s", p)
	before := u.DB.Dump()
	res, err := p.Ask(rt, w, w.Tree)
	if err != nil {
		ts := w.Timestamps()
		life := w.Config.MaximumLifetime
		if life > 0 && ts[len(ts)-1]-ts[p.Init.Start] >= life {
			c.Class("start expired")
			return false
		} else if w.Gone[string(label)] && !settledInit(w, string(label), p.Init.Start) {
			return false
		}
		rt.Fatalf("the server refuses the initialisation of ownership of %q at %d: %v", label, p.Init.Start, err)
	}
	if w.Gone[string(label)] && !settledInit(w, string(label), p.Init.Start) {
		if p.Verify(rt, res) != nil && u.DB.Dump() != before {
			rt.Fatalf("a response is rejected but the client's state changed")
		}
		return false
	}
	MustAccept(rt, p.String(), p.Verify(rt, res))
	st := u.Label(rt, label)
	if st == nil || st.Owner == nil || st.Owner.Starting != p.Init.Start || len(st.Owner.UpcomingVers) != 0 {
		rt.Fatalf("%s initialised ownership of %q at %d and retains %+v", u.Name, label, p.Init.Start, st)
	}
	w.CheckUser(rt, u)
	w.CheckOwner(rt, u, label)
	if u.State(rt).TreeHead.TreeSize != w.N() {
		rt.Fatalf("%s verified a response for size %d and retains %d", u.Name, w.N(), u.State(rt).TreeHead.TreeSize)
	}
	return true
}

// known is the number of versions an owner knows of.
func known(rt *rapid.T, u *User, label []byte) int {
	o := u.Label(rt, label).Owner
	return o.VerAtStarting + 1 + len(o.UpcomingVers)
}

// update makes an update whose responses must all be accepted.
func (s *ownScene) update(rt *rapid.T, c *Case, u *User, label []byte, values [][]byte) (responses int) {
	w := s.w
	p := u.StartUpdate(rt, label, values)
	if p == nil {
		rt.Fatalf("%s can not make an update request for %q, which it owns", u.Name, label)
	}
	c.Logf("%s: update %s with %d values, knows %d", u.Name, Short(label), len(values), known(rt, u, label))
	had := len(w.Labels[string(label)])
	behind := map[uint64]bool{}
	for _, v := range w.Labels[string(label)][known(rt, u, label):] {
		behind[v.Pos] = true
	}
	out, err := w.ServeUpdate(rt, nil, p.Update, w.Sequencer(rt, c, 3, s.free))
	if err != nil {
		rt.Fatalf("an update of %q by its owner fails: %v", label, err)
	}
	want := len(behind)
	if len(values) > 0 {
		want++
	}
	if len(out) != want {
		rt.Fatalf("an update of %q is answered with %d responses, %d entries have news", label, len(out), want)
	}
	vs := w.Labels[string(label)]
	if len(vs) != had+len(values) {
		rt.Fatalf("an update of %q with %d values after %d makes %d versions", label, len(values), had, len(vs))
	}
	for i, val := range values {
		if v := vs[had+i]; string(v.Value) != string(val) || v.Pos != w.N()-1 {
			rt.Fatalf("version %d of %q is %q at %d, not %q at %d", had+i, label, v.Value, v.Pos, val, w.N()-1)
		}
	}
	for _, r := range out {
		MustAccept(rt, p.String(), p.Verify(rt, r))
		w.CheckUser(rt, u)
		w.CheckOwner(rt, u, label)
		checkCreated(rt, w, u, label, r.Position)
		if len(r.Values) > 0 {
			for i, val := range r.Values {
				if k := known(rt, u, label) - len(r.Values) + i; string(vs[k].Value) != string(val.Value) {
					rt.Fatalf("an accepted update response tells that version %d of %q is %q, it is %q", k, label, val.Value, vs[k].Value)
				}
			}
		}
	}
	if k := known(rt, u, label); k != len(vs) {
		rt.Fatalf("%s knows %d versions of %q after an update, there are %d", u.Name, k, label, len(vs))
	}
	return len(out)
}

// checkCreated says that the owner monitors the newest version that an update
// response told it of, unless the entry that it was added in is distinguished.
func checkCreated(rt *rapid.T, w *World, u *User, label []byte, pos uint64) {
	n := u.State(rt).TreeHead.TreeSize
	if w.DLEsAt(n)[pos] {
		return
	}
	st := u.Label(rt, label)
	ver := uint32(st.Owner.VerAtStarting + len(st.Owner.UpcomingVers))
	for _, e := range st.Contact {
		if e.Version == ver && e.Position >= pos {
			return
		}
	}
	rt.Fatalf("%s was told of version %d of %q in entry %d, which is not distinguished at size %d, but does not monitor it: %v", u.Name, ver, label, pos, n, st.Contact)
}

// ownScene is a log with labels, some of which have an owner.
type ownScene struct {
	w      *World
	users  []*User
	owner  map[string]*User
	verify int // responses owners accepted
	inits  int
}

// free says whether nobody owns a label.
func (s *ownScene) free(label []byte) bool { return s.owner[string(label)] == nil }

// grow adds versions of labels nobody owns.
func (s *ownScene) grow(rt *rapid.T, c *Case) {
	for k := 1 + Flat(rt, 3, "entries"); k > 0; k-- {
		if Prob(rt, 30, "tick") {
			s.w.Tick(rt, c)
		} else {
			s.w.Sleep(c, U64(rt, 0, s.w.Config.ReasonableMonitoringWindow/5, "ms"))
		}
		s.growOne(rt, c)
	}
	s.w.KeepAudited(rt)
}

// growOne makes one such entry.
func (s *ownScene) growOne(rt *rapid.T, c *Case) {
	b := Batch{}
	for _, a := range s.w.DrawAdds(rt, 4, nil) {
		if s.free(a.Label) {
			b.Add = append(b.Add, a)
		}
	}
	if _, err := s.w.Mutate(rt, c, b); err != nil {
		rt.Fatalf("a mutation of only additions failed: %v", err)
	}
	s.w.KeepAudited(rt)
}

func (s *ownScene) step(rt *rapid.T, c *Case) {
	w := s.w
	u := Pick(rt, s.users, "user")
	label := Pick(rt, w.Pool, "label")
	switch Flat(rt, 12, "step") {
	case 0, 1:
		s.grow(rt, c)
	case 2:
		w.Reopen(rt)
		Pick(rt, s.users, "restarted").Restart(rt)
	case 3, 4:
		if s.owner[string(label)] == nil && initOwner(rt, c, w, u, label) {
			s.owner[string(label)] = u
			s.inits++
			if len(w.Labels[string(label)]) > known(rt, u, label) {
				// Versions added between the start and now are learnt first.
				c.Class("news at init")
				s.verify += s.update(rt, c, u, label, nil)
			}
		}
	case 5, 6, 7:
		if o := s.owner[string(label)]; o != nil {
			s.verify += s.update(rt, c, o, label, DrawValues(rt, 4))
			c.Class("update")
		}
	case 8, 9:
		rounds := -1
		if Bool(rt, "few") {
			rounds = 1
		}
		a, _ := monitorAll(rt, c, w, u, rounds)
		s.verify += a
	default:
		if !w.Gone[string(label)] {
			searchOnce(rt, c, w, u, label, pickVersion(rt, len(w.Labels[string(label)])))
		} else if settled(w, string(label)) {
			searchOnce(rt, c, w, u, label, nil)
		}
	}
}

func drawOwners(rt *rapid.T, c *Case, o Opts) *ownScene {
	if o.Windows == nil {
		o.Windows = ownerWindows
	}
	w := NewWorld(rt, c, o)
	s := &ownScene{w: w, users: drawUsers(rt, w, 3), owner: map[string]*User{}}
	for _, u := range s.users {
		u.DB.Stale = func(l []string) int { return Flat(rt, len(l), "stale") }
	}
	if w.Ldb == nil {
		w.Stretch(rt, c)
	}
	s.grow(rt, c)
	// A label everybody can find, so that everybody has a state to start with.
	for _, u := range s.users {
		if l := Pick(rt, w.Pool, "first"); len(w.Labels[string(l)]) > 0 {
			searchOnce(rt, c, w, u, l, nil)
		}
	}
	return s
}

// remove removes a label that nobody watches or owns.
func (s *ownScene) remove(rt *rapid.T, c *Case) {
	label := Pick(rt, s.w.Pool, "removed label")
	if len(s.w.Labels[string(label)]) == 0 || !s.w.RemovalAllowed(label) {
		return
	}
	for _, u := range s.users {
		if _, ok := u.DB.Labels[string(label)]; ok {
			return
		}
	}
	if _, err := s.w.Mutate(rt, c, Batch{Remove: [][]byte{label}}); err != nil {
		rt.Fatalf("an allowed removal failed: %v", err)
	}
	s.w.KeepAudited(rt)
	c.Class("removal")
}

func propOwners(rt *rapid.T, c *Case) {
	s := drawOwners(rt, c, Opts{Real: 3, Stores: []string{"tx", "tx", "tx", "memory"}})
	removals := Prob(rt, 30, "removals")
	for i := 8 + Flat(rt, 32, "steps"); i > 0; i-- {
		if removals && Prob(rt, 20, "remove") {
			s.remove(rt, c)
		}
		s.step(rt, c)
	}
	if s.inits > 0 && s.verify >= 2 && s.w.N() >= 4 {
		c.NonTrivial()
	}
}

var _ = algorithms.ErrLabelNotFound

// propPages makes an owner catch up with more distinguished entries than fit
// one response.
func propPages(rt *rapid.T, c *Case) {
	s := drawOwners(rt, c, Opts{Windows: []uint64{1, 7, 1000}, NoExpiry: true})
	w, u := s.w, s.users[0]
	label := w.Pool[0]
	for k := 0; k < 10 && s.owner[string(label)] == nil; k++ {
		s.grow(rt, c)
		for _, l := range w.Pool {
			if len(w.Labels[string(l)]) > 0 {
				searchOnce(rt, c, w, u, l, nil)
				break
			}
		}
		if initOwner(rt, c, w, u, label) {
			s.owner[string(label)] = u
			if len(w.Labels[string(label)]) > known(rt, u, label) {
				s.update(rt, c, u, label, nil)
			}
		}
	}
	if s.owner[string(label)] == nil {
		return
	}
	pages := 0
	for r := 1 + Flat(rt, 3, "rounds"); r > 0; r-- {
		n := 5 + Flat(rt, 80, "entries")
		for i := 0; i < n; i++ {
			w.Sleep(c, uint64(Pick(rt, []int{0, 1, 2, 3}, "tick"))*(w.Config.ReasonableMonitoringWindow/2+1))
			if Prob(rt, 7, "update") {
				s.verify += s.update(rt, c, u, label, DrawValues(rt, 3))
			} else if _, err := w.Mutate(rt, c, Batch{}); err != nil {
				rt.Fatalf("an empty mutation failed: %v", err)
			}
		}
		w.KeepAudited(rt)
		for _, l := range w.Pool {
			if len(w.Labels[string(l)]) > 0 {
				searchOnce(rt, c, w, u, l, nil)
			}
		}
		a, _ := monitorAll(rt, c, w, u, -1)
		s.verify += a
		pages = max(pages, a)
	}
	if pages > 1 {
		c.Class("several pages")
		c.NonTrivial()
	}
}
