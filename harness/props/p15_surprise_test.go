package props

import (
	"slices"
	"sort"
	"testing"

	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"pgregory.net/rapid"

	. "verif/kit"
)

func TestP15(t *testing.T) {
	Run(t, "versions were inserted, removed or replaced behind an owner's back and at least 3 responses that would make the owner overlook it were verified",
		Sub{Name: "surprises", Quick: 8000, Thorough: 250000, Bubble: true, Prop: propSurprises},
	)
}

// meddle changes the owned label's part of the prefix tree in a new log entry.
func meddle(rt *rapid.T, c *Case, w *World, label []byte, inserted *[]uint64) {
	g := len(w.Labels[string(label)]) - 1
	now := w.Entries[w.N()-1].Prefix
	var add []prefix.Entry
	var gone [][]byte
	change := func(ver uint32, what string) {
		vrf := w.Vrf(label, ver)
		_, there := now[string(vrf)]
		if there {
			gone = append(gone, vrf)
		}
		if !there || what == "replace" {
			add = append(add, prefix.Entry{VrfOutput: vrf, Commitment: H32('e', uint64(ver)+w.N()<<8)})
		}
		if !there {
			*inserted = append(*inserted, w.N())
		}
		c.Logf("at %d: %s version %d of %s, the newest is %d", w.N(), what, ver, Short(label), g)
	}
	switch Flat(rt, 11, "meddle") {
	case 8, 9, 10:
		// Properly, but without the owner.
		var b Batch
		for i, val := range DrawValues(rt, 3) {
			*inserted = append(*inserted, w.N())
			b.Add = append(b.Add, transparency.LabelValue{Label: label, Value: structs.UpdateValue{
				Value: val, UpdateSuffix: structs.UpdateSuffix{Signature: w.Sign(rt, label, uint32(g+1+i), val)},
			}})
		}
		var au *structs.AuditorUpdate
		var err error
		NoPanic(rt, "Mutate", func() { au, err = w.Tree.Mutate(b.Add, nil) })
		if err != nil {
			c.Class("mutation fails") // the versions are there already
			return
		}
		c.Logf("at %d: %s behind the owner's back", w.N(), b)
		w.Follow(b, au)
		w.KeepAudited(rt)
		return
	case 0, 1, 2:
		change(uint32(g+1), "insert")
	case 3:
		change(Pick(rt, OwnLadder(g), "version"), "change")
	case 4:
		if g >= 0 {
			change(uint32(g), "remove")
		}
	case 5:
		if g >= 0 {
			change(uint32(g), "replace")
		}
	case 6:
		for k := Flat(rt, 4, "versions"); k >= 0; k-- {
			change(uint32(g+1+k), "insert")
		}
	default:
		// Everything as if nothing had happened.
		vs := w.Labels[string(label)]
		for ver := uint32(0); ver < 140; ver++ {
			vrf := w.Vrf(label, ver)
			com, there := now[string(vrf)]
			if int(ver) >= len(vs) {
				if there {
					gone = append(gone, vrf)
				}
				continue
			}
			if there && string(com) != string(vs[ver].Commitment) {
				gone = append(gone, vrf)
				there = false
			}
			if !there {
				add = append(add, prefix.Entry{VrfOutput: vrf, Commitment: vs[ver].Commitment})
			}
		}
		c.Logf("at %d: all is well", w.N())
	}
	w.EvilEntry(rt, Now(), add, gone)
}

func propSurprises(rt *rapid.T, c *Case) {
	s := drawOwners(rt, c, Opts{Stores: []string{"tx"}, NoExpiry: true})
	w := s.w
	label := Pick(rt, w.Pool, "owned label")
	var u *User
	for k := 0; k < 6 && u == nil; k++ {
		s.grow(rt, c)
		v := s.users[0]
		for _, l := range w.Pool {
			if string(l) != string(label) && len(w.Labels[string(l)]) > 0 {
				searchOnce(rt, c, w, v, l, nil)
				break
			}
		}
		if v.State(rt) != nil && initOwner(rt, c, w, v, label) {
			u = v
		}
	}
	if u == nil {
		return
	}
	s.owner[string(label)] = u
	if len(w.Labels[string(label)]) > known(rt, u, label) {
		s.update(rt, c, u, label, nil)
	}
	for k := Flat(rt, 5, "own updates"); k > 0; k-- {
		if Bool(rt, "grow") {
			s.grow(rt, c)
		}
		s.update(rt, c, u, label, DrawValues(rt, 4))
	}
	if Bool(rt, "monitored") {
		monitorAll(rt, c, w, u, Int(rt, 1, 4, "rounds"))
	}
	good := w.Fork(rt)
	var inserted []uint64
	u.DB.Stale = func(ls []string) int { return max(0, slices.Index(ls, string(label))) }

	tempted := 0
	pause := func() {
		switch Flat(rt, 4, "pause") {
		case 0:
		case 1:
			w.Sleep(c, w.Config.ReasonableMonitoringWindow)
		case 2:
			w.Tick(rt, c)
		default:
			w.Sleep(c, U64(rt, 0, w.Config.ReasonableMonitoringWindow/5, "ms"))
		}
	}
	// judge verifies one response on a copy of the owner and says what came of it.
	judge := func(start func(*User) *Pending, res structs.Marshaller) *User {
		q := u.Clone(rt)
		q.DB.Stale = u.DB.Stale
		p := start(q)
		dump := q.DB.Dump()
		before := q.Label(rt, label)
		n := TreeSize(res, p.Last())
		err := p.Verify(rt, res)
		if err != nil {
			if q.DB.Dump() != dump {
				rt.Fatalf("a response is rejected (%v) but the client's state changed", err)
			}
			return nil
		}
		if n == 0 || n > w.N() {
			rt.Fatalf("a response about a log of size %d is accepted, the log has %d entries", n, w.N())
		}
		if n <= good.N() && !Equal2(q.State(rt).FullSubtrees, w.Log.FullSubtrees(n)) && Equal2(q.State(rt).FullSubtrees, good.Log.FullSubtrees(n)) {
			// All that matters is from an answer about the log without surprises,
			// which the same operator signed: the client knows no better yet.
			c.Class("accepted for the other log")
			good.CheckUser(rt, q)
			return nil
		}
		w.CheckUser(rt, q)
		dles := w.DLEsAt(n)
		if r, ok := res.(*structs.UpdateResponse); ok {
			g := before.Owner.VerAtStarting + len(before.Owner.UpcomingVers)
			if pos := w.Labels[string(label)][g+1].Pos; r.Position != pos && dles[r.Position] && dles[min(pos, r.Position)] {
				c.Class("position left to monitoring")
				return nil
			}
		}
		after := q.Label(rt, label)
		if r, ok := res.(*structs.UpdateResponse); ok {
			checkInserted(rt, w, label, before.Owner, after.Owner, r, n)
			if after.Owner.Starting != before.Owner.Starting {
				rt.Fatalf("an update moved the owner from %d to %d", before.Owner.Starting, after.Owner.Starting)
			}
			c.Class("update accepted")
			return q
		}
		w.CheckMonitored(rt, q, label, before)
		if b, a := before.Owner, after.Owner; a.VerAtStarting != OwnedAt(b, a.Starting) || !slices.Equal(a.UpcomingVers, b.UpcomingVers[OwnedAt(b, a.Starting)-b.VerAtStarting:]) {
			rt.Fatalf("owner monitoring of %q turned %+v into %+v", label, b, a)
		}
		for d := before.Owner.Starting + 1; d <= after.Owner.Starting; d++ {
			if dles[d] && w.Surprise(label, d, OwnedAt(before.Owner, d), true) {
				rt.Fatalf("owner monitoring of %q moved from %d to %d, past the distinguished entry %d, where it is not version %d that is the greatest", label, before.Owner.Starting, after.Owner.Starting, d, OwnedAt(before.Owner, d))
			}
		}
		if after.Owner.Starting > before.Owner.Starting {
			c.Class("monitoring advanced")
		} else {
			c.Class("monitoring stood still")
		}
		return q
	}

	for round := 2 + Flat(rt, 5, "rounds"); round > 0; round-- {
		for k := Flat(rt, 4, "entries"); k > 0; k-- {
			pause()
			if Flat(rt, 5, "meddle now") < 3 {
				meddle(rt, c, w, label, &inserted)
			} else {
				s.grow(rt, c)
			}
		}
		pause()
		s.growOn(rt, c, good)
		s.grow(rt, c)
		// The owner's view of the log moves on.
		for _, l := range append([][]byte{label}, w.Pool...) {
			if len(w.Labels[string(l)]) == 0 || Flat(rt, 3, "skip") == 0 {
				continue
			}
			p := u.StartSearch(rt, l, nil)
			if res := p.Try(rt, w, w.Tree); res != nil {
				if p.Verify(rt, res) == nil && string(l) == string(label) {
					c.Class("owner looks its label up")
				}
			}
			break
		}
		dles := w.DLEsAt(w.N())
		o := u.Label(rt, label).Owner
		belief := w.IndexOf(label)
		belief = belief[:min(len(belief), o.VerAtStarting+1+len(o.UpcomingVers))]
		indexes := [][]uint64{belief, w.IndexOf(label)}
		if len(inserted) > 0 {
			x := append(slices.Clone(belief), inserted...)
			slices.Sort(x)
			indexes = append(indexes, x, belief[:Flat(rt, len(belief)+1, "keep")])
		}
		if Flat(rt, 3, "update") > 0 {
			start := func(q *User) *Pending { return q.StartMonitor(rt) }
			p := start(u.Clone(rt))
			if p == nil || p.Kind != "owner" {
				continue
			}
			temptation := false
			for d := o.Starting + 1; d < w.N(); d++ {
				temptation = temptation || dles[d] && w.Surprise(label, d, OwnedAt(o, d), true)
			}
			var all []structs.Marshaller
			var donors []any
			if r := p.Try(rt, w, w.Tree); r != nil {
				all = append(all, r)
			}
			for _, ix := range indexes {
				if r := w.EvilMonitor(rt, p, ix, o, Pick(rt, []int{-1, -1, 0, 1, 2, 5}, "limit")); r != nil {
					all = append(all, r)
				}
			}
			for _, r := range all {
				donors = append(donors, r)
			}
			if r := p.Try(rt, good, good.Tree); r != nil {
				donors = append(donors, r)
			}
			for _, r := range all[:len(all):len(all)] {
				m := DeepCopy(r)
				what := Mangle(rt, m, donors)
				if Bool(rt, "again") {
					what += Mangle(rt, m, donors)
				}
				if m := p.Recode(rt, w, m); m != nil {
					all = append(all, m)
				}
			}
			var next *User
			for _, r := range all {
				if temptation {
					tempted++
				}
				if q := judge(start, r); q != nil {
					next = q
				}
			}
			if temptation {
				c.Class("temptation to monitor")
			}
			if next != nil && Bool(rt, "go on") {
				next.Name = u.Name
				u = next
			}
			continue
		}
		values := DrawValues(rt, 3)
		g := o.VerAtStarting + len(o.UpcomingVers)
		nv := w.MakeVersions(rt, label, g, values, byte('0'+round))
		pause()
		pos := w.N()
		if Flat(rt, 4, "not as told") == 0 {
			// One of the versions is not there, or is another.
			i := Flat(rt, len(values), "which version")
			other := slices.Clone(values)
			other[i] = MangleBytes(rt, other[i])
			done := w.MakeVersions(rt, label, g, other, byte('0'+round))
			if Bool(rt, "missing") {
				done.Entries = slices.Delete(done.Entries, i, i+1)
			}
			nv.Avoid = Ptr(nv.First + uint32(i))
			c.Logf("version %d is not as told", *nv.Avoid)
			w.EvilInsert(rt, label, done)
		} else {
			w.EvilInsert(rt, label, nv)
		}
		if Bool(rt, "later") {
			s.grow(rt, c)
		}
		c.Logf("update at %d", pos)
		start := func(q *User) *Pending { return q.StartUpdate(rt, label, values) }
		p := start(u.Clone(rt))
		last := o.Starting
		if k := len(o.UpcomingVers); k > 0 {
			last = o.UpcomingVers[k-1]
		}
		if !w.DLEsAt(w.N())[pos-1] && pos-1 > last && w.Surprise(label, pos-1, g, false) {
			tempted++
			c.Class("temptation to update")
		}
		var all []structs.Marshaller
		for _, ix := range append(indexes, w.IndexOf(label)) {
			ix := slices.Clone(ix)
			for range values {
				ix = append(ix, pos)
			}
			sort.Slice(ix, func(i, j int) bool { return ix[i] < ix[j] })
			if r := w.EvilUpdate(rt, p, ix, o, pos, nv); r != nil {
				all = append(all, r)
			}
		}
		if r := w.EvilUpdate(rt, p, w.IndexOf(label), o, pos, nv); r != nil {
			all = append(all, r)
		}
		var donors []any
		for _, r := range all {
			donors = append(donors, r)
		}
		for _, r := range all[:len(all):len(all)] {
			m := DeepCopy(r)
			Mangle(rt, m, donors)
			if m := p.Recode(rt, w, m); m != nil {
				all = append(all, m)
			}
		}
		var next *User
		for _, r := range all {
			if q := judge(start, r); q != nil {
				next = q
			}
		}
		if next == nil {
			// The owner did not accept the update, so its versions are not its own.
			break
		}
		next.Name = u.Name
		u = next
	}
	if tempted >= 3 {
		c.NonTrivial()
	}
}

// checkInserted says that the versions an accepted update response is about are
// in the log, and that no further version was in the log before or is after.
func checkInserted(rt *rapid.T, w *World, label []byte, before, after *structs.LabelOwnerState, r *structs.UpdateResponse, n uint64) {
	dles := w.DLEsAt(n)
	g := before.VerAtStarting + len(before.UpcomingVers)
	end := after.VerAtStarting + len(after.UpcomingVers)
	last := before.Starting
	if k := len(before.UpcomingVers); k > 0 {
		last = before.UpcomingVers[k-1]
	}
	pos := r.Position
	if pos >= n || pos <= last || end != g+len(r.Info) {
		rt.Fatalf("an update at %d (size %d, %d versions) after %d makes the owner go from version %d to %d", pos, n, len(r.Info), last, g, end)
	}
	if !dles[pos-1] && pos-1 > last {
		for _, ver := range OwnLadder(g) {
			if _, there := w.Entries[pos-1].Prefix[string(w.Vrf(label, ver))]; there && int64(ver) > int64(g) {
				rt.Fatalf("an update of %q at %d after version %d is accepted, but version %d is in the entry before, which is not distinguished", label, pos, g, ver)
			}
		}
	}
	ladder := map[uint32]bool{}
	for _, ver := range OwnLadder(end) {
		ladder[ver] = true
		if _, there := w.Entries[pos].Prefix[string(w.Vrf(label, ver))]; there && int64(ver) > int64(end) && !dles[pos] {
			rt.Fatalf("an update of %q at %d, up to version %d, is accepted, but version %d is there", label, pos, end, ver)
		}
	}
	vals := w.Labels[string(label)]
	for i, info := range r.Info {
		ver := uint32(g + 1 + i)
		if dles[pos] && ladder[ver] {
			continue // left to monitoring
		}
		if !w.Opens(info.Opening, label, ver, vals[ver].Value, info.Signature, w.Entries[pos].Prefix[string(w.Vrf(label, ver))]) {
			rt.Fatalf("an update of %q at %d is accepted, but version %d is not there with the value told", label, pos, ver)
		}
	}
}

// growOn makes another world grow as grow does.
func (s *ownScene) growOn(rt *rapid.T, c *Case, w *World) {
	t := *s
	t.w = w
	t.grow(rt, c)
}
