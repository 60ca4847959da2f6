package props

import (
	"fmt"
	"sort"
	"testing"
	"time"

	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"pgregory.net/rapid"

	. "verif/kit"
)

func TestP12(t *testing.T) {
	Run(t, "at least 6 responses were verified by clocks within two milliseconds of a bound; or at least 3 responses that show decreasing timestamps were verified",
		Sub{Name: "bounds", Quick: 6000, Thorough: 200000, Prop: propClockBounds},
		Sub{Name: "order", Quick: 6000, Thorough: 200000, Bubble: true, Prop: propTimestampOrder},
	)
}

// propClockBounds verifies responses by any clock.
func propClockBounds(rt *rapid.T, c *Case) {
	type trial struct {
		at   uint64
		user *User
		a    ask
	}
	var trials []trial
	var ahead, behind uint64
	c.Bubble(rt, func() {
		mode := Pick(rt, AllModes, "mode")
		o := Opts{Real: 2, Stores: []string{"tx"}, Modes: []structs.DeploymentMode{mode}}
		managed := mode == structs.ThirdPartyManagement
		if managed {
			// The operator's signatures cover the bounds, which therefore have
			// to hold from the beginning.
			ahead = Pick(rt, []uint64{0, 1, 2, 60000, 1 << 63, ^uint64(0)}, "ahead")
			behind = Pick(rt, []uint64{1 << 38, 1<<38 + 1, 1 << 40, ^uint64(0)}, "behind")
			o.Bounds = &[2]uint64{ahead, behind}
			o.Windows = []uint64{1, 7, 1000, 86400000}
		}
		s := drawOwners(rt, c, o)
		w := s.w
		for i := Int(rt, 0, 10, "steps"); i > 0; i-- {
			s.step(rt, c)
		}
		win := w.Config.ReasonableMonitoringWindow
		if !managed {
			bound := func(name string) uint64 {
				return Pick(rt, []uint64{0, 1, 2, 1000, win, 60000, 1 << 40, 1 << 63, ^uint64(0)}, name)
			}
			ahead, behind = bound("ahead"), bound("behind")
			w.Config.MaxAhead, w.Config.MaxBehind = ahead, behind
		}
		c.Logf("at most %d ahead, %d behind", ahead, behind)
		if !managed {
			w.Sleep(c, Pick(rt, []uint64{0, 1, min(ahead, 1<<41) + 5, min(ahead, 1<<41) + 2*win}, "later"))
		}
		if Prob(rt, 80, "grow") {
			s.grow(rt, c)
		} else if _, err := w.Mutate(rt, c, Batch{}); err != nil {
			rt.Fatalf("an empty mutation failed: %v", err)
		}
		w.KeepAudited(rt)
		w.Resign(rt)
		for _, u := range s.users {
			u.Config = w.Config.Public()
			u.Restart(rt)
		}
		u := Pick(rt, s.users, "user")
		if Prob(rt, 20, "fresh") {
			u = w.NewUser(rt, "N")
		} else if u.State(rt) != nil && Bool(rt, "up to date") {
			// So that the tree head does not change.
			searchOnce(rt, c, w, u, Pick(rt, w.Pool, "label"), nil)
		}
		for _, a := range s.asks(rt, c, u) {
			n := TreeSize(a.honest[0], a.start(u.Clone(rt)).Last())
			ts := a.w.Entries[n-1].TS
			for k := 0; k < 4; k++ {
				at := ts
				switch Flat(rt, 5, "side") {
				case 0, 1:
					at = ts - min(ahead, ts-epochMs) + uint64(Flat(rt, 5, "off")) - 2
				case 2, 3:
					at = ts + min(behind, 1<<41) + uint64(Flat(rt, 5, "off")) - 2
				default:
					at = ts + uint64(Flat(rt, 2001, "off")) - 1000
				}
				if at >= epochMs && at < epochMs+250*365*86400*1000 {
					trials = append(trials, trial{at, u, a})
				}
			}
		}
	})
	sort.SliceStable(trials, func(i, j int) bool { return trials[i].at < trials[j].at })
	close := 0
	c.Bubble(rt, func() {
		for _, t := range trials {
			time.Sleep(time.Duration(t.at-Now()) * time.Millisecond)
			if Now() != t.at {
				rt.Fatalf("harness: the clock is %d instead of %d", Now(), t.at)
			}
			q := t.user.Clone(rt)
			p := t.a.start(q)
			for _, r := range t.a.honest {
				st := q.State(rt)
				var last *uint64
				if st != nil {
					last = &st.TreeHead.TreeSize
				}
				n := TreeSize(r, last)
				ts := t.a.w.Entries[n-1].TS
				within := true
				off := fmt.Sprintf("%d behind", t.at-ts)
				near := t.at >= ts && t.at-ts+2 >= behind && t.at-ts <= behind+2
				if t.at < ts {
					within, off = ts-t.at <= ahead, fmt.Sprintf("%d ahead", ts-t.at)
					near = ts-t.at+2 >= ahead && ts-t.at <= ahead+2
				} else {
					within = t.at-ts <= behind
				}
				before := q.DB.Dump()
				err := p.Verify(rt, DeepCopy(r))
				if within && err != nil && !isAbsent(err) {
					rt.Fatalf("%s: an honest response is rejected (%v) although the rightmost timestamp is only %s (bounds %d ahead, %d behind)", p, err, off, ahead, behind)
				} else if !within && (err == nil || isAbsent(err)) {
					rt.Fatalf("%s: a response is accepted (%v) although the rightmost timestamp is %s (bounds %d ahead, %d behind)", p, err, off, ahead, behind)
				} else if err != nil && q.DB.Dump() != before {
					rt.Fatalf("%s: a response is rejected (%v) but the client's state changed", p, err)
				}
				kind := p.Kind
				if Head(r).TreeHead == nil {
					kind += ", same head"
				}
				if within {
					c.Class(kind + ": within")
				} else {
					c.Class(kind + ": outside")
				}
				if near {
					close++
				}
				if err != nil {
					break
				}
			}
		}
	})
	if close >= 6 {
		c.NonTrivial()
	}
}

const epochMs = 946684800000

// propTimestampOrder shows clients logs whose timestamps decrease somewhere.
func propTimestampOrder(rt *rapid.T, c *Case) {
	s := drawOwners(rt, c, Opts{Real: 2, Stores: []string{"tx"}, NoExpiry: true})
	w := s.w
	for i := 3 + Flat(rt, 12, "steps"); i > 0; i-- {
		w.Sleep(c, 1)
		s.step(rt, c)
	}
	u := Pick(rt, s.users, "user")
	if Prob(rt, 15, "fresh") {
		u = w.NewUser(rt, "N")
	}
	if Bool(rt, "look up") {
		s.lookUp(rt, c, u)
	}
	for k := Flat(rt, 6, "news"); k > 0; k-- {
		w.Sleep(c, 1+U64(rt, 0, w.Config.ReasonableMonitoringWindow/3, "ms"))
		(&ownScene{w: w, owner: s.owner}).growOne(rt, c)
	}
	st := u.State(rt)
	m := uint64(0)
	if st != nil {
		m = st.TreeHead.TreeSize
	}
	shown := 0
	for _, a := range s.asks(rt, c, u) {
		g := a.w
		real := g.Timestamps()
		n := g.N()
		if m >= n {
			continue
		}
		// The honest timestamps tell entries apart as far as they differ.
		pos := map[uint64][]uint64{}
		for x, ts := range real {
			pos[ts] = append(pos[ts], uint64(x))
		}
		for k := 0; k < 6; k++ {
			fake := append([]uint64{}, real...)
			what := ""
			for j := 1 + Flat(rt, 2, "changes"); j > 0; j-- {
				x := m + uint64(Flat(rt, int(n-m), "entry"))
				y := uint64(Flat(rt, int(n), "other entry"))
				fake[x] = real[y] + uint64(Flat(rt, 3, "off")) - 1
				what += fmt.Sprintf(" %d: %d-%d", x, real[x], fake[x])
			}
			f := g.Fork(rt)
			f.Retime(rt, fake)
			// A server with the honest timestamps, so that it answers, and the
			// log tree of the false ones.
			tx := f.Tx.Snapshot()
			h := g.Fork(rt)
			for x := range real {
				key := fmt.Sprintf("t%d", x)
				raw := h.Tx.Get(key)
				tx.Edit(key, func([]byte) []byte { return raw })
			}
			t, err := transparency.NewTree(w.Config, tx, nil)
			if err != nil {
				rt.Fatalf("harness: %v", err)
			}
			q := u.Clone(rt)
			p := a.start(q)
			var sent structs.Marshaller
			if p.Update != nil && len(a.honest) > 0 && m < n && a.honest[0].(*structs.UpdateResponse).Values == nil {
				continue // the answer is made while the log grows
			} else if sent = p.Try(rt, w, t); sent == nil {
				c.Class("no answer")
				continue
			}
			proof := Proof(sent)
			set := map[uint64]bool{}
			if st != nil {
				for x := range st.LogEntries {
					set[x] = true
				}
			}
			ok := true
			for i, ts := range proof.Timestamps {
				xs := pos[ts]
				if len(xs) != 1 {
					ok = false // (or it is one of several with the same timestamp)
					for _, x := range xs {
						ok = ok || fake[x] == ts
					}
				}
				if len(xs) == 1 {
					proof.Timestamps[i] = fake[xs[0]]
					set[xs[0]] = true
				}
			}
			if !ok {
				continue
			}
			decreasing := ""
			lastx, lastts := uint64(0), uint64(0)
			for _, x := range SortedKeys(set) {
				if fake[x] < lastts {
					decreasing = fmt.Sprintf("%d has %d, %d has %d", lastx, lastts, x, fake[x])
				}
				lastx, lastts = x, fake[x]
			}
			if sent = p.Recode(rt, w, sent); sent == nil {
				rt.Fatalf("harness: no encoding")
			}
			before := q.DB.Dump()
			err = p.Verify(rt, sent)
			if err != nil && q.DB.Dump() != before {
				rt.Fatalf("%s: a response is rejected (%v) but the client's state changed", p, err)
			}
			if decreasing != "" {
				shown++
				c.Class(a.kind + " decreasing")
				if err == nil || isAbsent(err) {
					rt.Fatalf("%s (%s ): a response is accepted (%v) although timestamps decrease: %s (retained: up to %d)", p, what, err, decreasing, m)
				}
			} else if err == nil || isAbsent(err) {
				c.Class(a.kind + " accepted")
				f.CheckUser(rt, q)
			} else {
				c.Class(a.kind + " other timestamps, rejected")
			}
		}
	}
	if shown >= 3 {
		c.NonTrivial()
	}
}
