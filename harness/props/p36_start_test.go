package props

import (
	"testing"

	"github.com/Bren2010/katie/tree/transparency/structs"
	"pgregory.net/rapid"

	. "verif/kit"
)

func TestP36(t *testing.T) {
	Run(t, "at least three responses claimed something false about the label's versions at the start, or about a log in which versions vanish",
		Sub{Name: "starts", Quick: 1500, Thorough: 60000, Bubble: true, Prop: propStarts},
	)
}

// startTruth says whether an accepted claim about the versions of a label in
// the entries inspected at the start is true, and why not.
func startTruth(w *World, label []byte, start, n uint64, vers []uint32) string {
	xs, ok := w.InitEntries(start, n)
	if !ok {
		return "the start has expired"
	} else if !w.DLEsAt(n)[start] {
		return "the start is not distinguished"
	} else if len(vers) > len(xs) {
		return "there are more versions than entries"
	}
	coms := map[uint32]string{}
	prev := int64(1 << 40)
	for i, x := range xs {
		g := -1
		if i < len(vers) {
			g = int(vers[i])
		}
		if int64(g) > prev {
			return "versions vanish"
		}
		prev = int64(g)
		if w.Surprise(label, x, g, false) {
			return "that is not the greatest version"
		}
		for _, v := range OwnLadder(g) {
			if int64(v) > int64(g) {
				continue
			}
			com := w.Entries[x].Prefix[string(w.Vrf(label, v))]
			if c, ok := coms[v]; ok && c != string(com) {
				return "a version changes"
			}
			coms[v] = string(com)
		}
	}
	return ""
}

func propStarts(rt *rapid.T, c *Case) {
	s := drawOwners(rt, c, Opts{Stores: []string{"tx"}, Windows: []uint64{1, 7, 1000, 1000, 86400000}, NoExpiry: Prob(rt, 75, "no expiry")})
	w := s.w
	label := Pick(rt, w.Pool, "owned label")
	u := s.users[0]
	s.owner[string(label)] = u // so that only its operator changes it
	var inserted []uint64
	pause := func() {
		if Flat(rt, 4, "slow") == 0 {
			w.Sleep(c, U64(rt, 0, w.Config.ReasonableMonitoringWindow/5, "ms"))
		} else {
			w.Tick(rt, c)
		}
	}
	tempted := 0
	for round := 1 + Flat(rt, 4, "rounds"); round > 0; round-- {
		for k := 1 + Flat(rt, 8, "entries"); k > 0; k-- {
			pause()
			if Flat(rt, 3, "meddle now") > 0 {
				meddle(rt, c, w, label, &inserted)
			} else {
				s.grow(rt, c)
			}
		}
		if Flat(rt, 3, "move on") > 0 {
			for _, l := range w.Pool {
				if string(l) != string(label) && len(w.Labels[string(l)]) > 0 {
					searchOnce(rt, c, w, u, l, nil)
					break
				}
			}
		}
		for k := Flat(rt, 3, "meanwhile"); k > 0; k-- {
			pause()
			meddle(rt, c, w, label, &inserted)
		}
		if u.State(rt) == nil {
			continue
		}
		if ls := u.Label(rt, label); ls != nil && ls.Owner != nil {
			break
		}
		p := u.StartInit(rt, label)
		if p == nil {
			continue
		}
		n := w.N()
		xs, _ := w.InitEntries(p.Init.Start, n)
		c.Logf("init at %d, entries %v", p.Init.Start, xs)
		// What every entry alone could be claimed to have.
		var can [][]int
		for _, x := range xs {
			var gs []int
			for g := -1; g < 12; g++ {
				if !w.Surprise(label, x, g, false) {
					gs = append(gs, g)
				}
			}
			can = append(can, gs)
		}
		var all []structs.Marshaller
		var donors []any
		add := func(r structs.Marshaller) {
			if r != nil {
				all = append(all, r)
				donors = append(donors, r)
			}
		}
		add(p.Try(rt, w, w.Tree))
		for k := 0; k < 6; k++ {
			var vers []int
			for i := range xs {
				switch m := Flat(rt, 8, "claim"); {
				case m == 0:
					vers = append(vers, Flat(rt, 8, "version")-1)
				case m == 1 && i > 0:
					vers = append(vers, vers[i-1])
				case len(can[i]) > 0:
					vers = append(vers, Pick(rt, can[i], "possible version"))
				default:
					vers = append(vers, -1)
				}
			}
			switch Flat(rt, 12, "length") {
			case 0:
				vers = append(vers, Flat(rt, 4, "extra"))
			case 1:
				if len(vers) > 0 {
					vers = vers[:Flat(rt, len(vers), "keep")]
				}
			}
			add(w.EvilInit(rt, p, vers))
		}
		for _, r := range all[:len(all):len(all)] {
			if Bool(rt, "as it is") {
				continue
			}
			m := DeepCopy(r)
			Mangle(rt, m, donors)
			if m := p.Recode(rt, w, m); m != nil {
				all = append(all, m)
			}
		}
		var next *User
		for _, r := range all {
			res := r.(*structs.OwnerInitResponse)
			q := u.Clone(rt)
			p := q.StartInit(rt, label)
			n := TreeSize(res, p.Last())
			lie := "a log that does not exist"
			if n > p.Init.Start && n <= w.N() {
				lie = startTruth(w, label, p.Init.Start, n, res.GreatestVersions)
			}
			if lie != "" {
				tempted++
				c.Class("claim: " + lie)
			} else {
				c.Class("true claim")
			}
			dump := q.DB.Dump()
			contact := q.Label(rt, label)
			if err := p.Verify(rt, res); err != nil {
				if q.DB.Dump() != dump {
					rt.Fatalf("a response is rejected (%v) but the client's state changed", err)
				}
				continue
			}
			if lie != "" {
				rt.Fatalf("initialising ownership of %q at %d with the versions %v in entries %v is accepted: %s", label, p.Init.Start, res.GreatestVersions, xs, lie)
			}
			w.CheckUser(rt, q)
			o := q.Label(rt, label).Owner
			g := -1
			if len(res.GreatestVersions) > 0 {
				g = int(res.GreatestVersions[0])
			}
			if o == nil || o.Starting != p.Init.Start || o.VerAtStarting != g || len(o.UpcomingVers) != 0 {
				rt.Fatalf("initialising ownership of %q at %d with the versions %v leaves %+v", label, p.Init.Start, res.GreatestVersions, o)
			}
			if contact != nil && len(contact.Contact) != len(q.Label(rt, label).Contact) {
				rt.Fatalf("initialising ownership of %q changes what is monitored", label)
			}
			c.Class("accepted")
			next = q
		}
		if next != nil && Bool(rt, "go on") {
			break
		}
	}
	if tempted >= 3 {
		c.NonTrivial()
	}
}
