package props

import (
	"testing"

	"github.com/Bren2010/katie/tree/transparency/structs"
	"pgregory.net/rapid"

	. "verif/kit"
)

func TestP35(t *testing.T) {
	Run(t, "at least three responses, one of them with three prefix proofs or more, were compared with the description",
		Sub{Name: "everything", Quick: 800, Thorough: 30000, Bubble: true, Prop: propExact},
		Sub{Name: "watchers", Quick: 800, Thorough: 30000, Bubble: true, Prop: propExactWatchers},
		Sub{Name: "starts", Quick: 500, Thorough: 20000, Bubble: true, Prop: propExactStarts},
		Sub{Name: "owners", Quick: 400, Thorough: 15000, Bubble: true, Prop: propExactOwners},
	)
}

// exact compares every response the users verify with what is due.
func exact(rt *rapid.T, c *Case, s *ownScene) func() {
	count, best := 0, 0
	for _, u := range s.users {
		u.OnVerify = func(p *Pending, res structs.Marshaller) {
			if s.w.Gone[string(p.Label)] {
				return
			}
			sp := s.w.CheckProof(rt, p, res)
			count++
			best = max(best, len(sp.Proofs))
			what := p.Kind
			if p.Ver != nil {
				what = "fixed search"
			}
			c.Class(what)
			if len(sp.Proofs) >= 3 {
				c.Class(what + ": three or more")
			}
		}
	}
	return func() {
		if count >= 3 && best >= 3 {
			c.NonTrivial()
		}
	}
}

// lengthen makes some logs longer than the steps of a case would.
func (s *ownScene) lengthen(rt *rapid.T, c *Case) {
	if !Prob(rt, 40, "long") {
		return
	}
	fast := Bool(rt, "fast")
	for k := Flat(rt, 40, "more entries"); k > 0; k-- {
		if fast {
			s.w.Sleep(c, U64(rt, 0, s.w.Config.ReasonableMonitoringWindow/4, "ms"))
		} else {
			s.w.Tick(rt, c)
		}
		s.growOne(rt, c)
	}
	s.w.KeepAudited(rt)
}

// look makes a search whatever comes of it.
func (s *ownScene) look(rt *rapid.T, c *Case, u *User) {
	w := s.w
	label := Pick(rt, w.Pool, "looked up")
	p := u.StartSearch(rt, label, pickVersion(rt, len(w.Labels[string(label)])))
	c.Logf("%s", p)
	if res, err := p.Ask(rt, w, w.Tree); err == nil {
		p.Verify(rt, res)
	} else {
		c.Class("refused")
	}
}

func propExact(rt *rapid.T, c *Case) {
	s := drawOwners(rt, c, Opts{Real: 3, Stores: []string{"tx", "tx", "tx", "memory"}})
	done := exact(rt, c, s)
	s.lengthen(rt, c)
	for i := 8 + Flat(rt, 32, "steps"); i > 0; i-- {
		switch Flat(rt, 8, "exact step") {
		case 0, 1, 2:
			s.look(rt, c, Pick(rt, s.users, "user"))
		case 3:
			growSlowly2(rt, c, s)
		default:
			s.step(rt, c)
		}
	}
	done()
}

// propExactOwners is about owners: many versions, in entries that are
// distinguished or not.
func propExactOwners(rt *rapid.T, c *Case) {
	s := drawOwners(rt, c, Opts{Stores: []string{"tx"}, Labels: 3, NoExpiry: Bool(rt, "no expiry")})
	w := s.w
	done := exact(rt, c, s)
	s.lengthen(rt, c)
	for i := 10 + Flat(rt, 30, "steps"); i > 0; i-- {
		u, label := Pick(rt, s.users, "user"), Pick(rt, w.Pool, "label")
		switch k := Flat(rt, 10, "owner step"); {
		case s.owner[string(label)] == nil && k < 5:
			s.step(rt, c)
		case k < 3:
			growSlowly2(rt, c, s)
		case k < 7 && s.owner[string(label)] != nil:
			s.update(rt, c, s.owner[string(label)], label, DrawValues(rt, 6))
		case k < 8:
			monitorAll(rt, c, w, u, -1)
		case k < 9:
			s.look(rt, c, u)
		default:
			s.step(rt, c)
		}
	}
	done()
}

// propExactWatchers is about users who look labels up and monitor them, while
// many entries are added within one monitoring window.
func propExactWatchers(rt *rapid.T, c *Case) {
	s := drawOwners(rt, c, Opts{Stores: []string{"tx"}, Windows: []uint64{1000, 86400000, 86400000, 300000000000, epoch0},
		Modes: []structs.DeploymentMode{structs.ContactMonitoring, structs.ContactMonitoring, structs.ContactMonitoring, structs.ThirdPartyAuditing}})
	w := s.w
	done := exact(rt, c, s)
	s.lengthen(rt, c)
	for i := 10 + Flat(rt, 30, "steps"); i > 0; i-- {
		u := Pick(rt, s.users, "user")
		switch Flat(rt, 12, "watcher step") {
		case 0, 1, 2:
			growSlowly2(rt, c, s)
		case 3:
			w.Tick(rt, c)
			s.growOne(rt, c)
		case 4, 5, 6, 7:
			s.look(rt, c, u)
		case 8:
			s.step(rt, c)
		default:
			if st := u.State(rt); st != nil {
				monitorAll(rt, c, w, u, Pick(rt, []int{1, 2, -1}, "rounds"))
			}
		}
	}
	done()
}

// propExactStarts is about ownership that starts in a log of some length.
func propExactStarts(rt *rapid.T, c *Case) {
	s := drawOwners(rt, c, Opts{Stores: []string{"tx"}, Labels: 4, Windows: []uint64{1, 7, 1000, 1000, 86400000}, NoExpiry: Prob(rt, 70, "no expiry")})
	w := s.w
	done := exact(rt, c, s)
	for r := 1 + Flat(rt, 3, "rounds"); r > 0; r-- {
		for k := Flat(rt, 25, "more entries"); k > 0; k-- {
			if Flat(rt, 4, "slow") == 0 {
				w.Sleep(c, U64(rt, 0, w.Config.ReasonableMonitoringWindow/3, "ms"))
			} else {
				w.Tick(rt, c)
			}
			s.growOne(rt, c)
		}
		for _, u := range s.users {
			s.look(rt, c, u)
		}
		for k := Flat(rt, 3, "meanwhile"); k > 0; k-- {
			s.growOne(rt, c)
		}
		for _, l := range w.Pool {
			if u := Pick(rt, s.users, "owner"); s.free(l) && Flat(rt, 3, "leave") > 0 && initOwner(rt, c, w, u, l) {
				s.owner[string(l)] = u
				if len(w.Labels[string(l)]) > known(rt, u, l) {
					s.update(rt, c, u, l, nil)
				}
			}
		}
		for k := Flat(rt, 4, "steps"); k > 0; k-- {
			s.step(rt, c)
		}
	}
	done()
}

// growSlowly2 adds entries in quick succession without touching owned labels.
func growSlowly2(rt *rapid.T, c *Case, s *ownScene) {
	for k := 1 + Flat(rt, 3, "entries"); k > 0; k-- {
		s.w.Sleep(c, U64(rt, 0, s.w.Config.ReasonableMonitoringWindow/6, "ms"))
		s.growOne(rt, c)
	}
}
