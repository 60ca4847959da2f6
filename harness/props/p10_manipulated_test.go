package props

import (
	"bytes"
	"reflect"
	"testing"

	"github.com/Bren2010/katie/tree/transparency/structs"
	"pgregory.net/rapid"

	. "verif/kit"
)

func TestP10(t *testing.T) {
	Run(t, "at least 5 manipulated responses that differ from the honest one were verified, on a log of at least 3 entries",
		Sub{Name: "mangled", Quick: 5000, Thorough: 150000, Bubble: true, Prop: propMangled},
		Sub{Name: "skimping", Quick: 4000, Thorough: 120000, Bubble: true, Prop: propSkimping},
		Sub{Name: "lying", Quick: 5000, Thorough: 150000, Bubble: true, Prop: propLying},
	)
}

// checkSearchTruth verifies a response with the client that asked, and checks
// that the outcome is true of the log. Only the log's operator has its keys, so
// whatever verifies is about the log of the model.
func checkSearchTruth(rt *rapid.T, c *Case, w *World, p *Pending, res *structs.SearchResponse) (accepted bool) {
	before := p.User.DB.Dump()
	err := p.Verify(rt, res)
	if err != nil && p.User.DB.Dump() != before {
		rt.Fatalf("a response is rejected (%v) but the client's state changed", err)
	}
	if err != nil && !isAbsent(err) {
		return false
	}
	n := TreeSize(res, p.Search.Last)
	if n == 0 || n > w.N() {
		rt.Fatalf("the client believes a response about a log of size %d, which never existed (%d)", n, w.N())
	} else if p.Search.Last != nil && n < *p.Search.Last {
		rt.Fatalf("the client believes a response about size %d after having seen %d", n, *p.Search.Last)
	}
	vs := w.History[n-1][string(p.Label)]
	target := uint32(max(len(vs)-1, 0))
	if p.Ver != nil {
		target = *p.Ver
	} else if res.Version == nil || *res.Version != target {
		rt.Fatalf("the client believes that %v is the greatest version of %q at size %d, it is %d (%v)", deref(res.Version), p.Label, n, len(vs)-1, err)
	}
	exists := int64(target) < int64(len(vs))
	if err != nil {
		if exists && (p.Ver == nil || mustFindAt(w, vs[target], n)) {
			rt.Fatalf("the client believes that version %d of %q does not exist at size %d (%v), it does", target, p.Label, n, err)
		}
		return false
	}
	if !exists {
		rt.Fatalf("the client believes a value for version %d of %q at size %d, there are only %d", target, p.Label, n, len(vs))
	}
	if !bytes.Equal(res.Value.Value, vs[target].Value) {
		rt.Fatalf("the client believes that version %d of %q is %q, it is %q", target, p.Label, res.Value.Value, vs[target].Value)
	}
	w.CheckUser(rt, p.User)
	return true
}

func deref[T any](p *T) any {
	if p == nil {
		return nil
	}
	return *p
}

// withoutLadderCommitments removes what need not be proven: commitments in the
// ladder to versions other than the target (they are only remembered, and
// checked when they are first used), and what a search result repeats when
// another one in the same proof already shows the place it ends at.
func withoutLadderCommitments(res *structs.SearchResponse) *structs.SearchResponse {
	out := DeepCopy(res)
	for i := range out.BinaryLadder {
		out.BinaryLadder[i].Commitment = nil
	}
	for i := range out.Search.PrefixProofs {
		rs := out.Search.PrefixProofs[i].Results
		for j := range rs {
			rs[j] = BareResult(rs[j])
		}
	}
	return out
}

// scene is a log with clients that used it for a while.
type scene struct {
	w     *World
	users []*User
	past  []Heads
	old   []any // honest responses of before
}

func drawScene(rt *rapid.T, c *Case, o Opts, steps int) *scene {
	o.Stores = []string{"tx"}
	w := NewWorld(rt, c, o)
	s := &scene{w: w, users: drawUsers(rt, w, 2)}
	w.Stretch(rt, c)
	w.Grow(rt, c, 5)
	s.past = append(s.past, w.StoredHeads())
	for i := Int(rt, 0, steps, "steps"); i > 0; i-- {
		s.step(rt, c)
	}
	return s
}

// step lets the log grow or a client use it, all honestly.
func (s *scene) step(rt *rapid.T, c *Case) {
	w := s.w
	switch Flat(rt, 5, "step") {
	case 0, 1:
		w.Grow(rt, c, 6)
		s.past = append(s.past, w.StoredHeads())
	case 2:
		monitorSafe(rt, c, w, Pick(rt, s.users, "user"))
	default:
		u := Pick(rt, s.users, "user")
		label := Pick(rt, w.Pool, "label")
		p := u.StartSearch(rt, label, pickVersion(rt, len(w.Labels[string(label)])))
		res, err := p.Ask(rt, w, w.Tree)
		if err != nil {
			return // expired
		}
		if len(s.old) < 8 {
			s.old = append(s.old, DeepCopy(res.(*structs.SearchResponse)))
		}
		if err := p.Verify(rt, res); err != nil && !isAbsent(err) {
			rt.Fatalf("the client rejects an honest response: %v", err)
		}
	}
}

// pickTarget draws what to search for, preferring what exists.
func (s *scene) pickTarget(rt *rapid.T) ([]byte, *uint32) {
	label := Pick(rt, s.w.Pool, "label")
	for i := 0; i < 3 && len(s.w.Labels[string(label)]) == 0; i++ {
		label = Pick(rt, s.w.Pool, "label")
	}
	return label, pickVersion(rt, len(s.w.Labels[string(label)]))
}

// donors are honest responses to similar requests of the same client.
func (s *scene) donors(rt *rapid.T, u *User) []any {
	var out []any
	for i := Int(rt, 0, 2, "donors"); i > 0; i-- {
		label, ver := s.pickTarget(rt)
		p := u.StartSearch(rt, label, ver)
		if res, err := p.Ask(rt, s.w, s.w.Tree); err == nil {
			out = append(out, res)
		}
	}
	if len(s.old) > 0 {
		out = append(out, Pick(rt, s.old, "old response"))
	}
	return out
}

// judgeSearch verifies a response other than the honest one: what is accepted is
// true, and nothing but the honest response (up to redundant parts) proves it.
func judgeSearch(rt *rapid.T, c *Case, w *World, p *Pending, honest, sent *structs.SearchResponse, what string) {
	accepted := checkSearchTruth(rt, c, w, p, sent)
	if accepted && !reflect.DeepEqual(sent.FullTreeHead.AuditorTreeHead, honest.FullTreeHead.AuditorTreeHead) {
		// Another of the auditor's heads may need another proof. (Which
		// heads are acceptable is P30's.)
		c.Class("accepted: other auditor tree head")
	} else if accepted && TreeSize(sent, p.Search.Last) == w.N() {
		if Encoding(withoutLadderCommitments(sent)) != Encoding(withoutLadderCommitments(honest)) {
			rt.Fatalf("a manipulated response (%s) is accepted", what)
		}
		if p.Ver == nil {
			// Every version below the greatest is looked up.
			for i, st := range honest.BinaryLadder {
				if st.Commitment != nil && !bytes.Equal(st.Commitment, sent.BinaryLadder[i].Commitment) {
					rt.Fatalf("a response with a false commitment to an older version is accepted (%s)", what)
				}
			}
		}
		c.Class("accepted: unproven commitment")
	} else if accepted {
		c.Class("accepted: true of an older log")
	} else {
		c.Class("rejected")
	}
}

func propMangled(rt *rapid.T, c *Case) {
	s := drawScene(rt, c, Opts{Real: 3}, 12)
	w := s.w
	tried := 0
	for round := Int(rt, 1, 3, "rounds"); round > 0; round-- {
		u := Pick(rt, s.users, "user")
		label, ver := s.pickTarget(rt)
		first := u.StartSearch(rt, label, ver)
		honest, err := first.Ask(rt, w, w.Tree)
		if err != nil {
			continue
		}
		donors := s.donors(rt, u)
		c.Logf("attack %s at size %d, last %v", first, w.N(), deref(first.Search.Last))
		for k := 0; k < 8; k++ {
			p := u.Clone(rt).StartSearch(rt, label, ver)
			mut := DeepCopy(honest.(*structs.SearchResponse))
			what, changes := "", 0
			if Prob(rt, 6, "replayed") && len(donors) > 0 {
				mut = DeepCopy(Pick(rt, donors, "donor").(*structs.SearchResponse))
				if Bool(rt, "fit version") {
					mut.Version = DeepCopy(honest.(*structs.SearchResponse).Version)
				}
				what, changes = "replay", 2
			}
			for m := Pick(rt, []int{1, 1, 1, 2, 3}, "changes"); m > 0; m-- {
				if w := Mangle(rt, mut, donors); w != "" {
					what += " " + w
					changes++
				}
			}
			sent, _ := p.Recode(rt, w, mut).(*structs.SearchResponse)
			if sent == nil || Encoding(sent) == Encoding(honest) {
				continue
			}
			c.Logf("[%s]", what)
			tried++
			judgeSearch(rt, c, w, p, honest.(*structs.SearchResponse), sent, what)
		}
		// The client is unharmed.
		p := u.Clone(rt).StartSearch(rt, label, ver)
		if err := p.Verify(rt, DeepCopy(honest.(*structs.SearchResponse))); err != nil && !isAbsent(err) {
			rt.Fatalf("after rejecting manipulated responses the client rejects the honest one: %v", err)
		}
	}
	if tried >= 5 && w.N() >= 3 {
		c.NonTrivial()
	}
}

func propLying(rt *rapid.T, c *Case) {
	s := drawScene(rt, c, Opts{}, 14)
	w := s.w
	tried := 0
	for round := Int(rt, 1, 3, "rounds"); round > 0; round-- {
		u := Pick(rt, s.users, "user")
		if Prob(rt, 20, "fresh") {
			u = w.NewUser(rt, "N")
		}
		label, ver := s.pickTarget(rt)
		c.Logf("lies to %s about %q at size %d", u.Name, label, w.N())
		for k := 0; k < 6; k++ {
			p := u.Clone(rt).StartSearch(rt, label, ver)
			liar := w.Liar(rt, c, label, s.past)
			if Prob(rt, 40, "impostor") {
				liar = w.Impostor(rt, c, label)
			}
			if liar == nil {
				continue
			}
			res, _ := p.Try(rt, w, liar).(*structs.SearchResponse)
			if res == nil {
				c.Class("no answer")
				continue
			}
			tried++
			if Prob(rt, 25, "also mangled") {
				if what := Mangle(rt, res, s.old0()); what != "" {
					c.Logf("[%s]", what)
					if res, _ = p.Recode(rt, w, res).(*structs.SearchResponse); res == nil {
						continue
					}
				}
			}
			if checkSearchTruth(rt, c, w, p, res) {
				c.Class("accepted: true")
			} else {
				c.Class("rejected")
			}
		}
	}
	if tried >= 5 && w.N() >= 3 {
		c.NonTrivial()
	}
}

func propSkimping(rt *rapid.T, c *Case) {
	s := drawScene(rt, c, Opts{}, 10)
	w := s.w
	tried := 0
	for round := Int(rt, 1, 4, "rounds"); round > 0; round-- {
		u := Pick(rt, s.users, "user")
		label, ver := s.pickTarget(rt)
		first := u.StartSearch(rt, label, ver)
		honest, err := first.Ask(rt, w, w.Tree)
		if err != nil {
			continue
		}
		c.Logf("%s at size %d, last %v", first, w.N(), deref(first.Search.Last))
		for k := 0; k < 6; k++ {
			p := u.Clone(rt).StartSearch(rt, label, ver)
			sent, _ := w.EvilSearch(rt, p, honest.(*structs.SearchResponse)).(*structs.SearchResponse)
			if sent == nil {
				c.Class("no answer")
				continue
			} else if Encoding(sent) == Encoding(honest) {
				continue
			}
			tried++
			judgeSearch(rt, c, w, p, honest.(*structs.SearchResponse), sent, "skimping")
		}
	}
	if tried >= 5 && w.N() >= 3 {
		c.NonTrivial()
	}
}

func (s *scene) old0() []any { return s.old }
