package props

import (
	"errors"
	"reflect"
	"sort"
	"testing"

	"github.com/Bren2010/katie/tree/transparency/structs"
	"pgregory.net/rapid"

	. "verif/kit"
)

func TestP28(t *testing.T) {
	Run(t, "at least 5 responses other than the honest one were handed to a client with pending requests (or a store operation of the client failed while it verified one)",
		Sub{Name: "hostile", Quick: 5000, Thorough: 200000, Bubble: true, Prop: propHostile},
		Sub{Name: "failing store", Quick: 2500, Thorough: 80000, Bubble: true, Prop: propFailingStore},
	)
}

// ask is a request that a client can make, again and again.
type ask struct {
	kind  string
	label []byte
	start func(u *User) *Pending
	// honest responses, in order (more than one for updates only)
	honest []structs.Marshaller
	w      *World // the log they are about
}

// asks draws requests of all kinds that u can make now, with their answers.
func (s *ownScene) asks(rt *rapid.T, c *Case, u *User) []ask {
	w := s.w
	label := Pick(rt, w.Pool, "label")
	ver := pickVersion(rt, len(w.Labels[string(label)]))
	values := DrawValues(rt, 3)
	all := []ask{
		{"search", label, func(u *User) *Pending { return u.StartSearch(rt, label, ver) }, nil, w},
		{"init", label, func(u *User) *Pending { return u.StartInit(rt, label) }, nil, w},
		{"monitor", nil, func(u *User) *Pending { return u.StartMonitor(rt) }, nil, w},
		{"update", label, func(u *User) *Pending { return u.StartUpdate(rt, label, values) }, nil, w},
	}
	var out []ask
	for _, a := range all {
		// Which label is monitored must not vary.
		q := u.Clone(rt)
		i := U64(rt, 0, 5, "stale")
		start := a.start
		a.start = func(u *User) *Pending {
			u.DB.Stale = func(l []string) int { return int(i) % len(l) }
			return start(u)
		}
		p := a.start(q)
		if p == nil {
			continue
		}
		a.kind, a.label = p.Kind, p.Label
		if p.Update != nil {
			f := w.Fork(rt)
			a.w = f
			res, err := f.ServeUpdate(rt, nil, p.Update, f.Sequencer(rt, c, 2, s.free))
			if err != nil {
				rt.Fatalf("an honest update fails: %v", err)
			}
			for _, r := range res {
				a.honest = append(a.honest, r)
			}
		} else if res, err := p.Ask(rt, w, w.Tree); err == nil {
			a.honest = append(a.honest, res)
		}
		if len(a.honest) > 0 {
			out = append(out, a)
		}
	}
	return out
}

// lookUp makes the client search for labels, so that it has to monitor them.
func (s *ownScene) lookUp(rt *rapid.T, c *Case, u *User) {
	for k := Flat(rt, 3, "lookups"); k > 0; k-- {
		l := Pick(rt, s.w.Pool, "looked up")
		if n := len(s.w.Labels[string(l)]); n > 0 && !s.w.Gone[string(l)] && s.owner[string(l)] != u {
			searchOnce(rt, c, s.w, u, l, nil)
		}
	}
	if Bool(rt, "grow") {
		s.grow(rt, c)
	}
}

// synthetic are responses that have nothing to do with the log.
func synthetic(rt *rapid.T, c *Case, w *World) []any {
	g := &gen{rt: rt, c: c, cfg: w.Config.Public()}
	var out []any
	h, p, v := g.fullTreeHead(), g.combined(), g.updateValue()
	st := g.step()
	info := structs.UpdateInfo{Opening: g.opening(), UpdateSuffix: g.suffix()}
	out = append(out, &h, &p, &v, &st, &info)
	return out
}

func propHostile(rt *rapid.T, c *Case) {
	s := drawOwners(rt, c, Opts{Real: 4, Stores: []string{"tx"}})
	w := s.w
	for i := 3 + Flat(rt, 15, "steps"); i > 0; i-- {
		s.step(rt, c)
	}
	tried := 0
	var old []any
	for round := 1 + Flat(rt, 2, "rounds"); round > 0; round-- {
		u := Pick(rt, s.users, "user")
		if Prob(rt, 20, "fresh") {
			u = w.NewUser(rt, "N")
		}
		s.lookUp(rt, c, u)
		asks := s.asks(rt, c, u)
		donors := append(synthetic(rt, c, w), old...)
		for _, a := range asks {
			for _, r := range a.honest {
				donors = append(donors, r)
			}
		}
		for _, a := range asks {
			for k := 0; k < 5; k++ {
				q := u.Clone(rt)
				p := a.start(q)
				i := Flat(rt, len(a.honest), "response")
				for _, r := range a.honest[:i] {
					MustAccept(rt, p.String(), p.Verify(rt, DeepCopy(r)))
				}
				var sent structs.Marshaller
				what := ""
				switch Flat(rt, 10, "attack") {
				case 0: // damaged on the way
					if raw := Encoding(a.honest[i]); raw != "" {
						sent = p.Decode(rt, w, MangleBytes(rt, []byte(raw)))
						what = "bytes"
					}
				case 1: // the answer to something else
					other := Pick(rt, asks, "other").honest
					sent = p.Recode(rt, w, Pick(rt, other, "other response"))
					what = "other"
					if sent == nil && (p.Kind == "contact" || p.Kind == "owner") {
						sent = Pick(rt, other, "other response")
					}
				case 2: // nothing in it is of this log
					sent = DeepCopy(a.honest[i])
					for m := 12; m > 0; m-- {
						Mangle(rt, sent, donors[:5])
					}
					what = "synthetic"
					sent = p.Recode(rt, w, sent)
				default:
					sent = DeepCopy(a.honest[i])
					for m := Pick(rt, []int{1, 1, 2, 2, 3, 5, 8, 16}, "changes"); m > 0; m-- {
						what += " " + Mangle(rt, sent, donors)
					}
					sent = p.Recode(rt, w, sent)
				}
				if sent == nil {
					c.Class("not decodable")
					continue
				}
				if Encoding(sent) == Encoding(a.honest[i]) {
					continue
				}
				if k < 2 {
					c.Logf("%s [%s]", p, what)
				}
				c.Class(a.kind)
				tried++
				before := q.DB.Dump()
				if err := p.Verify(rt, sent); err != nil {
					if q.DB.Dump() != before {
						rt.Fatalf("%s: a response is rejected (%v) but the client's state changed", p, err)
					}
					// The client goes on with an honest server.
					p = a.start(q)
					if p == nil || p.Kind != a.kind {
						rt.Fatalf("after a rejected response a request of kind %s can not be made again", a.kind)
					}
					if p.Update != nil && i > 0 {
						continue // it knows part of the news now
					}
					for _, r := range a.honest {
						if err := p.Verify(rt, DeepCopy(r)); err != nil && !isAbsent(err) {
							rt.Fatalf("%s: after a rejected response the honest one is rejected: %v", p, err)
						}
					}
				} else {
					c.Class("accepted")
					q.State(rt)
					q.Label(rt, p.Label)
				}
			}
		}
		for _, a := range asks {
			old = append(old, a.honest[0])
		}
		s.step(rt, c)
	}
	if tried >= 5 {
		c.NonTrivial()
	}
}

var errStore = errors.New("injected store failure")

// propFailingStore makes any operation of the client's store fail: nothing may
// be accepted that is not stored, and nothing is stored that is not accepted.
func propFailingStore(rt *rapid.T, c *Case) {
	s := drawOwners(rt, c, Opts{Stores: []string{"tx"}})
	w := s.w
	for i := 3 + Flat(rt, 15, "steps"); i > 0; i-- {
		s.step(rt, c)
	}
	u := Pick(rt, s.users, "user")
	if Prob(rt, 20, "fresh") {
		u = w.NewUser(rt, "N")
	}
	s.lookUp(rt, c, u)
	failedRequests(rt, c, s, u)
	hit := 0
	for _, a := range s.asks(rt, c, u) {
		// The undisturbed run.
		ref := u.Clone(rt)
		ops := 0
		p := a.start(ref)
		ref.DB.OnOp = func(string) error { ops++; return nil }
		var want []error
		for _, r := range a.honest {
			err := p.Verify(rt, DeepCopy(r))
			want = append(want, err)
		}
		for k := 0; k < ops; k++ {
			q := u.Clone(rt)
			p := a.start(q)
			n, failed := 0, ""
			q.DB.OnOp = func(op string) error {
				n++
				if n == k+1 {
					failed = op
					return errStore
				}
				return nil
			}
			for i, r := range a.honest {
				before := q.DB.Dump()
				err := p.Verify(rt, DeepCopy(r))
				if failed == "" {
					if (err == nil) != (want[i] == nil) {
						rt.Fatalf("harness: verification is not deterministic: %v, %v", err, want[i])
					}
					continue
				}
				hit++
				c.Class(a.kind + " " + failed)
				if err == nil || isAbsent(err) {
					rt.Fatalf("%s: the client's store fails (%s) but verification ends with %v", p, failed, err)
				} else if q.DB.Dump() != before {
					rt.Fatalf("%s: the client's store fails (%s) and its contents changed", p, failed)
				}
				break
			}
			if failed == "" {
				continue
			}
			q.DB.OnOp = nil
			q.Restart(rt)
			if p.Update != nil && len(a.honest) > 1 {
				continue
			}
			p = a.start(q)
			for i, r := range a.honest {
				if err := p.Verify(rt, DeepCopy(r)); (err == nil) != (want[i] == nil) {
					rt.Fatalf("%s: after a failure of the client's store (%s) the same response gives %v instead of %v", p, failed, err, want[i])
				}
			}
			if !sameStored(rt, q, ref) {
				rt.Fatalf("%s: after a failure of the client's store (%s) and a retry its contents differ from those of an undisturbed run", p, failed)
			}
		}
	}
	if hit > 0 {
		c.NonTrivial()
	}
}

// failedRequests makes the store fail while a request is made: that must be
// reported (and not be taken for a client that knows or owns nothing, or that
// has nothing to monitor) and change nothing.
func failedRequests(rt *rapid.T, c *Case, s *ownScene, u *User) {
	label := Pick(rt, s.w.Pool, "label")
	calls := map[string]func(q *User) (bool, error){
		"search": func(q *User) (bool, error) { _, _, err := q.C.GreatestVersionSearch(label); return true, err },
		"fixed":  func(q *User) (bool, error) { _, _, err := q.C.FixedVersionSearch(label, 0); return true, err },
		"init":   func(q *User) (bool, error) { _, _, err := q.C.OwnerInit(label); return true, err },
		"update": func(q *User) (bool, error) { _, _, err := q.C.Update(label, [][]byte{{1}}); return true, err },
		"monitor": func(q *User) (bool, error) {
			req, _, err := q.C.Monitor()
			return req != nil, err
		},
	}
	for _, name := range []string{"search", "fixed", "init", "update", "monitor"} {
		for k := 0; ; k++ {
			q := u.Clone(rt)
			n, failed := 0, ""
			q.DB.OnOp = func(op string) error {
				n++
				if n == k+1 {
					failed = op
					return errStore
				}
				return nil
			}
			before := q.DB.Dump()
			made, err := calls[name](q)
			if q.DB.Dump() != before {
				rt.Fatalf("making a request (%s) changed what the client has stored", name)
			}
			if failed == "" {
				break
			}
			c.Class("request " + name + " " + failed)
			if err == nil {
				rt.Fatalf("the client's store fails (%s) but making a request (%s) ends without an error (request made: %v)", failed, name, made)
			}
		}
	}
}

// sameStored says whether two clients have stored the same.
func sameStored(rt *rapid.T, a, b *User) bool {
	if !reflect.DeepEqual(a.State(rt), b.State(rt)) || len(a.DB.Labels) != len(b.DB.Labels) {
		return false
	}
	for l, x := range a.DB.Labels {
		y, ok := b.DB.Labels[l]
		if !ok || x.Terminal != y.Terminal || !reflect.DeepEqual(sorted(a.Label(rt, []byte(l))), sorted(b.Label(rt, []byte(l)))) {
			return false
		}
	}
	return true
}

// sorted puts the retained versions, which are a set, in order.
func sorted(st *structs.ClientLabelState) *structs.ClientLabelState {
	sort.Slice(st.Versions, func(i, j int) bool { return st.Versions[i].Version < st.Versions[j].Version })
	return st
}
