package props

import (
	"fmt"
	"testing"

	"github.com/Bren2010/katie/tree/transparency/structs"
	"pgregory.net/rapid"

	. "verif/kit"
)

func TestP11(t *testing.T) {
	Run(t, "at least 3 responses of a log that does not extend what the client saw (or with a head older than it) were verified; or at least 2 responses to requests made before the client's view moved on",
		Sub{Name: "forks", Quick: 5000, Thorough: 150000, Bubble: true, Prop: propForks},
		Sub{Name: "overlap", Quick: 5000, Thorough: 150000, Bubble: true, Prop: propOverlap},
	)
}

// signed says whether a tree head is w's.
func signed(rt *rapid.T, w *World, h structs.TreeHead) bool {
	if h.TreeSize == 0 || h.TreeSize > w.N() {
		return false
	}
	tbs, err := structs.Marshal(&structs.TreeHeadTBS{Config: w.Config.Public(), TreeSize: h.TreeSize, Root: w.Log.Root(h.TreeSize)})
	if err != nil {
		rt.Fatalf("harness: %v", err)
	}
	return w.Config.SignatureKey.Public().Verify(tbs, h.Signature)
}

// extends says whether log w contains the first n entries of log v.
func extends(w, v *World, n uint64) bool {
	return n <= w.N() && n <= v.N() && string(w.Log.Root(n)) == string(v.Log.Root(n))
}

// redated is the request p made as if the client had last seen another size.
func redated(p *Pending, last *uint64) *Pending {
	q := *p
	if p.Search != nil {
		q.Search = DeepCopy(p.Search)
		q.Search.Last = last
	}
	if p.Init != nil {
		q.Init = DeepCopy(p.Init)
		q.Init.Last = last
	}
	if p.Update != nil {
		q.Update = DeepCopy(p.Update)
		q.Update.Last = last
	}
	switch m := p.Mon.(type) {
	case *structs.ContactMonitorRequest:
		m = DeepCopy(m)
		m.Last = last
		q.Mon = m
	case *structs.OwnerMonitorRequest:
		m = DeepCopy(m)
		m.Last = last
		q.Mon = m
	}
	return &q
}

// propForks shows a client other logs of the same operator, correctly signed,
// which agree with the one it knows in a part only.
func propForks(rt *rapid.T, c *Case) {
	s := drawOwners(rt, c, Opts{Real: 3, Stores: []string{"tx"}})
	w := s.w
	type fork struct {
		w    *World
		what string
	}
	var forks []fork
	var past []Heads
	add := func(what string) { forks = append(forks, fork{w.Fork(rt), fmt.Sprintf("%s@%d", what, w.N())}) }
	for i := 3 + Flat(rt, 15, "steps"); i > 0; i-- {
		s.step(rt, c)
		past = append(past, w.StoredHeads())
		if len(forks) < 3 && Prob(rt, 20, "fork") {
			add("fork")
		}
	}
	add("fork")
	for i := range forks {
		f := &forks[i]
		for k := Flat(rt, 5, "growth"); k > 0; k-- {
			(&ownScene{w: f.w, owner: s.owner}).grow(rt, c)
		}
		// Rewritten in one entry only.
		if f.w.N() > 0 && Prob(rt, 35, "rewrite") {
			ts := f.w.Timestamps()
			x := Flat(rt, len(ts), "entry")
			lo, hi := ts[x], Now()
			if x > 0 {
				lo = ts[x-1]
			}
			if x+1 < len(ts) {
				hi = ts[x+1]
			}
			ts[x] = lo + uint64(Flat(rt, int(min(hi-lo, 2000))+1, "timestamp"))
			f.w.Retime(rt, ts)
			f.what += fmt.Sprintf(" rewritten at %d", x)
		}
	}
	if Bool(rt, "grow") {
		s.grow(rt, c)
	}
	judged := 0
	for round := 1 + Flat(rt, 2, "rounds"); round > 0; round-- {
		u := Pick(rt, s.users, "user")
		if u.State(rt) == nil {
			continue
		}
		s.lookUp(rt, c, u)
		for _, a := range s.asks(rt, c, u) {
			for k := 0; k < 4; k++ {
				q := u.Clone(rt)
				p := a.start(q)
				f := Pick(rt, forks, "fork")
				last := *p.Last()
				asked, what := p, f.what
				if Prob(rt, 40, "other last") {
					l := Ptr(uint64(Flat(rt, int(f.w.N())+1, "last")))
					if *l == 0 {
						l = nil
					}
					asked = redated(p, l)
					what += fmt.Sprintf(" from %v", deref(l))
				} else if last > f.w.N() {
					asked = redated(p, Ptr(f.w.N()))
					what += " from its end"
				}
				var stream []structs.Marshaller
				g := f.w
				if p.Update != nil && asked == p {
					g = f.w.Fork(rt)
					res, err := g.ServeUpdate(rt, nil, asked.Update, g.Sequencer(rt, c, 2, s.free))
					if err != nil {
						continue
					}
					for _, r := range res {
						stream = append(stream, r)
					}
				} else if res := asked.Try(rt, f.w, f.w.Tree); res != nil {
					stream = append(stream, res)
				}
				known := w // the log the client is on
				if p.Update != nil && Prob(rt, 30, "after others") {
					// The stream changes sides after some responses.
					known = a.w
					i := 1 + Flat(rt, len(a.honest), "honest responses")
					for _, r := range a.honest[:i] {
						MustAccept(rt, p.String(), p.Verify(rt, DeepCopy(r)))
					}
					stream = stream[min(Flat(rt, 2, "skip"), len(stream)):]
					what += fmt.Sprintf(" after %d honest", i)
				}
				for i, res := range stream {
					old := q.State(rt)
					last := old.TreeHead.TreeSize
					how := what
					pure := asked == p && known == w && i == 0
					sent := DeepCopy(res)
					switch Flat(rt, 8, "change") {
					case 0:
						Head(sent).TreeHead = nil
						how += ", same head"
						pure = pure && TreeSize(res, nil) == 0
					case 1:
						*Head(sent) = *DeepCopy(Head(Pick(rt, a.honest, "head of")))
						how += ", honest head"
						pure = false
					case 2:
						how += " " + Mangle(rt, sent, []any{Pick(rt, a.honest, "donor"), res})
						pure = false
					case 3:
						h := DeepCopy(old.TreeHead)
						Head(sent).TreeHead = &h
						how += ", retained head"
						pure = false
					}
					if !pure {
						if sent = p.Recode(rt, g, sent); sent == nil {
							continue
						}
					}
					if !extends(g, known, last) || TreeSize(sent, &last) < last {
						judged++
						c.Class(a.kind + " of another log")
					}
					before := q.DB.Dump()
					err := p.Verify(rt, sent)
					if err != nil && q.DB.Dump() != before {
						rt.Fatalf("%s (%s): a response is rejected (%v) but the client's state changed", p, how, err)
					}
					if err != nil && !isAbsent(err) {
						if pure && extends(g, w, last) && g.N() >= last {
							rt.Fatalf("%s (%s): an honest response of a log of size %d that extends the one known at %d is rejected: %v", p, how, g.N(), last, err)
						}
						break
					}
					head := old.TreeHead
					if h := Head(sent).TreeHead; h != nil {
						head = *h
						if head.TreeSize <= last {
							rt.Fatalf("%s (%s): a head of size %d is accepted (%v) after one of %d", p, how, head.TreeSize, err, last)
						}
					}
					// There may be several logs that have this head.
					var on *World
					for _, l := range append([]*World{known, a.w, g}, func() (out []*World) {
						for _, f := range forks {
							out = append(out, f.w)
						}
						return
					}()...) {
						if signed(rt, l, head) && extends(l, known, last) {
							on = l
							break
						}
					}
					if on == nil {
						rt.Fatalf("%s (%s): a response with a head of size %d is accepted (%v), which is of no log that extends the one the client knows at size %d", p, how, head.TreeSize, err, last)
					}
					if err == nil {
						if st := q.State(rt); st.TreeHead.TreeSize != head.TreeSize {
							rt.Fatalf("%s (%s): a response with a head of size %d is accepted, %d is retained", p, how, head.TreeSize, st.TreeHead.TreeSize)
						}
						on.CheckUser(rt, q)
						known = on
						c.Class("accepted: a log that extends the known one")
					}
				}
			}
		}
		s.grow(rt, c)
	}
	if judged >= 3 {
		c.NonTrivial()
	}
}

// propOverlap verifies responses in another order than the requests were made.
func propOverlap(rt *rapid.T, c *Case) {
	s := drawOwners(rt, c, Opts{Real: 2, Stores: []string{"tx"}})
	w := s.w
	for i := 3 + Flat(rt, 15, "steps"); i > 0; i-- {
		s.step(rt, c)
	}
	outdated := 0
	for round := 1 + Flat(rt, 3, "rounds"); round > 0; round-- {
		u := Pick(rt, s.users, "user")
		if Prob(rt, 20, "fresh") {
			u = w.NewUser(rt, "N")
		}
		if Bool(rt, "look up") {
			s.lookUp(rt, c, u)
		}
		// Requests, made one after another, and answered at different times.
		type flight struct {
			p       *Pending
			answers []structs.Marshaller
			moves   int // of the client when it was made
		}
		var flights []*flight
		moves := 0
		deliver := func(f *flight) {
			n := 1
			if Prob(rt, 20, "twice") {
				n = 2
			}
			res := f.answers[0]
			if n == 1 {
				f.answers = f.answers[1:]
			}
			for ; n > 0; n-- {
				p := f.p
				old := u.State(rt)
				size := uint64(0)
				if old != nil {
					size = old.TreeHead.TreeSize
				}
				contacts := map[string]*structs.ClientLabelState{}
				for l := range u.DB.Labels {
					contacts[l] = u.Label(rt, []byte(l))
				}
				late := f.moves != moves
				if late {
					outdated++
					c.Class("outdated " + p.Kind)
				}
				before := u.DB.Dump()
				err := p.Verify(rt, DeepCopy(res))
				c.Logf("%s answered: %v", p, err)
				if err != nil && u.DB.Dump() != before {
					rt.Fatalf("%s: a response is rejected (%v) but the client's state changed", p, err)
				}
				if err != nil && !isAbsent(err) {
					behind := p.Kind == "owner" && known(rt, u, p.Label) < len(w.Labels[string(p.Label)])
					if !late && !behind {
						rt.Fatalf("%s: an honest response to the latest request is rejected: %v", p, err)
					}
					c.Class("rejected as outdated")
					f.answers = nil
					return
				}
				if err != nil {
					continue
				}
				st := u.State(rt)
				if st.TreeHead.TreeSize < size {
					rt.Fatalf("%s: a response took the client from size %d back to %d", p, size, st.TreeHead.TreeSize)
				}
				w.CheckUser(rt, u)
				for l, ls := range contacts {
					now := u.Label(rt, []byte(l))
					if now == nil {
						now = &structs.ClientLabelState{}
					}
					w.CheckOwner(rt, u, []byte(l))
					if (ls.Owner != nil) && (now.Owner == nil || now.Owner.Starting < ls.Owner.Starting || known(rt, u, []byte(l)) < ls.Owner.VerAtStarting+1+len(ls.Owner.UpcomingVers)) {
						rt.Fatalf("%s: a response took the ownership of %q from %+v back to %+v", p, l, ls.Owner, now.Owner)
					}
					for _, e := range ls.Contact {
						path, ends := w.Inspected(e.Position, st.TreeHead.TreeSize)
						ok := ends
						for _, x := range append(path, e.Position) {
							for _, m := range now.Contact {
								ok = ok || m.Position == x && m.Version >= e.Version
							}
						}
						if !ok {
							rt.Fatalf("%s: a response took the monitoring of %q from %v to %v at size %d", p, l, ls.Contact, now.Contact, st.TreeHead.TreeSize)
						}
					}
				}
				if u.DB.Dump() != before {
					moves++
					if p.Update != nil {
						f.moves = moves // a stream follows its own changes
						n = 1
						if len(f.answers) > 0 && f.answers[0] == res {
							f.answers = f.answers[1:]
						}
					}
				}
			}
		}
		for k := 2 + Flat(rt, 6, "events"); k > 0; k-- {
			var ready []*flight
			for _, f := range flights {
				if len(f.answers) > 0 {
					ready = append(ready, f)
				}
			}
			switch Flat(rt, 5, "event") {
			case 0:
				s.grow(rt, c)
			case 1, 2:
				if len(ready) > 0 {
					deliver(Pick(rt, ready, "delivered"))
				}
			default:
				as := s.asks(rt, c, u)
				if len(as) == 0 {
					continue
				}
				a := Pick(rt, as, "ask")
				p := a.start(u)
				if p == nil || p.Kind == "init" && s.owner[string(p.Label)] != nil && s.owner[string(p.Label)] != u {
					continue
				}
				f := &flight{p: p, moves: moves}
				if p.Update != nil {
					res, err := w.ServeUpdate(rt, nil, p.Update, w.Sequencer(rt, c, 2, s.free))
					if err != nil {
						rt.Fatalf("an update by the owner of %q fails: %v", p.Label, err)
					}
					for _, r := range res {
						f.answers = append(f.answers, r)
					}
				} else if res, err := p.Ask(rt, w, w.Tree); err == nil {
					f.answers = append(f.answers, res)
				}
				c.Logf("%s: %d answers", p, len(f.answers))
				flights = append(flights, f)
			}
		}
		Shuffle(rt, flights)
		for _, f := range flights {
			for len(f.answers) > 0 {
				deliver(f)
			}
		}
		for _, l := range w.Pool {
			if st := u.Label(rt, l); st != nil && st.Owner != nil {
				s.owner[string(l)] = u
			}
		}
		u.Restart(rt)
		for l := range u.DB.Labels {
			if st := u.Label(rt, []byte(l)); st.Owner != nil && known(rt, u, []byte(l)) < len(w.Labels[l]) {
				s.update(rt, c, u, []byte(l), nil)
			}
		}
		monitorAll(rt, c, w, u, -1)
		if Bool(rt, "grow") {
			s.grow(rt, c)
		}
	}
	if outdated >= 2 {
		c.NonTrivial()
	}
}
