package props

import (
	"testing"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"pgregory.net/rapid"

	. "verif/kit"
)

func TestP30(t *testing.T) {
	Run(t, "a response with a new tree head was verified under another auditor tree head than the newest honest one; after the last change of modes at least 2 monitoring or update responses were accepted (modes)",
		Sub{Name: "heads", Quick: 6000, Thorough: 200000, Bubble: true, Prop: propAuditorHeads},
		Sub{Name: "modes", Quick: 1500, Thorough: 50000, Bubble: true, Prop: propModes},
	)
}

// reconfigure gives the deployment other auditing rules, from now on; clients
// keep their state.
func (s *ownScene) reconfigure(rt *rapid.T, c *Case) {
	w := s.w
	win := w.Config.ReasonableMonitoringWindow
	w.Config.MaxAuditorLag = Pick(rt, []uint64{0, 0, 1, win - 1, win, 3 * win, 1 << 50}, "lag")
	w.Config.AuditorStartPos = Pick(rt, []uint64{0, 0, 1, w.N() - 1, w.N(), w.N() + 1, w.N() / 2}, "start")
	if Bool(rt, "new auditor") {
		k, err := w.Config.Suite.ParseSigningPrivateKey(H32('b', U64(rt, 0, 1<<20, "key seed")))
		if err != nil {
			rt.Fatalf("harness: %v", err)
		}
		w.Auditor = k
		w.Config.AuditorPublicKey = k.Public()
	}
	c.Logf("lag %d, start %d", w.Config.MaxAuditorLag, w.Config.AuditorStartPos)
	w.Resign(rt)
	for _, u := range s.users {
		u.Config = w.Config.Public()
		u.Restart(rt)
	}
}

// headOK is the rule for a new tree head of size n with the auditor's head h.
func headOK(rt *rapid.T, w *World, st *structs.ClientState, h *structs.AuditorTreeHead, n uint64) string {
	cfg := w.Config.Public()
	if h == nil {
		return "there is none"
	}
	if st != nil && st.AuditorTreeHead.TreeSize < cfg.AuditorStartPos {
		return "the retained one does not reach the start position"
	}
	if h.TreeSize == 0 || h.TreeSize > n {
		return "its size is not one the log had"
	}
	right := w.Entries[n-1].TS
	if h.Timestamp > right {
		return "it is newer than the log"
	} else if right-h.Timestamp > cfg.MaxAuditorLag {
		return "it lags too far behind"
	}
	tbs, err := structs.Marshal(&structs.AuditorTreeHeadTBS{Config: cfg, Timestamp: h.Timestamp, TreeSize: h.TreeSize, Root: w.Log.Root(h.TreeSize)})
	if err != nil {
		rt.Fatalf("harness: %v", err)
	}
	if !cfg.AuditorPublicKey.Verify(tbs, h.Signature) {
		return "the auditor did not sign it"
	}
	return ""
}

// drawAuditorHead draws a head, mostly almost right, about the given log. old
// is the same log under its earlier configuration.
func drawAuditorHead(rt *rapid.T, c *Case, w, old *World, n uint64, size *uint64) *structs.AuditorTreeHead {
	k := n
	switch Flat(rt, 6, "head size") {
	case 0, 1:
		k = U64(rt, 1, n, "size")
	case 2:
		k = n - min(n-1, 1)
	}
	if size != nil && Prob(rt, 80, "same size") {
		k = *size
	}
	right := w.Entries[n-1].TS
	ts := w.Entries[k-1].TS
	root := w.Log.Root(k)
	var key suites.SigningPrivateKey = w.Auditor
	signer := w
	what := "honest"
	switch Flat(rt, 14, "head kind") {
	case 0:
		what, ts = "newest timestamp", right
	case 1:
		what, ts = "timestamp too new", right+Pick(rt, []uint64{1, 1, 1000, 1 << 40}, "by")
	case 2:
		if w.Config.MaxAuditorLag < right {
			what, ts = "at the lag", right-w.Config.MaxAuditorLag
		}
	case 3:
		if w.Config.MaxAuditorLag < right {
			what, ts = "beyond the lag", right-w.Config.MaxAuditorLag-1
		}
	case 4:
		what, ts = "timestamp of another entry", w.Entries[U64(rt, 0, n-1, "entry")].TS
	case 5:
		what, root = "root of another size", w.Log.Root(U64(rt, 1, n, "other size"))
	case 6:
		what, root = "root of another log", H32(90, U64(rt, 0, 9, "root"))
	case 7:
		what, key = "signed by the log", w.Config.SignatureKey
	case 8:
		what, key, signer = "for the earlier configuration", old.Auditor, old
	case 9:
		what, key = "signed by another auditor", old.Auditor
	}
	h := signer.SignAuditorHead(rt, key, k, ts, root)
	switch Flat(rt, 16, "head change") {
	case 0:
		h.Signature = MangleBytes(rt, h.Signature)
		what += ", signature changed"
	case 1:
		h.Signature = []byte{}
		what += ", signature removed"
	case 2:
		h.Timestamp = Pick(rt, []uint64{right, h.Timestamp + 1, h.Timestamp - 1}, "changed timestamp")
		what += ", timestamp changed"
	case 3:
		h.TreeSize = Pick(rt, []uint64{n, n + 1, h.TreeSize + 1, h.TreeSize - 1, 0, 1 << 63}, "changed size")
		what += ", size changed"
	}
	c.Logf("auditor head %d of %d (%s)", h.TreeSize, n, what)
	return h
}

// propModes dismisses the auditor of a log, and hires one, at times repeatedly.
// Clients that come afterwards are served like those of a new log.
func propModes(rt *rapid.T, c *Case) {
	modes := []structs.DeploymentMode{structs.ContactMonitoring, structs.ThirdPartyAuditing}
	s := drawOwners(rt, c, Opts{Real: 3, Stores: []string{"tx"}, Modes: modes})
	w := s.w
	for i := Flat(rt, 8, "steps"); i > 0; i-- {
		s.step(rt, c)
	}
	for k := 1 + Flat(rt, 3, "changes"); k > 0; k-- {
		if w.Config.Mode == structs.ThirdPartyAuditing {
			w.Config.Mode = structs.ContactMonitoring
			w.Config.AuditorPublicKey, w.Config.MaxAuditorLag, w.Config.AuditorStartPos = nil, 0, 0
			c.Class("auditor dismissed")
		} else {
			key, err := w.Config.Suite.ParseSigningPrivateKey(H32('b', U64(rt, 0, 1<<20, "key seed")))
			if err != nil {
				rt.Fatalf("harness: %v", err)
			}
			w.Auditor = key
			w.Config.Mode = structs.ThirdPartyAuditing
			w.Config.AuditorPublicKey, w.Config.MaxAuditorLag, w.Config.AuditorStartPos = key.Public(), 1<<50, 0
			c.Class("auditor hired")
		}
		c.Logf("mode %d", w.Config.Mode)
		w.Resign(rt)
		w.KeepAudited(rt)
		s.users, s.owner, s.inits, s.verify = drawUsers(rt, w, 2), map[string]*User{}, 0, 0
		for _, u := range s.users {
			if l := Pick(rt, w.Pool, "first"); len(w.Labels[string(l)]) > 0 {
				searchOnce(rt, c, w, u, l, nil)
			}
		}
		for i := 2 + Flat(rt, 10, "steps"); i > 0; i-- {
			s.step(rt, c)
		}
	}
	if s.verify >= 2 {
		c.NonTrivial()
	}
}

func propAuditorHeads(rt *rapid.T, c *Case) {
	s := drawOwners(rt, c, Opts{Real: 4, Stores: []string{"tx"}, Modes: []structs.DeploymentMode{structs.ThirdPartyAuditing}})
	w := s.w
	steps := func(max int) {
		for i := Int(rt, 0, max, "steps"); i > 0; i-- {
			s.step(rt, c)
			if Prob(rt, 30, "auditor behind") {
				w.PublishAuditorHead(rt, U64(rt, 1, w.N(), "audited"))
			}
		}
	}
	steps(10)
	old := *w
	if Prob(rt, 85, "reconfigure") {
		s.reconfigure(rt, c)
	}
	if Bool(rt, "grow") {
		s.grow(rt, c)
	}
	for round := 1 + Flat(rt, 2, "rounds"); round > 0; round-- {
		u := Pick(rt, s.users, "user")
		if Prob(rt, 20, "fresh") {
			u = w.NewUser(rt, "N")
		}
		for _, a := range s.asks(rt, c, u) {
			for k := 0; k < 4; k++ {
				q := u.Clone(rt)
				p := a.start(q)
				i := 0
				if a.kind == "update" {
					i = Flat(rt, len(a.honest), "response")
					ok := true
					for _, r := range a.honest[:i] {
						ok = ok && p.Verify(rt, DeepCopy(r)) == nil
					}
					if !ok {
						continue // by the rules; response 0 is judged in other rounds
					}
				}
				st := q.State(rt)
				sent := DeepCopy(a.honest[i])
				exact := true
				n := TreeSize(sent, p.Last())
				was := Head(sent).AuditorTreeHead
				c.Logf("%s of %d", p, n)
				if a.kind == "update" || Bool(rt, "replace") {
					if was == nil {
						continue
					}
					h := drawAuditorHead(rt, c, a.w, &old, n, &was.TreeSize)
					Head(sent).AuditorTreeHead = h
					exact = h.TreeSize == was.TreeSize
					if Prob(rt, 5, "none") {
						Head(sent).AuditorTreeHead = nil
						c.Logf("none")
					} else if sent = p.Recode(rt, w, sent); sent == nil {
						continue
					}
				} else {
					h := drawAuditorHead(rt, c, w, &old, n, nil)
					raw, err := structs.Marshal(h)
					if err != nil {
						rt.Fatalf("harness: %v", err)
					}
					tx := w.Tx.Snapshot()
					tx.Edit("auditor", func([]byte) []byte { return raw })
					t, err := transparency.NewTree(w.Config, tx, nil)
					if err != nil {
						rt.Fatalf("harness: %v", err)
					}
					if sent = p.Try(rt, w, t); sent == nil {
						continue
					}
				}
				before := q.DB.Dump()
				err := p.Verify(rt, sent)
				accepted := err == nil || isAbsent(err)
				if Head(sent).TreeHead == nil {
					if !accepted {
						rt.Fatalf("an honest answer for an unchanged tree head is rejected (%s): %v", p, err)
					}
					c.Class("same head")
					continue
				}
				if Head(sent).AuditorTreeHead == nil || was == nil || Encoding(Head(sent).AuditorTreeHead) != Encoding(was) {
					c.NonTrivial()
				}
				why := headOK(rt, a.w, st, Head(sent).AuditorTreeHead, n)
				if accepted && why != "" {
					rt.Fatalf("a response (%s) is accepted although of the auditor tree head %+v holds: %s", p, Head(sent).AuditorTreeHead, why)
				}
				if !accepted && why == "" && exact {
					rt.Fatalf("a response (%s) with a proper auditor tree head %+v is rejected: %v", p, Head(sent).AuditorTreeHead, err)
				}
				if !accepted {
					if q.DB.Dump() != before {
						rt.Fatalf("a rejected response (%s: %v) changed the client's state", p, err)
					}
					if why == "" {
						why = "other proof"
					}
					c.Class("rejected: " + why)
				} else {
					c.Class("accepted")
					if err == nil {
						after := q.State(rt)
						if after.AuditorTreeHead == nil || Encoding(after.AuditorTreeHead) != Encoding(Head(sent).AuditorTreeHead) {
							rt.Fatalf("the client accepted the auditor tree head %+v but retains %+v", Head(sent).AuditorTreeHead, after.AuditorTreeHead)
						}
						a.w.CheckUser(rt, q)
					}
				}
			}
		}
		s.grow(rt, c)
	}
}
