package props

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/auditor"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"pgregory.net/rapid"

	. "verif/kit"
)

func TestP34(t *testing.T) {
	Run(t, "a configuration that does not fit its mode was refused (or one that does was used), or a damaged record was read by a request, or a read of the server failed while it worked on a request",
		Sub{Name: "configurations", Quick: 3000, Thorough: 100000, Bubble: true, Prop: propConfigurations},
		Sub{Name: "client records", Quick: 1500, Thorough: 50000, Bubble: true, Prop: propDamagedClient},
		Sub{Name: "server records", Quick: 1500, Thorough: 50000, Bubble: true, Prop: propDamagedServer},
		Sub{Name: "failing reads", Quick: 1500, Thorough: 50000, Bubble: true, Prop: propFailingReads},
		Sub{Name: "auditor record", Quick: 1500, Thorough: 50000, Bubble: true, Prop: propDamagedAuditor},
	)
}

// propConfigurations: who is given a configuration takes it exactly if it makes
// sense.
func propConfigurations(rt *rapid.T, c *Case) {
	w := NewWorld(rt, c, Opts{Real: 10, Stores: []string{"tx"}})
	cfg := w.Config.Public()
	leaf, aud := Prob(rt, 35, "leaf key"), Prob(rt, 35, "auditor key")
	if Prob(rt, 60, "keys of the mode") {
		leaf, aud = cfg.Mode == structs.ThirdPartyManagement, cfg.Mode == structs.ThirdPartyAuditing
	}
	if Prob(rt, 20, "other mode") {
		cfg.Mode = structs.DeploymentMode(Pick(rt, []byte{0, 1, 2, 3, 4, 5, 255}, "mode"))
	}
	cfg.LeafPublicKey, cfg.AuditorPublicKey = nil, nil
	if leaf {
		cfg.LeafPublicKey = w.Operator.Public()
	}
	if aud {
		cfg.AuditorPublicKey = w.Auditor.Public()
	}
	some := []uint64{0, 1, 2, 1000, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 2, 1<<64 - 1}
	cfg.ReasonableMonitoringWindow = Pick(rt, some, "window")
	switch x := cfg.ReasonableMonitoringWindow; Flat(rt, 6, "lifetime") {
	case 0:
		cfg.MaximumLifetime = 0
	case 1:
		cfg.MaximumLifetime = x
	case 2:
		cfg.MaximumLifetime = x + 1 // (0 is none)
	case 3:
		cfg.MaximumLifetime = x - 1
	default:
		cfg.MaximumLifetime = Pick(rt, some, "lifetime")
	}
	ok := cfg.MaximumLifetime == 0 || cfg.MaximumLifetime > cfg.ReasonableMonitoringWindow
	switch cfg.Mode {
	case structs.ContactMonitoring:
		ok = ok && !leaf && !aud
	case structs.ThirdPartyManagement:
		ok = ok && leaf && !aud
	case structs.ThirdPartyAuditing:
		ok = ok && !leaf && aud
	default:
		ok = false
	}
	c.Logf("mode %d leaf key %v auditor key %v window %d lifetime %d", cfg.Mode, leaf, aud, cfg.ReasonableMonitoringWindow, cfg.MaximumLifetime)
	c.Class(fmt.Sprintf("sensible %v", ok))
	c.NonTrivial()
	db := NewClientDB()
	var client *transparency.Client
	var err error
	NoPanic(rt, "NewClient", func() { client, err = transparency.NewClient(cfg, db) })
	if (err == nil) != ok {
		rt.Fatalf("a client with mode %d, a leaf key %v, an auditor key %v, window %d and lifetime %d: %v", cfg.Mode, leaf, aud, cfg.ReasonableMonitoringWindow, cfg.MaximumLifetime, err)
	}
	if err == nil {
		NoPanic(rt, "a search request", func() { _, _, err = client.GreatestVersionSearch([]byte("a")) })
		if err != nil {
			rt.Fatalf("a new client can not search: %v", err)
		}
	}
	if !aud {
		return
	}
	key := w.Auditor
	match := Bool(rt, "matching key")
	if !match {
		key = []suites.SigningPrivateKey{w.Operator, w.Config.SignatureKey}[Flat(rt, 2, "whose")]
	}
	adb := &auditDB{}
	NoPanic(rt, "NewAuditor", func() { _, err = auditor.NewAuditor(cfg, key, adb) })
	if want := match && cfg.Mode == structs.ThirdPartyAuditing; (err == nil) != want {
		rt.Fatalf("an auditor for mode %d with a matching key %v: %v", cfg.Mode, match, err)
	} else if adb.puts != 0 {
		rt.Fatalf("a new auditor stores something")
	}
}

// damage makes an encoding one that can not have been stored: longer, or cut
// short.
func damage(rt *rapid.T, raw []byte) ([]byte, string) {
	if len(raw) == 0 || Bool(rt, "extended") {
		extra := Pick(rt, []int{1, 1, 2, 8, 32, 33, 200}, "extra")
		tail := bytes.Repeat([]byte{Pick(rt, []byte{0, 0, 1, 255}, "fill")}, extra)
		return append(Dup(raw), tail...), fmt.Sprintf("extended by %d", extra)
	}
	at := Flat(rt, len(raw), "cut")
	switch Flat(rt, 3, "near") {
	case 0:
		at = len(raw) - 1
	case 1:
		at = 0
	}
	return append([]byte{}, raw[:at]...), fmt.Sprintf("cut to %d of %d", at, len(raw))
}

// propDamagedClient: a client whose stored state or label state is damaged says
// so, instead of starting anew or believing what is left.
func propDamagedClient(rt *rapid.T, c *Case) {
	s := drawOwners(rt, c, Opts{Real: 3, Stores: []string{"tx"}})
	for i := 3 + Flat(rt, 15, "steps"); i > 0; i-- {
		s.step(rt, c)
	}
	u := Pick(rt, s.users, "user")
	s.lookUp(rt, c, u)
	if u.DB.State == nil {
		return
	}
	asks := s.asks(rt, c, u)
	for k := 4; k > 0; k-- {
		d := u.Clone(rt)
		d.MayFail = true
		where, what := "", ""
		if labels := SortedStrings(d.DB.Labels); len(labels) > 0 && Prob(rt, 60, "label record") {
			where = Pick(rt, labels, "record")
			l := d.DB.Labels[where]
			l.Raw, what = damage(rt, l.Raw)
			d.DB.Labels[where] = l
			where = "label " + where
		} else {
			d.DB.State, what = damage(rt, d.DB.State)
			where = "state"
		}
		c.Logf("%s %s", where, what)
		d.Restart(rt)
		stored := d.DB.Dump()
		for _, a := range asks {
			ref := u.Clone(rt)
			p := a.start(ref)
			if p == nil {
				rt.Fatalf("harness: a request can not be repeated: %v", ref.Err)
			}
			for _, r := range a.honest {
				p.Verify(rt, DeepCopy(r))
			}
			reads := where == "state" || where == "label "+string(a.label) &&
				(a.kind != "search" && a.kind != "init" || !bytes.Equal(ref.DB.Labels[string(a.label)].Raw, u.DB.Labels[string(a.label)].Raw))
			v := d.Clone(rt)
			v.MayFail = true
			q := a.start(v)
			if q == nil {
				if v.Err == nil && reads {
					rt.Fatalf("the %s of a client is damaged (%s), it answers that a %s request is not needed", where, what, a.kind)
				}
				c.Class(a.kind + " not started")
			} else {
				for _, r := range a.honest {
					err := q.Verify(rt, DeepCopy(r))
					if (err == nil || isAbsent(err)) && reads {
						rt.Fatalf("the %s of a client is damaged (%s), and the client accepts a %s response all the same (%v)", where, what, a.kind, err)
					}
					if err != nil {
						c.Class(a.kind + " response refused")
						break
					}
				}
			}
			if reads {
				c.NonTrivial()
				if v.DB.Dump() != stored {
					rt.Fatalf("the %s of a client is damaged (%s), and a %s request changed the store", where, what, a.kind)
				}
			}
		}
	}
}

// propDamagedServer: a server with a damaged or missing record answers with an
// error if it needs the record, and never makes a client believe something
// false.
func propDamagedServer(rt *rapid.T, c *Case) {
	s := drawOwners(rt, c, Opts{Real: 3, Stores: []string{"tx"}})
	w := s.w
	for i := 3 + Flat(rt, 15, "steps"); i > 0; i-- {
		s.step(rt, c)
	}
	for k := 3; k > 0; k-- {
		u := Pick(rt, s.users, "user")
		label := Pick(rt, w.Pool, "label")
		ver := pickVersion(rt, len(w.Labels[string(label)]))
		q := u.Clone(rt)
		var p *Pending
		switch Flat(rt, 4, "request") {
		case 0:
			p = q.StartInit(rt, label)
		case 1:
			p = q.StartMonitor(rt)
		}
		if p == nil {
			p = q.StartSearch(rt, label, ver)
		}
		// The records this request needs.
		read := map[string]bool{}
		var keys []string
		store := w.Tx.Snapshot()
		store.OnKey = func(key string) {
			if !read[key] && store.Get(key) != nil {
				read[key] = true
				keys = append(keys, key)
			}
		}
		tree, err := transparency.NewTree(w.Config, store, nil)
		if err != nil {
			rt.Fatalf("loading a server failed: %v", err)
		}
		if _, err := p.Ask(rt, w, tree); err != nil {
			continue
		}
		sort.Strings(keys)
		for j := 4; j > 0; j-- {
			key := Pick(rt, keys, "record")
			bad := w.Tx.Snapshot()
			var what string
			var raw []byte
			if Prob(rt, 25, "missing") {
				what = "missing"
				bad.Edit(key, func([]byte) []byte { return nil })
			} else {
				bad.Edit(key, func(old []byte) []byte { raw, what = damage(rt, old); return raw })
			}
			// An index or a chunk of the log is a list that may be longer or
			// shorter; what is missing may also never have been there.
			strict := true
			switch kind := key[0]; {
			case key == "head":
				strict = what != "missing"
			case key == "auditor":
				strict = what != "missing" && w.Config.Mode == structs.ThirdPartyAuditing
			case kind == 'i':
				strict = false
			case kind == 'l':
				strict = what == "missing" || len(raw)%32 != 0
			case kind == 'v':
				strict = what != "missing"
			}
			c.Logf("%s: record %q %s", p, key, what)
			c.Class(fmt.Sprintf("%c %s", key[0], strings.Fields(what)[0]))
			c.NonTrivial()
			v := q.Clone(rt)
			var tree *transparency.Tree
			NoPanic(rt, "loading a server", func() { tree, err = transparency.NewTree(w.Config, bad, nil) })
			if err != nil {
				continue
			}
			var res structs.Marshaller
			if !strict && key[0] == 'l' {
				continue
			}
			res, err = p.Ask(rt, w, tree)
			if err != nil {
				continue
			}
			if strict {
				rt.Fatalf("the server's record %q is damaged (%s), and it answers all the same", key, what)
			}
			var again *Pending
			switch p.Kind {
			case "search":
				again = v.StartSearch(rt, p.Label, p.Ver)
				if checkSearchTruth(rt, c, w, again, res.(*structs.SearchResponse)) {
					c.Class("not needed after all")
				}
			case "init":
				if again = v.StartInit(rt, p.Label); again.Verify(rt, res) == nil {
					w.CheckUser(rt, v)
					w.CheckOwner(rt, v, p.Label)
				}
			default:
				if p.Verify(rt, res) == nil {
					w.CheckUser(rt, q)
				}
			}
		}
	}
}

// propFailingReads makes one read of the server fail while it works on a
// request: that is not taken for a record that does not exist, and the same
// server gives the true answer afterwards.
func propFailingReads(rt *rapid.T, c *Case) {
	s := drawOwners(rt, c, Opts{Real: 4, Stores: []string{"tx"}})
	w := s.w
	for i := 3 + Flat(rt, 15, "steps"); i > 0; i-- {
		s.step(rt, c)
	}
	u := Pick(rt, s.users, "user")
	if Prob(rt, 20, "fresh") {
		u = w.NewUser(rt, "N")
	}
	s.lookUp(rt, c, u)
	n, failing, failed := 0, 0, ""
	hook := func(op string) error {
		n++
		if n == failing {
			failed = op
			return errStore
		}
		return nil
	}
	arm := func(k int) { n, failing, failed = 0, k, "" }
	for _, a := range s.asks(rt, c, u) {
		if a.kind == "update" {
			values := DrawValues(rt, 3)
			ops := 0
			for try := 0; try < 4; try++ {
				f := w.Fork(rt)
				f.OnRead = hook
				q := u.Clone(rt)
				p := q.StartUpdate(rt, a.label, values)
				arm(0) // The first run counts the operations.
				if try > 0 {
					arm(2 + Flat(rt, ops, "operation")) // (the first one loads the server)
				}
				out, err := f.ServeUpdate(rt, nil, p.Update, f.Sequencer(rt, c, 0, s.free))
				ops = max(ops, n-1)
				if failed == "" {
					if err != nil {
						rt.Fatalf("an honest update fails: %v", err)
					}
				} else {
					c.NonTrivial()
					c.Class("update " + failed)
					c.Logf("update: read %d fails (%s)", failing, failed)
					told := 0
					if v := p.Update.GreatestVersion; v != nil {
						told = int(*v) + 1
					}
					for _, r := range out {
						told += len(r.Info)
					}
					if have := len(f.Labels[string(a.label)]); err == nil && told < have {
						rt.Fatalf("a read of the server fails (%s) while it works on an update, which ends without an error and with %d of %d versions reported", failed, told, have)
					}
				}
				for _, r := range out { // what it said before that is true
					MustAccept(rt, p.String(), p.Verify(rt, r))
				}
				f.CheckUser(rt, q)
				f.CheckOwner(rt, q, a.label)
			}
			continue
		}
		arm(0)
		tree, err := transparency.NewTree(w.Config, w.Reader(hook), nil)
		if err != nil {
			rt.Fatalf("loading a server failed: %v", err)
		}
		ask := func() (structs.Marshaller, error) { return a.start(u.Clone(rt)).Ask(rt, w, tree) }
		arm(0)
		res, err := ask()
		if err != nil || Encoding(res) != Encoding(a.honest[0]) {
			rt.Fatalf("%s: two servers with the same records do not give the same answer (%v)", a.kind, err)
		}
		ops := n
		for try := 0; try < 4; try++ {
			arm(1 + Flat(rt, ops, "operation"))
			res, err := ask()
			if failed == "" {
				continue // A server may remember what it has read.
			}
			c.NonTrivial()
			c.Class(a.kind + " " + failed)
			c.Logf("%s: read %d of %d fails (%s): %v", a.kind, failing, ops, failed, err)
			if err == nil && Encoding(res) != Encoding(a.honest[0]) {
				rt.Fatalf("%s %q: a read of the server fails (%s), and it gives an answer, which is not the true one", a.kind, a.label, failed)
			}
			arm(0)
			if res, err := ask(); err != nil || Encoding(res) != Encoding(a.honest[0]) {
				rt.Fatalf("%s %q: after a failed read (%s) a server no longer gives the true answer: %v", a.kind, a.label, failed, err)
			}
		}
		arm(1)
		if _, err := transparency.NewTree(w.Config, w.Reader(hook), nil); err == nil && failed != "" {
			rt.Fatalf("a server is loaded from a store that fails (%s)", failed)
		}
	}
}

// propDamagedAuditor: an auditor does not start with a record that it can not
// have written.
func propDamagedAuditor(rt *rapid.T, c *Case) {
	s := newAuditScene(rt, c)
	for i := Int(rt, 1, 10, "entries"); i > 0; i-- {
		s.mutate(rt, c)
		if !s.next(rt, c) {
			return
		}
	}
	NoPanic(rt, "Commit", func() {
		if _, err := s.a.Commit(); err != nil {
			rt.Fatalf("committing failed: %v", err)
		}
	})
	good := Dup(s.db.raw)
	for k := 4; k > 0; k-- {
		raw, what := damage(rt, good)
		c.Logf("state %s", what)
		c.NonTrivial()
		db := &auditDB{raw: raw}
		var err error
		NoPanic(rt, "NewAuditor", func() { _, err = auditor.NewAuditor(s.w.Config.Public(), s.w.Auditor, db) })
		if err == nil {
			rt.Fatalf("the state of an auditor is damaged (%s), and it starts all the same", what)
		} else if !bytes.Equal(db.raw, raw) || db.puts != 0 {
			rt.Fatalf("the state of an auditor is damaged (%s), and it was replaced", what)
		}
	}
	NoPanic(rt, "NewAuditor", func() {
		if _, err := auditor.NewAuditor(s.w.Config.Public(), s.w.Auditor, &auditDB{raw: good}); err != nil {
			rt.Fatalf("the undamaged state is refused: %v", err)
		}
	})
}
