package props

import (
	"errors"
	"testing"

	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/algorithms"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"pgregory.net/rapid"

	. "verif/kit"
)

func TestP32(t *testing.T) {
	Run(t, "a fixed-version search had to be refused as expired, and another one passed expired entries and had to succeed (search); a response of a server that does not enforce the expiry, to a search that is expired, was verified (lenient)",
		Sub{Name: "search", Quick: 8000, Thorough: 250000, Bubble: true, Prop: propExpiry},
		Sub{Name: "lenient", Quick: 6000, Thorough: 200000, Bubble: true, Prop: propLenient},
	)
}

type fate int

const (
	found fate = iota
	absent
	expired
)

func (f fate) String() string { return []string{"found", "absent", "expired"}[f] }

// fixedFate says how a fixed-version search in a log with the given timestamps
// ends, by the definition: has(x) compares the label's greatest version at x
// with the target.
func fixedFate(ts []uint64, window, life uint64, cmp func(x int) int) (f fate, passed bool) {
	last := ts[len(ts)-1]
	dles := Distinguished(ts, window)
	isExpired := func(x int) bool { return life > 0 && last-ts[x] >= life }
	terminal := -1
	var live []int // unexpired distinguished entries on the way
	lo, hi := 0, len(ts)
	for lo < hi {
		p := 1
		for p*2 <= hi-lo {
			p *= 2
		}
		x := lo + p - 1
		if isExpired(x) {
			passed = true
			lo = x + 1
			continue
		}
		if dles[uint64(x)] {
			live = append(live, x)
		}
		switch r := cmp(x); {
		case r < 0:
			lo = x + 1
		case r > 0:
			terminal, hi = x, x
		default:
			for _, y := range live {
				if y <= x {
					return found, passed
				}
			}
			if passed {
				return expired, passed
			}
			return found, passed
		}
	}
	if terminal < 0 {
		return absent, passed
	} else if !passed {
		return found, passed
	}
	for _, y := range live {
		if y < terminal {
			return found, passed
		}
	}
	return expired, passed
}

// fate says how a client's search for a version ends.
func versionFate(w *World, label []byte, ver uint32) (fate, bool) {
	vs := w.Labels[string(label)]
	return fixedFate(w.Timestamps(), w.Config.ReasonableMonitoringWindow, w.Config.MaximumLifetime, func(x int) int {
		n := 0
		for n < len(vs) && vs[n].Pos <= uint64(x) {
			n++
		}
		switch g := int64(n) - 1; {
		case g < int64(ver):
			return -1
		case g > int64(ver):
			return 1
		}
		return 0
	})
}

// expiryWorld makes a log some of which is expired.
func expiryWorld(rt *rapid.T, c *Case) *World {
	w := NewWorld(rt, c, Opts{Real: 2, Stores: []string{"tx"}, Expiry: true, Windows: []uint64{1, 2, 10, 1000}, Labels: 3})
	for n := 2 + Flat(rt, 24, "entries"); n > 0; n-- {
		ageStep(rt, c, w)
	}
	return w
}

// ageStep adds an entry, after a time which is short compared to the lifetime
// more often than not.
func ageStep(rt *rapid.T, c *Case, w *World) {
	if life := w.Config.MaximumLifetime; Prob(rt, 60, "short") {
		w.Sleep(c, U64(rt, 0, life/4+1, "ms"))
	} else if Prob(rt, 30, "lifetime") {
		w.Sleep(c, life-U64(rt, 0, min(2, life), "less"))
	} else {
		w.Tick(rt, c)
	}
	if _, err := w.Mutate(rt, c, Batch{Add: w.DrawAdds(rt, 3, nil)}); err != nil {
		rt.Fatalf("a mutation of only additions failed: %v", err)
	}
	w.KeepAudited(rt)
}

func propExpiry(rt *rapid.T, c *Case) {
	w := expiryWorld(rt, c)
	users := drawUsers(rt, w, 2)
	nExpired, nPassed := 0, 0
	for i := 3 + Flat(rt, 10, "searches"); i > 0; i-- {
		if Prob(rt, 40, "grow") {
			ageStep(rt, c, w)
		}
		label := Pick(rt, w.Pool, "label")
		vs := w.Labels[string(label)]
		u := Pick(rt, users, "user")
		if Prob(rt, 15, "greatest") {
			searchOnce(rt, c, w, u, label, nil) // nothing expires for it
			continue
		}
		ver := uint32(Flat(rt, len(vs)+1, "version"))
		want, passed := versionFate(w, label, ver)
		p := u.StartSearch(rt, label, &ver)
		before := u.DB.Dump()
		res, err := p.Ask(rt, w, w.Tree)
		if err != nil {
			if want != expired {
				rt.Fatalf("%s: the server refuses a search that is %s: %v", p, want, err)
			} else if !errors.Is(err, algorithms.ErrLabelExpired) {
				rt.Fatalf("%s: the server refuses a search for an expired version with %v", p, err)
			}
			nExpired++
			c.Class("server says expired")
			continue
		}
		err = p.Verify(rt, res)
		c.Logf("%s: %s (%v)", p, want, err)
		switch want {
		case found:
			MustAccept(rt, p.String(), err)
			if got := res.(*structs.SearchResponse).Value.Value; string(got) != string(vs[ver].Value) {
				rt.Fatalf("%s: got %q, it is %q", p, got, vs[ver].Value)
			}
			if passed {
				nPassed++
				c.Class("found past expired entries")
			} else {
				c.Class("found")
			}
		case absent:
			if !errors.Is(err, algorithms.ErrLabelNotFound) {
				rt.Fatalf("%s: a search for a version that does not exist ends with %v", p, err)
			}
		case expired:
			if !errors.Is(err, algorithms.ErrLabelExpired) {
				rt.Fatalf("%s: a search for an expired version ends with %v", p, err)
			}
			nExpired++
			c.Class("client says expired")
		}
		if want != found && u.DB.Dump() != before {
			rt.Fatalf("a search that found nothing changed the client's state")
		}
		w.CheckUser(rt, u)
	}
	if nExpired > 0 && nPassed > 0 {
		c.NonTrivial()
	}
}

// propLenient has clients verify responses of a server that does not enforce
// the expiry as configured.
func propLenient(rt *rapid.T, c *Case) {
	w := expiryWorld(rt, c)
	users := drawUsers(rt, w, 2)
	for i := 3 + Flat(rt, 10, "searches"); i > 0; i-- {
		if Prob(rt, 30, "grow") {
			ageStep(rt, c, w)
		}
		label := Pick(rt, w.Pool, "label")
		vs := w.Labels[string(label)]
		u := Pick(rt, users, "user")
		ver := uint32(Flat(rt, max(len(vs), 1), "version"))
		cfg := w.Config
		want, _ := versionFate(w, label, ver)
		if k := Flat(rt, 6, "lenient"); k > 2 {
			cfg.MaximumLifetime = []uint64{0, cfg.MaximumLifetime + 1, cfg.MaximumLifetime * 2}[k-3]
		}
		anyway := want == expired && Bool(rt, "anyway")
		if anyway {
			cfg.MaximumLifetime = 0
		} else if cfg.MaximumLifetime == w.Config.MaximumLifetime || Prob(rt, 20, "window") {
			cfg.ReasonableMonitoringWindow = Pick(rt, []uint64{0, 1, cfg.ReasonableMonitoringWindow / 2}, "window")
		}
		tree, err := transparency.NewTree(cfg, w.Reader(nil), nil)
		if err != nil {
			rt.Fatalf("harness: %v", err)
		}
		p := u.StartSearch(rt, label, &ver)
		before := u.DB.Dump()
		res, err := p.Ask(rt, w, tree)
		if err != nil {
			continue
		}
		if anyway {
			if res = w.ProveAnyway(rt, p, res.(*structs.SearchResponse)); res == nil {
				rt.Fatalf("harness: no proof")
			}
			c.Class("proves that it expired")
		}
		retimed := false
		if ts := res.(*structs.SearchResponse).Search.Timestamps; len(ts) > 0 && Prob(rt, 40, "retimed") {
			// The entries pretend to be older or newer than they are.
			retimed = true
			from := Flat(rt, len(ts), "from")
			to := from + 1 + Flat(rt, len(ts)-from, "to")
			by := Pick(rt, []uint64{1, w.Config.MaximumLifetime / 2, w.Config.MaximumLifetime, 3 * w.Config.MaximumLifetime}, "by")
			for i := from; i < to; i++ {
				ts[i] -= min(by, ts[i])
			}
			c.Class("retimed")
		}
		err = p.Verify(rt, res)
		c.Logf("%s: %s, lenient answer: %v", p, want, err)
		if anyway && !retimed && !errors.Is(err, algorithms.ErrLabelExpired) {
			rt.Fatalf("%s: a proof that a version expired ends with %v", p, err)
		}
		if retimed && (err == nil || isAbsent(err)) {
			rt.Fatalf("%s: a client believes a response (%v) with other timestamps than the log has", p, err)
		} else if errors.Is(err, algorithms.ErrLabelExpired) && want != expired || errors.Is(err, algorithms.ErrLabelNotFound) && want != absent {
			rt.Fatalf("%s: a client believes that a version is not there (%v), it is %s", p, err, want)
		}
		if want != found {
			if err == nil {
				rt.Fatalf("%s: a client accepts a version that is %s from a server that does not enforce the lifetime", p, want)
			} else if u.DB.Dump() != before {
				rt.Fatalf("a rejected response changed the client's state")
			}
			if want == expired {
				c.NonTrivial()
				if errors.Is(err, algorithms.ErrLabelExpired) {
					c.Class("client finds it expired")
				} else {
					c.Class("rejected")
				}
			}
		} else if err == nil {
			if got := res.(*structs.SearchResponse).Value.Value; string(got) != string(vs[ver].Value) {
				rt.Fatalf("%s: got %q, it is %q", p, got, vs[ver].Value)
			}
			c.Class("accepted")
			w.CheckUser(rt, u)
		} else {
			c.Class("refused although unexpired")
		}
	}
}
