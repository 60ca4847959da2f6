package props

import (
	"bytes"
	"sort"
	"testing"

	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/auditor"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"pgregory.net/rapid"

	. "verif/kit"
)

// auditDB is an auditor's store.
type auditDB struct {
	raw   []byte
	puts  int
	onPut func(put func()) error
	onGet func() error
}

func (d *auditDB) GetState() ([]byte, error) {
	if d.onGet != nil {
		if err := d.onGet(); err != nil {
			return nil, err
		}
	}
	return Dup(d.raw), nil
}

func (d *auditDB) PutState(raw []byte) error {
	put := func() { d.raw = Dup(raw); d.puts++ }
	if d.onPut != nil {
		return d.onPut(put)
	}
	put()
	return nil
}

// auditScene is a log and an auditor that follows it.
type auditScene struct {
	w     *World
	pace  uint64 // mean time between entries (0: any)
	db    *auditDB
	a     *auditor.Auditor
	done  uint64            // entries the auditor has processed
	saved uint64            // entries it had processed when it last stored its state
	sigs  map[uint64][]byte // roots of the heads that were released, by size
	known bool              // whether to report the recorded finding
	past  map[uint64]*World // the log at each size, if kept
}

func newAuditScene(rt *rapid.T, c *Case) *auditScene {
	s := &auditScene{db: &auditDB{}, sigs: map[uint64][]byte{}}
	s.w = NewWorld(rt, c, Opts{Modes: []structs.DeploymentMode{structs.ThirdPartyAuditing}, Real: 4, Labels: 8})
	s.restart(rt)
	return s
}

func (s *auditScene) restart(rt *rapid.T) {
	var err error
	NoPanic(rt, "NewAuditor", func() { s.a, err = auditor.NewAuditor(s.w.Config.Public(), s.w.Auditor, s.db) })
	if err != nil {
		rt.Fatalf("loading the auditor from what it stored failed: %v", err)
	}
	s.done = s.saved
}

// drawPace fixes how fast the log is to grow.
func (s *auditScene) drawPace(rt *rapid.T) {
	win := s.w.Config.ReasonableMonitoringWindow
	s.pace = min(Pick(rt, []uint64{0, win / 100, win / 40, win / 10, win / 3}, "pace"), 10*365*86400000/200)
}

// mutate makes the log grow by one entry, with removals.
func (s *auditScene) mutate(rt *rapid.T, c *Case) {
	w := s.w
	if s.past != nil {
		s.past[w.N()] = w.Fork(rt)
	}
	if s.pace > 0 {
		w.Sleep(c, s.pace*uint64(Flat(rt, 3, "pace")))
	} else {
		w.Tick(rt, c)
	}
	b := Batch{Remove: drawRemove(rt, w, true)}
	b.Add = w.DrawAdds(rt, Pick(rt, []int{1, 3, 8}, "max"), w.Removed(b))
	if Flat(rt, 500, "huge batch") == 250 {
		l := Pick(rt, w.Pool, "label")
		for i := 200 + Flat(rt, 100, "versions"); i > 0; i-- {
			b.Add = append(b.Add, transparency.LabelValue{Label: Dup(l)})
		}
		c.Class("huge batch")
	}
	if len(b.Add)+len(b.Remove) == 0 && !Prob(rt, 20, "nothing") {
		b.Add = w.DrawAdds(rt, 3, nil)
	}
	if _, err := w.Mutate(rt, c, b); err != nil {
		rt.Fatalf("an admissible mutation failed: %v", err)
	}
}

func (s *auditScene) recode(rt *rapid.T, au *structs.AuditorUpdate) *structs.AuditorUpdate {
	raw, err := structs.Marshal(au)
	if err != nil && len(au.Added)+len(au.Removed) > 255 {
		if s.known {
			Known(knownLong)
		}
		return DeepCopy(au) // the auditor may be in the same process
	} else if err != nil {
		rt.Fatalf("encoding an audit update failed: %v", err)
	}
	buf := bytes.NewBuffer(raw)
	out, err := structs.NewAuditorUpdate(s.w.Config.Suite, buf)
	if err != nil || buf.Len() != 0 {
		rt.Fatalf("an audit update does not decode: %v (%d bytes left)", err, buf.Len())
	}
	return out
}

func (s *auditScene) process(rt *rapid.T, au *structs.AuditorUpdate) (err error) {
	NoPanic(rt, "Process", func() { err = s.a.Process(au) })
	return
}

// prefixAt is the prefix tree after n entries.
func (s *auditScene) prefixAt(n uint64) PrefixModel {
	if n == 0 {
		return PrefixModel{}
	}
	return s.w.Entries[n-1].Prefix
}

// lone says whether entry x makes the prefix tree collapse in the way that an
// audit update can not show (a recorded finding).
func (s *auditScene) lone(x uint64) bool {
	keys := map[string]bool{}
	for _, e := range s.w.Updates[x].Added {
		keys[string(e.VrfOutput)] = true
	}
	for _, e := range s.w.Updates[x].Removed {
		keys[string(e.VrfOutput)] = true
	}
	return LoneSibling(s.prefixAt(x), s.prefixAt(x+1), keys)
}

// next makes the auditor process the next honest update; false if that ends the
// case.
func (s *auditScene) next(rt *rapid.T, c *Case) bool {
	x := s.done
	err := s.process(rt, s.recode(rt, s.w.Updates[x]))
	if s.lone(x) {
		if s.known {
			Known(knownLone)
		}
		c.Class("lone unrevealed sibling (known finding)")
		return false
	}
	if err != nil {
		rt.Fatalf("the auditor refuses the log's own update %d (+%d -%d): %v", x, len(s.w.Updates[x].Added), len(s.w.Updates[x].Removed), err)
	}
	s.done++
	return true
}

// head checks a released head: it must be for the entries that were processed,
// validly signed, and the state must be stored.
func (s *auditScene) head(rt *rapid.T, h *structs.AuditorTreeHead) {
	w := s.w
	if h == nil || h.TreeSize != s.done {
		rt.Fatalf("the auditor processed %d updates and reports the head %+v", s.done, h)
	}
	if h.Timestamp != w.Entries[s.done-1].TS {
		rt.Fatalf("the auditor's head of size %d has the timestamp %d, the log's last entry has %d", s.done, h.Timestamp, w.Entries[s.done-1].TS)
	}
	root := w.Log.Root(s.done)
	tbs, err := structs.Marshal(&structs.AuditorTreeHeadTBS{Config: w.Config.Public(), Timestamp: h.Timestamp, TreeSize: h.TreeSize, Root: root})
	if err != nil {
		rt.Fatalf("harness: %v", err)
	}
	if !w.Config.AuditorPublicKey.Verify(tbs, h.Signature) {
		rt.Fatalf("the auditor's signature at size %d does not cover the root of the log's entries", s.done)
	}
	if old, ok := s.sigs[h.TreeSize]; ok && !bytes.Equal(old, root) {
		rt.Fatalf("the auditor signed two different roots for size %d", h.TreeSize)
	}
	s.sigs[h.TreeSize] = root
	st, err := auditor.NewAuditorState(w.Config.Suite, bytes.NewBuffer(Dup(s.db.raw)))
	if err != nil {
		rt.Fatalf("the auditor released a head of size %d, but what it stored does not decode: %v", s.done, err)
	} else if st.TreeHead.TreeSize != h.TreeSize || !bytes.Equal(st.TreeHead.Signature, h.Signature) || st.TreeHead.Timestamp != h.Timestamp {
		rt.Fatalf("the auditor released a head of size %d, but stored the head %+v", h.TreeSize, st.TreeHead)
	}
	s.saved = s.done
}

func (s *auditScene) commit(rt *rapid.T) (h *structs.AuditorTreeHead, err error) {
	NoPanic(rt, "Commit", func() { h, err = s.a.Commit() })
	return
}

func (s *auditScene) mustCommit(rt *rapid.T) *structs.AuditorTreeHead {
	h, err := s.commit(rt)
	if s.done == 0 {
		if err == nil {
			rt.Fatalf("an auditor that saw nothing released the head %+v", h)
		}
		return nil
	}
	if err != nil {
		rt.Fatalf("committing the auditor's state failed: %v", err)
	}
	s.head(rt, h)
	return h
}

// publish hands an auditor's head to the log.
func (s *auditScene) publish(rt *rapid.T, h *structs.AuditorTreeHead) {
	raw, err := structs.Marshal(h)
	if err != nil {
		rt.Fatalf("encoding an auditor tree head failed: %v", err)
	}
	if err := s.w.Store.PutAuditorTreeHead(raw); err != nil {
		rt.Fatalf("harness: %v", err)
	} else if err := s.w.Store.Commit(); err != nil {
		rt.Fatalf("harness: %v", err)
	}
	s.w.Load(rt)
}

func TestP17(t *testing.T) {
	Run(t, "the auditor processed at least 3 updates, one of them a removal or after a restart, and released a head",
		Sub{Name: "follow", Quick: 6000, Thorough: 200000, Bubble: true, Prop: propFollow},
	)
}

func propFollow(rt *rapid.T, c *Case) {
	s := newAuditScene(rt, c)
	s.known = true
	w := s.w
	u := w.NewUser(rt, "reader")
	var published uint64
	removal, restarted, heads := false, false, 0
	if Prob(rt, 2, "long") {
		s.drawPace(rt)
		for i := 30 + Flat(rt, 120, "entries"); i > 0; i-- {
			s.mutate(rt, c)
		}
		c.Class("long log")
	}
	for i := Int(rt, 3, 30, "steps"); i > 0; i-- {
		switch k := Flat(rt, 10, "step"); {
		case k < 4 || w.N() == 0:
			s.mutate(rt, c)
		case k < 7:
			n := Int(rt, 1, 4, "process")
			if k == 6 {
				n = int(w.N())
			}
			for ; n > 0 && s.done < w.N(); n-- {
				c.Logf("process %d", s.done)
				if !s.next(rt, c) {
					return
				}
				removal = removal || len(w.Updates[s.done-1].Removed) > 0
			}
		case k == 7:
			c.Logf("restart")
			s.restart(rt)
			restarted = restarted || s.saved > 0
			if s.done > 0 && Bool(rt, "look") {
				s.mustCommit(rt)
			}
		default:
			c.Logf("commit %d", s.done)
			h := s.mustCommit(rt)
			if h == nil {
				continue
			}
			heads++
			if Bool(rt, "publish") && h.TreeSize >= published {
				published = h.TreeSize
				s.publish(rt, h)
				label := Pick(rt, w.Pool, "label")
				if !w.Gone[string(label)] {
					searchOnce(rt, c, w, Pick(rt, []*User{u, w.NewUser(rt, "new")}, "user"), label, nil)
					c.Class("head served")
				}
			}
		}
	}
	if removal {
		c.Class("removal")
	}
	if s.done >= 3 && heads > 0 && (removal || restarted) {
		c.NonTrivial()
	}
}

func TestP18(t *testing.T) {
	Run(t, "an update that the log did not publish, or published at another place, was offered to an auditor",
		Sub{Name: "refuse", Quick: 12000, Thorough: 400000, Bubble: true, Prop: propRefuse},
	)
}

// born is the log entry in which each current key of the prefix tree was
// (last) added, after n entries.
func (s *auditScene) born(n uint64) map[string]uint64 {
	out := map[string]uint64{}
	for x := uint64(0); x < n; x++ {
		for _, e := range s.w.Updates[x].Removed {
			delete(out, string(e.VrfOutput))
		}
		for _, e := range s.w.Updates[x].Added {
			out[string(e.VrfOutput)] = x
		}
	}
	return out
}

// forbidden says why an auditor that has seen n entries must refuse au ("" if
// the batch is one it may sign), and what the prefix tree would be.
func (s *auditScene) forbidden(n uint64, au *structs.AuditorUpdate) (string, PrefixModel) {
	ts := append([]uint64{}, s.w.Timestamps()[:n]...)
	if n > 0 && au.Timestamp < ts[n-1] {
		return "its timestamp is smaller than the previous one", nil
	}
	sorted := func(l []prefix.Entry) bool {
		for i := 1; i < len(l); i++ {
			if bytes.Compare(l[i-1].VrfOutput, l[i].VrfOutput) >= 0 {
				return false
			}
		}
		return true
	}
	if !sorted(au.Added) || !sorted(au.Removed) {
		return "it lists entries twice or out of order", nil
	}
	m := s.prefixAt(n).Clone()
	dle := RightmostDLE(Distinguished(append(ts, au.Timestamp), s.w.Config.ReasonableMonitoringWindow), n)
	born := s.born(n)
	for _, e := range au.Removed {
		com, ok := m[string(e.VrfOutput)]
		if !ok || !bytes.Equal(com, e.Commitment) {
			return "it removes an entry that is not there", nil
		}
		if int64(born[string(e.VrfOutput)]) > dle {
			return "it removes an entry that no distinguished log entry covers", nil
		}
		delete(m, string(e.VrfOutput))
	}
	for _, e := range au.Added {
		if _, ok := m[string(e.VrfOutput)]; ok {
			return "it adds an entry that is there", nil
		}
		if len(e.VrfOutput) != 32 || len(e.Commitment) != 32 {
			return "it adds something that is not an entry", nil
		}
		m[string(e.VrfOutput)] = e.Commitment
	}
	return "", m
}

// evilUpdate makes an operator append an entry of its choice to (a copy of) the
// log, which has exactly the entries that the auditor saw.
func (s *auditScene) evilUpdate(rt *rapid.T, c *Case, f *World) *structs.AuditorUpdate {
	n := f.N()
	m := PrefixModel{}
	ts := uint64(0)
	if n > 0 {
		m, ts = f.Entries[n-1].Prefix, f.Entries[n-1].TS
	}
	switch Flat(rt, 6, "evil time") {
	case 0:
		ts -= min(ts, Pick(rt, []uint64{1, 1, 1000, 1 << 50}, "back"))
	case 1:
		ts += Pick(rt, []uint64{f.Config.ReasonableMonitoringWindow, 1 << 40}, "far")
	case 2:
	default:
		ts = max(ts, Now())
	}
	born := s.born(n)
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	// The newest are the most interesting.
	sort.Slice(keys, func(i, j int) bool {
		if born[keys[i]] != born[keys[j]] {
			return born[keys[i]] > born[keys[j]]
		}
		return keys[i] < keys[j]
	})
	uncovered := 0
	dle := RightmostDLE(Distinguished(append(append([]uint64{}, f.Timestamps()...), ts), f.Config.ReasonableMonitoringWindow), n)
	for uncovered < len(keys) && int64(born[keys[uncovered]]) > dle {
		uncovered++
	}
	var remove [][]byte
	used := map[string]bool{}
	for i := Int(rt, 0, 3, "evil removals"); i > 0 && len(keys) > 0; i-- {
		k := keys[Int(rt, 0, len(keys)-1, "key")]
		if uncovered > 0 && Prob(rt, 30, "uncovered") {
			k = keys[Flat(rt, uncovered, "key")]
		}
		if !used[k] {
			used[k] = true
			remove = append(remove, []byte(k))
		}
	}
	sort.Slice(remove, func(i, j int) bool { return bytes.Compare(remove[i], remove[j]) < 0 })
	var add []prefix.Entry
	for i := Int(rt, 0, 3, "evil additions"); i > 0; i-- {
		k := H32(77, U64(rt, 0, 1000, "new key"))
		if len(remove) > 0 && Prob(rt, 30, "again") {
			k = Pick(rt, remove, "again which")
		}
		if _, ok := m[string(k)]; used["+"+string(k)] || ok && !used[string(k)] {
			continue
		}
		used["+"+string(k)] = true
		add = append(add, prefix.Entry{VrfOutput: k, Commitment: H32(78, U64(rt, 0, 1000, "commitment"))})
	}
	sort.Slice(add, func(i, j int) bool { return bytes.Compare(add[i].VrfOutput, add[j].VrfOutput) < 0 })
	c.Logf("evil entry +%d -%d at %d", len(add), len(remove), ts)
	return f.EvilEntry(rt, ts, add, remove)
}

func propRefuse(rt *rapid.T, c *Case) {
	s := newAuditScene(rt, c)
	entries := Int(rt, 0, 14, "entries")
	if Prob(rt, 3, "long") {
		entries = 30 + Flat(rt, 120, "entries")
		s.drawPace(rt)
		c.Class("long log")
	}
	for i := entries; i > 0; i-- {
		s.mutate(rt, c)
	}
	stop := uint64(Int(rt, 0, int(s.w.N()), "seen"))
	if Bool(rt, "seen all") {
		stop = s.w.N()
	}
	for s.done < stop {
		if !s.next(rt, c) {
			return
		}
		if Prob(rt, 15, "commit") {
			s.mustCommit(rt)
			if Bool(rt, "restart") {
				s.restart(rt)
			}
		}
	}
	attacks := Int(rt, 1, 4, "attacks")
	if entries >= 30 {
		attacks = 8
	}
	for ; attacks > 0; attacks-- {
		if !s.attack(rt, c) {
			return
		}
	}
	for s.done < s.w.N() {
		if !s.next(rt, c) {
			return
		}
	}
	s.mustCommit(rt)
}

// cut is a copy of the log that ends where the auditor is.
func (s *auditScene) cut(rt *rapid.T) *World {
	if s.done == s.w.N() {
		return s.w.Fork(rt)
	}
	return nil
}

func (s *auditScene) attack(rt *rapid.T, c *Case) bool {
	w := s.w
	var au *structs.AuditorUpdate
	var fork *World // whose last entry au is
	donors := []any{}
	for i := 0; i < 3 && len(w.Updates) > 0; i++ {
		donors = append(donors, Pick(rt, w.Updates, "donor"))
	}
	kind := Flat(rt, 5, "attack")
	if f := s.cut(rt); f != nil && kind < 3 {
		fork = f
		if kind == 0 && f.N() > 0 {
			// What the auditor would be told if another entry came in between.
			s.evilUpdate(rt, c, f)
			fork = nil
			g := &auditScene{w: f}
			au = g.evilUpdate(rt, c, f)
		} else {
			au = s.evilUpdate(rt, c, f)
		}
	} else if len(w.Updates) > 0 {
		i := Flat(rt, len(w.Updates), "which update")
		if s.done < w.N() && Bool(rt, "the next one") {
			i = int(s.done)
		}
		c.Logf("update %d at %d", i, s.done)
		au = w.Updates[i]
	} else {
		return true
	}
	au = s.recode(rt, au)
	mangled := false
	if kind != 0 && Prob(rt, map[bool]int{true: 30, false: 80}[fork != nil], "mangle") {
		for i := Int(rt, 1, 2, "changes"); i > 0; i-- {
			if what := Mangle(rt, au, donors); what != "" {
				c.Logf("%s", what)
				mangled = true
			}
		}
	}
	if kind != 0 && Prob(rt, 15, "reorder") {
		// Entries together with what the proof shows for them.
		list, off := au.Added, 0
		if Bool(rt, "reorder removals") {
			list, off = au.Removed, len(au.Added)
		}
		if len(list) > 1 && off+len(list) <= len(au.Proof.Results) {
			i := Flat(rt, len(list)-1, "place")
			res := au.Proof.Results[off:]
			if Bool(rt, "twice") {
				list[i], res[i] = list[i+1], res[i+1]
				c.Logf("entry %d twice", i+off)
			} else {
				list[i], list[i+1], res[i], res[i+1] = list[i+1], list[i], res[i+1], res[i]
				c.Logf("entries %d and %d swapped", i+off, i+off+1)
			}
			mangled = true
		}
	}
	if mangled && Bool(rt, "over the wire") {
		raw, err := structs.Marshal(au)
		if err != nil {
			return true
		}
		if au, err = structs.NewAuditorUpdate(w.Config.Suite, bytes.NewBuffer(raw)); err != nil {
			return true
		}
	}
	why, after := s.forbidden(s.done, au)
	var before []byte
	if s.done > 0 && Bool(rt, "committed") {
		s.mustCommit(rt)
	}
	before = Dup(s.db.raw)
	err := s.process(rt, DeepCopy(au))
	c.NonTrivial()
	if err != nil {
		c.Class("refused")
		if fork != nil && !mangled && why == "" {
			rt.Fatalf("the auditor refuses an update that it has no reason to refuse (+%d -%d at %d): %v", len(au.Added), len(au.Removed), s.done, err)
		}
		if !bytes.Equal(before, s.db.raw) {
			rt.Fatalf("the auditor refused an update but changed what it stores")
		}
		if why != "" {
			c.Class("refused: " + why)
		}
		// Nothing may have changed: neither the head nor what comes next.
		s.mustCommit(rt)
		if Bool(rt, "reload") {
			s.restart(rt)
			if s.done > 0 {
				s.mustCommit(rt)
			}
		}
		return true
	}
	if why != "" {
		rt.Fatalf("the auditor accepts an update at %d although %s", s.done, why)
	}
	c.Class("accepted")
	keys := map[string]bool{}
	for _, e := range append(append([]prefix.Entry{}, au.Added...), au.Removed...) {
		keys[string(e.VrfOutput)] = true
	}
	if LoneSibling(s.prefixAt(s.done), after, keys) {
		return false
	}
	// It was as good as honest: the head must be that of the log with it.
	f := &auditScene{w: s.w, db: s.db, a: s.a, done: s.done + 1, sigs: s.sigs}
	ext := *w
	ext.Entries = append(append([]Entry{}, w.Entries[:s.done]...), Entry{TS: au.Timestamp, Prefix: after})
	ext.Log = NewLogModel(0, nil)
	for _, e := range ext.Entries {
		ext.Log.Leaves = append(ext.Log.Leaves, e.Leaf())
	}
	f.w = &ext
	f.mustCommit(rt)
	return false
}

func TestP19(t *testing.T) {
	Run(t, "storing the auditor's state failed at least once, and a head was released afterwards",
		Sub{Name: "store failures", Quick: 8000, Thorough: 250000, Bubble: true, Prop: propAuditStore},
	)
}

func propAuditStore(rt *rapid.T, c *Case) {
	s := newAuditScene(rt, c)
	s.past = map[uint64]*World{}
	// Failures come in runs; a failed write may have been stored or not.
	fail, failed, heads := 0, 0, 0
	s.db.onPut = func(put func()) error {
		if fail > 0 {
			fail--
			failed++
			return ErrInjected
		}
		put()
		return nil
	}
	s.db.onGet = func() error { return nil }
	for i := Int(rt, 3, 25, "steps"); i > 0; i-- {
		switch k := Flat(rt, 12, "step"); {
		case k < 3 || s.w.N() == 0:
			s.mutate(rt, c)
		case k < 6:
			for n := Int(rt, 1, 3, "process"); n > 0 && s.done < s.w.N(); n-- {
				c.Logf("process %d", s.done)
				if !s.next(rt, c) {
					return
				}
			}
		case k == 6:
			c.Logf("restart at %d", s.saved)
			if Prob(rt, 20, "read failure") {
				s.db.onGet = func() error { return ErrInjected }
				_, err := auditor.NewAuditor(s.w.Config.Public(), s.w.Auditor, s.db)
				s.db.onGet = nil
				if err == nil {
					rt.Fatalf("an auditor that could not read its state starts anew")
				}
			}
			s.restart(rt)
		case k == 7 && s.saved == s.done && s.done == 0 || k == 8:
			// After a restart the log shows something else than before. What the
			// auditor has released is not affected.
			c.Logf("restart at %d, other log", s.saved)
			s.restart(rt)
			if s.saved == s.w.N() {
				continue
			}
			s.rewrite(rt, c)
		default:
			fail = Pick(rt, []int{0, 0, 1, 2}, "failures")
			c.Logf("commit %d (%d failures)", s.done, fail)
			for {
				puts, had := s.db.puts, failed
				h, err := s.commit(rt)
				if err != nil {
					if s.done > 0 && failed == had {
						rt.Fatalf("committing the auditor's state failed although its store works: %v", err)
					}
					if h != nil {
						rt.Fatalf("committing failed but a head was returned")
					}
					if s.done == 0 || !Prob(rt, 70, "retry") {
						break
					}
					if Prob(rt, 30, "more first") && s.done < s.w.N() {
						if !s.next(rt, c) {
							return
						}
					}
					continue
				}
				if s.done == 0 {
					rt.Fatalf("an auditor that saw nothing released a head")
				}
				if s.done != s.saved && s.db.puts == puts {
					rt.Fatalf("the auditor released a head of size %d without storing its state", s.done)
				}
				s.head(rt, h)
				heads++
				if failed > 0 {
					c.NonTrivial()
				}
				break
			}
			fail = 0
		}
	}
	if heads > 0 {
		c.Class("head released")
	}
}

// rewrite replaces what the log has after the auditor's stored state.
func (s *auditScene) rewrite(rt *rapid.T, c *Case) {
	s.w = s.past[s.saved].Fork(rt)
	for n := range s.past {
		if n > s.saved {
			delete(s.past, n)
		}
	}
	for i := Int(rt, 1, 3, "new entries"); i > 0; i-- {
		s.mutate(rt, c)
	}
	c.Class("log rewritten")
}
