package props

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"pgregory.net/rapid"

	. "verif/kit"
)

func TestP31(t *testing.T) {
	Run(t, "at least 3 answers were made while the writer committed (interleaved, leveldb); at least 2 searches for labels other than the removed ones (removals); a reader ran in the middle of at least 3 mutations (inside); readers saw at least 3 sizes of the log (threads, heads)",
		Sub{Name: "interleaved", Quick: 6000, Thorough: 200000, Bubble: true, Prop: propInterleaved},
		Sub{Name: "removals", Quick: 3000, Thorough: 100000, Bubble: true, Prop: propReadersOfRemoved},
		Sub{Name: "inside", Quick: 3000, Thorough: 100000, Bubble: true, Prop: propInside},
		Sub{Name: "leveldb", Quick: 600, Thorough: 16000, Prop: propInterleavedLDB},
		Sub{Name: "threads", Quick: 120, Thorough: 3000, Prop: propThreads},
		Sub{Name: "heads", Quick: 24, Thorough: 400, Prop: propHeads},
	)
}

// reading is a read-only server next to the writer.
type reading struct {
	*ownScene
	// wait is how many storage operations of readers until the writer commits
	// next (-1: never), commits how often it has.
	wait, commits int
	left          int // how often the writer still interrupts the readers
	busy          bool
	coOwned       []byte            // a label that the writer may add to, although owned
	failed        any               // a failure in another goroutine
	removals      bool              // labels are removed, too
	removedAt     map[string]uint64 // the entry that first removed a label
}

// begin makes the first entries of the log, at times more than one of its
// chunks holds.
func (s *reading) begin(rt *rapid.T, c *Case) {
	n := 1 + Flat(rt, 4, "entries")
	if Prob(rt, 15, "long") {
		n += Flat(rt, 40, "entries")
		c.Class("long log")
	}
	for i := 0; i < n; i++ {
		b := Batch{}
		if i < 4 || i%8 == 0 {
			s.w.Tick(rt, c)
			b.Add = s.w.DrawAdds(rt, 4, nil)
		}
		if _, err := s.w.Mutate(rt, c, b); err != nil {
			rt.Fatalf("a mutation of only additions failed: %v", err)
		}
	}
	s.w.KeepAudited(rt)
}

// arm makes the writer go on during the reads that follow.
func (s *reading) arm(rt *rapid.T) {
	s.wait, s.left = -1, 8
	if !Prob(rt, 10, "undisturbed") {
		s.wait = Flat(rt, 8, "wait")
	}
}

// onRead is called before each storage operation of a reader.
func (s *reading) onRead(rt *rapid.T, c *Case) func(string) error {
	return func(op string) (err error) {
		if s.busy || s.wait < 0 || s.left == 0 {
			return nil
		} else if s.wait > 0 {
			s.wait--
			return nil
		}
		s.busy = true
		s.left--
		defer func() {
			s.busy = false
			if r := recover(); r != nil {
				s.failed, err = r, errors.New("the check failed")
			}
		}()
		c.Logf("(before %s)", op)
		for k := Int(rt, 1, 3, "commits"); k > 0; k-- {
			s.write(rt, c)
		}
		c.Class("during " + op)
		s.wait = Flat(rt, 10, "wait")
		return nil
	}
}

// write is one step of the writer.
func (s *reading) write(rt *rapid.T, c *Case) {
	w := s.w
	s.commits++
	if w.Config.Mode == structs.ThirdPartyAuditing && Prob(rt, 30, "audit") {
		w.PublishAuditorHead(rt, w.N()-uint64(Flat(rt, int(min(w.N(), 2)), "behind")))
		c.Class("auditor head")
		return
	}
	w.Tick(rt, c)
	b := Batch{}
	if s.removals && Prob(rt, 70, "removal") {
		b.Remove = drawRemove(rt, w, true)
		for l := range w.Removed(b) {
			if _, ok := s.removedAt[l]; !ok {
				s.removedAt[l] = w.N()
			}
			c.Class("removal")
		}
	}
	for _, a := range w.DrawAdds(rt, 4, w.Removed(b)) {
		if s.free(a.Label) || string(a.Label) == string(s.coOwned) {
			b.Add = append(b.Add, a)
		}
	}
	if _, err := w.Mutate(rt, c, b); err != nil {
		rt.Fatalf("an allowed mutation failed: %v", err)
	}
	if Bool(rt, "audited") {
		w.KeepAudited(rt)
	}
}

// check says that what a reader with a log of size n answers is true.
func (s *reading) check(rt *rapid.T, c *Case, tree *transparency.Tree, p *Pending) {
	w, u := s.w, p.User
	n := uint64(0)
	if h := tree.TreeHead(); h != nil {
		n = h.TreeSize
	}
	c.Logf("%s, reader at %d", p, n)
	before, state := s.commits, u.DB.Dump()
	var old *structs.ClientLabelState
	if p.Label != nil {
		old = u.Label(rt, p.Label)
	}
	last := p.Last()
	res, err := p.Ask(rt, w, tree)
	if s.failed != nil {
		panic(s.failed)
	}
	if last != nil && *last > n {
		if err == nil {
			rt.Fatalf("%s: a reader of a log of size %d answers a client that knows size %d", p, n, *last)
		}
		c.Class("reader behind")
		return
	}
	vs := w.History[n-1][string(p.Label)]
	if at, gone := s.removedAt[string(p.Label)]; gone {
		// The reader's log may still have the label, what it needs for the
		// proof is gone.
		c.Class("removed label")
		if err == nil {
			err = p.Verify(rt, res)
		}
		if at < n {
			return // its binary searches pass entries that had more versions
		} else if err == nil || isAbsent(err) {
			target := len(vs) - 1
			if p.Ver != nil {
				target = int(*p.Ver)
			}
			if sr, ok := res.(*structs.SearchResponse); (target >= 0 && target < len(vs)) != (err == nil) {
				rt.Fatalf("%s: a search among %d versions through a reader of size %d ends with %v", p, len(vs), n, err)
			} else if err == nil && (!ok || string(sr.Value.Value) != string(vs[target].Value) || p.Ver == nil && *sr.Version != uint32(target)) {
				rt.Fatalf("%s: a reader of a log of size %d gives another value than that of version %d", p, n, target)
			}
		} else if len(vs) > 0 {
			Known(knownRemovedUnder)
		} else {
			rt.Fatalf("%s: a reader of a log of size %d fails, in which the label does not exist: %v", p, n, err)
		}
		return
	}
	if err != nil {
		rt.Fatalf("%s: a reader of a log of size %d (now %d) fails: %v", p, n, w.N(), err)
	}
	if got := TreeSize(res, last); got != n {
		rt.Fatalf("%s: a reader of a log of size %d answers for size %d", p, n, got)
	}
	err = p.Verify(rt, res)
	if s.commits > before {
		s.verify++
		c.Class("overtaken " + p.Kind)
	}
	if p.Search != nil {
		target := len(vs) - 1
		if p.Ver != nil {
			target = int(*p.Ver)
		}
		if target < 0 || target >= len(vs) {
			if !isAbsent(err) {
				rt.Fatalf("%s: a search for a version that does not exist at size %d ends with %v", p, n, err)
			} else if u.DB.Dump() != state {
				rt.Fatalf("a search that found nothing changed the client's state")
			}
			return
		}
		MustAccept(rt, p.String(), err)
		sr := res.(*structs.SearchResponse)
		if string(sr.Value.Value) != string(vs[target].Value) || p.Ver == nil && *sr.Version != uint32(target) {
			rt.Fatalf("%s: a reader of a log of size %d gives version %v %q, it is version %d %q", p, n, sr.Version, sr.Value.Value, target, vs[target].Value)
		}
	} else {
		MustAccept(rt, p.String(), err)
	}
	w.CheckUser(rt, u)
	if got := u.State(rt).TreeHead.TreeSize; got != n {
		rt.Fatalf("%s: the client accepted an answer for size %d and retains size %d", p, n, got)
	}
	switch p.Kind {
	case "contact", "owner":
		w.CheckMonitored(rt, u, p.Label, old)
		w.CheckOwner(rt, u, p.Label)
	case "init":
		w.CheckOwner(rt, u, p.Label)
	}
}

// reload makes a reader, while the writer goes on.
func (s *reading) reload(rt *rapid.T, c *Case) *transparency.Tree {
	from := s.w.N()
	var tree *transparency.Tree
	var err error
	NoPanic(rt, "NewTree", func() {
		tree, err = transparency.NewTree(s.w.Config, s.w.Reader(s.onRead(rt, c)), nil)
	})
	if s.failed != nil {
		panic(s.failed)
	} else if err != nil {
		rt.Fatalf("loading the log of a reader fails: %v", err)
	}
	n := uint64(0)
	if h := tree.TreeHead(); h != nil {
		n = h.TreeSize
	}
	if n < from || n > s.w.N() {
		rt.Fatalf("a reader that was started between sizes %d and %d sees size %d", from, s.w.N(), n)
	}
	if aud := s.w.Config.Mode == structs.ThirdPartyAuditing; aud && tree.TreeHead() == nil {
		rt.Fatalf("a reader sees no log")
	}
	return tree
}

func propInterleaved(rt *rapid.T, c *Case) {
	interleaved(rt, c, Opts{Real: 2, Stores: []string{"tx"}, NoExpiry: true})
}

func propInterleavedLDB(rt *rapid.T, c *Case) {
	interleaved(rt, c, Opts{Stores: []string{"ldb"}, NoExpiry: true, Windows: []uint64{3600000, 1 << 41}})
}

func interleaved(rt *rapid.T, c *Case, o Opts) {
	if o.Windows == nil {
		o.Windows = ownerWindows
	}
	w := NewWorld(rt, c, o)
	defer w.Close()
	if w.Ldb != nil {
		w.MaxSleep = 1
	}
	s := &reading{ownScene: &ownScene{w: w, users: drawUsers(rt, w, 3), owner: map[string]*User{}}}
	s.begin(rt, c)
	w.OnRead = s.onRead(rt, c)
	trees := []*transparency.Tree{}
	for i := 1 + Flat(rt, 12, "requests"); i > 0; i-- {
		s.arm(rt)
		if len(trees) == 0 || Bool(rt, "reload") {
			trees = append(trees, s.reload(rt, c))
		}
		tree := trees[len(trees)-1]
		if Prob(rt, 20, "old reader") {
			tree = Pick(rt, trees, "reader")
		}
		u := Pick(rt, s.users, "user")
		label := Pick(rt, w.Pool, "label")
		s.arm(rt)
		switch Flat(rt, 8, "request") {
		case 0, 1, 2:
			s.check(rt, c, tree, u.StartSearch(rt, label, pickVersion(rt, len(w.Labels[string(label)]))))
		case 3, 4:
			if p := u.StartMonitor(rt); p != nil {
				s.check(rt, c, tree, p)
			}
		case 5:
			if !s.free(label) {
				break
			} else if p := u.StartInit(rt, label); p != nil {
				s.check(rt, c, tree, p)
				if st := u.Label(rt, label); st != nil && st.Owner != nil {
					s.owner[string(label)] = u
				}
			}
		default:
			for _, l := range w.Pool {
				if u := s.owner[string(l)]; u != nil && s.updateThrough(rt, c, u, l) {
					break
				}
			}
		}
		s.wait = -1
		if Bool(rt, "write") {
			s.write(rt, c)
		}
	}
	if s.verify >= 3 {
		c.NonTrivial()
	}
}

// updateThrough makes an update through a reader while the writer, to which it
// is passed on, goes on.
func (s *reading) updateThrough(rt *rapid.T, c *Case, u *User, label []byte) bool {
	w := s.w
	if w.Config.Mode == structs.ThirdPartyManagement && known(rt, u, label) != len(w.Labels[string(label)]) {
		return false // it was initialized through a reader of an older log
	}
	values := DrawValues(rt, 3)
	p := u.StartUpdate(rt, label, values)
	if p == nil {
		rt.Fatalf("%s can not make an update request for %q, which it owns", u.Name, label)
	}
	if w.Config.Mode != structs.ThirdPartyManagement && Prob(rt, 30, "another device") {
		s.coOwned = label // concurrent additions of this label
		defer func() { s.coOwned = nil }()
	}
	c.Logf("%s, %d values", p, len(values))
	before := s.commits
	size := w.N()
	at := uint64(0)
	out, err := w.ServeUpdate(rt, nil, p.Update, func(ur transparency.UpdateRequest) (uint64, bool) {
		if s.failed == nil && Bool(rt, "write before") {
			s.write(rt, c)
		}
		at, _ = w.Sequencer(rt, c, 3, s.free)(ur)
		if Bool(rt, "write after") {
			s.write(rt, c)
		}
		return at, true
	})
	if s.failed != nil {
		panic(s.failed)
	} else if err != nil {
		rt.Fatalf("%s: an update through a reader fails: %v", p, err)
	}
	for _, r := range out {
		MustAccept(rt, p.String(), p.Verify(rt, r))
		if n := u.State(rt).TreeHead.TreeSize; n < size {
			rt.Fatalf("an update response is about size %d, the log had %d entries before", n, size)
		}
		w.CheckUser(rt, u)
		w.CheckOwner(rt, u, label)
		checkTold(rt, w, u, label, r, values)
	}
	if st := u.State(rt); st.TreeHead.TreeSize <= at {
		rt.Fatalf("the client knows size %d after an update that was inserted at %d", st.TreeHead.TreeSize, at)
	}
	for n := 1; n <= known(rt, u, label); n++ {
		if n == known(rt, u, label) && w.Labels[string(label)][n-1].Pos < at {
			rt.Fatalf("the client knows %d versions of %q, none at %d, where its update was inserted", n, label, at)
		}
	}
	if s.commits > before {
		s.verify++
		c.Class("overtaken update")
	}
	return true
}

// knownRemovedUnder: a reader of a log that still has a label can not prove its
// versions once the writer has removed them.
const knownRemovedUnder = "removed-under-reader"

// propReadersOfRemoved has a writer that also removes labels: what readers say
// of the others stays true.
func propReadersOfRemoved(rt *rapid.T, c *Case) {
	o := Opts{Real: 2, Stores: []string{"tx"}, NoExpiry: true, Windows: []uint64{0, 1, 1000, 1000, 60000}}
	w := NewWorld(rt, c, o)
	s := &reading{ownScene: &ownScene{w: w, owner: map[string]*User{}}, removals: true, removedAt: map[string]uint64{}}
	s.begin(rt, c)
	for i := 4 + Flat(rt, 8, "first"); i > 0; i-- {
		s.write(rt, c)
	}
	w.OnRead = s.onRead(rt, c)
	trees := []*transparency.Tree{}
	others := 0
	for i := 3 + Flat(rt, 12, "requests"); i > 0; i-- {
		s.arm(rt)
		if len(trees) == 0 || Bool(rt, "reload") {
			trees = append(trees, s.reload(rt, c))
		}
		tree := trees[len(trees)-1]
		if Prob(rt, 20, "old reader") {
			tree = Pick(rt, trees, "reader")
		}
		label := Pick(rt, w.Pool, "label")
		u := w.NewUser(rt, "A")
		s.arm(rt)
		removed := len(s.removedAt)
		p := u.StartSearch(rt, label, pickVersion(rt, len(w.Labels[string(label)])))
		s.check(rt, c, tree, p)
		if _, gone := s.removedAt[string(label)]; !gone && removed > 0 {
			others++
		}
		s.wait = -1
		if Bool(rt, "write") {
			s.write(rt, c)
		}
	}
	if others >= 2 {
		c.NonTrivial()
	}
}

// propInside runs readers from start to end in the middle of mutations.
func propInside(rt *rapid.T, c *Case) {
	w := NewWorld(rt, c, Opts{Real: 2, Stores: []string{"tx"}, NoExpiry: true, Windows: ownerWindows})
	s := &reading{ownScene: &ownScene{w: w, users: drawUsers(rt, w, 3), owner: map[string]*User{}}, wait: -1}
	s.begin(rt, c)
	inside := 0
	var old *transparency.Tree
	for i := 3 + Flat(rt, 10, "mutations"); i > 0; i-- {
		if old == nil || Bool(rt, "reload") {
			old = s.reload(rt, c)
		}
		wait := Flat(rt, 12, "wait")
		busy := false
		w.Tx.OnOp = func(op string) error {
			if busy || wait > 0 {
				wait--
				return nil
			}
			busy = true
			defer func() { busy = false }()
			c.Logf("(before %s)", op)
			tree := old
			if Prob(rt, 70, "new reader") {
				tree = s.reload(rt, c)
			}
			u := Pick(rt, s.users, "user")
			var p *Pending
			switch Flat(rt, 5, "request") {
			case 0:
				p = u.StartMonitor(rt)
			case 1:
				p = u.Clone(rt).StartInit(rt, Pick(rt, w.Pool, "label"))
			}
			if p == nil {
				label := Pick(rt, w.Pool, "label")
				p = u.StartSearch(rt, label, pickVersion(rt, len(w.Labels[string(label)])))
			}
			s.check(rt, c, tree, p)
			c.Class("inside " + op)
			inside++
			wait = Flat(rt, 12, "wait")
			return nil
		}
		b := Batch{Add: w.DrawAdds(rt, 6, nil)}
		_, err := w.Mutate(rt, c, b)
		w.Tx.OnOp = nil
		if err != nil {
			rt.Fatalf("a mutation of only additions failed: %v", err)
		}
		w.KeepAudited(rt)
		w.Tick(rt, c)
	}
	if inside >= 3 {
		c.NonTrivial()
	}
}

// propThreads has readers and the writer in threads of their own.
func propThreads(rt *rapid.T, c *Case) {
	w := NewWorld(rt, c, Opts{Stores: []string{"ldb"}, NoExpiry: true, Windows: []uint64{3600000, 1 << 41}})
	defer w.Close()
	w.MaxSleep = 1
	w.Mutate(rt, c, Batch{Add: w.DrawAdds(rt, 4, nil)})
	w.KeepAudited(rt)
	type answer struct {
		label  []byte
		ver    *uint32
		n      uint64
		res    *structs.SearchResponse
		err    error
		absent bool
	}
	readers := 1 + Flat(rt, 4, "readers")
	answers := make([][]answer, readers)
	fails := make([]string, readers)
	var stop atomic.Bool
	var wg sync.WaitGroup
	labels := w.Pool
	cfg := w.Config
	shared := w.Store.Clone() // as in a server that answers requests in threads
	sharing := Bool(rt, "shared clone")
	for i := 0; i < readers; i++ {
		store := shared
		if !sharing {
			store = w.Store.Clone()
		}
		keep := Bool(rt, "long-lived")
		fresh := Bool(rt, "fresh clients")
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					buf := make([]byte, 4096)
					fails[i] = fmt.Sprintf("panic: %v\n%s", r, buf[:runtime.Stack(buf, false)])
				}
			}()
			var tree *transparency.Tree
			cdb := NewClientDB()
			for k := 0; !stop.Load() && k < 5000; k++ {
				if tree == nil || !keep || k%7 == 0 {
					t, err := transparency.NewTree(cfg, store, nil)
					if err != nil {
						fails[i] = fmt.Sprintf("loading the tree: %v", err)
						return
					}
					tree = t
				}
				if fresh {
					cdb = NewClientDB()
				}
				client, err := transparency.NewClient(cfg.Public(), cdb)
				if err != nil {
					fails[i] = err.Error()
					return
				}
				a := answer{label: labels[k%len(labels)], n: tree.TreeHead().TreeSize}
				var req *structs.SearchRequest
				var verify transparency.VerifyFunc[*structs.SearchResponse]
				if k%3 == 0 {
					a.ver = Ptr(uint32(k/3) % 4)
					req, verify, err = client.FixedVersionSearch(a.label, *a.ver)
				} else {
					req, verify, err = client.GreatestVersionSearch(a.label)
				}
				if err != nil {
					fails[i] = err.Error()
					return
				}
				a.res, a.err = tree.Search(context.Background(), req)
				if a.err != nil {
					fails[i] = fmt.Sprintf("search of %q at size %d: %v", a.label, a.n, a.err)
					return
				}
				a.err = verify(a.res)
				a.absent = isAbsent(a.err)
				answers[i] = append(answers[i], a)
				if a.err != nil && !a.absent {
					return
				}
			}
		}()
	}
	for k := 10 + Flat(rt, 30, "mutations"); k > 0; k-- {
		if _, err := w.Mutate(rt, c, Batch{Add: w.DrawAdds(rt, 5, nil)}); err != nil {
			stop.Store(true)
			wg.Wait()
			rt.Fatalf("a mutation of only additions failed: %v", err)
		}
		if Bool(rt, "audit") {
			w.KeepAudited(rt)
		}
	}
	stop.Store(true)
	wg.Wait()
	sizes := map[uint64]bool{}
	for i, f := range fails {
		if f != "" {
			rt.Fatalf("reader %d next to a writer fails: %s", i, f)
		}
		for _, a := range answers[i] {
			if a.n == 0 || a.n > w.N() {
				rt.Fatalf("a reader sees size %d, the log has %d entries", a.n, w.N())
			}
			sizes[a.n] = true
			vs := w.History[a.n-1][string(a.label)]
			target := len(vs) - 1
			if a.ver != nil {
				target = int(*a.ver)
			}
			if exists := target >= 0 && target < len(vs); !exists && !a.absent || exists && a.err != nil {
				rt.Fatalf("a client that searches %q (version %v of %d) through a reader of size %d next to a writer ends with %v", a.label, a.ver, len(vs), a.n, a.err)
			} else if exists && (string(a.res.Value.Value) != string(vs[target].Value) || a.ver == nil && *a.res.Version != uint32(target)) {
				rt.Fatalf("a client that searches %q (version %v of %d) through a reader of size %d next to a writer gets %q", a.label, a.ver, len(vs), a.n, a.res.Value.Value)
			}
			c.Class("answers")
		}
	}
	if len(sizes) >= 3 {
		c.NonTrivial()
	}
}

// propHeads reads the log's and the auditor's tree head while they change.
func propHeads(rt *rapid.T, c *Case) {
	l, err := OpenLDB("")
	if err != nil {
		rt.Fatalf("harness: %v", err)
	}
	defer l.Remove()
	num := func(x uint64) []byte { return binary.BigEndian.AppendUint64(nil, x) }
	rounds := 2000 + Flat(rt, 2000, "rounds")
	readers := 4 + Flat(rt, 20, "readers")
	var wg sync.WaitGroup
	var stop atomic.Bool
	var mu sync.Mutex
	bad := ""
	sizes := map[uint64]bool{}
	for i := 0; i < readers; i++ {
		store := l.Clone()
		wg.Add(1)
		go func() {
			defer wg.Done()
			seen := map[uint64]bool{}
			for last := uint64(0); !stop.Load(); {
				head, aud, err := store.GetTreeHead()
				msg := ""
				var h, a uint64
				if head != nil {
					h = binary.BigEndian.Uint64(head)
				}
				if aud != nil {
					a = binary.BigEndian.Uint64(aud)
				}
				if err != nil {
					msg = fmt.Sprintf("reading the tree heads next to a writer fails: %v", err)
				} else if a > h {
					msg = fmt.Sprintf("a reader gets the tree head of size %d and an auditor's of size %d, which was stored after that of the log", h, a)
				} else if h > a+1 {
					msg = fmt.Sprintf("a reader gets the tree head of size %d and an auditor's of size %d", h, a)
				} else if h < last {
					msg = fmt.Sprintf("a reader gets the tree head of size %d after that of size %d", h, last)
				}
				last = h
				if len(seen) < 10 {
					seen[h] = true
				}
				if msg != "" {
					stop.Store(true)
					mu.Lock()
					bad = msg
					mu.Unlock()
					return
				}
			}
			mu.Lock()
			for h := range seen {
				sizes[h] = true
			}
			mu.Unlock()
		}()
	}
	for k := uint64(1); k <= uint64(rounds) && !stop.Load() && err == nil; k++ {
		if err = l.PutTreeHead(num(k)); err == nil {
			if err = l.Commit(); err == nil {
				if err = l.PutAuditorTreeHead(num(k)); err == nil {
					err = l.Commit()
				}
			}
		}
	}
	stop.Store(true)
	wg.Wait()
	if err != nil {
		rt.Fatalf("storing tree heads fails: %v", err)
	} else if bad != "" {
		rt.Fatalf("%s", bad)
	}
	c.Logf("%d rounds %d readers", rounds, readers)
	if len(sizes) >= 3 {
		c.NonTrivial()
	}
}
