package props

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/Bren2010/katie/db"
	"github.com/Bren2010/katie/db/memory"
	"pgregory.net/rapid"

	"verif/kit"
)

// dbKey names one cell of a transparency store.
type dbKey struct {
	space byte // h tree head, a auditor head, i index, v version, t entry, l log, p prefix
	label string
	num   uint64
}

func (k dbKey) String() string { return fmt.Sprintf("%c/%x/%d", k.space, k.label, k.num) }

// dbGet reads one cell through the public interface.
func dbGet(s db.TransparencyStore, k dbKey) ([]byte, error) {
	switch k.space {
	case 'h':
		x, _, err := s.GetTreeHead()
		return x, err
	case 'a':
		_, x, err := s.GetTreeHead()
		return x, err
	case 'i':
		x, err := s.BatchGetIndex([][]byte{[]byte(k.label)})
		if err != nil || len(x) != 1 {
			return nil, fmt.Errorf("BatchGetIndex: %d results, %v", len(x), err)
		}
		return x[0], nil
	case 'v':
		return s.GetVersion([]byte(k.label), uint32(k.num))
	case 't', 'l':
		get := s.BatchGet
		if k.space == 'l' {
			get = s.LogStore().BatchGet
		}
		m, err := get([]uint64{k.num})
		return m[k.num], err
	case 'p':
		m, err := s.PrefixStore().BatchGet([]string{k.label})
		return m[k.label], err
	}
	panic("space")
}

func dbPut(s db.TransparencyStore, k dbKey, v []byte) error {
	switch k.space {
	case 'h':
		return s.PutTreeHead(v)
	case 'a':
		return s.PutAuditorTreeHead(v)
	case 'i':
		return s.PutIndex([]byte(k.label), v)
	case 'v':
		return s.PutVersion([]byte(k.label), uint32(k.num), v)
	case 't':
		return s.Put(k.num, v)
	case 'l':
		return s.LogStore().Put(k.num, v)
	case 'p':
		return s.PrefixStore().Put(k.label, v)
	}
	panic("space")
}

func dbDelete(s db.TransparencyStore, k dbKey) error {
	switch k.space {
	case 'i':
		return s.DeleteIndex([]byte(k.label))
	case 'v':
		return s.DeleteVersion([]byte(k.label), uint32(k.num))
	case 't':
		return s.Delete(k.num)
	case 'l':
		return s.LogStore().Delete(k.num)
	case 'p':
		return s.PrefixStore().Delete(k.label)
	}
	panic("space")
}

var (
	dbLabels   = []string{"", "a", "aa", "ab", "b", "a:", "a:1", "\x00", "a\x00", "1", "tree-head", strings.Repeat("x", 255), "61", "6161"}
	dbNumbers  = []uint64{0, 1, 2, 9, 10, 11, 12, 16, 17, 100, 255, 256, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1 << 63, 1<<63 + 1, 1<<64 - 1}
	dbVersions = []uint64{0, 1, 2, 9, 10, 16, 17, 255, 0x61, 0x611, 0x621, 0x622, 0x3a1, 65536, 65537, 1<<32 - 1}
	// Pairs whose label and version read the same one after the other.
	dbTwins = []dbKey{{label: "a", num: 0x621}, {label: "ab", num: 1}, {label: "a", num: 0x6161}, {label: "aa", num: 0x61},
		{label: "aa", num: 1}, {label: "a", num: 0x611}, {num: 0x611}, {label: "a", num: 1}, {label: "a", num: 11}, {label: "a1", num: 1}, {label: "a", num: 0x3111}, {label: "a1", num: 0x11}}
)

func drawDbKey(rt *rapid.T, deletable bool) dbKey {
	spaces := []byte("ivtlpha")
	if deletable {
		spaces = spaces[:5]
	}
	k := dbKey{space: kit.Pick(rt, spaces, "space")}
	switch k.space {
	case 'i':
		k.label = kit.Pick(rt, dbLabels, "label")
	case 'v':
		if kit.Prob(rt, 30, "twin") {
			k = kit.Pick(rt, dbTwins, "twin")
			k.space = 'v'
			break
		}
		k.label, k.num = kit.Pick(rt, dbLabels, "label"), kit.Pick(rt, dbVersions, "version")
	case 'p':
		k.label = kit.Pick(rt, dbLabels, "key")
	case 't', 'l':
		k.num = kit.Pick(rt, dbNumbers, "number")
	}
	return k
}

func drawDbValue(rt *rapid.T, counter *int) []byte {
	*counter++
	v := []byte(fmt.Sprintf("value %d ", *counter))
	switch kit.Flat(rt, 12, "valueKind") {
	case 0:
		return []byte{}
	case 1:
		return bytes.Repeat(v, 400) // several kB
	case 2:
		if kit.Prob(rt, 30, "huge") {
			return bytes.Repeat(v, 8000) // beyond a journal block
		}
	}
	return v
}

// dbState is what a store should hold.
type dbState map[dbKey]string

func (s dbState) clone() dbState {
	out := dbState{}
	for k, v := range s {
		out[k] = v
	}
	return out
}

// diff describes how a store differs from a state over the given cells.
func (s dbState) diff(store db.TransparencyStore, keys []dbKey) string {
	for _, k := range keys {
		got, err := dbGet(store, k)
		if err != nil {
			return fmt.Sprintf("%v: %v", k, err)
		}
		want, ok := s[k]
		if k.space == 'a' {
			if _, head := s[dbKey{space: 'h'}]; !head {
				continue // nothing is said about an auditor head alone
			}
		}
		if !ok && got != nil {
			return fmt.Sprintf("%v should be missing, is %q", k, clip(got))
		} else if ok && (got == nil || string(got) != want) {
			return fmt.Sprintf("%v should be %q, is %q (nil: %v)", k, clip([]byte(want)), clip(got), got == nil)
		}
	}
	return ""
}

func clip(b []byte) string {
	if len(b) > 30 {
		return fmt.Sprintf("%s…(%d)", b[:30], len(b))
	}
	return string(b)
}

func allDbKeys(states ...dbState) []dbKey {
	set := map[dbKey]bool{{space: 'h'}: true, {space: 'a'}: true}
	for _, s := range states {
		for k := range s {
			set[k] = true
		}
	}
	for _, l := range dbLabels[:6] {
		set[dbKey{space: 'i', label: l}] = true
		set[dbKey{space: 'p', label: l}] = true
		set[dbKey{space: 'v', label: l, num: 1}] = true
	}
	for _, n := range dbNumbers[:6] {
		set[dbKey{space: 't', num: n}] = true
		set[dbKey{space: 'l', num: n}] = true
	}
	out := make([]dbKey, 0, len(set))
	for k := range set {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// refuses demands that f, a write to a read-only store, fails and says so.
func refuses(rt *rapid.T, what string, f func() error) {
	failed := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				failed = true
			}
		}()
		failed = f() != nil
	}()
	if !failed {
		rt.Fatalf("%s on a read-only clone succeeds", what)
	}
}

func propDbOps(rt *rapid.T, c *kit.Case) {
	ldb, err := kit.OpenLDB("")
	if err != nil {
		rt.Fatalf("can not create a database: %v", err)
	}
	defer func() { ldb.Remove() }()
	mem := memory.NewTransparencyStore()

	committed, pending := dbState{}, dbState{}
	history := []dbState{committed.clone()}
	var clone db.TransparencyStore
	counter, commits, reopens, overwrites := 0, 0, 0, 0
	journal, size := ldb.Journal()
	marks := []int64{size} // journal length when each state was acknowledged

	for i := kit.Int(rt, 3, 30, "ops"); i > 0; i-- {
		switch kit.Flat(rt, 13, "op") {
		case 0, 1, 2, 3: // put
			k, v := drawDbKey(rt, false), drawDbValue(rt, &counter)
			c.Logf("put %v %d", k, counter)
			if _, ok := pending[k]; ok {
				overwrites++
			}
			in := kit.Dup(v)
			if err := dbPut(ldb, k, in); err != nil {
				rt.Fatalf("put %v: %v", k, err)
			}
			for j := range in { // the store must keep its own copy
				in[j] ^= 0xff
			}
			if err := dbPut(mem, k, v); err != nil {
				rt.Fatalf("memory put %v: %v", k, err)
			}
			pending[k] = string(v)
		case 4, 5: // delete
			k := drawDbKey(rt, true)
			if ks := allDbKeys(pending); len(pending) > 0 && kit.Bool(rt, "existing") {
				if e := kit.Pick(rt, ks, "which"); e.space != 'h' && e.space != 'a' {
					k = e
				}
			}
			c.Logf("delete %v", k)
			if err := dbDelete(ldb, k); err != nil {
				rt.Fatalf("delete %v: %v", k, err)
			}
			if err := dbDelete(mem, k); err != nil {
				rt.Fatalf("memory delete %v: %v", k, err)
			}
			delete(pending, k)
		case 6, 7: // read several cells in one call
			var labels [][]byte
			var nums []uint64
			var keys []string
			for j := kit.Int(rt, 0, 5, "n"); j > 0; j-- {
				labels = append(labels, []byte(kit.Pick(rt, dbLabels, "label")))
				nums = append(nums, kit.Pick(rt, dbNumbers, "number"))
				keys = append(keys, kit.Pick(rt, dbLabels, "key"))
			}
			for name, s := range map[string]db.TransparencyStore{"leveldb": ldb, "memory": mem} {
				idx, err := s.BatchGetIndex(labels)
				if err != nil || len(idx) != len(labels) {
					rt.Fatalf("%s: BatchGetIndex of %d labels: %d results, %v", name, len(labels), len(idx), err)
				}
				for j := range labels {
					if want, ok := pending[dbKey{space: 'i', label: string(labels[j])}]; ok != (idx[j] != nil) || string(idx[j]) != want {
						rt.Fatalf("%s: index of %q is %q, should be %q", name, labels[j], idx[j], want)
					}
					for b := range idx[j] { // what is returned belongs to the caller
						idx[j][b] ^= 0xff
					}
				}
				for _, sp := range []byte("tl") {
					get := s.BatchGet
					if sp == 'l' {
						get = s.LogStore().BatchGet
					}
					m, err := get(nums)
					if err != nil {
						rt.Fatalf("%s: BatchGet: %v", name, err)
					}
					want := map[uint64]string{}
					for _, n := range nums {
						if v, ok := pending[dbKey{space: sp, num: n}]; ok {
							want[n] = v
						}
					}
					if len(m) != len(want) {
						rt.Fatalf("%s: BatchGet %c %v: %d results, should be %d", name, sp, nums, len(m), len(want))
					}
					for n, v := range want {
						if m[n] == nil || string(m[n]) != v {
							rt.Fatalf("%s: BatchGet %c: %d is %q, should be %q", name, sp, n, m[n], v)
						}
						for b := range m[n] {
							m[n][b] ^= 0xff
						}
					}
				}
				m, err := s.PrefixStore().BatchGet(keys)
				if err != nil {
					rt.Fatalf("%s: PrefixStore: %v", name, err)
				}
				want := map[string]string{}
				for _, n := range keys {
					if v, ok := pending[dbKey{space: 'p', label: n}]; ok {
						want[n] = v
					}
				}
				if len(m) != len(want) {
					rt.Fatalf("%s: prefix BatchGet %q: %d results, should be %d", name, keys, len(m), len(want))
				}
				for n, v := range want {
					if m[n] == nil || string(m[n]) != v {
						rt.Fatalf("%s: prefix %q is %q, should be %q", name, n, m[n], v)
					}
				}
			}
			c.Logf("read %d", len(labels))
		case 12: // nothing is not a value, and not a way to delete either
			k := drawDbKey(rt, false)
			if ks := allDbKeys(pending); len(pending) > 0 && kit.Bool(rt, "existing") {
				k = kit.Pick(rt, ks, "which")
			}
			if k.space == 'h' || k.space == 'a' {
				break
			}
			c.Logf("put nil %v", k)
			for name, s := range map[string]db.TransparencyStore{"leveldb": ldb, "memory": mem} {
				if dbPut(s, k, nil) == nil {
					rt.Fatalf("%s: putting nil at %v succeeds", name, k)
				}
				if d := pending.diff(s, []dbKey{k}); d != "" {
					rt.Fatalf("%s: a refused put changed the store: %s", name, d)
				}
			}
		case 8, 9: // commit
			c.Logf("commit %d cells", len(pending))
			if err := ldb.Commit(); err != nil {
				rt.Fatalf("commit: %v", err)
			}
			if err := mem.Commit(); err != nil {
				rt.Fatalf("memory commit: %v", err)
			}
			committed = pending.clone()
			commits++
			if j, s := ldb.Journal(); j == journal {
				history, marks = append(history, committed), append(marks, s)
			} else { // the journal was switched: start counting again
				journal, history, marks = j, []dbState{committed}, []int64{s}
			}
		case 10: // a read-only clone, old or new
			if clone == nil || kit.Bool(rt, "newClone") {
				clone = ldb.Clone()
			}
			c.Logf("clone")
			if d := committed.diff(clone, allDbKeys(committed, pending)); d != "" {
				rt.Fatalf("a read-only clone does not show what is committed: %s", d)
			}
			k := drawDbKey(rt, true)
			refuses(rt, "writing", func() error { return dbPut(clone, k, []byte("x")) })
			refuses(rt, "writing the tree head", func() error { return dbPut(clone, dbKey{space: 'h'}, []byte("x")) })
			refuses(rt, "deleting", func() error { return dbDelete(clone, k) })
			refuses(rt, "committing", clone.Commit)
			if d := committed.diff(clone, allDbKeys(committed, pending)); d != "" {
				rt.Fatalf("a refused write changed a read-only clone: %s", d)
			}
		case 11: // crash and carry on from what is on disk
			c.Logf("crash")
			next, err := ldb.CrashCopy("", -1)
			if err != nil {
				rt.Fatalf("the database does not open after a crash: %v", err)
			}
			ldb.Remove()
			ldb, clone = next, nil
			reopens++
			pending = committed.clone()
			mem = memory.NewTransparencyStore()
			for k, v := range committed {
				if err := dbPut(mem, k, []byte(v)); err != nil {
					rt.Fatalf("memory: %v", err)
				}
			}
			journal, size = ldb.Journal()
			history, marks = []dbState{committed}, []int64{size}
		}
		keys := allDbKeys(committed, pending)
		if d := pending.diff(ldb, keys); d != "" {
			rt.Fatalf("the writer does not see its own writes: %s", d)
		}
		if d := pending.diff(mem, keys); d != "" {
			rt.Fatalf("the memory store differs: %s", d)
		}
		if clone != nil && i%3 == 0 {
			if d := committed.diff(clone, keys); d != "" {
				rt.Fatalf("a clone shows more or less than what is committed: %s", d)
			}
		}
	}
	if commits > 0 {
		c.NonTrivial()
	}
	if overwrites > 0 {
		c.Class("pending write replaced")
	}
	if reopens > 0 && commits > 0 {
		c.Class("crash after commit")
	}
	crashPoints(rt, c, ldb, history, marks, kit.Int(rt, 0, 3, "cuts"))
}

// crashPoints cuts the journal at chosen lengths and demands a completed
// prefix of the commits, not shorter than what was acknowledged by then.
func crashPoints(rt *rapid.T, c *kit.Case, ldb *kit.LDB, history []dbState, marks []int64, n int) {
	if len(history) < 2 {
		return
	}
	name, _ := ldb.Journal()
	keys := allDbKeys(history...)
	for ; n > 0; n-- {
		at := kit.Flat(rt, len(marks)-1, "commitCut")
		lo, hi := marks[at], marks[at+1]
		if hi <= lo {
			continue
		}
		var cut int64
		switch kit.Flat(rt, 3, "where") {
		case 0:
			cut = lo + int64(kit.U64(rt, 0, uint64(hi-lo), "cut"))
		case 1:
			cut = hi - int64(kit.U64(rt, 0, uint64(min(hi-lo, 120)), "cut"))
		default:
			cut = lo + (hi-lo)*int64(kit.Flat(rt, 64, "cut"))/64
		}
		checkCut(rt, c, ldb, name, cut, history, marks, keys)
	}
}

func checkCut(rt *rapid.T, c *kit.Case, ldb *kit.LDB, name string, cut int64, history []dbState, marks []int64, keys []dbKey) {
	c.Logf("cut the journal at %d", cut)
	c.Class("journal cut")
	acked := 0
	for j, m := range marks {
		if m <= cut {
			acked = j
		}
	}
	after, err := ldb.CrashCopy(name, cut)
	if err != nil {
		rt.Fatalf("the database does not open with the journal cut at %d: %v", cut, err)
	}
	defer after.Remove()
	why := ""
	for j := acked; j < len(history); j++ {
		d := history[j].diff(after, keys)
		if d == "" {
			if j > acked {
				c.Class("unacknowledged commit survived")
			}
			return
		}
		if j <= acked+1 {
			why += fmt.Sprintf("\nnot commit %d: %s", j, d)
		}
	}
	rt.Fatalf("journal cut at %d of %v (commits acknowledged by then: %d): the store holds no completed state%s", cut, marks, acked, why)
}

// Every byte of the journal as crash point, for a short history.
func propDbEveryCut(rt *rapid.T, c *kit.Case) {
	ldb, err := kit.OpenLDB("")
	if err != nil {
		rt.Fatalf("can not create a database: %v", err)
	}
	defer ldb.Remove()
	name, size := ldb.Journal()
	state := dbState{}
	history, marks := []dbState{{}}, []int64{size}
	counter := 0
	for i := kit.Int(rt, 2, 3, "commits"); i > 0; i-- {
		for j := kit.Int(rt, 1, 4, "ops"); j > 0; j-- {
			k := drawDbKey(rt, false)
			if _, ok := state[k]; ok && k.space != 'h' && k.space != 'a' && kit.Bool(rt, "delete") {
				c.Logf("delete %v", k)
				if err := dbDelete(ldb, k); err != nil {
					rt.Fatalf("delete: %v", err)
				}
				delete(state, k)
				continue
			}
			counter++
			v := []byte(fmt.Sprintf("v%d", counter))
			c.Logf("put %v %s", k, v)
			if err := dbPut(ldb, k, v); err != nil {
				rt.Fatalf("put: %v", err)
			}
			state[k] = string(v)
		}
		if kit.Prob(rt, 80, "head") {
			counter++
			h := fmt.Sprintf("head %d", counter)
			if err := ldb.PutTreeHead([]byte(h)); err != nil {
				rt.Fatalf("put: %v", err)
			}
			state[dbKey{space: 'h'}] = h
			c.Logf("put %s", h)
		}
		if err := ldb.Commit(); err != nil {
			rt.Fatalf("commit: %v", err)
		}
		c.Logf("commit")
		_, s := ldb.Journal()
		history, marks = append(history, state.clone()), append(marks, s)
	}
	c.NonTrivial()
	keys := allDbKeys(history...)
	step := int64(1)
	if !kit.Thorough() {
		step = 3
	}
	for cut := marks[0] + int64(kit.Flat(rt, int(step), "phase")); cut <= marks[len(marks)-1]; cut += step {
		checkCut(rt, c, ldb, name, cut, history, marks, keys)
	}
}

// Commits of many cells, as of a log entry with very many versions.
func propDbLarge(rt *rapid.T, c *kit.Case) {
	ldb, err := kit.OpenLDB("")
	if err != nil {
		rt.Fatalf("can not create a database: %v", err)
	}
	defer ldb.Remove()
	name, size := ldb.Journal()
	state := dbState{}
	history, marks := []dbState{{}}, []int64{size}
	for i := kit.Int(rt, 1, 3, "commits"); i > 0; i-- {
		n := kit.Pick(rt, []int{20, 100, 300, 1100, 2500, 7000}, "size") + kit.Flat(rt, 40, "more")
		from, pad := uint64(kit.Flat(rt, 3000, "from")), kit.Pick(rt, []int{0, 0, 60, 300}, "pad")
		c.Logf("commit of %d cells from %d, %d bytes more each", n, from, pad)
		for j := range n {
			k := dbKey{space: "tlpvi"[j%5], num: from + uint64(j)}
			switch k.space {
			case 'p', 'i':
				k.label, k.num = fmt.Sprint("key ", k.num), 0
			case 'v':
				k.label, k.num = fmt.Sprint("key ", k.num/8*8), k.num%8
			}
			if _, ok := state[k]; ok && j%3 == 0 {
				if err := dbDelete(ldb, k); err != nil {
					rt.Fatalf("delete: %v", err)
				}
				delete(state, k)
				continue
			}
			v := fmt.Sprintf("commit %d cell %d%s", i, j, strings.Repeat(".", pad))
			if err := dbPut(ldb, k, []byte(v)); err != nil {
				rt.Fatalf("put: %v", err)
			}
			state[k] = v
		}
		if err := ldb.PutTreeHead([]byte(fmt.Sprint("head ", i))); err != nil {
			rt.Fatalf("put: %v", err)
		}
		state[dbKey{space: 'h'}] = fmt.Sprint("head ", i)
		if err := ldb.Commit(); err != nil {
			rt.Fatalf("commit: %v", err)
		}
		if n, s := ldb.Journal(); n == name {
			history, marks = append(history, state.clone()), append(marks, s)
		} else {
			name, history, marks = n, []dbState{state.clone()}, []int64{s}
		}
	}
	c.NonTrivial()
	if d := state.diff(ldb, allDbKeys(history...)); d != "" {
		rt.Fatalf("what was committed is not there: %s", d)
	}
	crashPoints(rt, c, ldb, history, marks, 3)
}

// propDbUnavailable: when the database can not be read or written, no operation
// says that something does not exist or has been stored.
func propDbUnavailable(rt *rapid.T, c *kit.Case) {
	ldb, err := kit.OpenLDB("")
	if err != nil {
		rt.Fatalf("opening a new database failed: %v", err)
	}
	defer ldb.Remove()
	label, key, str := []byte(kit.Pick(rt, []string{"", "a", "ab"}, "label")), kit.U64(rt, 0, 5, "key"), kit.Pick(rt, []string{"", "a", "p"}, "string")
	stored := kit.Bool(rt, "something stored")
	if stored {
		ldb.PutTreeHead([]byte{1})
		ldb.PutAuditorTreeHead([]byte{2})
		ldb.PutIndex(label, []byte{3})
		ldb.PutVersion(label, 0, []byte{4})
		ldb.Put(key, []byte{5})
		ldb.LogStore().Put(key, []byte{6})
		ldb.PrefixStore().Put(str, []byte{7})
		if err := ldb.Commit(); err != nil {
			rt.Fatalf("a commit failed: %v", err)
		}
	}
	clone := ldb.Clone()
	if !ldb.Break() {
		c.Class("no handle")
		return
	}
	c.NonTrivial()
	s, who := ldb.TransparencyStore, "the store"
	if kit.Bool(rt, "clone") {
		s, who = clone, "a clone"
	}
	type read struct {
		name string
		do   func() ([]byte, error)
	}
	for i, r := range []read{
		{"GetTreeHead", func() ([]byte, error) { v, _, err := s.GetTreeHead(); return v, err }},
		{"GetTreeHead (auditor)", func() ([]byte, error) { _, v, err := s.GetTreeHead(); return v, err }},
		{"BatchGetIndex", func() ([]byte, error) {
			v, err := s.BatchGetIndex([][]byte{label})
			if len(v) != 1 {
				return nil, err
			}
			return v[0], err
		}},
		{"GetVersion", func() ([]byte, error) { return s.GetVersion(label, 0) }},
		{"BatchGet", func() ([]byte, error) { v, err := s.BatchGet([]uint64{key}); return v[key], err }},
		{"log BatchGet", func() ([]byte, error) { v, err := s.LogStore().BatchGet([]uint64{key}); return v[key], err }},
		{"prefix BatchGet", func() ([]byte, error) { v, err := s.PrefixStore().BatchGet([]string{str}); return v[str], err }},
	} {
		// (What is known to be stored may be remembered.)
		if v, err := r.do(); err == nil && (!stored || len(v) != 1 || int(v[0]) != i+1) {
			rt.Fatalf("the database is closed, and %s of %s gives %x and no error", r.name, who, v)
		}
	}
	ldb.PutTreeHead([]byte{9})
	if ldb.Commit() == nil {
		rt.Fatalf("the database is closed, and a commit reports no error")
	}
}

func TestP06(t *testing.T) {
	kit.Run(t, "at least one commit was made and everything was read back (own writes, clones, the in-memory twin, reopened crash images), or the database was closed and all operations were tried",
		kit.Sub{Name: "ops", Quick: 800, Thorough: 30000, Prop: propDbOps},
		kit.Sub{Name: "everycut", Quick: 24, Thorough: 600, Prop: propDbEveryCut},
		kit.Sub{Name: "unavailable", Quick: 100, Thorough: 3000, Prop: propDbUnavailable},
		kit.Sub{Name: "large", Quick: 200, Thorough: 6000, Prop: propDbLarge},
	)
}
