package props

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"pgregory.net/rapid"

	"verif/kit"
)

// checkUpdate compares an audit update with what the batch must change.
func checkUpdate(rt *rapid.T, w *kit.World, b kit.Batch, au *structs.AuditorUpdate, before map[string][]kit.Ver, now uint64) {
	if au == nil || au.Timestamp < now || au.Timestamp > kit.Now() {
		rt.Fatalf("the audit update is %v, the mutation was made at %d", au, now)
	}
	type want struct{ vrf, com []byte }
	var add, rem []want
	removed := w.Removed(b)
	for l := range removed {
		for _, v := range before[l] {
			rem = append(rem, want{v.Vrf, v.Commitment})
		}
	}
	for _, l := range w.Pool {
		old := len(before[string(l)])
		if removed[string(l)] {
			old = 0
		}
		for _, v := range w.Labels[string(l)][old:] {
			add = append(add, want{v.Vrf, nil})
		}
	}
	cmp := func(what string, want []want, got map[string][]byte, n int, checkCom bool) {
		if n != len(want) {
			rt.Fatalf("the audit update lists %d %s versions, the batch has %d", n, what, len(want))
		}
		for _, x := range want {
			com, ok := got[string(x.vrf)]
			if !ok {
				rt.Fatalf("the audit update does not list %s version %x", what, x.vrf)
			}
			if checkCom && !bytes.Equal(com, x.com) {
				rt.Fatalf("the audit update lists %s version %x with commitment %x, it is %x", what, x.vrf, com, x.com)
			}
		}
	}
	got := map[string][]byte{}
	for i, e := range au.Added {
		got[string(e.VrfOutput)] = e.Commitment
		if len(e.Commitment) != 32 {
			rt.Fatalf("the audit update adds a commitment of %d bytes", len(e.Commitment))
		}
		if i > 0 && bytes.Compare(au.Added[i-1].VrfOutput, e.VrfOutput) >= 0 {
			rt.Fatalf("additions in the audit update are not in VRF order")
		}
	}
	cmp("added", add, got, len(au.Added), false)
	got = map[string][]byte{}
	for i, e := range au.Removed {
		got[string(e.VrfOutput)] = e.Commitment
		if i > 0 && bytes.Compare(au.Removed[i-1].VrfOutput, e.VrfOutput) >= 0 {
			rt.Fatalf("removals in the audit update are not in VRF order")
		}
	}
	cmp("removed", rem, got, len(au.Removed), true)
	// The proof is about these entries, in this order, before the mutation.
	prev := kit.PrefixModel{}
	if n := len(w.Entries); n > 1 {
		prev = w.Entries[n-2].Prefix
	}
	root, _, err := prefix.EvaluateBeforeAfter(w.Config.Suite, au.Added, au.Removed, &au.Proof)
	if err != nil || !bytes.Equal(root, prev.Root()) {
		rt.Fatalf("the proof in the audit update does not lead to the previous entry's prefix root: %v", err)
	}
}

// checkAll looks at the head and at every version of every label.
func checkAll(rt *rapid.T, w *kit.World, all bool) {
	w.CheckHead(rt)
	if w.N() == 0 {
		return
	}
	for _, l := range w.Pool {
		n := len(w.Labels[string(l)])
		if !w.Gone[string(l)] {
			w.CheckGreatest(rt, l)
		}
		for v := 0; v < n; v++ {
			if all || v == n-1 || kit.Prob(rt, 30, "check") {
				if !w.Gone[string(l)] {
					w.CheckVersion(rt, l, v)
				}
			}
		}
	}
}

// drawRemove draws labels to remove.
func drawRemove(rt *rapid.T, w *kit.World, onlyAllowed bool) [][]byte {
	var out [][]byte
	if !kit.Prob(rt, 35, "remove") {
		return nil
	}
	for i := kit.Int(rt, 1, 2, "removals"); i > 0; i-- {
		l := kit.Pick(rt, w.Pool, "removed label")
		if kit.Prob(rt, 10, "unknown") {
			l = []byte("never added")
		}
		if onlyAllowed && !w.RemovalAllowed(l) {
			continue
		}
		out = append(out, kit.Dup(l))
	}
	return out
}

func drawBatch(rt *rapid.T, w *kit.World, onlyAllowed bool) kit.Batch {
	b := kit.Batch{Remove: drawRemove(rt, w, onlyAllowed)}
	b.Add = w.DrawAdds(rt, 4, w.Removed(b))
	return b
}

func propMutate(rt *rapid.T, c *kit.Case, o kit.Opts, maxSteps int) {
	w := kit.NewWorld(rt, c, o)
	defer w.Close()
	if w.Ldb != nil {
		w.MaxSleep = 1
	}
	steps := kit.Int(rt, 1, maxSteps, "steps")
	openings := map[string]bool{}
	removals, refusals, reopened := 0, 0, 0
	for i := 0; i < steps; i++ {
		w.Tick(rt, c)
		if kit.Prob(rt, 12, "reopen") {
			c.Logf("reopen")
			w.Reopen(rt)
			reopened++
			w.CheckHead(rt)
		}
		b := drawBatch(rt, w, false)
		allowed := true
		for _, l := range b.Remove {
			allowed = allowed && w.RemovalAllowed(l)
			if len(w.Labels[string(l)]) > 0 {
				removals++
			}
		}
		before, now := w.Labels, kit.Now()
		au, err := w.Mutate(rt, c, b)
		if !allowed {
			refusals++
			if err == nil {
				rt.Fatalf("a label modified after the last distinguished entry was removed")
			}
			w.CheckHead(rt)
			continue
		}
		if err != nil {
			rt.Fatalf("the mutation was refused: %v", err)
		}
		checkUpdate(rt, w, b, au, before, now)
		w.CheckHead(rt)
		// The versions the batch touched.
		for _, l := range w.Pool {
			vs := w.Labels[string(l)]
			if len(vs) == 0 || vs[len(vs)-1].Pos != w.N()-1 || w.Gone[string(l)] {
				continue
			}
			w.CheckGreatest(rt, l)
		}
		for _, l := range b.Remove {
			if len(w.Labels[string(l)]) > 0 {
				continue
			}
			// Nothing of the label is left.
			raw, err := w.Store.BatchGetIndex([][]byte{l})
			if err != nil || len(raw) != 1 || len(raw[0]) != 0 {
				rt.Fatalf("the index of %q remains after its removal: %v %v", l, raw, err)
			}
			for v := range before[string(l)] {
				data, err := w.Store.GetVersion(l, uint32(v))
				if err != nil || data != nil {
					rt.Fatalf("version %d of %q remains stored after its removal", v, l)
				}
			}
		}
	}
	if kit.Bool(rt, "final reopen") {
		c.Logf("reopen")
		w.Reopen(rt)
	}
	checkAll(rt, w, true)
	// Openings are fresh for every stored version.
	for _, l := range w.Pool {
		for v := range w.Labels[string(l)] {
			raw, err := w.Store.GetVersion(l, uint32(v))
			if err != nil || len(raw) < 16 {
				rt.Fatalf("version %d of %q is not stored: %v", v, l, err)
			}
			if k := string(raw[:16]); openings[k] {
				rt.Fatalf("two versions share the commitment opening %x", k)
			} else {
				openings[k] = true
			}
		}
	}
	if removals > 0 {
		c.Class("removal")
	}
	if refusals > 0 {
		c.Class("refusal")
	}
	if reopened > 0 {
		c.Class("reopen")
	}
	if w.N() >= 2 && len(openings) > 0 {
		c.NonTrivial()
	}
}

func TestP07(t *testing.T) {
	kit.Run(t, "mutation histories (adds, several versions per batch, removals, unknown labels, reopening, all modes and stores) compared step by step with a model of log, prefix tree and labels; non-trivial: at least two entries and one live version",
		kit.Sub{Name: "history", Quick: 10000, Thorough: 300000, Bubble: true, Prop: func(rt *rapid.T, c *kit.Case) {
			propMutate(rt, c, kit.Opts{Stores: []string{"tx", "tx", "memory"}}, kit.Pick(rt, []int{5, 20, 40}, "max steps"))
		}},
		kit.Sub{Name: "long", Quick: 80, Thorough: 2000, Bubble: true, Prop: func(rt *rapid.T, c *kit.Case) {
			propMutate(rt, c, kit.Opts{}, 200)
		}},
		kit.Sub{Name: "real", Quick: 160, Thorough: 2000, Bubble: true, Prop: func(rt *rapid.T, c *kit.Case) {
			propMutate(rt, c, kit.Opts{Real: 100}, 10)
		}},
		kit.Sub{Name: "leveldb", Quick: 240, Thorough: 2000, Prop: func(rt *rapid.T, c *kit.Case) {
			// The database's goroutines can not live in a bubble, so the real
			// clock is used, little time passes, and the windows are such that
			// it does not matter how little.
			propMutate(rt, c, kit.Opts{Stores: []string{"ldb"}, Windows: []uint64{3600000, 1 << 41}, NoExpiry: true}, 12)
		}},
		kit.Sub{Name: "clock", Quick: 3000, Thorough: 10000, Prop: propClockBack},
	)
}

// propClockBack restarts the clock in the past: nothing may be appended until
// it has caught up.
func propClockBack(rt *rapid.T, c *kit.Case) {
	var w *kit.World
	c.Bubble(rt, func() {
		w = kit.NewWorld(rt, c, kit.Opts{})
		w.Sleep(c, kit.U64(rt, 0, 5000, "start"))
		for i := kit.Int(rt, 1, 6, "steps"); i > 0; i-- {
			w.Sleep(c, kit.U64(rt, 0, 2000, "ms"))
			if _, err := w.Mutate(rt, c, drawBatch(rt, w, true)); err != nil {
				rt.Fatalf("the mutation was refused: %v", err)
			}
		}
	})
	c.Logf("clock reset")
	c.Bubble(rt, func() {
		w.Reopen(rt)
		for i := kit.Int(rt, 1, 8, "steps"); i > 0; i-- {
			last := w.Entries[w.N()-1].TS
			gap := uint64(0)
			if now := kit.Now(); now < last {
				gap = last - now
			}
			w.Sleep(c, kit.Pick(rt, []uint64{0, 1, gap / 2, gap, gap + 1, max(gap, 1) - 1}, "ms"))
			back := kit.Now() < last
			head := fmt.Sprint(w.Tree.TreeHead())
			_, err := w.Mutate(rt, c, drawBatch(rt, w, true))
			if back {
				c.NonTrivial()
				if err == nil {
					rt.Fatalf("an entry with a timestamp %d before the previous one (%d) was appended", kit.Now(), last)
				} else if fmt.Sprint(w.Tree.TreeHead()) != head {
					rt.Fatalf("the refused mutation changed the tree head")
				}
			} else if err != nil {
				rt.Fatalf("the mutation was refused: %v", err)
			}
			w.CheckHead(rt)
		}
		checkAll(rt, w, true)
	})
}
