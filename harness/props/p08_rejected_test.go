package props

import (
	"bytes"
	"fmt"
	"strings"
	"testing"

	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"pgregory.net/rapid"

	"verif/kit"
)

// answers is everything a server says about its labels, for comparison.
func answers(rt *rapid.T, w *kit.World) string {
	var out strings.Builder
	fmt.Fprintf(&out, "head %+v\n", w.Tree.TreeHead())
	if w.N() == 0 {
		return out.String()
	}
	for _, l := range w.Pool {
		reqs := []*structs.SearchRequest{{Label: l}}
		for v := range w.Labels[string(l)] {
			reqs = append(reqs, &structs.SearchRequest{Label: l, Version: kit.Ptr(uint32(v))})
		}
		for _, req := range reqs {
			res, err := w.Search(rt, req)
			if err != nil {
				fmt.Fprintf(&out, "%q: %v\n", l, err)
				continue
			}
			raw, err := structs.Marshal(res)
			if err != nil {
				rt.Fatalf("the answer to a search can not be encoded: %v", err)
			}
			fmt.Fprintf(&out, "%q: %x\n", l, kit.Digest(raw))
		}
	}
	return out.String()
}

// grow makes an honest history of up to max mutations.
func grow(rt *rapid.T, c *kit.Case, w *kit.World, max int) {
	for i := kit.Int(rt, 0, max, "history"); i > 0; i-- {
		w.Tick(rt, c)
		b := drawBatch(rt, w, true)
		if _, err := w.Mutate(rt, c, b); err != nil {
			rt.Fatalf("a valid mutation was refused: %v", err)
		}
	}
}

// after makes more valid mutations and checks that the log follows the model.
func afterwards(rt *rapid.T, c *kit.Case, w *kit.World) {
	for i := kit.Int(rt, 1, 3, "more"); i > 0; i-- {
		w.Tick(rt, c)
		b := drawBatch(rt, w, true)
		before, now := w.Labels, kit.Now()
		au, err := w.Mutate(rt, c, b)
		if err != nil {
			rt.Fatalf("a valid mutation after the failed one was refused: %v", err)
		}
		checkUpdate(rt, w, b, au, before, now)
		w.CheckHead(rt)
	}
	checkAll(rt, w, true)
	if kit.Bool(rt, "reopen") {
		c.Logf("reopen")
		w.Reopen(rt)
		checkAll(rt, w, true)
	}
}

// drawBad draws a batch that must be refused, or reports that there is none.
func drawBad(rt *rapid.T, w *kit.World) (kit.Batch, string) {
	b := kit.Batch{Remove: drawRemove(rt, w, true)}
	b.Add = w.DrawAdds(rt, 5, w.Removed(b))
	kind := kit.Pick(rt, []string{"recent", "recent", "recent", "label", "signature"}, "kind")
	if kind == "signature" && w.Config.Mode != structs.ThirdPartyManagement {
		kind = "recent"
	}
	at := func(n int) int { return kit.Flat(rt, n+1, "place") }
	switch kind {
	case "recent":
		var recent [][]byte
		for _, l := range w.Pool {
			if !w.RemovalAllowed(l) {
				recent = append(recent, l)
			}
		}
		if len(recent) > 0 {
			l := kit.Pick(rt, recent, "recent")
			i := at(len(b.Remove))
			b.Remove = append(b.Remove[:i:i], append([][]byte{kit.Dup(l)}, b.Remove[i:]...)...)
			return b, kind
		}
		kind = "label"
		fallthrough
	case "label":
		bad := transparency.LabelValue{Label: bytes.Repeat([]byte("x"), kit.Pick(rt, []int{256, 257, 300, 511, 512, 70000}, "len"))}
		bad.Value.Value = []byte("v")
		if w.Config.Mode == structs.ThirdPartyManagement {
			bad.Value.Signature = []byte("s")
		}
		i := at(len(b.Add))
		b.Add = append(b.Add[:i:i], append([]transparency.LabelValue{bad}, b.Add[i:]...)...)
		return b, kind
	default:
		bad := transparency.LabelValue{Label: kit.Dup(kit.Pick(rt, w.Pool, "label"))}
		bad.Value.Value = []byte("v")
		bad.Value.Signature = make([]byte, kit.Pick(rt, []int{65536, 65537, 131072}, "len"))
		i := at(len(b.Add))
		b.Add = append(b.Add[:i:i], append([]transparency.LabelValue{bad}, b.Add[i:]...)...)
		return b, kind
	}
}

func propRefused(rt *rapid.T, c *kit.Case, o kit.Opts) {
	w := kit.NewWorld(rt, c, o)
	defer w.Close()
	if w.Ldb != nil {
		w.MaxSleep = 1
	}
	grow(rt, c, w, kit.Pick(rt, []int{2, 6, 14}, "max history"))
	for i := kit.Int(rt, 1, 3, "rounds"); i > 0; i-- {
		w.Tick(rt, c)
		before := answers(rt, w)
		bad, kind := drawBad(rt, w)
		c.Class(kind)
		c.Logf("refused (%s):", kind)
		if _, err := w.Mutate(rt, c, bad); err == nil {
			rt.Fatalf("a mutation that must be refused (%s) was accepted", kind)
		}
		if len(bad.Add)+len(bad.Remove) > 1 {
			c.NonTrivial()
		}
		if kit.Prob(rt, 20, "reload") {
			w.Load(rt)
		}
		if after := answers(rt, w); after != before {
			rt.Fatalf("a refused mutation (%s) changed the log:\nbefore:\n%safter:\n%s", kind, before, after)
		}
		afterwards(rt, c, w)
	}
}

// propFaults makes a mutation fail at every storage operation in turn.
func propFaults(rt *rapid.T, c *kit.Case) {
	w := kit.NewWorld(rt, c, kit.Opts{Labels: 4})
	grow(rt, c, w, kit.Pick(rt, []int{2, 6, 14}, "max history"))
	w.Tick(rt, c)
	before, dump := answers(rt, w), w.Tx.Dump()
	b := drawBatch(rt, w, true)

	// How many operations does it take?
	dry := w.Fork(rt)
	base := dry.Tx.Ops
	if _, err := dry.Tree.Mutate(b.Add, b.Remove); err != nil {
		rt.Fatalf("a valid mutation was refused: %v", err)
	}
	total := dry.Tx.Ops - base
	limit := 10
	if kit.Thorough() {
		limit = 60
	}
	var points []int
	if total <= limit {
		for i := 0; i < total; i++ {
			points = append(points, i)
		}
	} else {
		for i := 0; i < limit; i++ {
			points = append(points, kit.Flat(rt, total, "fault"))
		}
		points = append(points, total-1, total-2)
	}
	c.Logf("%s fails at operations %v of %d", b, points, total)
	for _, p := range points {
		f := w.Fork(rt)
		count := 0
		hit := ""
		f.Tx.OnOp = func(op string) error {
			count++
			if count == p+1 {
				hit = op
				return kit.ErrInjected
			}
			return nil
		}
		_, err := f.Tree.Mutate(b.Add, b.Remove)
		f.Tx.OnOp = nil
		if hit == "" {
			continue
		}
		c.Class(hit)
		if err == nil {
			rt.Fatalf("the mutation succeeded although storage operation %d (%s) failed", p, hit)
		}
		c.NonTrivial()
		if f.Tx.Dump() != dump {
			rt.Fatalf("the mutation that failed at storage operation %d (%s) left something behind", p, hit)
		}
		if after := answers(rt, f); after != before {
			rt.Fatalf("the mutation that failed at storage operation %d (%s) changed the log:\nbefore:\n%safter:\n%s", p, hit, before, after)
		}
		if kit.Prob(rt, 30, "retry") {
			c.Logf("retry")
			if _, err := f.Mutate(rt, c, b); err != nil {
				rt.Fatalf("repeating the mutation that failed at storage operation %d (%s) failed: %v", p, hit, err)
			}
			f.CheckHead(rt)
		}
		afterwards(rt, c, f)
	}
}

func TestP08(t *testing.T) {
	kit.Run(t, "valid histories, then a batch that mixes valid changes with a reason to refuse it, or a storage failure at every operation of a valid batch; the log before and after is compared and valid mutations follow; non-trivial: the refused batch has other changes too, or a fault was hit",
		kit.Sub{Name: "refused", Quick: 4000, Thorough: 100000, Bubble: true, Prop: func(rt *rapid.T, c *kit.Case) {
			propRefused(rt, c, kit.Opts{Stores: []string{"tx", "memory"}})
		}},
		kit.Sub{Name: "leveldb", Quick: 100, Thorough: 2000, Prop: func(rt *rapid.T, c *kit.Case) {
			propRefused(rt, c, kit.Opts{Stores: []string{"ldb"}, Windows: []uint64{3600000, 1 << 41}, NoExpiry: true})
		}},
		kit.Sub{Name: "faults", Quick: 1200, Thorough: 30000, Bubble: true, Prop: propFaults},
	)
}
