package kit

import (
	"bytes"
	"context"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"sort"

	"github.com/Bren2010/katie/tree/log"
	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/tree/transparency/wire"
	"pgregory.net/rapid"
)

// This file is the malicious operator: it holds the log's keys and its store
// and may tell anything, as long as it is well formed.

// EncodeIndex is the stored form of a label's list of positions.
func EncodeIndex(index []uint64) []byte {
	out := []byte{}
	last := uint64(0)
	for _, x := range index {
		out = binary.AppendUvarint(out, x-last)
		last = x
	}
	return out
}

// IndexOf is the list of positions where the label's versions were added.
func (w *World) IndexOf(label []byte) []uint64 {
	var out []uint64
	for _, v := range w.Labels[string(label)] {
		out = append(out, v.Pos)
	}
	return out
}

// Heads are the tree head and auditor tree head as stored.
type Heads struct{ Head, Auditor []byte }

// StoredHeads reads what is stored now.
func (w *World) StoredHeads() Heads {
	return Heads{Dup(w.Tx.core.data["head"]), Dup(w.Tx.core.data["auditor"])}
}

// Liar makes a server on a copy of the store with some of its contents changed:
// it proves things about the real log, but from false records. It returns nil
// if the result is not even a server.
func (w *World) Liar(rt *rapid.T, c *Case, label []byte, past []Heads) *transparency.Tree {
	s := w.Tx.Snapshot()
	for k := Int(rt, 1, 2, "lies"); k > 0; k-- {
		w.lie(rt, c, s, label, past)
	}
	t, err := transparency.NewTree(w.Config, s, nil)
	if err != nil {
		return nil
	}
	return t
}

func (w *World) lie(rt *rapid.T, c *Case, s *TxStore, label []byte, past []Heads) {
	index := w.IndexOf(label)
	other := Pick(rt, w.Pool, "other label")
	putIndex := func(x []uint64) {
		c.Logf("lie: index %v instead of %v", x, index)
		for i := 1; i < len(x); i++ {
			if x[i] < x[i-1] {
				x[i] = x[i-1]
			}
		}
		s.Edit("i"+string(label), func([]byte) []byte { return EncodeIndex(x) })
	}
	switch Flat(rt, 11, "lie") {
	case 0, 1: // hide the newest versions
		if len(index) > 0 {
			putIndex(index[:Flat(rt, len(index), "keep")])
		}
	case 2: // a phantom version
		putIndex(append(append([]uint64{}, index...), U64(rt, 0, w.N()-1, "at")))
	case 3: // a version moved
		if len(index) > 0 {
			x := append([]uint64{}, index...)
			x[Flat(rt, len(x), "ver")] = U64(rt, 0, w.N()-1, "to")
			putIndex(x)
		}
	case 4: // a version skipped
		if len(index) > 0 {
			i := Flat(rt, len(index), "ver")
			putIndex(append(append([]uint64{}, index[:i]...), index[i+1:]...))
		}
	case 5: // the value of another version, or of another label
		if len(index) > 0 {
			v := uint32(Flat(rt, len(index), "ver"))
			src := label
			if Bool(rt, "other's") {
				src = other
			}
			n := len(w.Labels[string(src)])
			if n == 0 {
				return
			}
			u := uint32(Flat(rt, n, "from"))
			c.Logf("lie: value of %d is that of %s %d", v, short(src), u)
			data := s.core.data[verKey(src, u)]
			s.Edit(verKey(label, v), func([]byte) []byte { return Dup(data) })
		}
	case 6: // another value or opening
		if len(index) > 0 {
			v := uint32(Flat(rt, len(index), "ver"))
			c.Logf("lie: value of %d", v)
			s.Edit(verKey(label, v), func(b []byte) []byte { return MangleBytes(rt, b) })
		}
	case 7: // another timestamp or prefix tree in a log entry
		x := U64(rt, 0, w.N()-1, "entry")
		c.Logf("lie: entry %d", x)
		s.Edit(fmt.Sprintf("t%d", x), func(b []byte) []byte {
			if len(b) < 8 {
				return b
			}
			if Bool(rt, "prefix tree") {
				copy(b[8:], w.Entries[U64(rt, 0, w.N()-1, "from")].Prefix.Root())
			} else {
				ts := binary.BigEndian.Uint64(b)
				binary.BigEndian.PutUint64(b, ts+uint64(Pick(rt, []int64{1, -1, 1000, -1000, 1 << 40, -(1 << 40)}, "by")))
			}
			return b
		})
	case 8: // an older tree head
		if len(past) > 0 {
			h := Pick(rt, past, "old head")
			c.Logf("lie: old head")
			s.Edit("head", func([]byte) []byte { return h.Head })
			if h.Auditor != nil {
				s.Edit("auditor", func([]byte) []byte { return h.Auditor })
			}
		}
	case 9: // a damaged node of the log tree
		if k := s.Keys("l"); len(k) > 0 {
			c.Logf("lie: log node")
			s.Edit(Pick(rt, k, "node"), func(b []byte) []byte { return flipOne(rt, b) })
		}
	default: // another leaf in the prefix trees (not other references: they could form a circle)
		leaves := w.Entries[w.N()-1].Prefix
		if len(leaves) == 0 {
			return
		}
		names := make([]string, 0, len(leaves))
		for vrf := range leaves {
			names = append(names, vrf)
		}
		sort.Strings(names)
		target := []byte(Pick(rt, names, "leaf"))
		if Bool(rt, "commitment") {
			target = leaves[string(target)]
		}
		bad := flipOne(rt, Dup(target))
		c.Logf("lie: prefix leaf")
		for _, k := range s.Keys("p") {
			s.Edit(k, func(b []byte) []byte { return bytes.ReplaceAll(b, target, bad) })
		}
	}
}

func flipOne(rt *rapid.T, b []byte) []byte {
	if len(b) > 0 {
		b[Flat(rt, len(b), "byte")] ^= 1 << uint(Flat(rt, 8, "bit"))
	}
	return b
}

// Try asks a server that may fail in any way; nil if there is no answer.
func (p *Pending) Try(rt *rapid.T, w *World, t *transparency.Tree) (res structs.Marshaller) {
	defer func() {
		if r := recover(); r != nil {
			if !isRuntimePanic(r) {
				panic(r)
			}
			res = nil
		}
	}()
	var err error
	switch {
	case p.Search != nil:
		var r *structs.SearchResponse
		if r, err = t.Search(nil, DeepCopy(p.Search)); err == nil {
			res = r
		}
	case p.Init != nil:
		var r *structs.OwnerInitResponse
		if r, err = t.OwnerInit(nil, DeepCopy(p.Init)); err == nil {
			res = r
		}
	case p.Update != nil:
		// Only what the server says about versions that exist already.
		var ch <-chan wire.UpdateResponse
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		req := DeepCopy(p.Update)
		req.Values = nil
		if ch, err = t.Update(ctx, req); err == nil {
			r := <-ch
			if err = r.Err; err == nil && r.Out != nil {
				res = r.Out
			}
		}
	default:
		switch m := p.Mon.(type) {
		case *structs.ContactMonitorRequest:
			var r *structs.ContactMonitorResponse
			if r, err = t.ContactMonitor(nil, DeepCopy(m)); err == nil {
				res = r
			}
		case *structs.OwnerMonitorRequest:
			var r *structs.OwnerMonitorResponse
			if r, err = t.OwnerMonitor(nil, DeepCopy(m)); err == nil {
				res = r
			}
		}
	}
	if err != nil || res == nil {
		return nil
	}
	return p.Recode(rt, w, res)
}

// EvilEntry appends a log entry that adds and removes arbitrary entries of the
// prefix tree, at an arbitrary time, and publishes a head for it. The model's
// labels are left alone.
//
// It returns what an auditor would be told.
func (w *World) EvilEntry(rt *rapid.T, ts uint64, add []prefix.Entry, remove [][]byte) *structs.AuditorUpdate {
	n := w.N()
	root, proof, commitments, err := prefix.NewTree(w.Config.Suite, w.Tx.PrefixStore()).Mutate(n, add, remove)
	if err != nil {
		rt.Fatalf("harness: evil prefix mutation: %v", err)
	}
	model := PrefixModel{}
	if n > 0 {
		model = w.Entries[n-1].Prefix.Clone()
	}
	for _, r := range remove {
		delete(model, string(r))
	}
	for _, a := range add {
		model[string(a.VrfOutput)] = a.Commitment
	}
	if string(model.Root()) != string(root) {
		rt.Fatalf("harness: the prefix tree's root differs from the model's")
	}
	w.Entries = append(w.Entries, Entry{TS: ts, Prefix: model})
	leaf := w.Entries[n].Leaf()
	w.Log.Leaves = append(w.Log.Leaves, leaf)
	w.History = append(w.History, w.Labels)
	w.putEntry(rt, n)
	if _, err := log.NewTree(w.Config.Suite, w.Tx.LogStore()).Append(n, leaf); err != nil {
		rt.Fatalf("harness: appending: %v", err)
	}
	w.putHead(rt)
	removed := make([]prefix.Entry, len(remove))
	for i, r := range remove {
		removed[i] = prefix.Entry{VrfOutput: r, Commitment: commitments[i]}
	}
	au := &structs.AuditorUpdate{Timestamp: ts, Added: add, Removed: removed, Proof: *proof}
	w.Updates = append(w.Updates, au)
	return au
}

func (w *World) putEntry(rt *rapid.T, x uint64) {
	raw, err := structs.Marshal(&structs.LogEntry{Timestamp: w.Entries[x].TS, PrefixTree: w.Entries[x].Prefix.Root()})
	if err != nil {
		rt.Fatalf("harness: %v", err)
	}
	if err := w.Tx.Put(x, raw); err != nil {
		rt.Fatalf("harness: %v", err)
	}
}

// SignHead signs the model's tree of size n.
func (w *World) SignHead(rt *rapid.T, n uint64) *structs.TreeHead {
	tbs, err := structs.Marshal(&structs.TreeHeadTBS{Config: w.Config.Public(), TreeSize: n, Root: w.Log.Root(n)})
	if err != nil {
		rt.Fatalf("harness: %v", err)
	}
	sig, err := w.Config.SignatureKey.Sign(tbs)
	if err != nil {
		rt.Fatalf("harness: %v", err)
	}
	return &structs.TreeHead{TreeSize: n, Signature: sig}
}

func (w *World) putHead(rt *rapid.T) {
	raw, err := structs.Marshal(w.SignHead(rt, w.N()))
	if err != nil {
		rt.Fatalf("harness: %v", err)
	}
	if err := w.Tx.PutTreeHead(raw); err != nil {
		rt.Fatalf("harness: %v", err)
	} else if err := w.Tx.Commit(); err != nil {
		rt.Fatalf("harness: %v", err)
	}
	w.Load(rt)
	w.KeepAudited(rt)
}

// Retime gives all entries other timestamps and builds the log anew.
func (w *World) Retime(rt *rapid.T, ts []uint64) {
	for _, k := range w.Tx.Keys("l") {
		w.Tx.Edit(k, func([]byte) []byte { return nil })
	}
	w.Log.Leaves = nil
	for i := range w.Entries {
		w.Entries[i].TS = ts[i]
		leaf := w.Entries[i].Leaf()
		w.Log.Leaves = append(w.Log.Leaves, leaf)
		w.putEntry(rt, uint64(i))
		if _, err := log.NewTree(w.Config.Suite, w.Tx.LogStore()).Append(uint64(i), leaf); err != nil {
			rt.Fatalf("harness: appending: %v", err)
		}
		if err := w.Tx.Commit(); err != nil {
			rt.Fatalf("harness: %v", err)
		}
	}
	w.Log = NewLogModelOf(w.Log.Leaves)
	w.putHead(rt)
}

// Resign publishes heads for the log as it is, after a change of configuration.
func (w *World) Resign(rt *rapid.T) { w.putHead(rt) }

// Rewrite is the same history, entry by entry, but with another value for one
// version of a label, from some entry on: what a version's entry in the prefix
// tree shows is another commitment (a false one everywhere, or only for a
// while), or it is missing. The log has its own, properly signed heads.
func (w *World) Rewrite(rt *rapid.T, c *Case, label []byte) *World {
	vs := w.Labels[string(label)]
	if len(vs) == 0 || w.N() == 0 {
		return nil
	}
	v := Flat(rt, len(vs), "rewritten version")
	real := vs[v]
	from := real.Pos
	if Bool(rt, "later") {
		from = U64(rt, real.Pos, w.N()-1, "from")
	}
	to := w.N()
	if Prob(rt, 30, "for a while") {
		to = U64(rt, from, w.N(), "to")
	}
	drop := Prob(rt, 40, "dropped")
	val := append(Dup(real.Value), 'x')
	sig := w.Sign(rt, label, uint32(v), val)
	opening := H32('R', uint64(v))[:w.Config.Suite.CommitmentOpeningSize()]
	m := hmac.New(sha256.New, w.Config.Suite.CommitmentFixedBytes())
	m.Write(opening)
	m.Write(CommitmentBody(label, uint32(v), val, sig, w.Config.Mode == structs.ThirdPartyManagement))
	com := m.Sum(nil)
	if drop {
		com = nil
	}
	c.Logf("rewrite %s version %d at %d..%d (dropped: %v)", short(label), v, from, to, drop)

	out := *w
	out.Tx = NewTxStore()
	out.Store = out.Tx
	out.Entries, out.Updates, out.History = nil, nil, nil
	out.Log = NewLogModel(0, nil)
	last := PrefixModel{}
	for i, e := range w.Entries {
		model := e.Prefix.Clone()
		if x := uint64(i); x >= from && x < to {
			if _, ok := model[string(real.Vrf)]; ok && drop {
				delete(model, string(real.Vrf))
			} else if ok {
				model[string(real.Vrf)] = com
			}
		}
		var add []prefix.Entry
		var remove [][]byte
		for _, k := range last.Keys() {
			if now, ok := model[k]; !ok || string(now) != string(last[k]) {
				remove = append(remove, []byte(k))
			}
		}
		for _, k := range model.Keys() {
			if was, ok := last[k]; !ok || string(was) != string(model[k]) {
				add = append(add, prefix.Entry{VrfOutput: []byte(k), Commitment: model[k]})
			}
		}
		out.EvilEntry(rt, e.TS, add, remove)
		last = model
	}
	for _, k := range append(w.Tx.Keys("i"), w.Tx.Keys("v")...) {
		raw := w.Tx.core.data[k]
		out.Tx.Edit(k, func([]byte) []byte { return Dup(raw) })
	}
	if !drop {
		raw, err := structs.Marshal(&structs.OpeningAndValue{Opening: opening, Value: structs.UpdateValue{Value: val, UpdateSuffix: structs.UpdateSuffix{Signature: sig}}})
		if err != nil {
			rt.Fatalf("harness: %v", err)
		}
		out.Tx.Edit(verKey(label, uint32(v)), func([]byte) []byte { return raw })
	} else {
		out.Tx.Edit("i"+string(label), func([]byte) []byte { return EncodeIndex(w.IndexOf(label)[:v]) })
	}
	out.Load(rt)
	return &out
}

// Impostor shows a rewritten log as if it were the real one: its tree head, and
// most of its log tree, are the real log's.
func (w *World) Impostor(rt *rapid.T, c *Case, label []byte) *transparency.Tree {
	f := w.Rewrite(rt, c, label)
	if f == nil {
		return nil
	}
	s := f.Tx.Snapshot()
	keys := []string{"head", "auditor"}
	switch Flat(rt, 4, "log tree") {
	case 0: // its own
	case 1:
		for _, k := range w.Tx.Keys("l") {
			if Bool(rt, "real node") {
				keys = append(keys, k)
			}
		}
	default:
		keys = append(keys, w.Tx.Keys("l")...)
	}
	for _, k := range keys {
		if raw, ok := w.Tx.core.data[k]; ok {
			s.Edit(k, func([]byte) []byte { return Dup(raw) })
		}
	}
	if Prob(rt, 30, "real timestamps and trees") {
		for x := range w.Entries {
			k := fmt.Sprintf("t%d", x)
			if Bool(rt, "real entry") {
				s.Edit(k, func([]byte) []byte { return Dup(w.Tx.core.data[k]) })
			}
		}
	}
	t, err := transparency.NewTree(w.Config, s, nil)
	if err != nil {
		return nil
	}
	return t
}
