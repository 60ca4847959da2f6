package props

import (
	"bytes"
	"context"
	"testing"
	"testing/synctest"

	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/managed"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/tree/transparency/wire"
	"pgregory.net/rapid"

	. "verif/kit"
)

func TestP27(t *testing.T) {
	Run(t, "at least 5 requests which no honest client would send just so were sent to the server",
		Sub{Name: "requests", Quick: 8000, Thorough: 250000, Bubble: true, Prop: propRequests},
	)
}

// recodeRequest sends a request over the wire; nil if it has no encoding.
func recodeRequest(rt *rapid.T, cfg *structs.PublicConfig, req structs.Marshaller, mangle bool) (out structs.Marshaller) {
	raw := []byte(Encoding(req))
	if mangle {
		raw = MangleBytes(rt, raw)
	}
	buf := bytes.NewBuffer(raw)
	got := func(m structs.Marshaller, err error) {
		if err == nil {
			out = m
		}
	}
	NoPanic(rt, "decoding a request", func() {
		switch req.(type) {
		case *structs.SearchRequest:
			m, err := structs.NewSearchRequest(buf)
			got(m, err)
		case *structs.ContactMonitorRequest:
			m, err := structs.NewContactMonitorRequest(buf)
			got(m, err)
		case *structs.OwnerInitRequest:
			m, err := structs.NewOwnerInitRequest(buf)
			got(m, err)
		case *structs.OwnerMonitorRequest:
			m, err := structs.NewOwnerMonitorRequest(buf)
			got(m, err)
		case *structs.UpdateRequest:
			m, err := structs.NewUpdateRequest(buf)
			got(m, err)
		case *structs.ManagerUpdateRequest:
			m, err := structs.NewManagerUpdateRequest(cfg, buf)
			got(m, err)
		}
	})
	if buf.Len() != 0 {
		return nil
	}
	return out
}

// drawRequest draws a request of any kind, from what the log and its users make
// likely to get somewhere.
func drawRequest(rt *rapid.T, s *ownScene) structs.Marshaller {
	w := s.w
	n := w.N()
	pos := func() uint64 {
		switch Flat(rt, 6, "position") {
		case 0:
			return Pick(rt, []uint64{0, n, n + 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 2, 1<<64 - 1, 1 << 62, n - 1, 2 * n}, "odd position")
		default:
			return U64(rt, 0, n, "position")
		}
	}
	label := Dup(Pick(rt, w.Pool, "label"))
	vs := w.Labels[string(label)]
	ver := func() uint32 {
		switch Flat(rt, 6, "version") {
		case 0:
			return Pick(rt, []uint32{1<<31 - 1, 1 << 31, 1<<32 - 1, 1<<32 - 2, uint32(len(vs)), uint32(len(vs) + 1)}, "odd version")
		default:
			return uint32(Int(rt, 0, len(vs), "version"))
		}
	}
	opt := func(x uint64) *uint64 {
		if Bool(rt, "absent") {
			return nil
		}
		return &x
	}
	optV := func(x uint32) *uint32 {
		if Bool(rt, "absent") {
			return nil
		}
		return &x
	}
	entries := func() []structs.MonitorMapEntry {
		var out []structs.MonitorMapEntry
		// Entries as an honest client might have them, and others.
		v := 0
		for len(vs) > 0 && v < len(vs) && Prob(rt, 70, "more") {
			x := vs[v].Pos
			if p := RightPath(x, n); len(p) > 0 && Bool(rt, "moved") {
				x = Pick(rt, p, "at")
			}
			if len(out) == 0 || x > out[len(out)-1].Position {
				out = append(out, structs.MonitorMapEntry{Position: x, Version: uint32(v)})
			}
			v += 1 + Flat(rt, 3, "skip")
		}
		if Prob(rt, 30, "odd") {
			out = append(out, structs.MonitorMapEntry{Position: pos(), Version: ver()})
		}
		return out
	}
	last := opt(pos())
	switch Flat(rt, 7, "request") {
	case 0:
		return &structs.SearchRequest{Last: last, Label: label, Version: optV(ver())}
	case 1:
		return &structs.ContactMonitorRequest{Last: last, Label: label, Entries: entries()}
	case 2:
		start := pos()
		if dles := SortedKeys(w.DLEs()); len(dles) > 0 && Bool(rt, "distinguished") {
			start = Pick(rt, dles, "start")
		}
		return &structs.OwnerInitRequest{Last: last, Label: label, Start: start}
	case 3:
		start := pos()
		if dles := SortedKeys(w.DLEs()); len(dles) > 0 && Bool(rt, "distinguished") {
			start = Pick(rt, dles, "start")
		}
		return &structs.OwnerMonitorRequest{Last: last, Label: label, Entries: entries(), Start: start, GreatestVersion: optV(ver())}
	case 4, 5:
		r := &structs.UpdateRequest{Last: last, Label: label, GreatestVersion: optV(ver())}
		for i := Int(rt, 0, 3, "values"); i > 0; i-- {
			r.Values = append(r.Values, structs.LabelValue{Value: DrawValue(rt)})
		}
		return r
	default:
		r := &structs.ManagerUpdateRequest{Last: last, Label: label, GreatestVersion: optV(ver()), SignedVersion: ver()}
		for i := Int(rt, 0, 3, "values"); i > 0; i-- {
			v := DrawValue(rt)
			r.Values = append(r.Values, structs.UpdateValue{Value: v, UpdateSuffix: structs.UpdateSuffix{Signature: w.Sign(rt, label, r.SignedVersion+uint32(len(r.Values)), v)}})
		}
		return r
	}
}

func propRequests(rt *rapid.T, c *Case) {
	o := Opts{Real: 4, Stores: []string{"tx"}}
	var s *ownScene
	if Prob(rt, 12, "tiny log") {
		// No entry at all, or no auditor tree head yet.
		w := NewWorld(rt, c, o)
		s = &ownScene{w: w, users: drawUsers(rt, w, 2), owner: map[string]*User{}}
		if Bool(rt, "an entry") {
			if _, err := w.Mutate(rt, c, Batch{Add: w.DrawAdds(rt, 3, nil)}); err != nil {
				rt.Fatalf("a mutation of only additions failed: %v", err)
			}
		}
	} else {
		s = drawOwners(rt, c, o)
		for i := Flat(rt, 14, "steps"); i > 0; i-- {
			s.step(rt, c)
		}
	}
	w := s.w
	cfg := w.Config.Public()
	odd := 0
	var donors []any
	for i := 6 + Flat(rt, 10, "requests"); i > 0; i-- {
		req := drawRequest(rt, s)
		if Prob(rt, 25, "of a client") {
			// What a client would send now, changed.
			u := Pick(rt, s.users, "user")
			l := Pick(rt, w.Pool, "label")
			var p *Pending
			switch Flat(rt, 4, "kind") {
			case 0:
				p = u.StartSearch(rt, l, pickVersion(rt, len(w.Labels[string(l)])))
				req = p.Search
			case 1:
				if p = u.StartInit(rt, l); p != nil {
					req = p.Init
				}
			case 2:
				if p = u.StartMonitor(rt); p != nil {
					req = p.Mon
				}
			default:
				if p = u.StartUpdate(rt, l, DrawValues(rt, 2)); p != nil {
					req = p.Update
				}
			}
		}
		honest := Encoding(req)
		donors = append(donors, req)
		req = DeepCopy(req)
		for m := Pick(rt, []int{0, 0, 1, 2, 4}, "changes"); m > 0; m-- {
			Mangle(rt, req, donors)
		}
		if req = recodeRequest(rt, cfg, req, Prob(rt, 12, "bytes")); req == nil {
			continue
		}
		if Encoding(req) != honest {
			c.Class("changed")
		}
		odd++
		s.serve(rt, c, req)
	}
	w.CheckHead(rt)
	// Everybody else is served as before.
	for _, l := range w.Pool {
		if w.N() > 0 && len(w.Labels[string(l)]) > 0 && !w.Gone[string(l)] {
			w.KeepAudited(rt)
			searchOnce(rt, c, w, Pick(rt, s.users, "user"), l, nil)
			searchOnce(rt, c, w, w.NewUser(rt, "N"), l, nil)
		}
	}
	if odd >= 5 {
		c.NonTrivial()
	}
}

// serve hands one request to the server, which must answer or refuse.
func (s *ownScene) serve(rt *rapid.T, c *Case, req structs.Marshaller) {
	w := s.w
	cfg := w.Config.Public()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	updates := make(chan transparency.UpdateRequest)
	with := updates
	if Prob(rt, 10, "read-only server") {
		with = nil
	}
	tree, err := transparency.NewTree(w.Config, w.Store.Clone(), with)
	if err != nil {
		rt.Fatalf("loading the tree failed: %v", err)
	}
	var server wire.Interface = tree
	if w.Config.Mode == structs.ThirdPartyManagement {
		if server, err = managed.NewManagedLog(cfg, tree, Counter{W: w}, w.Operator); err != nil {
			rt.Fatalf("making the managed log failed: %v", err)
		}
	}
	before, size := w.Tx.Dump(), w.N()
	var res structs.Marshaller
	var ch <-chan wire.UpdateResponse
	what := ""
	switch req := req.(type) {
	case *structs.SearchRequest:
		what = "search"
		NoPanic(rt, "Search", func() {
			if r, e := server.Search(ctx, req); e != nil {
				err = e
			} else {
				res = r
			}
		})
		if err == nil {
			checkEncodes(rt, what, res, func(b *bytes.Buffer) (structs.Marshaller, error) { return structs.NewSearchResponse(cfg, req, b) })
		}
	case *structs.ContactMonitorRequest:
		what = "contact"
		NoPanic(rt, "ContactMonitor", func() {
			if r, e := server.ContactMonitor(ctx, req); e != nil {
				err = e
			} else {
				res = r
			}
		})
		if err == nil {
			checkEncodes(rt, what, res, func(b *bytes.Buffer) (structs.Marshaller, error) { return structs.NewContactMonitorResponse(cfg, b) })
		}
	case *structs.OwnerInitRequest:
		what = "init"
		NoPanic(rt, "OwnerInit", func() {
			if r, e := server.OwnerInit(ctx, req); e != nil {
				err = e
			} else {
				res = r
			}
		})
		if err == nil {
			checkEncodes(rt, what, res, func(b *bytes.Buffer) (structs.Marshaller, error) { return structs.NewOwnerInitResponse(cfg, b) })
		}
	case *structs.OwnerMonitorRequest:
		what = "owner"
		NoPanic(rt, "OwnerMonitor", func() {
			if r, e := server.OwnerMonitor(ctx, req); e != nil {
				err = e
			} else {
				res = r
			}
		})
		if err == nil {
			checkEncodes(rt, what, res, func(b *bytes.Buffer) (structs.Marshaller, error) { return structs.NewOwnerMonitorResponse(cfg, b) })
		}
	case *structs.UpdateRequest:
		what = "update"
		NoPanic(rt, "Update", func() { ch, err = server.Update(ctx, req) })
	case *structs.ManagerUpdateRequest:
		what = "manager update"
		NoPanic(rt, "ManagerUpdate", func() { ch, err = tree.ManagerUpdate(ctx, req) })
	}
	if ch != nil && err == nil {
		err = s.stream(rt, c, ch, updates)
	}
	// Whatever the server was doing, it stops.
	cancel()
	if ch != nil {
		synctest.Wait()
		select {
		case _, ok := <-ch:
			if ok {
				rt.Fatalf("the server goes on with an update after its client went away")
			}
		default:
			rt.Fatalf("the server is still busy with an update whose client went away")
		}
	}
	if err != nil {
		c.Class(what + " refused")
	} else {
		c.Class(what + " answered")
	}
	c.Logf("%s: %v", what, err)
	if w.N() == size && w.Tx.Dump() != before {
		rt.Fatalf("a request (%s) changed what is stored", what)
	}
}

// stream reads the responses to an update, and sequences it.
func (s *ownScene) stream(rt *rapid.T, c *Case, ch <-chan wire.UpdateResponse, updates chan transparency.UpdateRequest) (err error) {
	w := s.w
	cfg := w.Config.Public()
	plan := Pick(rt, []string{"apply", "apply", "refuse", "go away", "gone"}, "sequencer")
	if plan == "gone" { // the client, while nobody sequences
		for i := Int(rt, 0, 2, "responses taken"); i > 0; i-- {
			synctest.Wait()
			select {
			case r, ok := <-ch:
				if !ok || r.Err != nil {
					return r.Err
				}
			default:
			}
		}
		synctest.Wait()
		return nil
	}
	for {
		select {
		case ur := <-updates:
			natural := uint32(len(w.Labels[string(ur.Label)]))
			if len(ur.Values) == 0 {
				rt.Fatalf("the sequencer is asked to add no versions")
			}
			switch {
			case plan == "go away":
				return nil
			case plan == "refuse" || ur.StartingVersion != nil && *ur.StartingVersion != natural || w.Gone[string(ur.Label)]:
				close(ur.Response)
				continue
			}
			var b Batch
			for i, v := range ur.Values {
				if w.Config.Mode == structs.ThirdPartyManagement && !bytes.Equal(v.Signature, w.Sign(rt, ur.Label, natural+uint32(i), v.Value)) && !w.Real {
					rt.Fatalf("the sequencer is asked to add a version of %q that the operator did not sign", ur.Label)
				}
				b.Add = append(b.Add, transparency.LabelValue{Label: ur.Label, Value: v})
			}
			if _, err := w.Mutate(rt, c, b); err != nil {
				rt.Fatalf("a mutation of only additions failed: %v", err)
			}
			if owner := s.owner[string(ur.Label)]; owner != nil {
				delete(s.owner, string(ur.Label)) // somebody else's
			}
			w.KeepAudited(rt)
			c.Class("sequenced")
			ur.Response <- w.N() - 1
		case r, ok := <-ch:
			if !ok {
				return err
			} else if r.Err != nil {
				err = r.Err
				continue
			} else if r.Out == nil {
				rt.Fatalf("a stream element with neither response nor error")
			}
			checkEncodes(rt, "update", r.Out, func(b *bytes.Buffer) (structs.Marshaller, error) { return structs.NewUpdateResponse(cfg, b) })
		}
	}
}

// checkEncodes says that a response can be sent.
func checkEncodes(rt *rapid.T, what string, res structs.Marshaller, decode func(*bytes.Buffer) (structs.Marshaller, error)) {
	raw, err := structs.Marshal(res)
	if err != nil {
		rt.Fatalf("the response to a request (%s) can not be encoded: %v", what, err)
	}
	buf := bytes.NewBuffer(Dup(raw))
	again, err := decode(buf)
	if err != nil || buf.Len() != 0 {
		rt.Fatalf("the response to a request (%s) can not be decoded: %v, %d bytes left", what, err, buf.Len())
	}
	if Encoding(again) != string(raw) {
		rt.Fatalf("the response to a request (%s) changes when decoded and encoded again", what)
	}
}
