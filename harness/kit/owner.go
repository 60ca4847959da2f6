package kit

import (
	"context"
	"errors"
	"fmt"

	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/managed"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/tree/transparency/wire"
	"pgregory.net/rapid"
)

// This file is about label owners: updates through the server.

// StartUpdate makes an update request (nil if the label is not owned).
func (u *User) StartUpdate(rt *rapid.T, label []byte, values [][]byte) *Pending {
	p := &Pending{User: u, Kind: "update", Label: label}
	var sv *transparency.StreamVerifier
	var err error
	NoPanic(rt, "making an update request", func() { p.Update, sv, err = u.C.Update(Dup(label), DeepCopy(values)) })
	u.Err = err
	if err != nil {
		return nil
	}
	p.verify = func(m structs.Marshaller) error { return sv.Verify(m.(*structs.UpdateResponse)) }
	return p
}

// Counter is the operator's version counter in step with the log.
type Counter struct{ W *World }

func (k Counter) IncrementGreatestVersion(label []byte, count int) (int, error) {
	return len(k.W.Labels[string(label)]) - 1, nil
}

// ErrTooLong is for a response that can not be encoded because an update creates
// too many versions at once (a recorded finding).
var ErrTooLong = errors.New("too many versions at once")

// ServeUpdate lets a server process an update request. seq is the sequencer: it
// returns the position where the new versions were inserted, or false if it
// refuses. The responses have been over the wire. The client goes away as soon
// as stop (if not nil) says so of the responses received; it is asked at the
// start, after sequencing and after each response.
func (w *World) ServeUpdate(rt *rapid.T, stop func([]*structs.UpdateResponse) bool, req *structs.UpdateRequest, seq func(transparency.UpdateRequest) (uint64, bool)) (out []*structs.UpdateResponse, err error) {
	updates := make(chan transparency.UpdateRequest)
	store := w.Store
	if _, ok := store.(*memory.TransparencyStore); !ok { // its clones keep the tree head they started with
		store = w.Reader(w.OnRead)
	}
	tree, err := transparency.NewTree(w.Config, store, updates)
	if err != nil {
		rt.Fatalf("loading the tree failed: %v", err)
	}
	var server wire.Interface = tree
	if w.Config.Mode == structs.ThirdPartyManagement {
		server, err = managed.NewManagedLog(w.Config.Public(), tree, Counter{W: w}, w.Operator)
		if err != nil {
			rt.Fatalf("making the managed log failed: %v", err)
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	var ch <-chan wire.UpdateResponse
	req2 := RecodeUpdateRequest(rt, req)
	NoPanic(rt, "Update", func() { ch, err = server.Update(ctx, req2) })
	if err != nil {
		cancel()
		return nil, err
	}
	// Whatever happens, do not leave the server's goroutine behind.
	defer func() {
		cancel()
		for range ch {
		}
	}()
	for stop == nil || !stop(out) {
		select {
		case ur := <-updates:
			if pos, ok := seq(ur); ok {
				ur.Response <- pos
			} else {
				close(ur.Response)
			}
		case r, ok := <-ch:
			if !ok {
				return out, nil
			} else if r.Err != nil {
				return out, r.Err
			} else if r.Out == nil {
				return out, fmt.Errorf("a stream element with neither response nor error")
			}
			if len(r.Out.BinaryLadder) > 255 && len(r.Out.Info) > 230 {
				return out, ErrTooLong
			}
			out = append(out, w.RecodeUpdate(rt, r.Out))
		}
	}
	return out, context.Canceled
}

// Sequencer is an honest sequencer, which may put additions of other labels
// for which free holds into the same log entry.
func (w *World) Sequencer(rt *rapid.T, c *Case, others int, free func(label []byte) bool) func(transparency.UpdateRequest) (uint64, bool) {
	return func(ur transparency.UpdateRequest) (uint64, bool) {
		var b Batch
		for _, a := range w.DrawAdds(rt, others, nil) {
			if string(a.Label) != string(ur.Label) && (free == nil || free(a.Label)) {
				b.Add = append(b.Add, a)
			}
		}
		at := Flat(rt, len(b.Add)+1, "place")
		var mine []transparency.LabelValue
		for _, v := range ur.Values {
			mine = append(mine, transparency.LabelValue{Label: ur.Label, Value: v})
		}
		b.Add = append(b.Add[:at:at], append(mine, b.Add[at:]...)...)
		if natural := uint32(len(w.Labels[string(ur.Label)])); ur.StartingVersion != nil && *ur.StartingVersion != natural {
			rt.Fatalf("the sequencer is asked to start at version %d of %s, the next is %d", *ur.StartingVersion, short(ur.Label), natural)
		}
		if _, err := w.Mutate(rt, c, b); err != nil {
			rt.Fatalf("a mutation of only additions failed: %v", err)
		}
		w.KeepAudited(rt)
		return w.N() - 1, true
	}
}

// DrawValues draws the values of one update.
func DrawValues(rt *rapid.T, max int) [][]byte {
	out := make([][]byte, Int(rt, 1, max, "values"))
	for i := range out {
		out[i] = DrawValue(rt)
	}
	return out
}

// CheckOwner compares an owner's stored view of its versions with the log.
func (w *World) CheckOwner(rt *rapid.T, u *User, label []byte) {
	st := u.Label(rt, label)
	if st == nil || st.Owner == nil {
		return
	}
	o := st.Owner
	n := u.State(rt).TreeHead.TreeSize
	if o.Starting >= n {
		rt.Fatalf("%s starts its ownership at %d, but knows a log of size %d", u.Name, o.Starting, n)
	}
	at := len(w.History[o.Starting][string(label)])
	if o.VerAtStarting != at-1 {
		rt.Fatalf("%s believes that version %d of %s existed at entry %d, it was %d", u.Name, o.VerAtStarting, short(label), o.Starting, at-1)
	}
	vs := w.History[n-1][string(label)]
	for i, pos := range o.UpcomingVers {
		if at+i >= len(vs) || vs[at+i].Pos != pos {
			rt.Fatalf("%s believes that versions of %s after %d were added at %v, they are %s", u.Name, short(label), at-1, o.UpcomingVers, positions(vs[min(at, len(vs)):]))
		}
	}
}

func positions(vs []Ver) string {
	s := "["
	for _, v := range vs {
		s += fmt.Sprintf("%d ", v.Pos)
	}
	return s + "]"
}
