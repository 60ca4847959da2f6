package kit

import (
	"bytes"
	"context"
	"fmt"

	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/tree/transparency/wire"
	"pgregory.net/rapid"
)

// User is one client of a world.
type User struct {
	DB     *ClientDB
	C      *transparency.Client
	Config *structs.PublicConfig
	Name   string
	Err    error // of the last request
	// MayFail allows that no search can be started.
	MayFail bool
	// OnVerify (maybe nil) is told of each response before it is verified.
	OnVerify func(p *Pending, res structs.Marshaller)
}

// NewUser makes a client without any state.
func (w *World) NewUser(rt *rapid.T, name string) *User {
	u := &User{DB: NewClientDB(), Config: w.Config.Public(), Name: name}
	u.Restart(rt)
	return u
}

// Restart loads the client anew from what it has stored.
func (u *User) Restart(rt *rapid.T) {
	c, err := transparency.NewClient(u.Config, u.DB)
	if err != nil {
		rt.Fatalf("making a client failed: %v", err)
	}
	u.C = c
}

// Clone is an independent client with the same stored state.
func (u *User) Clone(rt *rapid.T) *User {
	out := &User{DB: u.DB.Clone(), Config: u.Config, Name: u.Name + "'"}
	out.Restart(rt)
	return out
}

// State decodes the stored state (nil if there is none).
func (u *User) State(rt *rapid.T) *structs.ClientState {
	if u.DB.State == nil {
		return nil
	}
	buf := bytes.NewBuffer(Dup(u.DB.State))
	st, err := structs.NewClientState(u.Config, buf)
	if err != nil || buf.Len() != 0 {
		rt.Fatalf("the stored client state does not decode: %v (%d bytes left)", err, buf.Len())
	}
	return st
}

// Label decodes the stored state of a label (nil if there is none).
func (u *User) Label(rt *rapid.T, label []byte) *structs.ClientLabelState {
	l, ok := u.DB.Labels[string(label)]
	if !ok {
		return nil
	}
	buf := bytes.NewBuffer(Dup(l.Raw))
	st, err := structs.NewClientLabelState(u.Config.Suite, buf)
	if err != nil || buf.Len() != 0 {
		rt.Fatalf("the stored label state does not decode: %v (%d bytes left)", err, buf.Len())
	}
	return st
}

func encode(rt *rapid.T, x structs.Marshaller) *bytes.Buffer {
	raw, err := structs.Marshal(x)
	if err != nil {
		rt.Fatalf("encoding %T failed: %v", x, err)
	}
	return bytes.NewBuffer(raw)
}

func decoded[T any](rt *rapid.T, buf *bytes.Buffer, x *T, err error) *T {
	if err != nil {
		rt.Fatalf("decoding a %T that was just encoded failed: %v", x, err)
	}
	if buf.Len() != 0 {
		rt.Fatalf("decoding a %T leaves %d bytes", x, buf.Len())
	}
	return x
}

// The functions below send a request to a server and its answer back, encoded.

func (w *World) AskSearch(rt *rapid.T, t wire.Interface, req *structs.SearchRequest) (*structs.SearchResponse, error) {
	buf := encode(rt, req)
	got, err := structs.NewSearchRequest(buf)
	req2 := decoded(rt, buf, got, err)
	var res *structs.SearchResponse
	NoPanic(rt, "Search", func() { res, err = t.Search(context.Background(), req2) })
	if err != nil {
		return nil, err
	}
	buf = encode(rt, res)
	out, err := structs.NewSearchResponse(w.Config.Public(), req, buf)
	return decoded(rt, buf, out, err), nil
}

func (w *World) AskContactMonitor(rt *rapid.T, t wire.Interface, req *structs.ContactMonitorRequest) (*structs.ContactMonitorResponse, error) {
	buf := encode(rt, req)
	got, err := structs.NewContactMonitorRequest(buf)
	req2 := decoded(rt, buf, got, err)
	var res *structs.ContactMonitorResponse
	NoPanic(rt, "ContactMonitor", func() { res, err = t.ContactMonitor(context.Background(), req2) })
	if err != nil {
		return nil, err
	}
	buf = encode(rt, res)
	out, err := structs.NewContactMonitorResponse(w.Config.Public(), buf)
	return decoded(rt, buf, out, err), nil
}

func (w *World) AskOwnerInit(rt *rapid.T, t wire.Interface, req *structs.OwnerInitRequest) (*structs.OwnerInitResponse, error) {
	buf := encode(rt, req)
	got, err := structs.NewOwnerInitRequest(buf)
	req2 := decoded(rt, buf, got, err)
	var res *structs.OwnerInitResponse
	NoPanic(rt, "OwnerInit", func() { res, err = t.OwnerInit(context.Background(), req2) })
	if err != nil {
		return nil, err
	}
	buf = encode(rt, res)
	out, err := structs.NewOwnerInitResponse(w.Config.Public(), buf)
	return decoded(rt, buf, out, err), nil
}

func (w *World) AskOwnerMonitor(rt *rapid.T, t wire.Interface, req *structs.OwnerMonitorRequest) (*structs.OwnerMonitorResponse, error) {
	buf := encode(rt, req)
	got, err := structs.NewOwnerMonitorRequest(buf)
	req2 := decoded(rt, buf, got, err)
	var res *structs.OwnerMonitorResponse
	NoPanic(rt, "OwnerMonitor", func() { res, err = t.OwnerMonitor(context.Background(), req2) })
	if err != nil {
		return nil, err
	}
	buf = encode(rt, res)
	out, err := structs.NewOwnerMonitorResponse(w.Config.Public(), buf)
	return decoded(rt, buf, out, err), nil
}

// AskMonitor answers whichever request Monitor returned.
func (w *World) AskMonitor(rt *rapid.T, t wire.Interface, req structs.Marshaller) (structs.Marshaller, error) {
	switch req := req.(type) {
	case *structs.ContactMonitorRequest:
		res, err := w.AskContactMonitor(rt, t, req)
		if err != nil {
			return nil, err
		}
		return res, nil
	case *structs.OwnerMonitorRequest:
		res, err := w.AskOwnerMonitor(rt, t, req)
		if err != nil {
			return nil, err
		}
		return res, nil
	}
	rt.Fatalf("Monitor returned a request of type %T", req)
	return nil, nil
}

// RecodeUpdate sends an update response over the wire.
func (w *World) RecodeUpdate(rt *rapid.T, res *structs.UpdateResponse) *structs.UpdateResponse {
	buf := encode(rt, res)
	out, err := structs.NewUpdateResponse(w.Config.Public(), buf)
	return decoded(rt, buf, out, err)
}

// RecodeUpdateRequest sends an update request over the wire.
func RecodeUpdateRequest(rt *rapid.T, req *structs.UpdateRequest) *structs.UpdateRequest {
	buf := encode(rt, req)
	out, err := structs.NewUpdateRequest(buf)
	return decoded(rt, buf, out, err)
}

// NextUpdate reads one element of an update stream.
func NextUpdate(ch <-chan wire.UpdateResponse) (wire.UpdateResponse, bool) {
	r, ok := <-ch
	return r, ok
}

// PublishAuditorHead makes the (honest) auditor sign the log's head as of size
// n and hands it to the server, which is loaded anew.
func (w *World) PublishAuditorHead(rt *rapid.T, n uint64) *structs.AuditorTreeHead {
	h := w.SignAuditorHead(rt, w.Auditor, n, w.Entries[n-1].TS, w.Log.Root(n))
	raw, err := structs.Marshal(h)
	if err != nil {
		rt.Fatalf("harness: %v", err)
	}
	if err := w.Store.PutAuditorTreeHead(raw); err != nil {
		rt.Fatalf("storing an auditor tree head failed: %v", err)
	} else if err := w.Store.Commit(); err != nil {
		rt.Fatalf("committing an auditor tree head failed: %v", err)
	}
	w.Load(rt)
	return h
}

func (w *World) SignAuditorHead(rt *rapid.T, key interface{ Sign([]byte) ([]byte, error) }, n, ts uint64, root []byte) *structs.AuditorTreeHead {
	tbs, err := structs.Marshal(&structs.AuditorTreeHeadTBS{Config: w.Config.Public(), Timestamp: ts, TreeSize: n, Root: root})
	if err != nil {
		rt.Fatalf("harness: %v", err)
	}
	sig, err := key.Sign(tbs)
	if err != nil {
		rt.Fatalf("harness: %v", err)
	}
	return &structs.AuditorTreeHead{Timestamp: ts, TreeSize: n, Signature: sig}
}

// KeepAudited publishes a head of the newest size where the mode needs one.
func (w *World) KeepAudited(rt *rapid.T) {
	if w.Config.Mode == structs.ThirdPartyAuditing && w.N() > 0 {
		w.PublishAuditorHead(rt, w.N())
	}
}

// Grow makes one mutation of only additions and must succeed.
func (w *World) Grow(rt *rapid.T, c *Case, max int) {
	w.Tick(rt, c)
	if _, err := w.Mutate(rt, c, Batch{Add: w.DrawAdds(rt, max, nil)}); err != nil {
		rt.Fatalf("a mutation of only additions failed: %v", err)
	}
	w.KeepAudited(rt)
}

// Stretch makes the log long in a few of the cases.
func (w *World) Stretch(rt *rapid.T, c *Case) {
	if !Prob(rt, 3, "long log") {
		return
	}
	n := 15 + Flat(rt, 100, "entries")
	win := w.Config.ReasonableMonitoringWindow
	gap := min(Pick(rt, []uint64{0, 1, win / 40, win / 10, win / 3, win}, "gap"), 10*365*86400000/uint64(n))
	for i := 0; i < n; i++ {
		w.Sleep(c, gap*uint64(Flat(rt, 3, "gaps")))
		b := Batch{}
		if Prob(rt, 20, "adds") {
			b.Add = w.DrawAdds(rt, 3, nil)
		}
		if _, err := w.Mutate(rt, c, b); err != nil {
			rt.Fatalf("a mutation of only additions failed: %v", err)
		}
	}
	w.KeepAudited(rt)
	c.Class("long log")
}

// MustAccept fails the case unless err is nil.
func MustAccept(rt *rapid.T, what string, err error) {
	if err != nil {
		rt.Fatalf("%s: an honest response is rejected: %v", what, err)
	}
}

// CheckUser compares a client's stored state with the log it must be based on.
func (w *World) CheckUser(rt *rapid.T, u *User) {
	st := u.State(rt)
	if st == nil {
		return
	}
	n := st.TreeHead.TreeSize
	if n == 0 || n > w.N() {
		rt.Fatalf("%s retains a tree head of size %d, the log has %d entries", u.Name, n, w.N())
	}
	if !Equal2(st.FullSubtrees, w.Log.FullSubtrees(n)) {
		rt.Fatalf("%s retains full subtrees that are not the log's at size %d", u.Name, n)
	}
	for pos, e := range st.LogEntries {
		if pos >= n || e.Timestamp != w.Entries[pos].TS || !bytes.Equal(e.PrefixTree, w.Entries[pos].Prefix.Root()) {
			rt.Fatalf("%s retains a false log entry %d", u.Name, pos)
		}
	}
	for x := n - 1; ; {
		if _, ok := st.LogEntries[x]; !ok {
			rt.Fatalf("%s does not retain entry %d, which is on the frontier of size %d", u.Name, x, n)
		}
		// The frontier: drop the lowest set bit of x+1.
		if y := (x + 1) & x; y == 0 {
			break
		} else {
			x = y - 1
		}
	}
	tbs, err := structs.Marshal(&structs.TreeHeadTBS{Config: u.Config, TreeSize: n, Root: w.Log.Root(n)})
	if err != nil {
		rt.Fatalf("harness: %v", err)
	}
	if !u.Config.SignatureKey.Verify(tbs, st.TreeHead.Signature) {
		rt.Fatalf("%s retains a tree head of size %d with a false signature", u.Name, n)
	}
}

func (u *User) String() string { return fmt.Sprintf("%s(%d)", u.Name, len(u.DB.Labels)) }
