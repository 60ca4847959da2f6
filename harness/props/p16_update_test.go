package props

import (
	"errors"
	"fmt"
	"reflect"
	"testing"

	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/math"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"pgregory.net/rapid"

	. "verif/kit"
)

func TestP16(t *testing.T) {
	Run(t, "at least 2 update requests of one label were served, one of them stale, refused, abandoned or concurrent with another; or at least 5 manipulated update responses were verified",
		Sub{Name: "streams", Quick: 6000, Thorough: 200000, Bubble: true, Prop: propStreams},
		Sub{Name: "forged", Quick: 2500, Thorough: 100000, Bubble: true, Prop: propForged},
	)
}

// coOwned is a label with two devices of its owner.
type coOwned struct {
	*ownScene
	label   []byte
	devices []*User
}

// drawCoOwned sets up a label whose owner has two devices, both initialised.
func drawCoOwned(rt *rapid.T, c *Case, o Opts) *coOwned {
	s := &coOwned{ownScene: drawOwners(rt, c, o)}
	w := s.w
	s.label = Pick(rt, w.Pool, "owned label")
	s.owner[string(s.label)] = s.users[0]
	for k := 0; k < 8 && len(s.devices) < 2; k++ {
		s.grow(rt, c)
		u := w.NewUser(rt, fmt.Sprintf("D%d", len(s.devices)))
		for _, l := range w.Pool {
			if len(w.Labels[string(l)]) > 0 {
				searchOnce(rt, c, w, u, l, nil)
				break
			}
		}
		if u.State(rt) != nil && initOwner(rt, c, w, u, s.label) {
			s.devices = append(s.devices, u)
			if Bool(rt, "grow") {
				s.grow(rt, c)
			}
		}
	}
	if len(s.devices) < 2 {
		return nil
	}
	return s
}

// direct adds versions of the owned label as another client's update does.
func (s *coOwned) direct(rt *rapid.T, c *Case) {
	w := s.w
	var b Batch
	for i, val := range DrawValues(rt, 3) {
		ver := uint32(len(w.Labels[string(s.label)]) + i)
		b.Add = append(b.Add, transparency.LabelValue{Label: s.label, Value: structs.UpdateValue{
			Value: val, UpdateSuffix: structs.UpdateSuffix{Signature: w.Sign(rt, s.label, ver, val)},
		}})
	}
	if _, err := w.Mutate(rt, c, b); err != nil {
		rt.Fatalf("a mutation of only additions failed: %v", err)
	}
	w.KeepAudited(rt)
	c.Class("concurrent update")
}

func propStreams(rt *rapid.T, c *Case) {
	s := drawCoOwned(rt, c, Opts{Real: 3, Stores: []string{"tx"}})
	if s == nil {
		return
	}
	w := s.w
	served, special := 0, 0
	for i := 3 + Flat(rt, 12, "steps"); i > 0; i-- {
		u := Pick(rt, s.devices, "device")
		switch Flat(rt, 6, "step") {
		case 0:
			s.grow(rt, c)
			continue
		case 1:
			if known(rt, u, s.label) == len(w.Labels[string(s.label)]) {
				monitorAll(rt, c, w, u, Int(rt, 1, 3, "rounds"))
			}
			continue
		case 2:
			searchOnce(rt, c, w, u, s.label, nil)
			continue
		}
		var values [][]byte
		if !Prob(rt, 15, "nothing new") {
			values = DrawValues(rt, 4)
		}
		k := known(rt, u, s.label)
		if Flat(rt, 150, "many values") == 75 {
			for n := Pick(rt, []int{20, 100, 236, 255}, "many"); len(values) < n; {
				values = append(values, []byte{byte(len(values))})
			}
			c.Class("many values")
		}
		p := u.StartUpdate(rt, s.label, values)
		if p == nil {
			rt.Fatalf("%s can not make an update request for a label it owns", u.Name)
		}
		if Prob(rt, 15, "too many") {
			// The requester claims to know versions that do not exist.
			req := DeepCopy(p.Update)
			n := uint32(len(w.Labels[string(s.label)]))
			req.GreatestVersion = Ptr(n + Pick(rt, []uint32{0, 0, 0, 1, 2, uint32(len(values)), 1<<31 - 1 - n, 1<<31 - n, 1<<32 - 2 - n, 1<<32 - 1 - n}, "too many"))
			size := w.N()
			out, err := w.ServeUpdate(rt, nil, req, func(ur transparency.UpdateRequest) (uint64, bool) {
				rt.Fatalf("an update that advertises version %d of %q, which has %d versions, is sequenced", *req.GreatestVersion, s.label, n)
				return 0, false
			})
			if err == nil || len(out) > 0 || w.N() != size {
				rt.Fatalf("an update that advertises version %d of %q, which has %d versions, is answered with %d responses and %v", *req.GreatestVersion, s.label, n, len(out), err)
			}
			c.Class("advertises too much")
			special++
		}
		plan := Pick(rt, []string{"", "", "", "concurrent", "concurrent", "refuse", "abandon", "abandon later"}, "plan")
		managed := w.Config.Mode == structs.ThirdPartyManagement
		if managed && plan != "" && plan != "refuse" && plan != "abandon" {
			plan = "" // the operator's counter would not be in step
		}
		c.Logf("%s: update %s with %d values, knows %d of %d, %s", u.Name, Short(s.label), len(values), k, len(w.Labels[string(s.label)]), plan)
		base := len(w.Labels[string(s.label)])
		size := w.N()
		if base > k || plan != "" {
			special++
		}
		var stop func([]*structs.UpdateResponse) bool
		sequenced := false
		switch plan {
		case "abandon":
			most := Int(rt, 0, 2, "responses taken")
			stop = func(out []*structs.UpdateResponse) bool { return len(out) >= most }
		case "abandon later":
			most := Int(rt, 0, 2, "responses taken")
			stop = func(out []*structs.UpdateResponse) bool {
				return sequenced && len(out) >= most
			}
		}
		before, at := 0, uint64(0)
		out, err := w.ServeUpdate(rt, stop, p.Update, func(ur transparency.UpdateRequest) (uint64, bool) {
			if string(ur.Label) != string(s.label) || len(ur.Values) != len(values) {
				rt.Fatalf("the sequencer is asked to add %d versions of %q, the request was for %d of %q", len(ur.Values), ur.Label, len(values), s.label)
			}
			for i := range values {
				if string(ur.Values[i].Value) != string(values[i]) {
					rt.Fatalf("the sequencer is asked to set value %q, the request was for %q", ur.Values[i].Value, values[i])
				}
			}
			if plan == "refuse" {
				return 0, false
			}
			if plan == "concurrent" && Bool(rt, "before") {
				s.direct(rt, c)
				if Bool(rt, "grow") {
					s.grow(rt, c)
				}
			}
			before = len(w.Labels[string(s.label)])
			at, _ = w.Sequencer(rt, c, 3, s.free)(ur)
			sequenced = true
			if plan == "concurrent" && Bool(rt, "after") {
				s.direct(rt, c)
			}
			return at, true
		})
		served++
		vs := w.Labels[string(s.label)]
		applied := at > 0
		switch {
		case plan == "abandon" && sequenced:
			if !applied || w.N() != size+1 {
				rt.Fatalf("an update that was sequenced is not applied")
			}
		case plan == "abandon" || plan == "refuse":
			if applied || w.N() != size {
				rt.Fatalf("an update that was to be refused was applied")
			} else if plan == "refuse" && err == nil && len(values) > 0 {
				rt.Fatalf("an update that was refused ends without an error")
			}
		case plan == "abandon later":
		case errors.Is(err, ErrTooLong):
			Known(knownLongUpdate)
			c.Class("too many versions at once (known finding)")
			return
		case err != nil:
			rt.Fatalf("an update fails: %v", err)
		case len(values) > 0 && !applied:
			rt.Fatalf("an update is not applied")
		case len(values) == 0 && applied:
			rt.Fatalf("an update without values is applied")
		}
		if applied {
			for i, val := range values {
				if v := vs[before+i]; string(v.Value) != string(val) || v.Pos != at {
					rt.Fatalf("version %d of %q is %q at %d instead of %q at %d", before+i, s.label, v.Value, v.Pos, val, at)
				}
			}
		}
		for _, r := range out {
			MustAccept(rt, p.String(), p.Verify(rt, r))
			checkCreated(rt, w, u, s.label, r.Position)
			w.CheckUser(rt, u)
			w.CheckOwner(rt, u, s.label)
			checkTold(rt, w, u, s.label, r, values)
			for i, v := range r.Values {
				if ver := known(rt, u, s.label) - len(r.Values) + i; string(vs[ver].Value) != string(v.Value) {
					rt.Fatalf("the server says that version %d of %q is %q, it is %q", ver, s.label, v.Value, vs[ver].Value)
				}
			}
		}
		if err == nil && stop == nil && known(rt, u, s.label) != len(vs) {
			rt.Fatalf("%s knows %d versions of %q after an update, there are %d", u.Name, known(rt, u, s.label), s.label, len(vs))
		}
		for _, o := range s.devices {
			if known(rt, o, s.label) > len(vs) {
				rt.Fatalf("%s knows versions that do not exist", o.Name)
			}
		}
		w.CheckGreatest(rt, s.label)
	}
	if served >= 2 && special > 0 {
		c.NonTrivial()
	}
}

// checkTold says that the values that an accepted update response announces (or
// confirms, if it has none of its own) are those of the versions the owner now
// knows last.
func checkTold(rt *rapid.T, w *World, u *User, label []byte, r *structs.UpdateResponse, asked [][]byte) {
	vals := asked
	if len(r.Values) > 0 {
		vals = nil
		for _, v := range r.Values {
			vals = append(vals, v.Value)
		}
	}
	o := u.Label(rt, label).Owner
	n := u.State(rt).TreeHead.TreeSize
	vs := w.History[n-1][string(label)]
	k := o.VerAtStarting + 1 + len(o.UpcomingVers)
	if k > len(vs) || len(vals) > k {
		rt.Fatalf("%s believes that %q has %d versions at size %d, it has %d", u.Name, label, k, n, len(vs))
	}
	later := leftToMonitoring(rt, w, u, label, r)
	for i, v := range vals {
		if later[i] {
			continue // checked by the caller for honest responses
		} else if string(vs[k-len(vals)+i].Value) != string(v) {
			rt.Fatalf("%s believes that version %d of %q is %q, it is %q", u.Name, k-len(vals)+i, label, v, vs[k-len(vals)+i].Value)
		} else if vs[k-len(vals)+i].Pos != r.Position {
			rt.Fatalf("%s believes that version %d of %q was added at %d, it was at %d", u.Name, k-len(vals)+i, label, r.Position, vs[k-len(vals)+i].Pos)
		}
	}
}

func propForged(rt *rapid.T, c *Case) {
	s := drawCoOwned(rt, c, Opts{Stores: []string{"tx"}})
	if s == nil {
		return
	}
	w := s.w
	type lie struct {
		u   *User
		pos uint64
	}
	var lies []lie
	tried := 0
	for round := 1 + Flat(rt, 3, "rounds"); round > 0; round-- {
		u := Pick(rt, s.devices, "device")
		if Bool(rt, "news") {
			s.direct(rt, c)
		}
		if Bool(rt, "grow") {
			s.grow(rt, c)
		}
		if Prob(rt, 30, "looks ahead") {
			// The owner learns about versions that it will be told of later.
			searchOnce(rt, c, w, u, s.label, pickVersion(rt, len(w.Labels[string(s.label)])))
			if Bool(rt, "grow") {
				s.grow(rt, c)
			}
		}
		var values [][]byte
		if !Prob(rt, 25, "nothing new") {
			values = DrawValues(rt, 3)
		}
		base := u.Clone(rt)
		p := u.StartUpdate(rt, s.label, values)
		out, err := w.ServeUpdate(rt, nil, p.Update, w.Sequencer(rt, c, 3, s.free))
		if err != nil {
			rt.Fatalf("an update fails: %v", err)
		}
		for _, r := range out {
			MustAccept(rt, p.String(), p.Verify(rt, DeepCopy(r)))
		}
		var donors []any
		for _, r := range out {
			donors = append(donors, r)
		}
		for i, honest := range out {
			for k := 0; k < 6; k++ {
				q := base.Clone(rt)
				p := q.StartUpdate(rt, s.label, values)
				for _, r := range out[:i] {
					MustAccept(rt, p.String(), p.Verify(rt, DeepCopy(r)))
				}
				mut := DeepCopy(honest)
				what, changes := "", 0
				if k == 5 {
					if pos, ok := retold(rt, c, s, q, p, honest, values); ok {
						lies = append(lies, lie{q, pos})
					}
					tried++
					continue
				}
				if len(out) > 1 && Prob(rt, 10, "another") {
					mut = DeepCopy(Pick(rt, out, "response"))
					what, changes = "another", 1
				}
				for m := Pick(rt, []int{1, 1, 1, 2, 3}, "changes"); m > 0; m-- {
					if w := Mangle(rt, mut, donors); w != "" {
						what += " " + w
						changes++
					}
				}
				sent, _ := p.Recode(rt, w, mut).(*structs.UpdateResponse)
				if sent == nil || Encoding(sent) == Encoding(honest) {
					continue
				}
				c.Logf("[%s]", what)
				tried++
				before := q.DB.Dump()
				if err := p.Verify(rt, sent); err != nil {
					if q.DB.Dump() != before {
						rt.Fatalf("a response is rejected (%v) but the client's state changed", err)
					}
					c.Class("rejected")
					continue
				}
				w.CheckUser(rt, q)
				if sent.Position != honest.Position {
					if !positionLeft(rt, w, q, sent.Position, honest.Position) {
						rt.Fatalf("an update response with position %d instead of %d is accepted", sent.Position, honest.Position)
					}
					lies = append(lies, lie{q, min(sent.Position, honest.Position)})
					c.Class("accepted: position left to monitoring")
					continue
				}
				later := leftToMonitoring(rt, w, q, s.label, sent)
				first := firstVersion(rt, q, s.label, sent)
				if len(sent.Info) != len(honest.Info) {
					// How many versions there are in a distinguished entry is left
					// to monitoring as far as a search for the newest finds out.
					vs := w.Labels[string(s.label)]
					for i := range sent.Info {
						if !later[i] && (int(first)+i >= len(vs) || vs[int(first)+i].Pos != honest.Position) {
							rt.Fatalf("an update response with %d new versions instead of %d is accepted", len(sent.Info), len(honest.Info))
						}
					}
					if later == nil {
						rt.Fatalf("an update response with %d new versions instead of %d is accepted", len(sent.Info), len(honest.Info))
					}
					lies = append(lies, lie{q, sent.Position})
					c.Class("accepted: count left to monitoring")
					continue
				}
				w.CheckOwner(rt, q, s.label)
				checkTold(rt, w, q, s.label, sent, values)
				if Encoding(bareUpdate(sent, first, nil)) == Encoding(bareUpdate(honest, first, nil)) {
					c.Class("accepted: redundant part")
					continue
				}
				if later == nil || Encoding(bareUpdate(sent, first, later)) != Encoding(bareUpdate(honest, first, later)) {
					rt.Fatalf("a manipulated update response (%s) is accepted", what)
				}
				lies = append(lies, lie{q, sent.Position})
				c.Class("accepted: left to monitoring")
			}
		}
	}
	if len(lies) > 0 {
		for i := 0; i < 3; i++ {
			s.grow(rt, c)
		}
	}
	for _, l := range lies {
		for k := 0; k < 10; k++ {
			m := l.u.StartMonitor(rt)
			if m == nil {
				break
			} else if res, err := m.Ask(rt, w, w.Tree); err != nil || m.Verify(rt, res) != nil {
				break
			}
		}
		if o := l.u.Label(rt, s.label).Owner; o.Starting >= l.pos {
			rt.Fatalf("the owner's monitoring does not notice that an update response for entry %d was manipulated", l.pos)
		}
		c.Class("noticed by monitoring")
	}
	if tried >= 5 {
		c.NonTrivial()
	}
}

// retold lets the server prove what it can about another position, or another
// opening or signature, of the new versions. It returns the position from which
// on a lie, which was accepted because it is left to monitoring, must be noticed.
func retold(rt *rapid.T, c *Case, s *coOwned, q *User, p *Pending, honest *structs.UpdateResponse, values [][]byte) (from uint64, lie bool) {
	w := s.w
	o := q.Label(rt, s.label).Owner
	last := o.Starting
	if k := len(o.UpcomingVers); k > 0 {
		last = o.UpcomingVers[k-1]
	}
	pos := honest.Position
	nv := &NewVersions{First: uint32(o.VerAtStarting + len(o.UpcomingVers) + 1), Info: DeepCopy(honest).Info}
	switch Flat(rt, 4, "retold") {
	case 0:
		pos = Pick(rt, []uint64{last, o.Starting, last + 1, pos - 1, pos + 1}, "position")
	case 1:
		pos = U64(rt, 0, w.N()-1, "position")
	default:
		if len(nv.Info) == 0 {
			return
		}
		i := Flat(rt, len(nv.Info), "info")
		if Bool(rt, "signature") && len(nv.Info[i].Signature) > 0 {
			nv.Info[i].Signature = MangleBytes(rt, nv.Info[i].Signature)
		} else {
			nv.Info[i].Opening = flip(rt, nv.Info[i].Opening)
		}
		nv.Avoid = Ptr(nv.First + uint32(i))
	}
	r, _ := w.EvilUpdate(rt, p, w.IndexOf(s.label), o, pos, nv).(*structs.UpdateResponse)
	if r == nil {
		c.Class("can not be retold")
		return
	}
	r.Values = honest.Values
	c.Logf("[retold at %d instead of %d, avoiding %v]", pos, honest.Position, deref(nv.Avoid))
	before := q.DB.Dump()
	if err := p.Verify(rt, r); err != nil {
		if q.DB.Dump() != before {
			rt.Fatalf("a response is rejected (%v) but the client's state changed", err)
		}
		c.Class("retold: rejected")
		return
	}
	w.CheckUser(rt, q)
	later := leftToMonitoring(rt, w, q, s.label, r)
	for i := range r.Info {
		if !reflect.DeepEqual(r.Info[i], honest.Info[i]) {
			if !later[i] {
				rt.Fatalf("an update response with a false opening or signature of version %d is accepted", nv.First+uint32(i))
			}
			lie = true
		}
	}
	if pos != honest.Position {
		if !positionLeft(rt, w, q, pos, honest.Position) {
			rt.Fatalf("an update response with position %d instead of %d is accepted", pos, honest.Position)
		}
		lie = true
	}
	if lie {
		c.Class("retold: left to monitoring")
	} else {
		checkTold(rt, w, q, s.label, r, values)
		w.CheckOwner(rt, q, s.label)
		c.Class("retold: accepted, true")
	}
	return min(pos, honest.Position), lie
}

// positionLeft says whether it is left to the owner's monitoring that an update
// was not at pos but at real: what is in distinguished entries is not looked up
// by updates.
func positionLeft(rt *rapid.T, w *World, u *User, pos, real uint64) bool {
	dles := w.DLEsAt(sizeOf(rt, u))
	if pos < real {
		return dles[pos]
	}
	return dles[pos-1]
}

func flip(rt *rapid.T, b []byte) []byte {
	out := Dup(b)
	out[Flat(rt, len(out), "byte")] ^= 1 << uint(Flat(rt, 8, "bit"))
	return out
}

// leftToMonitoring says which of the new versions (nil: none) of an accepted
// update response are not proven by it: in a distinguished entry, the
// commitments of the new versions that a search for the newest looks up are left
// to the owner's monitoring.
func leftToMonitoring(rt *rapid.T, w *World, u *User, label []byte, r *structs.UpdateResponse) map[int]bool {
	if !w.DLEsAt(sizeOf(rt, u))[r.Position] {
		return nil
	}
	o := u.Label(rt, label).Owner
	end := o.VerAtStarting + len(o.UpcomingVers)
	later := make(map[int]bool)
	for _, ver := range math.SearchBinaryLadder(uint32(end), uint32(end), nil, nil) {
		later[int(ver)-(end-len(r.Info)+1)] = true
	}
	return later
}

func sizeOf(rt *rapid.T, u *User) uint64 { return u.State(rt).TreeHead.TreeSize }

// firstVersion is the first of the new versions of an accepted update response.
func firstVersion(rt *rapid.T, u *User, label []byte, r *structs.UpdateResponse) uint32 {
	o := u.Label(rt, label).Owner
	return uint32(o.VerAtStarting + len(o.UpcomingVers) + 1 - len(r.Info))
}

// bareUpdate removes what an update response does not prove (such as the
// commitments of versions before the first), what it says about those of its new
// versions that are in except, and the values: a server may repeat those the
// client asked for, checkTold says whether they are true.
func bareUpdate(r *structs.UpdateResponse, first uint32, except map[int]bool) *structs.UpdateResponse {
	out := DeepCopy(r)
	out.Values = nil
	for i := range out.Info {
		if except[i] {
			out.Info[i] = structs.UpdateInfo{}
		}
	}
	for i, ver := range UpdateLadder(first, first+uint32(len(out.Info))-1) {
		if ver < first {
			out.BinaryLadder[i].Commitment = nil
		}
	}
	for i := range out.Update.PrefixProofs {
		rs := out.Update.PrefixProofs[i].Results
		for j := range rs {
			rs[j] = BareResult(rs[j])
		}
	}
	return out
}
