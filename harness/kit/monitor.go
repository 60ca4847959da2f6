package kit

import (
	"github.com/Bren2010/katie/tree/transparency/structs"
	"pgregory.net/rapid"
)

// RightPath are the ancestors of x in the search tree of n entries that are to
// its right, from the lowest.
func RightPath(x, n uint64) []uint64 {
	var out []uint64
	lo, hi := uint64(0), n
	for lo < hi {
		p := uint64(1)
		for p*2 <= hi-lo {
			p *= 2
		}
		y := lo + p - 1
		if y == x {
			break
		} else if y > x {
			out = append([]uint64{y}, out...)
			hi = y
		} else {
			lo = y + 1
		}
	}
	return out
}

// Inspected are the entries that contact monitoring of a pointer at x looks at
// in a log of n entries, and whether monitoring ends at a distinguished entry.
func (w *World) Inspected(x, n uint64) (out []uint64, ends bool) {
	dles := Distinguished(w.Timestamps()[:n], w.Config.ReasonableMonitoringWindow)
	if dles[x] {
		return nil, true
	}
	for _, y := range RightPath(x, n) {
		out = append(out, y)
		if dles[y] {
			return out, true
		}
	}
	return out, false
}

// MonitoredMap is what a monitoring map has to look like after monitoring it in
// a log of n entries.
func (w *World) MonitoredMap(entries []structs.MonitorMapEntry, n uint64) map[uint64]uint32 {
	out := map[uint64]uint32{}
	for _, e := range entries {
		path, ends := w.Inspected(e.Position, n)
		if ends {
			continue
		}
		x := e.Position
		if len(path) > 0 {
			x = path[len(path)-1]
		}
		out[x] = max(out[x], e.Version)
	}
	return out
}

// CheckMonitored compares a client's state after it accepted a monitoring
// response with what it was before.
func (w *World) CheckMonitored(rt *rapid.T, u *User, label []byte, before *structs.ClientLabelState) {
	n := u.State(rt).TreeHead.TreeSize
	after := u.Label(rt, label)
	if after == nil {
		after = &structs.ClientLabelState{}
	}
	want := w.MonitoredMap(before.Contact, n)
	for _, e := range after.Contact {
		if v, ok := want[e.Position]; !ok || v != e.Version {
			rt.Fatalf("%s monitors %s with %v, after monitoring %v at size %d this should be %v", u.Name, short(label), after.Contact, before.Contact, n, want)
		}
	}
	if len(after.Contact) != len(want) {
		rt.Fatalf("%s monitors %s with %v, after monitoring %v at size %d this should be %v", u.Name, short(label), after.Contact, before.Contact, n, want)
	}
	if (before.Owner == nil) != (after.Owner == nil) {
		rt.Fatalf("monitoring changed the ownership of %s", short(label))
	}
	if before.Owner != nil {
		dle := RightmostDLE(w.DLEsAt(n), n)
		if int64(after.Owner.Starting) > dle && after.Owner.Starting != before.Owner.Starting {
			rt.Fatalf("owner monitoring of %s advanced to %d, the rightmost distinguished entry of %d is %d", short(label), after.Owner.Starting, n, dle)
		} else if after.Owner.Starting < before.Owner.Starting {
			rt.Fatalf("owner monitoring of %s went back from %d to %d", short(label), before.Owner.Starting, after.Owner.Starting)
		}
	}
}

// DLEsAt are the distinguished entries of the log as of size n.
func (w *World) DLEsAt(n uint64) map[uint64]bool {
	return Distinguished(w.Timestamps()[:n], w.Config.ReasonableMonitoringWindow)
}
