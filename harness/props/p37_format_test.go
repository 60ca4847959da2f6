package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"
	"testing"

	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency/auditor"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"pgregory.net/rapid"

	"verif/kit"
)

// refEnc is an independent encoder: the presentation language of the protocol,
// applied to the structures as the protocol defines them.
type refEnc struct{ b []byte }

func (e *refEnc) u8(x int)          { e.b = append(e.b, byte(x)) }
func (e *refEnc) u16(x int)         { e.b = append(e.b, byte(x>>8), byte(x)) }
func (e *refEnc) u32(x uint32)      { e.b = binary.BigEndian.AppendUint32(e.b, x) }
func (e *refEnc) u64(x uint64)      { e.b = binary.BigEndian.AppendUint64(e.b, x) }
func (e *refEnc) raw(x []byte)      { e.b = append(e.b, x...) }
func (e *refEnc) vec8(x []byte)     { e.u8(len(x)); e.raw(x) }
func (e *refEnc) vec16(x []byte)    { e.u16(len(x)); e.raw(x) }
func (e *refEnc) vec32(x []byte)    { e.u32(uint32(len(x))); e.raw(x) }
func (e *refEnc) opt(here bool)     { e.u8(map[bool]int{true: 1}[here]) }
func (e *refEnc) hashes(x [][]byte) { e.raw(bytes.Join(x, nil)) }
func (e *refEnc) optU64(x *uint64) {
	e.opt(x != nil)
	if x != nil {
		e.u64(*x)
	}
}
func (e *refEnc) optU32(x *uint32) {
	e.opt(x != nil)
	if x != nil {
		e.u32(*x)
	}
}

func (e *refEnc) config(c *structs.PublicConfig) {
	e.u16(int(c.Suite.Id()))
	e.u8(int(c.Mode))
	e.vec16(c.SignatureKey.Bytes())
	e.vec16(c.VrfKey.Bytes())
	switch c.Mode {
	case structs.ThirdPartyManagement:
		e.vec16(c.LeafPublicKey.Bytes())
	case structs.ThirdPartyAuditing:
		e.u64(c.MaxAuditorLag)
		e.u64(c.AuditorStartPos)
		e.vec16(c.AuditorPublicKey.Bytes())
	}
	e.u64(c.MaxAhead)
	e.u64(c.MaxBehind)
	e.u64(c.ReasonableMonitoringWindow)
	e.opt(c.MaximumLifetime != 0)
	if c.MaximumLifetime != 0 {
		e.u64(c.MaximumLifetime)
	}
}

func (e *refEnc) entries(x []prefix.Entry) {
	e.u16(len(x))
	for _, y := range x {
		e.raw(y.VrfOutput)
		e.raw(y.Commitment)
	}
}

func (e *refEnc) steps(x []structs.BinaryLadderStep) {
	for i := range x {
		e.put(&x[i])
	}
}

func (e *refEnc) put(x any) {
	switch x := x.(type) {
	case *structs.SearchRequest:
		e.optU64(x.Last)
		e.vec8(x.Label)
		e.optU32(x.Version)
	case *structs.SearchResponse:
		e.put(&x.FullTreeHead)
		if x.Version != nil { // present exactly if the request names none
			e.u32(*x.Version)
		}
		e.raw(x.Opening)
		e.put(&x.Value)
		e.u8(len(x.BinaryLadder))
		e.steps(x.BinaryLadder)
		e.put(&x.Search)
	case *structs.MonitorMapEntry:
		e.u64(x.Position)
		e.u32(x.Version)
	case *structs.ContactMonitorRequest:
		e.optU64(x.Last)
		e.vec8(x.Label)
		e.u8(len(x.Entries))
		for i := range x.Entries {
			e.put(&x.Entries[i])
		}
	case *structs.ContactMonitorResponse:
		e.put(&x.FullTreeHead)
		e.put(&x.Monitor)
	case *structs.OwnerInitRequest:
		e.optU64(x.Last)
		e.vec8(x.Label)
		e.u64(x.Start)
	case *structs.OwnerInitResponse:
		e.put(&x.FullTreeHead)
		e.u8(len(x.GreatestVersions))
		for _, v := range x.GreatestVersions {
			e.u32(v)
		}
		e.u16(len(x.BinaryLadder))
		e.steps(x.BinaryLadder)
		e.put(&x.Init)
	case *structs.OwnerMonitorRequest:
		e.optU64(x.Last)
		e.vec8(x.Label)
		e.u8(len(x.Entries))
		for i := range x.Entries {
			e.put(&x.Entries[i])
		}
		e.u64(x.Start)
		e.optU32(x.GreatestVersion)
	case *structs.OwnerMonitorResponse:
		e.put(&x.FullTreeHead)
		e.put(&x.Monitor)
	case *structs.UpdateRequest:
		e.optU64(x.Last)
		e.vec8(x.Label)
		e.optU32(x.GreatestVersion)
		e.u8(len(x.Values))
		for i := range x.Values {
			e.put(&x.Values[i])
		}
	case *structs.ManagerUpdateRequest:
		e.optU64(x.Last)
		e.vec8(x.Label)
		e.optU32(x.GreatestVersion)
		e.u32(x.SignedVersion)
		e.u8(len(x.Values))
		for i := range x.Values {
			e.put(&x.Values[i])
		}
	case *structs.UpdateResponse:
		e.put(&x.FullTreeHead)
		e.u64(x.Position)
		e.u8(len(x.Values))
		for i := range x.Values {
			e.put(&x.Values[i])
		}
		e.u8(len(x.Info))
		for i := range x.Info {
			e.put(&x.Info[i])
		}
		e.u8(len(x.BinaryLadder))
		e.steps(x.BinaryLadder)
		e.put(&x.Update)
	case *structs.IndexedLogEntry:
		e.u64(x.Position)
		e.put(&x.LogEntry)
	case *structs.ClientState: // (its log entries may come in any order)
		e.put(&x.TreeHead)
		if x.AuditorTreeHead != nil {
			e.put(x.AuditorTreeHead)
		}
		e.u8(len(x.FullSubtrees))
		e.hashes(x.FullSubtrees)
		e.u8(len(x.LogEntries))
		for _, pos := range kit.SortedKeys(x.LogEntries) {
			entry := x.LogEntries[pos]
			e.u64(pos)
			e.put(&entry)
		}
	case *structs.LabelOwnerState:
		e.u64(x.Starting)
		e.u64(uint64(int64(x.VerAtStarting)))
		e.u32(uint32(len(x.UpcomingVers)))
		for _, v := range x.UpcomingVers {
			e.u64(v)
		}
	case *structs.RetainedVersion:
		e.u32(x.Version)
		e.raw(x.VrfOutput)
		e.opt(x.Commitment != nil)
		e.raw(x.Commitment)
	case *structs.ClientLabelState:
		e.u32(uint32(len(x.Contact)))
		for i := range x.Contact {
			e.put(&x.Contact[i])
		}
		e.opt(x.Owner != nil)
		if x.Owner != nil {
			e.put(x.Owner)
		}
		e.u32(uint32(len(x.Versions)))
		for i := range x.Versions {
			e.put(&x.Versions[i])
		}
	case *structs.UpdateSuffix:
		if x.Signature != nil {
			e.vec16(x.Signature)
		}
	case *structs.UpdateValue:
		e.vec32(x.Value)
		e.put(&x.UpdateSuffix)
	case *structs.LogEntry:
		e.u64(x.Timestamp)
		e.raw(x.PrefixTree)
	case *structs.BinaryLadderStep:
		e.raw(x.Proof)
		e.opt(x.Commitment != nil)
		e.raw(x.Commitment)
	case *structs.OpeningAndValue:
		e.raw(x.Opening)
		e.put(&x.Value)
	case *structs.LabelValue:
		e.vec32(x.Value)
	case *structs.UpdateInfo:
		e.raw(x.Opening)
		e.put(&x.UpdateSuffix)
	case *structs.TreeHead:
		e.u64(x.TreeSize)
		e.vec16(x.Signature)
	case *structs.AuditorTreeHead:
		e.u64(x.Timestamp)
		e.u64(x.TreeSize)
		e.vec16(x.Signature)
	case *structs.FullTreeHead:
		if x.TreeHead == nil {
			e.u8(1) // same
			return
		}
		e.u8(2) // updated
		e.put(x.TreeHead)
		if x.AuditorTreeHead != nil {
			e.put(x.AuditorTreeHead)
		}
	case *structs.InclusionProof:
		e.u16(len(x.Elements))
		e.hashes(x.Elements)
	case *structs.CombinedTreeProof:
		e.u8(len(x.Timestamps))
		for _, ts := range x.Timestamps {
			e.u64(ts)
		}
		e.u8(len(x.PrefixProofs))
		for i := range x.PrefixProofs {
			e.put(&x.PrefixProofs[i])
		}
		e.u8(len(x.PrefixRoots))
		e.hashes(x.PrefixRoots)
		e.put(&x.Inclusion)
	case *prefix.PrefixProof:
		e.u8(len(x.Results))
		for _, r := range x.Results {
			e.raw(refResult(r))
		}
		e.u16(len(x.Elements))
		e.hashes(x.Elements)
	case *structs.AuditorUpdate:
		e.u64(x.Timestamp)
		e.entries(x.Added)
		e.entries(x.Removed)
		e.put(&x.Proof)
	case *auditor.AuditorState:
		e.put(&x.TreeHead)
		e.hashes(x.FullSubtrees)
		for _, ts := range x.Timestamps {
			e.u64(ts)
		}
		e.raw(x.PrefixTree)
		e.u16(len(x.Inserted))
		for _, in := range x.Inserted {
			e.u64(in.Pos)
			e.raw(in.VrfOutput)
		}

	// What is signed, committed to or given to the VRF.
	case *structs.PublicConfig:
		e.config(x)
	case *structs.TreeHeadTBS:
		e.config(x.Config)
		e.u64(x.TreeSize)
		e.raw(x.Root)
	case *structs.AuditorTreeHeadTBS:
		e.config(x.Config)
		e.u64(x.Timestamp)
		e.u64(x.TreeSize)
		e.raw(x.Root)
	case *structs.UpdateTBS:
		e.config(x.Config)
		e.vec8(x.Label)
		e.u32(x.Version)
		e.vec32(x.Value)
	case *structs.CommitmentValue:
		e.vec8(x.Label)
		e.u32(x.Version)
		e.put(&x.Update)
	case *structs.VrfInput:
		e.vec8(x.Label)
		e.u32(x.Version)
	default:
		panic(fmt.Sprintf("no reference encoding of %T", x))
	}
}

// refResult is the encoding of a search result, from what it says about itself.
// The leaf of a different key that it may carry is not visible from outside, so
// that part is taken from the encoding (propRoundTrip and prefixProof's raw
// form, from which the generator makes it, pin it down).
func refResult(r prefix.PrefixSearchResult) []byte {
	b := &bytes.Buffer{}
	r.Marshal(b)
	raw := b.Bytes()
	e := &refEnc{}
	switch {
	case r.Inclusion():
		e.u8(1)
	case len(raw) == 2:
		e.u8(3)
	default:
		e.u8(2)
		e.raw(raw[1 : len(raw)-1])
	}
	e.u8(r.Depth())
	return e.b
}

func refEncode(x any) []byte {
	e := &refEnc{}
	e.put(x)
	return e.b
}

// Every structure has the encoding the protocol gives it.
func propFormat(rt *rapid.T, c *kit.Case) {
	g := &gen{rt: rt, c: c, cfg: drawWireConfig(rt)}
	cd := codecs[kit.Flat(rt, len(codecs), "codec")]
	if cd.ctx != nil {
		g.ctx = cd.ctx(g)
	}
	x := cd.gen(g)
	raw, err := marshalAny(x)
	if err != nil {
		rt.Fatal(clipMsg("%s does not encode: %v\n%+v", cd.name, err, x))
	}
	want := refEncode(x)
	if len(want) > 0 {
		c.NonTrivial()
	}
	c.Class(cd.name)
	c.Logf("%s mode %d suite %d: %s", cd.name, g.cfg.Mode, g.cfg.Suite.Id(), short(want))
	if cd.name == "ClientState" { // its entries may come in any order
		n := 8 + g.cfg.Suite.HashSize()
		sortTail(raw, len(want), len(x.(*structs.ClientState).LogEntries), 8+n)
	}
	if !bytes.Equal(raw, want) {
		rt.Fatal(clipMsg("%s is encoded as\n%x\nnot as\n%x\n%+v", cd.name, raw, want, x))
	}
	// The other direction: what a peer that follows the protocol sends is
	// understood as what it means.
	y, err := cd.decode(g.cfg, g.ctx, bytes.NewBuffer(kit.Dup(want)))
	if err != nil {
		rt.Fatal(clipMsg("%s: a correct encoding is refused: %v\n%x\n%+v", cd.name, err, want, x))
	}
	if !deepSame(x, y) {
		rt.Fatal(clipMsg("%s:\n%x\nis taken for\n%+v\nnot for\n%+v", cd.name, want, y, x))
	}
}

// sortTail sorts the last n records of the given size, if there are that many.
func sortTail(raw []byte, length, n, size int) {
	if len(raw) != length || n*size > len(raw) {
		return
	}
	tail := raw[len(raw)-n*size:]
	var recs [][]byte
	for i := 0; i < n; i++ {
		recs = append(recs, kit.Dup(tail[i*size:(i+1)*size]))
	}
	sort.Slice(recs, func(i, j int) bool { return bytes.Compare(recs[i], recs[j]) < 0 })
	copy(tail, bytes.Join(recs, nil))
}

// Whatever is signed, committed to or given to the VRF is encoded as the
// protocol says.
func propSignedFormat(rt *rapid.T, c *kit.Case) {
	g := &gen{rt: rt, c: c, cfg: drawWireConfig(rt)}
	var x structs.Marshaller
	switch kit.Flat(rt, 6, "type") {
	case 0:
		x = &structs.VrfInput{Label: g.label(), Version: g.u32()}
	case 1:
		x = &structs.CommitmentValue{Label: g.label(), Version: g.u32(), Update: g.updateValue()}
	case 2:
		x = &structs.TreeHeadTBS{Config: g.keyedConfig(), TreeSize: g.u64(), Root: g.hash()}
	case 3:
		x = &structs.AuditorTreeHeadTBS{Config: g.keyedConfig(), Timestamp: g.u64(), TreeSize: g.u64(), Root: g.hash()}
	case 4:
		x = &structs.UpdateTBS{Config: g.keyedConfig(), Label: g.label(), Version: g.u32(), Value: g.value()}
	case 5:
		x = g.keyedConfig()
	}
	c.Class(fmt.Sprintf("%T", x)[9:])
	raw, err := structs.Marshal(x)
	if err != nil {
		rt.Fatal(clipMsg("%T does not encode: %v\n%+v", x, err, x))
	}
	want := refEncode(x)
	c.NonTrivial()
	c.Logf("%T: %s", x, short(want))
	if !bytes.Equal(raw, want) {
		rt.Fatal(clipMsg("%T is encoded as\n%x\nnot as\n%x\n%+v", x, raw, want, x))
	}
}

func TestP37(t *testing.T) {
	kit.Run(t, "a non-empty structure was encoded and compared with the reference encoding",
		kit.Sub{Name: "structures", Quick: 12000, Thorough: 500000, Prop: propFormat},
		kit.Sub{Name: "signed", Quick: 12000, Thorough: 500000, Prop: propSignedFormat},
	)
}
