package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"
	"runtime"
	"testing"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency/auditor"
	tmath "github.com/Bren2010/katie/tree/transparency/math"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"pgregory.net/rapid"

	"verif/kit"
)

// A codec describes one structure that travels over the wire or is stored.
type codec struct {
	name   string
	gen    func(g *gen) any
	decode func(cfg *structs.PublicConfig, ctx any, buf *bytes.Buffer) (any, error)
	ctx    func(g *gen) any // context the decoder needs, drawn before the value
}

// gen draws structures for one deployment.
type gen struct {
	rt  *rapid.T
	c   *kit.Case
	cfg *structs.PublicConfig
	ctx any

	longDrawn bool
}

func (g *gen) u64() uint64 {
	switch kit.Flat(g.rt, 3, "u64kind") {
	case 0:
		return kit.U64(g.rt, 0, 300, "u64")
	case 1:
		return rapid.Uint64().Draw(g.rt, "u64")
	}
	return ^uint64(0) - kit.U64(g.rt, 0, 2, "u64")
}
func (g *gen) u32() uint32 {
	if kit.Bool(g.rt, "u32kind") {
		return kit.U32(g.rt, 0, 300, "u32")
	}
	return rapid.Uint32().Draw(g.rt, "u32")
}
func (g *gen) optU64() *uint64 {
	if kit.Bool(g.rt, "present") {
		return kit.Ptr(g.u64())
	}
	return nil
}
func (g *gen) optU32() *uint32 {
	if kit.Bool(g.rt, "present") {
		return kit.Ptr(g.u32())
	}
	return nil
}

// blob is n bytes of content that is cheap to draw.
func (g *gen) blob(n int) []byte {
	out := make([]byte, n)
	s := rapid.Uint64().Draw(g.rt, "blob")
	for i := range out {
		s = s*6364136223846793005 + 1442695040888963407
		out[i] = byte(s >> 56)
	}
	return out
}
func (g *gen) hash() []byte { return g.blob(g.cfg.Suite.HashSize()) }

// length draws a length, the maximum included now and then.
func (g *gen) length(max int) int {
	switch kit.Flat(g.rt, 12, "lenkind") {
	case 0:
		g.c.Class("maximum length")
		return max
	case 1, 2:
		return 0
	case 3:
		return kit.Int(g.rt, 0, min(max, 300), "len")
	}
	return kit.Int(g.rt, 0, min(max, 6), "len")
}
func (g *gen) label() []byte     { return g.blob(g.length(255)) }
func (g *gen) signature() []byte { return g.blob(g.length(65535)) }
func (g *gen) value() []byte     { return g.blob(g.length(70000)) }

func list[T any](g *gen, max int, f func() T) []T {
	n := g.length(max)
	var out []T
	for i := 0; i < n; i++ {
		if i >= 8 { // long lists repeat their elements
			out = append(out, out[i%8])
			continue
		}
		out = append(out, f())
	}
	return out
}

// long is the maximum length of a list that may have up to 65535 elements:
// all of them now and then, and exactly those (length draws the maximum),
// but only in one list of a structure.
func (g *gen) long(usual int) int {
	if !g.longDrawn && kit.Prob(g.rt, 12, "long list") {
		g.longDrawn = true
		return 65535
	}
	return usual
}

func (g *gen) treeHead() structs.TreeHead {
	return structs.TreeHead{TreeSize: g.u64(), Signature: g.signature()}
}
func (g *gen) auditorTreeHead() structs.AuditorTreeHead {
	return structs.AuditorTreeHead{Timestamp: g.u64(), TreeSize: g.u64(), Signature: g.signature()}
}
func (g *gen) fullTreeHead() structs.FullTreeHead {
	if kit.Prob(g.rt, 30, "same head") {
		return structs.FullTreeHead{}
	}
	out := structs.FullTreeHead{TreeHead: kit.Ptr(g.treeHead())}
	if g.cfg.Mode == structs.ThirdPartyAuditing {
		out.AuditorTreeHead = kit.Ptr(g.auditorTreeHead())
	}
	return out
}
func (g *gen) suffix() structs.UpdateSuffix {
	if g.cfg.Mode == structs.ThirdPartyManagement {
		return structs.UpdateSuffix{Signature: g.signature()}
	}
	return structs.UpdateSuffix{}
}
func (g *gen) updateValue() structs.UpdateValue {
	return structs.UpdateValue{Value: g.value(), UpdateSuffix: g.suffix()}
}
func (g *gen) opening() []byte { return g.blob(g.cfg.Suite.CommitmentOpeningSize()) }
func (g *gen) step() structs.BinaryLadderStep {
	s := structs.BinaryLadderStep{Proof: g.blob(g.cfg.Suite.VrfProofSize())}
	if kit.Bool(g.rt, "commitment") {
		s.Commitment = g.hash()
	}
	return s
}
func (g *gen) prefixProof() prefix.PrefixProof {
	p := rawProof{}
	results, elements := kit.Int(g.rt, 0, 4, "results"), kit.Int(g.rt, 0, 5, "elements")
	if !g.longDrawn && kit.Prob(g.rt, 3, "full proof") {
		g.longDrawn = true
		results = kit.Pick(g.rt, []int{0, 254, 255}, "results")
		elements = kit.Pick(g.rt, []int{0, 1000, 65535}, "elements")
	}
	for i := results; i > 0; i-- {
		if len(p.results) >= 8 {
			p.results = append(p.results, p.results[len(p.results)%8])
			continue
		}
		p.results = append(p.results, rawResult{typ: byte(1 + kit.Flat(g.rt, 3, "type")), leafKey: g.hash(), leafValue: g.hash(), depth: kit.Int(g.rt, 0, 255, "depth")})
	}
	for i := elements; i > 0; i-- {
		if len(p.elements) >= 8 {
			p.elements = append(p.elements, p.elements[len(p.elements)%8])
			continue
		}
		p.elements = append(p.elements, g.hash())
	}
	raw := p.bytes()
	out, err := prefix.NewPrefixProof(g.cfg.Suite, bytes.NewBuffer(raw))
	if err != nil {
		g.rt.Fatal(clipMsg("a well-formed prefix proof is refused: %v\n%x", err, raw))
	}
	again := &bytes.Buffer{}
	if err := out.Marshal(again); err != nil || !bytes.Equal(again.Bytes(), raw) {
		g.rt.Fatal(clipMsg("prefix proof encodes as\n%x, not\n%x (%v)", again.Bytes(), raw, err))
	}
	return *out
}
func (g *gen) combined() structs.CombinedTreeProof {
	return structs.CombinedTreeProof{
		Timestamps:   list(g, 255, g.u64),
		PrefixProofs: list(g, 255, g.prefixProof),
		PrefixRoots:  list(g, 255, g.hash),
		Inclusion:    structs.InclusionProof{Elements: list(g, g.long(3000), g.hash)},
	}
}
func (g *gen) mapEntry() structs.MonitorMapEntry {
	return structs.MonitorMapEntry{Position: g.u64(), Version: g.u32()}
}
func (g *gen) labelValue() structs.LabelValue { return structs.LabelValue{Value: g.value()} }
func (g *gen) logEntry() structs.LogEntry {
	return structs.LogEntry{Timestamp: g.u64(), PrefixTree: g.hash()}
}
func (g *gen) retained() structs.RetainedVersion {
	r := structs.RetainedVersion{Version: g.u32(), VrfOutput: g.hash()}
	if kit.Bool(g.rt, "commitment") {
		r.Commitment = g.hash()
	}
	return r
}
func (g *gen) entry() prefix.Entry { return prefix.Entry{VrfOutput: g.hash(), Commitment: g.hash()} }

func dec0[T any](f func(*bytes.Buffer) (*T, error)) func(*structs.PublicConfig, any, *bytes.Buffer) (any, error) {
	return func(_ *structs.PublicConfig, _ any, b *bytes.Buffer) (any, error) { return wrap(f(b)) }
}
func decS[T any](f func(suites.CipherSuite, *bytes.Buffer) (*T, error)) func(*structs.PublicConfig, any, *bytes.Buffer) (any, error) {
	return func(c *structs.PublicConfig, _ any, b *bytes.Buffer) (any, error) { return wrap(f(c.Suite, b)) }
}
func decC[T any](f func(*structs.PublicConfig, *bytes.Buffer) (*T, error)) func(*structs.PublicConfig, any, *bytes.Buffer) (any, error) {
	return func(c *structs.PublicConfig, _ any, b *bytes.Buffer) (any, error) { return wrap(f(c, b)) }
}
func wrap[T any](x *T, err error) (any, error) {
	if err != nil {
		return nil, err
	}
	return x, nil
}

func marshalAny(x any) ([]byte, error) {
	switch x := x.(type) {
	case *auditor.AuditorState:
		return x.Marshal()
	case structs.Marshaller:
		return structs.Marshal(x)
	}
	panic(fmt.Sprintf("no marshaller for %T", x))
}

var codecs = []codec{
	{name: "SearchRequest", gen: func(g *gen) any {
		return &structs.SearchRequest{Last: g.optU64(), Label: g.label(), Version: g.optU32()}
	}, decode: dec0(structs.NewSearchRequest)},
	{name: "SearchResponse", ctx: func(g *gen) any { return &structs.SearchRequest{Version: g.optU32()} }, gen: func(g *gen) any {
		r := &structs.SearchResponse{FullTreeHead: g.fullTreeHead(), Opening: g.opening(), Value: g.updateValue(), BinaryLadder: list(g, 255, g.step), Search: g.combined()}
		if g.ctx.(*structs.SearchRequest).Version == nil {
			r.Version = kit.Ptr(g.u32())
		}
		return r
	}, decode: func(cfg *structs.PublicConfig, ctx any, b *bytes.Buffer) (any, error) {
		return wrap(structs.NewSearchResponse(cfg, ctx.(*structs.SearchRequest), b))
	}},
	{name: "MonitorMapEntry", gen: func(g *gen) any { return kit.Ptr(g.mapEntry()) }, decode: dec0(structs.NewMonitorMapEntry)},
	{name: "ContactMonitorRequest", gen: func(g *gen) any {
		return &structs.ContactMonitorRequest{Last: g.optU64(), Label: g.label(), Entries: list(g, 255, g.mapEntry)}
	}, decode: dec0(structs.NewContactMonitorRequest)},
	{name: "ContactMonitorResponse", gen: func(g *gen) any {
		return &structs.ContactMonitorResponse{FullTreeHead: g.fullTreeHead(), Monitor: g.combined()}
	}, decode: decC(structs.NewContactMonitorResponse)},
	{name: "OwnerInitRequest", gen: func(g *gen) any {
		return &structs.OwnerInitRequest{Last: g.optU64(), Label: g.label(), Start: g.u64()}
	}, decode: dec0(structs.NewOwnerInitRequest)},
	{name: "OwnerInitResponse", gen: func(g *gen) any {
		return &structs.OwnerInitResponse{FullTreeHead: g.fullTreeHead(), GreatestVersions: list(g, 255, g.u32), BinaryLadder: list(g, g.long(2000), g.step), Init: g.combined()}
	}, decode: decC(structs.NewOwnerInitResponse)},
	{name: "OwnerMonitorRequest", gen: func(g *gen) any {
		return &structs.OwnerMonitorRequest{Last: g.optU64(), Label: g.label(), Entries: list(g, 255, g.mapEntry), Start: g.u64(), GreatestVersion: g.optU32()}
	}, decode: dec0(structs.NewOwnerMonitorRequest)},
	{name: "OwnerMonitorResponse", gen: func(g *gen) any {
		return &structs.OwnerMonitorResponse{FullTreeHead: g.fullTreeHead(), Monitor: g.combined()}
	}, decode: decC(structs.NewOwnerMonitorResponse)},
	{name: "UpdateRequest", gen: func(g *gen) any {
		return &structs.UpdateRequest{Last: g.optU64(), Label: g.label(), GreatestVersion: g.optU32(), Values: list(g, 255, g.labelValue)}
	}, decode: dec0(structs.NewUpdateRequest)},
	{name: "ManagerUpdateRequest", gen: func(g *gen) any {
		return &structs.ManagerUpdateRequest{Last: g.optU64(), Label: g.label(), GreatestVersion: g.optU32(), SignedVersion: g.u32(), Values: list(g, 255, g.updateValue)}
	}, decode: decC(structs.NewManagerUpdateRequest)},
	{name: "UpdateResponse", gen: func(g *gen) any {
		return &structs.UpdateResponse{FullTreeHead: g.fullTreeHead(), Position: g.u64(), Values: list(g, 255, g.labelValue),
			Info:         list(g, 255, func() structs.UpdateInfo { return structs.UpdateInfo{Opening: g.opening(), UpdateSuffix: g.suffix()} }),
			BinaryLadder: list(g, 255, g.step), Update: g.combined()}
	}, decode: decC(structs.NewUpdateResponse)},
	{name: "IndexedLogEntry", gen: func(g *gen) any {
		return &structs.IndexedLogEntry{Position: g.u64(), LogEntry: g.logEntry()}
	}, decode: decS(structs.NewIndexedLogEntry)},
	{name: "ClientState", gen: func(g *gen) any {
		s := &structs.ClientState{TreeHead: g.treeHead(), FullSubtrees: list(g, 255, g.hash), LogEntries: map[uint64]structs.LogEntry{}}
		if g.cfg.Mode == structs.ThirdPartyAuditing {
			s.AuditorTreeHead = kit.Ptr(g.auditorTreeHead())
		}
		for i := g.length(255); i > 0; i-- {
			pos := uint64(i)
			if kit.Bool(g.rt, "far") {
				pos = g.u64()
			}
			s.LogEntries[pos] = g.logEntry()
		}
		return s
	}, decode: decC(structs.NewClientState)},
	{name: "LabelOwnerState", gen: func(g *gen) any { return kit.Ptr(g.ownerState()) }, decode: dec0(structs.NewLabelOwnerState)},
	{name: "RetainedVersion", gen: func(g *gen) any { return kit.Ptr(g.retained()) }, decode: decS(structs.NewRetainedVersion)},
	{name: "ClientLabelState", gen: func(g *gen) any {
		s := &structs.ClientLabelState{Contact: list(g, g.long(700), g.mapEntry), Versions: list(g, g.long(700), g.retained)}
		if kit.Bool(g.rt, "owner") {
			s.Owner = kit.Ptr(g.ownerState())
		}
		return s
	}, decode: decS(structs.NewClientLabelState)},
	{name: "UpdateSuffix", gen: func(g *gen) any { return kit.Ptr(g.suffix()) }, decode: decC(structs.NewUpdateSuffix)},
	{name: "UpdateValue", gen: func(g *gen) any { return kit.Ptr(g.updateValue()) }, decode: decC(structs.NewUpdateValue)},
	{name: "LogEntry", gen: func(g *gen) any { return kit.Ptr(g.logEntry()) }, decode: decS(structs.NewLogEntry)},
	{name: "BinaryLadderStep", gen: func(g *gen) any { return kit.Ptr(g.step()) }, decode: decS(structs.NewBinaryLadderStep)},
	{name: "OpeningAndValue", gen: func(g *gen) any {
		return &structs.OpeningAndValue{Opening: g.opening(), Value: g.updateValue()}
	}, decode: decC(structs.NewOpeningAndValue)},
	{name: "LabelValue", gen: func(g *gen) any { return kit.Ptr(g.labelValue()) }, decode: dec0(structs.NewLabelValue)},
	{name: "UpdateInfo", gen: func(g *gen) any {
		return &structs.UpdateInfo{Opening: g.opening(), UpdateSuffix: g.suffix()}
	}, decode: decC(structs.NewUpdateInfo)},
	{name: "TreeHead", gen: func(g *gen) any { return kit.Ptr(g.treeHead()) }, decode: dec0(structs.NewTreeHead)},
	{name: "AuditorTreeHead", gen: func(g *gen) any { return kit.Ptr(g.auditorTreeHead()) }, decode: dec0(structs.NewAuditorTreeHead)},
	{name: "FullTreeHead", gen: func(g *gen) any { return kit.Ptr(g.fullTreeHead()) }, decode: decC(structs.NewFullTreeHead)},
	{name: "InclusionProof", gen: func(g *gen) any {
		return &structs.InclusionProof{Elements: list(g, g.long(700), g.hash)}
	}, decode: decS(structs.NewInclusionProof)},
	{name: "CombinedTreeProof", gen: func(g *gen) any { return kit.Ptr(g.combined()) }, decode: decS(structs.NewCombinedTreeProof)},
	{name: "PrefixProof", gen: func(g *gen) any { return kit.Ptr(g.prefixProof()) }, decode: decS(prefix.NewPrefixProof)},
	{name: "AuditorUpdate", gen: func(g *gen) any {
		return &structs.AuditorUpdate{Timestamp: g.u64(), Added: list(g, g.long(2000), g.entry), Removed: list(g, g.long(2000), g.entry), Proof: g.prefixProof()}
	}, decode: decS(structs.NewAuditorUpdate)},
	{name: "AuditorState", gen: func(g *gen) any {
		s := &auditor.AuditorState{TreeHead: g.auditorTreeHead(), PrefixTree: g.hash()}
		s.TreeHead.TreeSize = kit.Size(g.rt, 1, 1<<62, "size")
		for i := countOnes(s.TreeHead.TreeSize); i > 0; i-- {
			s.FullSubtrees = append(s.FullSubtrees, g.hash())
		}
		for range tmath.Frontier(s.TreeHead.TreeSize) {
			s.Timestamps = append(s.Timestamps, g.u64())
		}
		s.Inserted = list(g, g.long(700), func() auditor.InsertedVrfOutput {
			return auditor.InsertedVrfOutput{Pos: g.u64(), VrfOutput: g.hash()}
		})
		return s
	}, decode: decS(auditor.NewAuditorState)},
}

func (g *gen) ownerState() structs.LabelOwnerState {
	return structs.LabelOwnerState{Starting: g.u64(), VerAtStarting: int(kit.U32(g.rt, 0, 1<<32-1, "ver")) - 1, UpcomingVers: list(g, g.long(700), g.u64)}
}

func countOnes(x uint64) (n int) {
	for ; x > 0; x &= x - 1 {
		n++
	}
	return
}

// same compares two values; an empty list is a missing list, everything else
// must be identical, unexported fields included.
func sameValue(a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		if a.Type().Elem().Kind() == reflect.Uint8 {
			return bytes.Equal(a.Bytes(), b.Bytes())
		}
		for i := 0; i < a.Len(); i++ {
			if !sameValue(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			if bv := b.MapIndex(k); !bv.IsValid() || !sameValue(a.MapIndex(k), bv) {
				return false
			}
		}
		return true
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return sameValue(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !sameValue(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Int, reflect.Int64, reflect.Int32:
		return a.Int() == b.Int()
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		return a.Uint() == b.Uint()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	}
	panic("cannot compare " + a.Type().String())
}

func deepSame(a, b any) bool { return sameValue(reflect.ValueOf(a), reflect.ValueOf(b)) }

// drawWireConfig is a deployment as far as codecs are concerned.
func drawWireConfig(rt *rapid.T) *structs.PublicConfig {
	var cs suites.CipherSuite = kit.FakeSuite{}
	switch kit.Flat(rt, 4, "suite") {
	case 0:
		cs = suites.KTSha256P256{}
	case 1:
		cs = suites.KTSha256Ed25519{}
	}
	return &structs.PublicConfig{Config: structs.Config{Suite: cs, Mode: structs.DeploymentMode(1 + kit.Flat(rt, 3, "mode"))}}
}

// clipMsg keeps the message about a long structure readable.
func clipMsg(format string, args ...any) string {
	s := fmt.Sprintf(format, args...)
	if len(s) > 4000 {
		s = fmt.Sprintf("%s… (%d characters)", s[:4000], len(s))
	}
	return s
}

func short(raw []byte) string {
	if len(raw) <= 40 {
		return fmt.Sprintf("%x", raw)
	}
	return fmt.Sprintf("%x… (%d bytes, %x)", raw[:24], len(raw), kit.Digest(raw))
}

func propRoundTrip(rt *rapid.T, c *kit.Case) {
	g := &gen{rt: rt, c: c, cfg: drawWireConfig(rt)}
	cd := codecs[kit.Flat(rt, len(codecs), "codec")]
	if cd.ctx != nil {
		g.ctx = cd.ctx(g)
	}
	x := cd.gen(g)
	raw, err := marshalAny(x)
	if err != nil {
		rt.Fatal(clipMsg("%s does not encode: %v\n%+v", cd.name, err, x))
	}
	c.Logf("%s mode %d suite %d: %s", cd.name, g.cfg.Mode, g.cfg.Suite.Id(), short(raw))
	c.Class(cd.name)
	if len(raw) > 0 {
		c.NonTrivial()
	}
	if cd.name == "AuditorState" && kit.Bool(rt, "state read from disk") {
		// (no other decoder is told where its input ends either)
		c.Class("no suffix")
	}
	suffix := g.blob(kit.Int(rt, 0, 20, "suffix"))
	buf := bytes.NewBuffer(append(kit.Dup(raw), suffix...))
	y, err := cd.decode(g.cfg, g.ctx, buf)
	if err != nil {
		rt.Fatal(clipMsg("%s: its own encoding is refused: %v\n%+v\n%x", cd.name, err, x, raw))
	}
	if !bytes.Equal(buf.Bytes(), suffix) {
		rt.Fatalf("%s: decoding %d bytes left %d instead of %d", cd.name, len(raw)+len(suffix), buf.Len(), len(suffix))
	}
	if !deepSame(x, y) {
		rt.Fatal(clipMsg("%s changed:\n%+v\nbecame\n%+v", cd.name, x, y))
	}
	// No proper prefix of an encoding is an encoding.
	if len(raw) > 0 {
		cut := kit.Int(rt, 0, len(raw)-1, "cut")
		if kit.Bool(rt, "cutEnd") {
			cut = len(raw) - 1 - kit.Int(rt, 0, min(len(raw)-1, 8), "cutBy")
		}
		if z, err := cd.decode(g.cfg, g.ctx, bytes.NewBuffer(kit.Dup(raw[:cut]))); err == nil {
			rt.Fatal(clipMsg("%s: the first %d of %d bytes decode too: %+v", cd.name, cut, len(raw), z))
		}
	}
}

// Everything that does not fit its length field is refused.
func propTooLong(rt *rapid.T, c *kit.Case) {
	g := &gen{rt: rt, c: c, cfg: drawWireConfig(rt)}
	over := func(max int) int { return max + 1 + kit.Pick(rt, []int{0, 1, 7, max, 2*max + 1}, "excess") }
	type tooLong struct {
		name string
		x    any
	}
	bytesOf := func(max int) []byte { return make([]byte, over(max)) }
	lab, sig := func() []byte { return bytesOf(255) }, func() []byte { return bytesOf(65535) }
	entries := func() []structs.MonitorMapEntry { return make([]structs.MonitorMapEntry, over(255)) }
	steps := func(max int) []structs.BinaryLadderStep { return make([]structs.BinaryLadderStep, over(max)) }
	cases := []func() tooLong{
		func() tooLong { return tooLong{"SearchRequest label", &structs.SearchRequest{Label: lab()}} },
		func() tooLong {
			return tooLong{"ContactMonitorRequest label", &structs.ContactMonitorRequest{Label: lab()}}
		},
		func() tooLong {
			return tooLong{"ContactMonitorRequest entries", &structs.ContactMonitorRequest{Entries: entries()}}
		},
		func() tooLong { return tooLong{"OwnerInitRequest label", &structs.OwnerInitRequest{Label: lab()}} },
		func() tooLong {
			return tooLong{"OwnerMonitorRequest label", &structs.OwnerMonitorRequest{Label: lab()}}
		},
		func() tooLong {
			return tooLong{"OwnerMonitorRequest entries", &structs.OwnerMonitorRequest{Entries: entries()}}
		},
		func() tooLong { return tooLong{"UpdateRequest label", &structs.UpdateRequest{Label: lab()}} },
		func() tooLong {
			return tooLong{"UpdateRequest values", &structs.UpdateRequest{Values: make([]structs.LabelValue, over(255))}}
		},
		func() tooLong {
			return tooLong{"ManagerUpdateRequest label", &structs.ManagerUpdateRequest{Label: lab()}}
		},
		func() tooLong {
			return tooLong{"ManagerUpdateRequest values", &structs.ManagerUpdateRequest{Values: make([]structs.UpdateValue, over(255))}}
		},
		func() tooLong {
			return tooLong{"SearchResponse ladder", &structs.SearchResponse{BinaryLadder: steps(255)}}
		},
		func() tooLong {
			return tooLong{"OwnerInitResponse ladder", &structs.OwnerInitResponse{BinaryLadder: steps(65535)}}
		},
		func() tooLong {
			return tooLong{"OwnerInitResponse versions", &structs.OwnerInitResponse{GreatestVersions: make([]uint32, over(255))}}
		},
		func() tooLong {
			return tooLong{"UpdateResponse ladder", &structs.UpdateResponse{BinaryLadder: steps(255)}}
		},
		func() tooLong {
			return tooLong{"UpdateResponse values", &structs.UpdateResponse{Values: make([]structs.LabelValue, over(255))}}
		},
		func() tooLong {
			return tooLong{"UpdateResponse info", &structs.UpdateResponse{Info: make([]structs.UpdateInfo, over(255))}}
		},
		func() tooLong { return tooLong{"UpdateSuffix signature", &structs.UpdateSuffix{Signature: sig()}} },
		func() tooLong {
			return tooLong{"UpdateValue signature", &structs.UpdateValue{UpdateSuffix: structs.UpdateSuffix{Signature: sig()}}}
		},
		func() tooLong { return tooLong{"TreeHead signature", &structs.TreeHead{Signature: sig()}} },
		func() tooLong {
			return tooLong{"AuditorTreeHead signature", &structs.AuditorTreeHead{Signature: sig()}}
		},
		func() tooLong {
			return tooLong{"FullTreeHead signature", &structs.FullTreeHead{TreeHead: &structs.TreeHead{Signature: sig()}}}
		},
		func() tooLong {
			return tooLong{"FullTreeHead auditor signature", &structs.FullTreeHead{TreeHead: &structs.TreeHead{}, AuditorTreeHead: &structs.AuditorTreeHead{Signature: sig()}}}
		},
		func() tooLong {
			return tooLong{"CombinedTreeProof timestamps", &structs.CombinedTreeProof{Timestamps: make([]uint64, over(255))}}
		},
		func() tooLong {
			return tooLong{"CombinedTreeProof proofs", &structs.CombinedTreeProof{PrefixProofs: make([]prefix.PrefixProof, over(255))}}
		},
		func() tooLong {
			return tooLong{"CombinedTreeProof roots", &structs.CombinedTreeProof{PrefixRoots: make([][]byte, over(255))}}
		},
		func() tooLong {
			return tooLong{"InclusionProof elements", &structs.InclusionProof{Elements: make([][]byte, over(65535))}}
		},
		func() tooLong {
			return tooLong{"PrefixProof elements", &prefix.PrefixProof{Elements: make([][]byte, over(65535))}}
		},
		func() tooLong {
			p := g.prefixProof()
			if len(p.Results) == 0 {
				return tooLong{"PrefixProof elements", &prefix.PrefixProof{Elements: make([][]byte, over(65535))}}
			}
			q := prefix.PrefixProof{}
			for i := over(255); i > 0; i-- {
				q.Results = append(q.Results, p.Results[i%len(p.Results)])
			}
			return tooLong{"PrefixProof results", &q}
		},
		func() tooLong {
			return tooLong{"AuditorUpdate added", &structs.AuditorUpdate{Added: make([]prefix.Entry, over(65535))}}
		},
		func() tooLong {
			return tooLong{"AuditorUpdate removed", &structs.AuditorUpdate{Removed: make([]prefix.Entry, over(65535))}}
		},
		func() tooLong {
			return tooLong{"AuditorState inserted", &auditor.AuditorState{TreeHead: structs.AuditorTreeHead{TreeSize: 1}, FullSubtrees: [][]byte{g.hash()}, Timestamps: []uint64{1}, PrefixTree: g.hash(), Inserted: make([]auditor.InsertedVrfOutput, over(65535))}}
		},
		func() tooLong {
			return tooLong{"ClientState subtrees", &structs.ClientState{FullSubtrees: make([][]byte, over(255))}}
		},
		func() tooLong {
			m := map[uint64]structs.LogEntry{}
			for i := over(255); i > 0; i-- {
				m[uint64(i)] = structs.LogEntry{}
			}
			return tooLong{"ClientState entries", &structs.ClientState{LogEntries: m}}
		},
		func() tooLong { return tooLong{"CommitmentValue label", &structs.CommitmentValue{Label: lab()}} },
		func() tooLong { return tooLong{"VrfInput label", &structs.VrfInput{Label: lab()}} },
		func() tooLong {
			return tooLong{"UpdateTBS label", &structs.UpdateTBS{Config: g.keyedConfig(), Label: lab()}}
		},
		func() tooLong {
			cfg := g.keyedConfig()
			cfg.SignatureKey = pubKey(sig())
			return tooLong{"PublicConfig signature key", cfg}
		},
		func() tooLong {
			cfg := g.keyedConfig()
			cfg.VrfKey = vrfKey(sig())
			return tooLong{"PublicConfig VRF key", cfg}
		},
		func() tooLong {
			cfg := g.keyedConfig()
			cfg.Mode = structs.ThirdPartyManagement
			cfg.LeafPublicKey = pubKey(sig())
			return tooLong{"PublicConfig leaf key", cfg}
		},
		func() tooLong {
			cfg := g.keyedConfig()
			cfg.Mode = structs.ThirdPartyAuditing
			cfg.AuditorPublicKey = pubKey(sig())
			return tooLong{"PublicConfig auditor key", cfg}
		},
	}
	tl := cases[kit.Flat(rt, len(cases), "case")]()
	c.Logf("%s", tl.name)
	c.Class(tl.name)
	c.NonTrivial()
	if raw, err := marshalAny(tl.x); err == nil {
		rt.Fatalf("%s: a value that does not fit its length field is encoded (%d bytes)", tl.name, len(raw))
	}
}

// keys with chosen bytes (the fake suite takes any bytes as a key)
func pubKey(raw []byte) suites.SigningPublicKey {
	k, _ := kit.FakeSuite{}.ParseSigningPublicKey(raw)
	return k
}
func vrfKey(raw []byte) vrfPublicKey {
	k, _ := kit.FakeSuite{}.ParseVRFPublicKey(raw)
	return k
}

type vrfPublicKey interface {
	Verify(m, proof []byte) ([]byte, error)
	Bytes() []byte
}

func (g *gen) key() []byte {
	if kit.Prob(g.rt, 5, "longKey") {
		return g.blob(kit.Int(g.rt, 0, 400, "keyLen"))
	}
	return g.blob(kit.Int(g.rt, 0, 5, "keyLen"))
}

func (g *gen) keyedConfig() *structs.PublicConfig {
	cfg := &structs.PublicConfig{SignatureKey: pubKey(g.key()), VrfKey: vrfKey(g.key()), Config: g.cfg.Config}
	switch cfg.Mode {
	case structs.ThirdPartyManagement:
		cfg.LeafPublicKey = pubKey(g.key())
	case structs.ThirdPartyAuditing:
		cfg.AuditorPublicKey = pubKey(g.key())
		cfg.MaxAuditorLag, cfg.AuditorStartPos = g.u64(), g.u64()
	}
	cfg.MaxAhead, cfg.MaxBehind, cfg.ReasonableMonitoringWindow = g.u64(), g.u64(), g.u64()
	if kit.Bool(g.rt, "lifetime") {
		cfg.MaximumLifetime = g.u64()
	}
	return cfg
}

// describeConfig lists what a configuration says, field by field.
func describeConfig(c *structs.PublicConfig) string {
	s := fmt.Sprintf("%d|%d|%x|%x|%d|%d|%d|%d", c.Suite.Id(), c.Mode, c.SignatureKey.Bytes(), c.VrfKey.Bytes(), c.MaxAhead, c.MaxBehind, c.ReasonableMonitoringWindow, c.MaximumLifetime)
	switch c.Mode {
	case structs.ThirdPartyManagement:
		s += fmt.Sprintf("|%x", c.LeafPublicKey.Bytes())
	case structs.ThirdPartyAuditing:
		s += fmt.Sprintf("|%d|%d|%x", c.MaxAuditorLag, c.AuditorStartPos, c.AuditorPublicKey.Bytes())
	}
	return s
}

// otherConfig changes one thing in a configuration.
func (g *gen) otherConfig(old *structs.PublicConfig) *structs.PublicConfig {
	cfg := *old
	bump := func(x uint64) uint64 { return x + 1 + kit.Pick(g.rt, []uint64{0, 1<<8 - 1, 1<<32 - 1, 1 << 63}, "by") }
	shift := func(a, b []byte) ([]byte, []byte) { // move a byte over a field boundary
		if len(a) > 0 {
			return a[:len(a)-1], append([]byte{a[len(a)-1]}, b...)
		}
		return append(kit.Dup(a), 7), b
	}
	flip := func(a []byte) []byte {
		if len(a) == 0 {
			return []byte{0}
		}
		a = kit.Dup(a)
		a[kit.Flat(g.rt, len(a), "at")] ^= 1 << kit.Flat(g.rt, 8, "bit")
		return a
	}
	switch kit.Flat(g.rt, 11, "configChange") {
	case 0:
		cfg.MaxAhead = bump(cfg.MaxAhead)
	case 1:
		cfg.MaxBehind = bump(cfg.MaxBehind)
	case 2:
		cfg.ReasonableMonitoringWindow = bump(cfg.ReasonableMonitoringWindow)
	case 3:
		cfg.MaximumLifetime = bump(cfg.MaximumLifetime)
	case 4:
		cfg.SignatureKey = pubKey(flip(cfg.SignatureKey.Bytes()))
	case 5:
		cfg.VrfKey = vrfKey(flip(cfg.VrfKey.Bytes()))
	case 6:
		a, b := shift(cfg.SignatureKey.Bytes(), cfg.VrfKey.Bytes())
		cfg.SignatureKey, cfg.VrfKey = pubKey(a), vrfKey(b)
	case 7:
		cfg.MaxAhead, cfg.MaxBehind, cfg.ReasonableMonitoringWindow = cfg.MaxBehind, cfg.ReasonableMonitoringWindow, cfg.MaxAhead
	case 8: // what belongs to the mode
		switch cfg.Mode {
		case structs.ThirdPartyManagement:
			cfg.LeafPublicKey = pubKey(flip(cfg.LeafPublicKey.Bytes()))
		case structs.ThirdPartyAuditing:
			switch kit.Flat(g.rt, 3, "auditing") {
			case 0:
				cfg.MaxAuditorLag = bump(cfg.MaxAuditorLag)
			case 1:
				cfg.AuditorStartPos = bump(cfg.AuditorStartPos)
			default:
				cfg.AuditorPublicKey = pubKey(flip(cfg.AuditorPublicKey.Bytes()))
			}
		}
	case 9:
		if cfg.Suite.Id() == (suites.KTSha256P256{}).Id() {
			cfg.Suite = suites.KTSha256Ed25519{}
		} else {
			cfg.Suite = suites.KTSha256P256{}
		}
	case 10: // another mode with nothing else said differently
		cfg.Mode = structs.DeploymentMode(1 + (int(cfg.Mode)+kit.Flat(g.rt, 2, "mode"))%3)
		if cfg.LeafPublicKey == nil {
			cfg.LeafPublicKey = pubKey(nil)
		}
		if cfg.AuditorPublicKey == nil {
			cfg.AuditorPublicKey = pubKey(nil)
		}
	}
	return &cfg
}

// label/version/value triples whose plain concatenations coincide.
func (g *gen) splitPair() (l1, v1 []byte, n1 uint32, l2, v2 []byte, n2 uint32) {
	// A = l1 | n1 | len(v1) | v1 with v1 = w | len(rest) | rest
	l1, n1 = g.blob(kit.Int(g.rt, 0, 6, "label")), g.u32()
	w, rest := g.blob(4+kit.Int(g.rt, 0, 4, "w")), g.blob(kit.Int(g.rt, 0, 5, "rest"))
	v1 = append(append(kit.Dup(w), be32(len(rest))...), rest...)
	s := append(append(append(kit.Dup(l1), be32(int(n1))...), be32(len(v1))...), v1...)
	at := len(s) - len(rest) - 8
	l2, n2, v2 = s[:at], binary.BigEndian.Uint32(s[at:]), rest
	return
}

func be32(x int) []byte { return binary.BigEndian.AppendUint32(nil, uint32(x)) }
func be16(x int) []byte { return binary.BigEndian.AppendUint16(nil, uint16(x)) }

// Whatever is signed, hashed, committed to or given to the VRF says exactly one
// thing: two different values never encode alike.
func propDistinct(rt *rapid.T, c *kit.Case) {
	g := &gen{rt: rt, c: c, cfg: drawWireConfig(rt)}
	small := func() []byte { return g.blob(kit.Int(rt, 0, 9, "small")) }
	change := func(b []byte) []byte {
		b = kit.Dup(b)
		switch kit.Flat(rt, 4, "change") {
		case 0:
			return append(b, byte(kit.Flat(rt, 2, "tail")))
		case 1:
			return append([]byte{byte(kit.Flat(rt, 3, "head"))}, b...)
		case 2:
			if len(b) > 0 {
				return b[:len(b)-1]
			}
		}
		if len(b) == 0 {
			return []byte{0}
		}
		b[kit.Flat(rt, len(b), "at")] ^= 1 << kit.Flat(rt, 8, "bit")
		return b
	}
	changeFixed := func(b []byte) []byte {
		b = kit.Dup(b)
		b[kit.Flat(rt, len(b), "at")] ^= 1 << kit.Flat(rt, 8, "bit")
		return b
	}
	u64 := func(x uint64) uint64 { return x ^ 1<<kit.Flat(rt, 64, "bit") }
	u32 := func(x uint32) uint32 { return x ^ 1<<kit.Flat(rt, 32, "bit") }

	var a, b structs.Marshaller
	what := ""
	switch kit.Flat(rt, 7, "type") {
	case 0:
		x := structs.VrfInput{Label: small(), Version: g.u32()}
		y := x
		what = "VrfInput label"
		if kit.Bool(rt, "version") {
			y.Version, what = u32(x.Version), "VrfInput version"
		} else {
			y.Label = change(x.Label)
			if kit.Bool(rt, "both") {
				y.Version = g.u32()
			}
		}
		a, b = &x, &y
	case 1:
		x := structs.LogEntry{Timestamp: g.u64(), PrefixTree: g.hash()}
		y := x
		what = "LogEntry root"
		if kit.Bool(rt, "timestamp") {
			y.Timestamp, what = u64(x.Timestamp), "LogEntry timestamp"
		} else {
			y.PrefixTree = changeFixed(x.PrefixTree)
		}
		a, b = &x, &y
	case 2:
		cfg := g.keyedConfig()
		x := structs.TreeHeadTBS{Config: cfg, TreeSize: g.u64(), Root: g.hash()}
		y := x
		switch kit.Flat(rt, 3, "field") {
		case 0:
			y.TreeSize, what = u64(x.TreeSize), "TreeHeadTBS size"
		case 1:
			y.Root, what = changeFixed(x.Root), "TreeHeadTBS root"
		default:
			y.Config, what = g.otherConfig(cfg), "TreeHeadTBS configuration"
		}
		a, b = &x, &y
	case 3:
		cfg := g.keyedConfig()
		x := structs.AuditorTreeHeadTBS{Config: cfg, Timestamp: g.u64(), TreeSize: g.u64(), Root: g.hash()}
		y := x
		switch kit.Flat(rt, 6, "field") {
		case 0:
			y.TreeSize, what = u64(x.TreeSize), "AuditorTreeHeadTBS size"
		case 1:
			y.Root, what = changeFixed(x.Root), "AuditorTreeHeadTBS root"
		case 2:
			y.Timestamp, what = u64(x.Timestamp), "AuditorTreeHeadTBS timestamp"
		case 3:
			y.Timestamp, y.TreeSize, what = x.TreeSize, x.Timestamp+1, "AuditorTreeHeadTBS swapped"
		case 4: // an auditor's statement is never a log's
			a, what = &structs.TreeHeadTBS{Config: cfg, TreeSize: x.TreeSize, Root: x.Root}, "AuditorTreeHeadTBS as TreeHeadTBS"
		default:
			y.Config, what = g.otherConfig(cfg), "AuditorTreeHeadTBS configuration"
		}
		if a == nil {
			a = &x
		}
		b = &y
	case 4:
		cfg := g.keyedConfig()
		x := structs.UpdateTBS{Config: cfg, Label: small(), Version: g.u32(), Value: small()}
		y := x
		switch kit.Flat(rt, 6, "field") {
		case 0:
			y.Label, what = change(x.Label), "UpdateTBS label"
		case 1:
			y.Version, what = u32(x.Version), "UpdateTBS version"
		case 2:
			y.Value, what = change(x.Value), "UpdateTBS value"
		case 3:
			y.Config, what = g.otherConfig(cfg), "UpdateTBS configuration"
		case 4:
			y.Label, y.Value, what = append(kit.Dup(x.Value), 1), x.Label, "UpdateTBS swapped"
		default:
			x.Label, x.Value, x.Version, y.Label, y.Value, y.Version = g.splitPair()
			what = "UpdateTBS split elsewhere"
		}
		a, b = &x, &y
	case 5:
		x := structs.CommitmentValue{Label: small(), Version: g.u32(), Update: structs.UpdateValue{Value: small()}}
		if g.cfg.Mode == structs.ThirdPartyManagement {
			x.Update.Signature = append([]byte{}, small()...)
		}
		y := x
		k := kit.Flat(rt, 6, "field")
		if g.cfg.Mode != structs.ThirdPartyManagement && k >= 4 {
			k = 3
		}
		switch k {
		case 0:
			y.Label, what = change(x.Label), "CommitmentValue label"
		case 1:
			y.Version, what = u32(x.Version), "CommitmentValue version"
		case 2:
			y.Update.Value, what = change(x.Update.Value), "CommitmentValue value"
		case 3:
			x.Label, x.Update.Value, x.Version, y.Label, y.Update.Value, y.Version = g.splitPair()
			what = "CommitmentValue split elsewhere"
		case 4:
			y.Update.Signature, what = change(x.Update.Signature), "CommitmentValue signature"
		default:
			inner, tail := small(), small()
			x.Update.Signature = append(append(kit.Dup(inner), be16(len(tail))...), tail...)
			y.Update.Value = append(append(kit.Dup(x.Update.Value), be16(len(x.Update.Signature))...), inner...)
			y.Update.Signature = append([]byte{}, tail...)
			what = "CommitmentValue signature split elsewhere"
		}
		a, b = &x, &y
	case 6:
		x := g.keyedConfig()
		a, b, what = x, g.otherConfig(x), "PublicConfig"
		if kit.Bool(rt, "fresh") {
			b = g.keyedConfig()
		}
	}
	if d := describe(a); d == describe(b) {
		c.Logf("equal")
		ra, err1 := structs.Marshal(a)
		rb, err2 := structs.Marshal(b)
		if err1 != nil || err2 != nil || !bytes.Equal(ra, rb) {
			rt.Fatal(clipMsg("the same %s has two encodings\n%x\n%x (%v, %v)", what, ra, rb, err1, err2))
		}
		return
	}
	ra, err := structs.Marshal(a)
	if err != nil {
		rt.Fatalf("%s: %v", what, err)
	}
	rb, err := structs.Marshal(b)
	if err != nil {
		rt.Fatalf("%s: %v", what, err)
	}
	c.Logf("%s: %s / %s", what, short(ra), short(rb))
	c.Class(what)
	c.NonTrivial()
	if bytes.Equal(ra, rb) {
		rt.Fatal(clipMsg("%s: two different values have the same encoding %x\n%s\n%s", what, ra, describe(a), describe(b)))
	}
}

func describe(m structs.Marshaller) string {
	switch x := m.(type) {
	case *structs.VrfInput:
		return fmt.Sprintf("vrf %x %d", x.Label, x.Version)
	case *structs.LogEntry:
		return fmt.Sprintf("entry %d %x", x.Timestamp, x.PrefixTree)
	case *structs.TreeHeadTBS:
		return fmt.Sprintf("head %s %d %x", describeConfig(x.Config), x.TreeSize, x.Root)
	case *structs.AuditorTreeHeadTBS:
		return fmt.Sprintf("auditor head %s %d %d %x", describeConfig(x.Config), x.Timestamp, x.TreeSize, x.Root)
	case *structs.UpdateTBS:
		return fmt.Sprintf("update %s %x %d %x", describeConfig(x.Config), x.Label, x.Version, x.Value)
	case *structs.CommitmentValue:
		return fmt.Sprintf("commitment %x %d %x %x", x.Label, x.Version, x.Update.Value, x.Update.Signature)
	case *structs.PublicConfig:
		return "config " + describeConfig(x)
	}
	panic("describe")
}

func TestP23(t *testing.T) {
	kit.Run(t, "a non-empty encoding was decoded and compared, an over-long value was refused, or two different values were compared",
		kit.Sub{Name: "roundtrip", Quick: 12000, Thorough: 500000, Prop: propRoundTrip},
		kit.Sub{Name: "toolong", Quick: 1500, Thorough: 40000, Prop: propTooLong},
		kit.Sub{Name: "distinct", Quick: 20000, Thorough: 1500000, Prop: propDistinct},
	)
}

// wild changes an encoding in ways that keep much of it intact.
func wild(rt *rapid.T, raw []byte) []byte {
	raw = kit.Dup(raw)
	for i := kit.Int(rt, 0, 3, "edits"); i > 0; i-- {
		at := 0
		if len(raw) > 0 {
			at = kit.Flat(rt, len(raw), "at")
			if kit.Bool(rt, "early") {
				at = min(at, kit.Int(rt, 0, 40, "at"))
			}
		}
		switch kit.Flat(rt, 7, "edit") {
		case 0:
			if len(raw) > 0 {
				raw[at] ^= 1 << kit.Flat(rt, 8, "bit")
			}
		case 1:
			if len(raw) > 0 {
				raw[at] = kit.Pick(rt, []byte{0, 1, 2, 3, 0x7f, 0x80, 0xfe, 0xff}, "byte")
			}
		case 2:
			raw = raw[:at]
		case 3:
			raw = append(raw[:at:at], append(kit.Bytes(rt, 0, 9, "insert"), raw[at:]...)...)
		case 4: // an extreme length or position
			n := kit.Pick(rt, []int{2, 4, 8}, "width")
			if at+n <= len(raw) {
				copy(raw[at:], bytes.Repeat([]byte{kit.Pick(rt, []byte{0, 0x7f, 0x80, 0xff}, "fill")}, n))
			}
		case 5:
			n := min(len(raw)-at, kit.Int(rt, 0, 40, "cut"))
			raw = append(raw[:at:at], raw[at+n:]...)
		case 6:
			raw = append(raw, kit.Bytes(rt, 0, 40, "append")...)
		}
	}
	return raw
}

const (
	allocPerByte = 256
	allocBase    = 8 << 20
)

func propArbitraryBytes(rt *rapid.T, c *kit.Case) {
	g := &gen{rt: rt, c: c, cfg: drawWireConfig(rt)}
	cd := codecs[kit.Flat(rt, len(codecs), "codec")]
	if cd.ctx != nil {
		g.ctx = cd.ctx(g)
	}
	var raw []byte
	if kit.Prob(rt, 25, "random") {
		raw = kit.Bytes(rt, 0, 120, "bytes")
	} else {
		other := cd
		if kit.Prob(rt, 15, "confused") {
			other = codecs[kit.Flat(rt, len(codecs), "other")]
			og := *g
			if other.ctx != nil {
				og.ctx = other.ctx(g)
			}
			b, err := marshalAny(other.gen(&og))
			if err != nil {
				rt.Fatalf("%s does not encode: %v", other.name, err)
			}
			raw = wild(rt, b)
		} else {
			b, err := marshalAny(cd.gen(g))
			if err != nil {
				rt.Fatalf("%s does not encode: %v", cd.name, err)
			}
			raw = wild(rt, b)
		}
	}
	c.Logf("%s mode %d suite %d: %s", cd.name, g.cfg.Mode, g.cfg.Suite.Id(), short(raw))
	c.Class(cd.name)
	if len(raw) > 0 {
		c.NonTrivial()
	}

	buf := bytes.NewBuffer(kit.Dup(raw))
	var x any
	var err error
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	kit.NoPanic(rt, "decoding "+cd.name, func() { x, err = cd.decode(g.cfg, g.ctx, buf) })
	runtime.ReadMemStats(&m1)
	if used := m1.TotalAlloc - m0.TotalAlloc; used > uint64(allocBase+allocPerByte*len(raw)) {
		rt.Fatal(clipMsg("%s: decoding %d bytes allocated %d\n%x", cd.name, len(raw), used, raw))
	}
	if err != nil {
		return
	}
	c.Class(cd.name + " decoded")
	consumed := raw[:len(raw)-buf.Len()]
	again, err := marshalAny(x)
	if err != nil {
		rt.Fatal(clipMsg("%s: what was decoded does not encode: %v\n%+v", cd.name, err, x))
	}
	if cd.name == "ClientState" { // its log entries are a set
		y, err := cd.decode(g.cfg, g.ctx, bytes.NewBuffer(kit.Dup(again)))
		if err != nil || !deepSame(x, y) || len(again) != len(consumed) {
			rt.Fatal(clipMsg("ClientState changed when encoded again (%v):\n%x\n%x", err, consumed, again))
		}
		return
	}
	if !bytes.Equal(again, consumed) {
		rt.Fatal(clipMsg("%s: encoding what was decoded gives\n%x\nnot\n%x", cd.name, again, consumed))
	}
}

func TestP24(t *testing.T) {
	kit.Run(t, "a non-empty byte string was handed to a decoder (mutated encodings, encodings of other structures, random bytes)",
		kit.Sub{Name: "decoders", Quick: 25000, Thorough: 1500000, Prop: propArbitraryBytes},
	)
}
