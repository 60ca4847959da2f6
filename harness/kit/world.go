package kit

import (
	"bytes"
	"context"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"sort"
	"time"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/db"
	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"pgregory.net/rapid"
)

// Ver is one live version of a label in the model.
type Ver struct {
	Value, Sig []byte
	Pos        uint64
	Vrf        []byte
	Commitment []byte
}

// Entry is one log entry in the model.
type Entry struct {
	TS     uint64
	Prefix PrefixModel
}

func (e Entry) Leaf() []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], e.TS)
	h := sha256.Sum256(append(b[:], e.Prefix.Root()...))
	return h[:]
}

// World is a simulated deployment: a Transparency Tree on some store, and the
// model of what it must contain.
type World struct {
	Config            structs.PrivateConfig
	Operator, Auditor suites.SigningPrivateKey
	Real              bool

	Store db.TransparencyStore
	Tx    *TxStore // Store, if it is the harness' own
	Ldb   *LDB     // Store, if it is the persistent one
	Tree  *transparency.Tree

	Pool    [][]byte // the labels in use
	Entries []Entry
	Log     *LogModel
	Labels  map[string][]Ver
	Gone    map[string]bool // labels removed at some time
	Updates []*structs.AuditorUpdate
	// History[i] are the live versions after entry i (shared slices).
	History []map[string][]Ver

	audited bool

	// OnRead (maybe nil) is called before each storage operation of a server
	// that processes an update.
	OnRead func(op string) error

	// MaxSleep bounds every Tick, for use without a simulated clock.
	MaxSleep uint64
}

// Opts narrows what NewWorld draws.
type Opts struct {
	Modes    []structs.DeploymentMode
	Real     int // percentage of cases with a real cipher suite
	Stores   []string
	Windows  []uint64
	NoExpiry bool
	Expiry   bool       // versions always expire
	Labels   int        // greatest number of labels
	Bounds   *[2]uint64 // MaxAhead, MaxBehind
}

const epoch = 946684800000 // the simulated clock's start

var AllModes = []structs.DeploymentMode{structs.ContactMonitoring, structs.ThirdPartyManagement, structs.ThirdPartyAuditing}

// DrawConfig draws a deployment's configuration and keys.
func (w *World) drawConfig(rt *rapid.T, c *Case, o Opts) {
	mode := Pick(rt, o.Modes, "mode")
	w.Real = o.Real > 0 && Prob(rt, o.Real, "real suite")
	var cs suites.CipherSuite = FakeSuite{SharedBits: Pick(rt, []int{0, 0, 0, 3, 17}, "shared bits")}
	if w.Real {
		if Bool(rt, "p256") {
			cs = suites.KTSha256P256{}
		} else {
			cs = suites.KTSha256Ed25519{}
		}
	}
	seed := U64(rt, 0, 1<<20, "key seed")
	key := func(tag byte) suites.SigningPrivateKey {
		k, err := cs.ParseSigningPrivateKey(H32(tag, seed))
		if err != nil {
			rt.Fatalf("harness: signing key: %v", err)
		}
		return k
	}
	vrfKey, err := cs.ParseVRFPrivateKey(H32('v', seed))
	if err != nil {
		rt.Fatalf("harness: vrf key: %v", err)
	}
	windows := o.Windows
	if windows == nil {
		windows = []uint64{0, 1, 10, 1000, 1000, 86400000, 86400000, 300000000000, epoch + 1000}
	}
	window := Pick(rt, windows, "window")
	lifetime := uint64(0)
	if o.Expiry || !o.NoExpiry && Prob(rt, 40, "expiry") {
		lifetime = window + Pick(rt, []uint64{1, 2, window/2 + 1, window, 3 * window}, "lifetime")
	}
	w.Config = structs.PrivateConfig{
		SignatureKey: key('s'), VrfKey: vrfKey,
		Config: structs.Config{
			Suite: cs, Mode: mode,
			MaxAhead: 1 << 50, MaxBehind: 1 << 50,
			ReasonableMonitoringWindow: window, MaximumLifetime: lifetime,
		},
	}
	if o.Bounds != nil {
		w.Config.MaxAhead, w.Config.MaxBehind = o.Bounds[0], o.Bounds[1]
	}
	w.Operator, w.Auditor = key('o'), key('a')
	switch mode {
	case structs.ThirdPartyManagement:
		w.Config.LeafPublicKey = w.Operator.Public()
	case structs.ThirdPartyAuditing:
		w.Config.AuditorPublicKey = w.Auditor.Public()
		w.Config.MaxAuditorLag = 1 << 50
	}
	c.Logf("mode %d suite %x window %d lifetime %d", mode, cs.Id(), window, lifetime)
}

// NewWorld draws a deployment with an empty log.
func NewWorld(rt *rapid.T, c *Case, o Opts) *World {
	w := &World{Log: NewLogModel(0, nil), Labels: map[string][]Ver{}, Gone: map[string]bool{}}
	if o.Modes == nil {
		o.Modes = AllModes
	}
	w.drawConfig(rt, c, o)
	kinds := o.Stores
	if kinds == nil {
		kinds = []string{"tx"}
	}
	switch Pick(rt, kinds, "store") {
	case "tx":
		w.Tx = NewTxStore()
		w.Store = w.Tx
	case "memory":
		w.Store = memory.NewTransparencyStore()
	case "ldb":
		l, err := OpenLDB("")
		if err != nil {
			rt.Fatalf("harness: opening store: %v", err)
		}
		w.Ldb, w.Store = l, &HookStore{TransparencyStore: l.TransparencyStore}
	}
	n := o.Labels
	if n == 0 {
		n = 5
	}
	w.Pool = DrawLabels(rt, Int(rt, 1, n, "labels"))
	w.Reopen(rt)
	return w
}

// Close releases what the world holds on disk.
func (w *World) Close() {
	if w.Ldb != nil {
		w.Ldb.Remove()
	}
}

// DrawLabels draws distinct labels, close to each other in awkward ways.
func DrawLabels(rt *rapid.T, n int) [][]byte {
	special := [][]byte{
		[]byte("alice"), []byte("alic"), {}, {0}, {0, 0}, bytes.Repeat([]byte{7}, 255), bytes.Repeat([]byte{7}, 254),
		[]byte("61"), []byte("a"), {0xff}, []byte("bob"), []byte("carol"),
	}
	var out [][]byte
	seen := map[string]bool{}
	for len(out) < n {
		var l []byte
		if k := Flat(rt, len(special)+6, "label"); k < len(special) {
			l = special[k]
		} else if k < len(special)+3 && len(out) > 0 {
			// Reads like an earlier label followed by a version number.
			base := Pick(rt, out, "base")
			l = append(Dup(base), Pick(rt, []string{"1", "1", "2", "3", ":1", "-1", "/1", "\x001", "\x00"}, "suffix")...)
			if len(l) > 255 {
				l = Bytes(rt, 1, 9, "label bytes")
			}
		} else {
			l = Bytes(rt, 1, 9, "label bytes")
		}
		if seen[string(l)] {
			l = append(Dup(l), byte(len(out)))
			if len(l) > 255 || seen[string(l)] {
				l = []byte(fmt.Sprintf("label %d", len(out)))
			}
		}
		seen[string(l)] = true
		out = append(out, l)
	}
	return out
}

// Reopen starts the server anew from what the store holds.
func (w *World) Reopen(rt *rapid.T) {
	if w.Tx != nil {
		w.Tx = w.Tx.Restart()
		w.Store = w.Tx
	}
	if w.Ldb != nil {
		dir := w.Ldb.Dir
		w.Ldb.Close()
		l, err := OpenLDB(dir)
		if err != nil {
			rt.Fatalf("reopening the persistent store failed: %v", err)
		}
		w.Ldb, w.Store = l, &HookStore{TransparencyStore: l.TransparencyStore}
	}
	w.Load(rt)
}

// Load makes a new Tree on the store.
func (w *World) Load(rt *rapid.T) {
	t, err := transparency.NewTree(w.Config, w.Store, nil)
	if err != nil {
		rt.Fatalf("loading the tree failed: %v", err)
	}
	w.Tree = t
}

// Fork is an independent copy of the world (on the harness' own store only).
func (w *World) Fork(rt *rapid.T) *World {
	out := *w
	out.OnRead = nil
	out.Tx = w.Tx.Snapshot()
	out.Store = out.Tx
	out.Entries = append([]Entry{}, w.Entries...)
	log := *w.Log
	log.Leaves = append([][]byte{}, w.Log.Leaves...)
	out.Log = NewLogModel(0, nil)
	out.Log.Leaves = log.Leaves
	out.Labels = cloneLabels(w.Labels)
	out.Gone = map[string]bool{}
	for k, v := range w.Gone {
		out.Gone[k] = v
	}
	out.Updates = append([]*structs.AuditorUpdate{}, w.Updates...)
	out.History = append([]map[string][]Ver{}, w.History...)
	out.Load(rt)
	return &out
}

func cloneLabels(m map[string][]Ver) map[string][]Ver {
	out := make(map[string][]Ver, len(m))
	for k, v := range m {
		out[k] = append([]Ver{}, v...)
	}
	return out
}

func (w *World) N() uint64 { return uint64(len(w.Entries)) }

// Now is the simulated clock.
func Now() uint64 { return uint64(time.Now().UnixMilli()) }

// maxClock keeps the simulated clock away from the end of representable time.
const maxClock = epoch + 200*365*86400*1000

// Tick lets some time pass.
func (w *World) Tick(rt *rapid.T, c *Case) {
	win := w.Config.ReasonableMonitoringWindow
	var d uint64
	switch Flat(rt, 10, "tick") {
	case 0, 1:
		d = 0
	case 2, 3, 4:
		d = U64(rt, 0, win/3+1, "ms")
	case 5:
		d = win - 1
	case 6:
		d = win
	case 7:
		d = U64(rt, 0, 3*win, "ms")
	case 8:
		d = w.Config.MaximumLifetime
	default:
		d = win/2 + 1
	}
	w.Sleep(c, d)
}

func (w *World) Sleep(c *Case, ms uint64) {
	if w.MaxSleep > 0 {
		ms = min(ms, w.MaxSleep)
	}
	if Now()+ms > maxClock {
		return
	}
	if ms > 0 {
		time.Sleep(time.Duration(ms) * time.Millisecond)
		c.Logf("+%dms", ms)
	}
}

// VrfInput is the encoding the VRF is evaluated on.
func VrfInput(label []byte, ver uint32) []byte {
	out := append([]byte{byte(len(label))}, label...)
	return binary.BigEndian.AppendUint32(out, ver)
}

// CommitmentBody is the encoding a commitment covers.
func CommitmentBody(label []byte, ver uint32, value, sig []byte, managed bool) []byte {
	out := append([]byte{byte(len(label))}, label...)
	out = binary.BigEndian.AppendUint32(out, ver)
	out = binary.BigEndian.AppendUint32(out, uint32(len(value)))
	out = append(out, value...)
	if managed {
		out = binary.BigEndian.AppendUint16(out, uint16(len(sig)))
		out = append(out, sig...)
	}
	return out
}

// Opens says whether opening opens commitment to the given version.
func (w *World) Opens(opening, label []byte, ver uint32, value, sig, commitment []byte) bool {
	m := hmac.New(sha256.New, w.Config.Suite.CommitmentFixedBytes())
	m.Write(opening)
	m.Write(CommitmentBody(label, ver, value, sig, w.Config.Mode == structs.ThirdPartyManagement))
	return hmac.Equal(m.Sum(nil), commitment)
}

func (w *World) Vrf(label []byte, ver uint32) []byte {
	out, _ := w.Config.VrfKey.Prove(VrfInput(label, ver))
	return out
}

// Sign is the operator's signature on a value in third-party management mode
// (nil otherwise).
func (w *World) Sign(rt *rapid.T, label []byte, ver uint32, value []byte) []byte {
	if w.Config.Mode != structs.ThirdPartyManagement {
		return nil
	}
	tbs, err := structs.Marshal(&structs.UpdateTBS{Config: w.Config.Public(), Label: label, Version: ver, Value: value})
	if err != nil {
		rt.Fatalf("harness: %v", err)
	}
	sig, err := w.Operator.Sign(tbs)
	if err != nil {
		rt.Fatalf("harness: %v", err)
	}
	return sig
}

// DrawValue draws a label value.
func DrawValue(rt *rapid.T) []byte {
	switch Flat(rt, 8, "value") {
	case 0:
		return []byte{}
	case 1:
		return Bytes(rt, 40, 200, "value")
	}
	return Bytes(rt, 1, 6, "value")
}

// Batch is one mutation request.
type Batch struct {
	Add    []transparency.LabelValue
	Remove [][]byte
}

// DrawAdds draws additions; the signature of each is for the version number it
// will get.
func (w *World) DrawAdds(rt *rapid.T, max int, removed map[string]bool) []transparency.LabelValue {
	n := Int(rt, 0, max, "adds")
	var out []transparency.LabelValue
	next := map[string]int{}
	for i := 0; i < n; i++ {
		l := Pick(rt, w.Pool, "label")
		reps := 1
		if Prob(rt, 10, "many") {
			reps = Int(rt, 2, 9, "reps")
		}
		for j := 0; j < reps; j++ {
			if _, ok := next[string(l)]; !ok {
				next[string(l)] = len(w.Labels[string(l)])
				if removed[string(l)] {
					next[string(l)] = 0
				}
			}
			v := DrawValue(rt)
			out = append(out, transparency.LabelValue{Label: Dup(l), Value: structs.UpdateValue{
				Value: v, UpdateSuffix: structs.UpdateSuffix{Signature: w.Sign(rt, l, uint32(next[string(l)]), v)},
			}})
			next[string(l)]++
		}
	}
	return out
}

// Distinguished is the definition of the distinguished entries.
func Distinguished(ts []uint64, window uint64) map[uint64]bool {
	out := map[uint64]bool{}
	var rec func(lo, hi int, left, right uint64)
	rec = func(lo, hi int, left, right uint64) {
		if lo >= hi || right-left < window {
			return
		}
		p := 1
		for p*2 <= hi-lo {
			p *= 2
		}
		x := lo + p - 1
		out[uint64(x)] = true
		rec(lo, x, left, ts[x])
		rec(x+1, hi, ts[x], right)
	}
	if len(ts) > 0 {
		rec(0, len(ts), 0, ts[len(ts)-1])
	}
	return out
}

func (w *World) Timestamps() []uint64 {
	out := make([]uint64, len(w.Entries))
	for i, e := range w.Entries {
		out[i] = e.TS
	}
	return out
}

// DLEs are the log's distinguished entries.
func (w *World) DLEs() map[uint64]bool {
	return Distinguished(w.Timestamps(), w.Config.ReasonableMonitoringWindow)
}

// RightmostDLE is the greatest distinguished entry below limit, or -1.
func RightmostDLE(set map[uint64]bool, limit uint64) int64 {
	best := int64(-1)
	for x := range set {
		if x < limit && int64(x) > best {
			best = int64(x)
		}
	}
	return best
}

// RemovalAllowed says whether a label may be removed by a mutation made now:
// its newest version must be covered by a distinguished entry of the log
// including the new entry, other than the new entry itself.
func (w *World) RemovalAllowed(label []byte) bool {
	vers := w.Labels[string(label)]
	if len(vers) == 0 {
		return true // nothing to do
	}
	ts := append(w.Timestamps(), Now())
	d := RightmostDLE(Distinguished(ts, w.Config.ReasonableMonitoringWindow), w.N())
	return int64(vers[len(vers)-1].Pos) <= d
}

func (b Batch) String() string {
	s := "mutate("
	for _, a := range b.Add {
		s += fmt.Sprintf("+%s=%s ", short(a.Label), short(a.Value.Value))
	}
	for _, r := range b.Remove {
		s += fmt.Sprintf("-%s ", short(r))
	}
	return s + ")"
}

// Short abbreviates a label or value for the log of a case.
func Short(b []byte) string { return short(b) }

func short(b []byte) string {
	if len(b) > 8 {
		return fmt.Sprintf("%q…%d", b[:8], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// Removed is the set of live labels the batch removes.
func (w *World) Removed(b Batch) map[string]bool {
	out := map[string]bool{}
	for _, l := range b.Remove {
		out[string(l)] = true
	}
	return out
}

// Expect is the model after b is accepted, but without the commitments, which
// only the log knows: added and removed versions in VRF order.
func (w *World) expect(b Batch) (labels map[string][]Ver, added, removed []Ver) {
	labels = make(map[string][]Ver, len(w.Labels))
	for k, v := range w.Labels {
		labels[k] = v
	}
	for l := range w.Removed(b) {
		removed = append(removed, labels[l]...)
		delete(labels, l)
	}
	for _, a := range b.Add {
		l := string(a.Label)
		vs := append([]Ver{}, labels[l]...)
		v := Ver{Value: Dup(a.Value.Value), Sig: Dup(a.Value.Signature), Pos: w.N(), Vrf: w.Vrf(a.Label, uint32(len(vs)))}
		labels[l] = append(vs, v)
		added = append(added, v)
	}
	byVrf := func(vs []Ver) {
		sort.Slice(vs, func(i, j int) bool { return bytes.Compare(vs[i].Vrf, vs[j].Vrf) < 0 })
	}
	byVrf(added)
	byVrf(removed)
	return
}

// Mutate makes the server apply b and follows with the model. The commitments
// are taken from the audit update.
func (w *World) Mutate(rt *rapid.T, c *Case, b Batch) (*structs.AuditorUpdate, error) {
	c.Logf("%s", b)
	var au *structs.AuditorUpdate
	var err error
	NoPanic(rt, "Mutate", func() { au, err = w.Tree.Mutate(b.Add, b.Remove) })
	if err != nil {
		return nil, err
	}
	w.Follow(b, au)
	return au, nil
}

// Follow updates the model after an accepted mutation.
func (w *World) Follow(b Batch, au *structs.AuditorUpdate) {
	com := map[string][]byte{}
	for _, e := range au.Added {
		com[string(e.VrfOutput)] = e.Commitment
	}
	labels, added, removed := w.expect(b)
	prefix := PrefixModel{}
	if n := len(w.Entries); n > 0 {
		prefix = w.Entries[n-1].Prefix
	}
	if len(added)+len(removed) > 0 {
		prefix = prefix.Clone()
	}
	for _, v := range removed {
		delete(prefix, string(v.Vrf))
	}
	for _, v := range added {
		prefix[string(v.Vrf)] = com[string(v.Vrf)]
	}
	for l, vs := range labels {
		for i := range vs {
			if vs[i].Commitment == nil {
				vs[i].Commitment = com[string(vs[i].Vrf)]
			}
		}
		labels[l] = vs
	}
	for l := range w.Removed(b) {
		if len(w.Labels[l]) > 0 {
			w.Gone[l] = true
		}
	}
	w.Labels = labels
	w.Entries = append(w.Entries, Entry{TS: au.Timestamp, Prefix: prefix})
	w.Log.Leaves = append(w.Log.Leaves, w.Entries[len(w.Entries)-1].Leaf())
	w.Updates = append(w.Updates, au)
	w.History = append(w.History, labels)
}

// CheckHead verifies the published tree head against the model.
func (w *World) CheckHead(rt *rapid.T) {
	h := w.Tree.TreeHead()
	if w.N() == 0 {
		if h != nil {
			rt.Fatalf("an empty log publishes a tree head of size %d", h.TreeSize)
		}
		return
	}
	if h == nil || h.TreeSize != w.N() {
		rt.Fatalf("the published tree head is %+v, the log has %d entries", h, w.N())
	}
	tbs, err := structs.Marshal(&structs.TreeHeadTBS{Config: w.Config.Public(), TreeSize: w.N(), Root: w.Log.Root(w.N())})
	if err != nil {
		rt.Fatalf("harness: %v", err)
	}
	if !w.Config.SignatureKey.Public().Verify(tbs, h.Signature) {
		rt.Fatalf("the signature of the tree head of size %d does not cover the root of the log's entries", w.N())
	}
}

// CheckVersion asks the server for one version and compares with the model.
func (w *World) CheckVersion(rt *rapid.T, label []byte, ver int) {
	vs := w.Labels[string(label)]
	req := &structs.SearchRequest{Label: label, Version: Ptr(uint32(ver))}
	res, err := w.Search(rt, req)
	if err != nil {
		if ver < len(vs) && w.Config.MaximumLifetime > 0 {
			return // may be expired
		}
		rt.Fatalf("search for version %d of %s failed: %v", ver, short(label), err)
	}
	w.checkValue(rt, label, ver, vs, res)
}

// CheckGreatest asks for the greatest version.
func (w *World) CheckGreatest(rt *rapid.T, label []byte) {
	vs := w.Labels[string(label)]
	res, err := w.Search(rt, &structs.SearchRequest{Label: label})
	if err != nil {
		rt.Fatalf("search for the greatest version of %s failed: %v", short(label), err)
	}
	want := max(len(vs)-1, 0)
	if res.Version == nil || int(*res.Version) != want {
		rt.Fatalf("greatest version of %s is reported as %v, it is %d", short(label), res.Version, len(vs)-1)
	}
	w.checkValue(rt, label, want, vs, res)
}

func (w *World) checkValue(rt *rapid.T, label []byte, ver int, vs []Ver, res *structs.SearchResponse) {
	if ver >= len(vs) {
		if len(res.Value.Value) > 0 {
			rt.Fatalf("version %d of %s does not exist but the answer carries the value %q", ver, short(label), res.Value.Value)
		}
		return
	}
	v := vs[ver]
	if !bytes.Equal(res.Value.Value, v.Value) || !bytes.Equal(res.Value.Signature, v.Sig) {
		rt.Fatalf("version %d of %s is %q, it was set to %q", ver, short(label), res.Value.Value, v.Value)
	}
	if !w.Opens(res.Opening, label, uint32(ver), v.Value, v.Sig, v.Commitment) {
		rt.Fatalf("the opening served for version %d of %s does not open its commitment", ver, short(label))
	}
}

func (w *World) Search(rt *rapid.T, req *structs.SearchRequest) (res *structs.SearchResponse, err error) {
	if !w.audited && w.N() > 0 {
		// Where there is an auditor, nothing is served before its first head.
		w.KeepAudited(rt)
		w.audited = true
	}
	NoPanic(rt, "Search", func() { res, err = w.Tree.Search(context.Background(), req) })
	return
}
