package kit

import (
	"crypto/hmac"
	"crypto/sha256"
	"errors"
	"slices"

	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency/algorithms"
	"github.com/Bren2010/katie/tree/transparency/math"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"pgregory.net/rapid"
)

// This file is an operator that tries to get past the owner of a label: it runs
// the owner's algorithms on its false log without minding what they find.

// shameless is a proof handle that pretends that every search ends as the owner
// expects, and stops where it wants.
type shameless struct {
	*algorithms.ProducedProofHandle
	honest  bool // does not pretend anything
	nothing bool // the owner expects no version yet
	ladders int
	limit   int // number of ladders after which to stop (-1: never)

	index []uint64
	skimp func(vers, all []uint32) []uint32 // other versions to look up instead of vers
}

// drawSkimp draws a way to prove less (or more) than is asked for: avoid is left
// out preferably.
func drawSkimp(rt *rapid.T, avoid int64) func(vers, all []uint32) []uint32 {
	every := Bool(rt, "skimps everywhere")
	how := Flat(rt, 8, "way to skimp")
	return func(vers, all []uint32) []uint32 {
		if len(vers) == 0 || !every && Bool(rt, "not here") {
			return vers
		}
		out := slices.Clone(vers)
		at := Flat(rt, len(out), "version left out")
		if avoid >= 0 && how < 5 {
			if i := slices.Index(out, uint32(avoid)); i >= 0 {
				at = i
			} else if Bool(rt, "leave the others") {
				return vers
			}
		}
		switch how {
		case 0, 1:
			return slices.Delete(out, at, at+1)
		case 2:
			return out[:at]
		case 3:
			return nil
		case 4: // another one instead
			if len(all) > 0 {
				out[at] = Pick(rt, all, "instead")
			}
			return out
		case 5: // more of the same
			if i := slices.Index(all, out[len(out)-1]); i >= 0 && i+1 < len(all) {
				return append(out, all[i+1:][:1+Flat(rt, len(all)-i-1, "more")]...)
			}
			return append(out, out[at])
		case 6:
			return slices.Clone(all)
		default:
			return out[:len(out)-1]
		}
	}
}

func (h *shameless) GetInclusionProof(x uint64, vers []uint32) ([]byte, error) {
	if h.skimp != nil {
		vers = h.skimp(vers, vers)
	}
	return h.ProducedProofHandle.GetInclusionProof(x, vers)
}

func (h *shameless) GetMonitoringBinaryLadder(x uint64, ver uint32) ([]byte, error) {
	if h.skimp != nil {
		return h.ProducedProofHandle.GetInclusionProof(x, h.skimp(math.MonitoringBinaryLadder(ver), OwnLadder(int(ver))))
	}
	return h.ProducedProofHandle.GetMonitoringBinaryLadder(x, ver)
}

// search is what the real handle does, except for the versions looked up.
func (h *shameless) search(x uint64, ver uint32, omit bool) ([]byte, int, error) {
	if h.skimp == nil {
		return h.ProducedProofHandle.GetSearchBinaryLadder(x, ver, omit)
	}
	greatest := -1
	for _, pos := range h.index {
		if pos <= x {
			greatest++
		}
	}
	left, right := h.Tracker().SearchMaps(x, omit)
	ladder, res := []uint32{0}, 0
	if greatest >= 0 {
		ladder = math.SearchBinaryLadder(ver, uint32(greatest), left, right)
	}
	if greatest < int(ver) {
		res = -1
	} else if greatest > int(ver) {
		res = 1
	}
	ladder = h.skimp(ladder, math.SearchBinaryLadder(ver, ver, left, right))
	root, err := h.ProducedProofHandle.GetInclusionProof(x, ladder)
	h.Tracker().AddLadder(x, omit, greatest, ladder)
	return root, res, err
}

func (h *shameless) GetSearchBinaryLadder(x uint64, ver uint32, omit bool) ([]byte, int, error) {
	root, res, err := h.search(x, ver, omit)
	h.ladders++
	if h.honest {
		return root, res, err
	}
	if h.nothing {
		return root, -1, err
	}
	return root, 0, err
}

func (h *shameless) StopCondition(x uint64, ver int) bool {
	h.nothing = ver < 0
	return h.limit >= 0 && h.ladders >= h.limit
}

// dutiful is the avoid of a prover that looks up everything it should.
const dutiful = -2

// prove makes a proof about the real log by running f.
// If it skimps on that, it avoids to look up avoid (-1: no matter which).
func (w *World) prove(rt *rapid.T, last *uint64, label []byte, index []uint64, limit int, avoid int64, f func(*shameless, *algorithms.Monitor, *algorithms.DataProvider) error) (fth structs.FullTreeHead, proof *structs.CombinedTreeProof) {
	n := w.N()
	var nP *uint64
	if last == nil || *last != n {
		fth.TreeHead = w.SignHead(rt, n)
		if w.Config.Mode == structs.ThirdPartyAuditing {
			fth.AuditorTreeHead = w.SignAuditorHead(rt, w.Auditor, n, w.Entries[n-1].TS, w.Log.Root(n))
			nP = &fth.AuditorTreeHead.TreeSize
		}
	}
	h := &shameless{ProducedProofHandle: algorithms.NewProducedProofHandle(w.Config.Suite, w.Tx, index), limit: limit, index: index}
	if avoid >= 0 || avoid != dutiful && Prob(rt, 25, "skimps") {
		h.skimp = drawSkimp(rt, avoid)
	}
	provider := algorithms.NewDataProvider(w.Config.Suite, h)
	if last != nil {
		kept := map[uint64]structs.LogEntry{}
		for _, x := range math.Frontier(*last) {
			kept[x] = structs.LogEntry{Timestamp: w.Entries[x].TS, PrefixTree: w.Entries[x].Prefix.Root()}
		}
		if err := provider.AddRetained(nil, kept); err != nil {
			return
		}
	}
	if err := algorithms.UpdateView(w.Config.Public(), n, last, provider); err != nil {
		return
	}
	m, err := algorithms.NewMonitor(w.Config.Public(), n, provider)
	if err != nil {
		return
	}
	if err := f(h, m, provider); err != nil {
		return
	}
	for ver := range h.RequiredVersions() {
		if h.AddVersion(ver, w.Vrf(label, ver)) != nil {
			return
		}
	}
	if out, err := provider.Output(n, nP, last); err == nil {
		proof = out
	}
	return
}

// ProveAnyway is the response of a server that runs a search to its end although
// it finds the version to have expired. res is what a server without a lifetime
// answers.
func (w *World) ProveAnyway(rt *rapid.T, p *Pending, res *structs.SearchResponse) structs.Marshaller {
	var index []uint64
	for _, v := range w.Labels[string(p.Label)] {
		index = append(index, v.Pos)
	}
	fth, proof := w.prove(rt, p.Search.Last, p.Label, index, -1, dutiful, func(h *shameless, _ *algorithms.Monitor, provider *algorithms.DataProvider) error {
		h.honest = true
		_, err := algorithms.FixedVersionSearch(w.Config.Public(), *p.Ver, w.N(), provider)
		if errors.Is(err, algorithms.ErrLabelExpired) || errors.Is(err, algorithms.ErrLabelNotFound) {
			return nil
		}
		return err
	})
	if proof == nil {
		return nil
	}
	out := DeepCopy(res)
	out.FullTreeHead, out.Search = fth, *proof
	vs := w.Labels[string(p.Label)]
	for i, ver := range math.SearchBinaryLadder(*p.Ver, *p.Ver, nil, nil) {
		if ver != *p.Ver && int(ver) < len(vs) {
			out.BinaryLadder[i].Commitment = vs[ver].Commitment
		}
	}
	return p.Recode(rt, w, out)
}

// EvilMonitor answers an owner monitoring request. index is where the operator
// pretends versions to be, owner what the client believes.
func (w *World) EvilMonitor(rt *rapid.T, p *Pending, index []uint64, owner *structs.LabelOwnerState, limit int) structs.Marshaller {
	req := p.Mon.(*structs.OwnerMonitorRequest)
	fth, proof := w.prove(rt, req.Last, p.Label, index, limit, -1, func(h *shameless, m *algorithms.Monitor, _ *algorithms.DataProvider) error {
		m.Contact = algorithms.NewContactState(req.Entries)
		m.Owner = algorithms.NewOwnerState(DeepCopy(owner))
		if err := m.ContactMonitor(); err != nil {
			return err
		}
		return m.OwnerMonitor()
	})
	if proof == nil {
		return nil
	}
	return p.Recode(rt, w, &structs.OwnerMonitorResponse{FullTreeHead: fth, Monitor: *proof})
}

// EvilContact answers a contact monitoring request, skimping on what to prove.
// index is where the operator pretends versions to be.
func (w *World) EvilContact(rt *rapid.T, p *Pending, index []uint64, avoid int64) structs.Marshaller {
	req := p.Mon.(*structs.ContactMonitorRequest)
	fth, proof := w.prove(rt, req.Last, p.Label, index, -1, avoid, func(h *shameless, m *algorithms.Monitor, _ *algorithms.DataProvider) error {
		m.Contact = algorithms.NewContactState(req.Entries)
		return m.ContactMonitor()
	})
	if proof == nil {
		return nil
	}
	return p.Recode(rt, w, &structs.ContactMonitorResponse{FullTreeHead: fth, Monitor: *proof})
}

// EvilSearch answers a search with a false value, opening or signature, and
// proofs that rather do not look the version up. honest is the right answer.
func (w *World) EvilSearch(rt *rapid.T, p *Pending, honest *structs.SearchResponse) structs.Marshaller {
	target := uint32(0)
	if p.Ver != nil {
		target = *p.Ver
	} else if honest.Version != nil {
		target = *honest.Version
	}
	fth, proof := w.prove(rt, p.Search.Last, p.Label, w.IndexOf(p.Label), -1, int64(target), func(h *shameless, _ *algorithms.Monitor, provider *algorithms.DataProvider) (err error) {
		h.honest = true
		if p.Ver == nil {
			_, err = algorithms.GreatestVersionSearch(w.Config.Public(), target, w.N(), provider)
		} else {
			_, err = algorithms.FixedVersionSearch(w.Config.Public(), target, w.N(), provider)
		}
		if errors.Is(err, algorithms.ErrLabelExpired) || errors.Is(err, algorithms.ErrLabelNotFound) {
			return nil
		}
		return err
	})
	if proof == nil {
		return nil
	}
	out := DeepCopy(honest)
	out.FullTreeHead, out.Search = fth, *proof
	switch Flat(rt, 4, "what is false") {
	case 0, 1:
		out.Value.Value = MangleBytes(rt, out.Value.Value)
		if w.Config.Mode == structs.ThirdPartyManagement {
			out.Value.Signature = w.Sign(rt, p.Label, target, out.Value.Value)
		}
	case 2:
		out.Opening = MangleBytes(rt, out.Opening)
	}
	return p.Recode(rt, w, out)
}

// NewVersions are versions that an operator is about to insert for an owner.
type NewVersions struct {
	First   uint32
	Entries []prefix.Entry
	Info    []structs.UpdateInfo
	Vers    []Ver
	Avoid   *uint32 // a version better not looked up
}

// MakeVersions commits to values as the next versions after greatest.
func (w *World) MakeVersions(rt *rapid.T, label []byte, greatest int, values [][]byte, tag byte) *NewVersions {
	out := &NewVersions{First: uint32(greatest + 1)}
	for i, val := range values {
		ver := out.First + uint32(i)
		sig := w.Sign(rt, label, ver, val)
		opening := H32(tag, uint64(ver))[:w.Config.Suite.CommitmentOpeningSize()]
		m := hmac.New(sha256.New, w.Config.Suite.CommitmentFixedBytes())
		m.Write(opening)
		m.Write(CommitmentBody(label, ver, val, sig, w.Config.Mode == structs.ThirdPartyManagement))
		com := m.Sum(nil)
		vrf := w.Vrf(label, ver)
		out.Entries = append(out.Entries, prefix.Entry{VrfOutput: vrf, Commitment: com})
		out.Info = append(out.Info, structs.UpdateInfo{Opening: opening, UpdateSuffix: structs.UpdateSuffix{Signature: sig}})
		out.Vers = append(out.Vers, Ver{Value: val, Sig: sig, Pos: w.N(), Vrf: vrf, Commitment: com})
	}
	return out
}

// EvilInsert adds an owner's new versions to the log, whatever is there.
func (w *World) EvilInsert(rt *rapid.T, label []byte, nv *NewVersions) {
	labels := cloneLabels(w.Labels)
	labels[string(label)] = append(labels[string(label)][:nv.First:nv.First], nv.Vers...)
	w.Labels = labels
	var gone [][]byte
	for _, e := range nv.Entries {
		if _, ok := w.Entries[w.N()-1].Prefix[string(e.VrfOutput)]; ok {
			gone = append(gone, e.VrfOutput)
		}
	}
	w.Tx.Edit("i"+string(label), func([]byte) []byte { return EncodeIndex(w.IndexOf(label)) })
	w.EvilEntry(rt, Now(), nv.Entries, gone)
}

// EvilUpdate answers an update request with the claim that the versions were
// inserted at pos.
func (w *World) EvilUpdate(rt *rapid.T, p *Pending, index []uint64, owner *structs.LabelOwnerState, pos uint64, nv *NewVersions) structs.Marshaller {
	avoid := int64(-1)
	if nv.Avoid != nil {
		avoid = int64(*nv.Avoid)
	}
	if pos >= w.N() {
		return nil
	}
	fth, proof := w.prove(rt, p.Update.Last, p.Label, index, -1, avoid, func(h *shameless, m *algorithms.Monitor, _ *algorithms.DataProvider) error {
		m.Owner = algorithms.NewOwnerState(DeepCopy(owner))
		h.nothing = m.Owner.GreatestVersion() < 0
		if pos == 0 {
			return errors.New("there is no previous tree")
		} else if k := len(m.Owner.UpcomingVers); k > 0 {
			m.Owner.UpcomingVers[k-1] = min(m.Owner.UpcomingVers[k-1], pos-1)
		} else {
			m.Owner.Starting = min(m.Owner.Starting, pos-1)
		}
		// The last ladder, in the new entry, is expected to succeed.
		return m.Update(pos, len(nv.Info))
	})
	if proof == nil {
		return nil
	}
	res := &structs.UpdateResponse{FullTreeHead: fth, Position: pos, Info: nv.Info, Update: *proof}
	for _, ver := range UpdateLadder(nv.First, nv.First+uint32(len(nv.Info))-1) {
		_, vp := w.Config.VrfKey.Prove(VrfInput(p.Label, ver))
		step := structs.BinaryLadderStep{Proof: vp}
		if ver < nv.First {
			step.Commitment = w.Entries[pos].Prefix[string(w.Vrf(p.Label, ver))]
		}
		res.BinaryLadder = append(res.BinaryLadder, step)
	}
	return p.Recode(rt, w, res)
}

// UpdateLadder are the versions whose VRF proofs an update response carries.
func UpdateLadder(first, last uint32) []uint32 {
	set := map[uint32]bool{}
	for _, v := range math.SearchBinaryLadder(last, last, nil, nil) {
		set[v] = true
	}
	for v := first; v < last; v++ {
		set[v] = true
	}
	if first == 0 {
		delete(set, 0)
	} else {
		for _, v := range math.SearchBinaryLadder(first-1, first-1, nil, nil) {
			delete(set, v)
		}
	}
	var out []uint32
	for v := range set {
		out = append(out, v)
	}
	slices.Sort(out)
	return out
}

// OwnLadder are the versions that decide whether greatest (-1: none) is the
// greatest version.
func OwnLadder(greatest int) []uint32 {
	if greatest < 0 {
		return []uint32{0}
	}
	return math.SearchBinaryLadder(uint32(greatest), uint32(greatest), nil, nil)
}

// OwnedAt is the greatest version that an owner expects in entry x.
func OwnedAt(o *structs.LabelOwnerState, x uint64) int {
	g := o.VerAtStarting
	for _, pos := range o.UpcomingVers {
		if pos <= x {
			g++
		}
	}
	return g
}

// Surprise says whether entry x is not what the owner of label expects, if the
// greatest version there should be g: some version that a search for g looks up
// should not be there, or should but is not, or has another value.
func (w *World) Surprise(label []byte, x uint64, g int, values bool) bool {
	for _, ver := range OwnLadder(g) {
		com, there := w.Entries[x].Prefix[string(w.Vrf(label, ver))]
		if there != (int64(ver) <= int64(g)) {
			return true
		}
		if there && values && string(com) != string(w.Labels[string(label)][ver].Commitment) {
			return true
		}
	}
	return false
}

// InitEntries are the entries that initialising ownership at start inspects in
// a log of size n, and whether start has not expired.
func (w *World) InitEntries(start, n uint64) (xs []uint64, ok bool) {
	ts, life := w.Timestamps()[:n], w.Config.MaximumLifetime
	for _, y := range pathTo(start, n) {
		if y <= start && !(life > 0 && ts[n-1]-ts[y] >= life) {
			xs = append([]uint64{y}, xs...)
		}
	}
	return xs, len(xs) > 0 && xs[0] == start
}

// EvilInit answers a request to initialise ownership with the claim that vers
// (-1: none) are the greatest versions in the entries that are inspected,
// looking up what seems best for that.
func (w *World) EvilInit(rt *rapid.T, p *Pending, vers []int) structs.Marshaller {
	xs, _ := w.InitEntries(p.Init.Start, w.N())
	fth, proof := w.prove(rt, p.Init.Last, p.Label, w.IndexOf(p.Label), -1, -1, func(_ *shameless, m *algorithms.Monitor, provider *algorithms.DataProvider) error {
		for _, x := range pathTo(p.Init.Start, w.N()) {
			if _, err := provider.GetTimestamp(x); err != nil {
				return err
			}
		}
		for i, x := range xs {
			g := -1
			if i < len(vers) {
				g = vers[i]
			}
			var due []uint32
			for _, v := range OwnLadder(g) {
				due = append(due, v)
				_, there := w.Entries[x].Prefix[string(w.Vrf(p.Label, v))]
				if there != (int64(v) <= int64(g)) {
					break // the rest would not even be looked at
				}
			}
			if err := provider.GetInclusionProof(x, due); err != nil {
				return err
			}
		}
		return nil
	})
	if proof == nil {
		return nil
	}
	res := &structs.OwnerInitResponse{FullTreeHead: fth, Init: *proof}
	set := map[uint32]bool{0: true}
	for _, g := range vers {
		if g < 0 {
			break
		}
		res.GreatestVersions = append(res.GreatestVersions, uint32(g))
		for _, v := range OwnLadder(g) {
			set[v] = true
		}
	}
	var all []uint32
	for v := range set {
		all = append(all, v)
	}
	slices.Sort(all)
	for _, v := range all {
		_, vp := w.Config.VrfKey.Prove(VrfInput(p.Label, v))
		step := structs.BinaryLadderStep{Proof: vp}
		for _, x := range xs {
			if com, ok := w.Entries[x].Prefix[string(w.Vrf(p.Label, v))]; ok && step.Commitment == nil {
				step.Commitment = com
			}
		}
		if step.Commitment == nil && slices.Contains(res.GreatestVersions, v) {
			step.Commitment = H32('i', uint64(v))
		}
		res.BinaryLadder = append(res.BinaryLadder, step)
	}
	return p.Recode(rt, w, res)
}
