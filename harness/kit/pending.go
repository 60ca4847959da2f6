package kit

import (
	"bytes"
	"fmt"

	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/tree/transparency/wire"
	"pgregory.net/rapid"
)

// Pending is a request a client made and can verify a response to.
type Pending struct {
	User   *User
	Kind   string
	Label  []byte
	Ver    *uint32 // of a fixed-version search
	Search *structs.SearchRequest
	Mon    structs.Marshaller // contact or owner monitoring request
	Init   *structs.OwnerInitRequest
	Update *structs.UpdateRequest

	verify func(structs.Marshaller) error
}

// Last is the tree size the request advertises.
func (p *Pending) Last() *uint64 {
	switch {
	case p.Search != nil:
		return p.Search.Last
	case p.Init != nil:
		return p.Init.Last
	case p.Update != nil:
		return p.Update.Last
	}
	switch m := p.Mon.(type) {
	case *structs.ContactMonitorRequest:
		return m.Last
	case *structs.OwnerMonitorRequest:
		return m.Last
	}
	return nil
}

func (p *Pending) String() string {
	s := fmt.Sprintf("%s %s %s", p.User.Name, p.Kind, short(p.Label))
	if p.Ver != nil {
		s += fmt.Sprintf(" v%d", *p.Ver)
	}
	return s
}

// StartSearch makes a search request.
func (u *User) StartSearch(rt *rapid.T, label []byte, ver *uint32) *Pending {
	p := &Pending{User: u, Kind: "search", Label: label, Ver: ver}
	var verify transparency.VerifyFunc[*structs.SearchResponse]
	var err error
	NoPanic(rt, "making a search request", func() {
		if ver == nil {
			p.Search, verify, err = u.C.GreatestVersionSearch(Dup(label))
		} else {
			p.Search, verify, err = u.C.FixedVersionSearch(Dup(label), *ver)
		}
	})
	u.Err = err
	if err != nil {
		if u.MayFail {
			return nil
		}
		rt.Fatalf("making a search request failed: %v", err)
	}
	p.verify = func(m structs.Marshaller) error { return verify(m.(*structs.SearchResponse)) }
	return p
}

// StartInit makes a request to initialise ownership (nil if not possible now).
func (u *User) StartInit(rt *rapid.T, label []byte) *Pending {
	p := &Pending{User: u, Kind: "init", Label: label}
	var verify transparency.VerifyFunc[*structs.OwnerInitResponse]
	var err error
	NoPanic(rt, "OwnerInit", func() { p.Init, verify, err = u.C.OwnerInit(Dup(label)) })
	u.Err = err
	if err != nil {
		return nil
	}
	p.verify = func(m structs.Marshaller) error { return verify(m.(*structs.OwnerInitResponse)) }
	return p
}

// StartMonitor makes a monitoring request (nil if none is wanted now).
func (u *User) StartMonitor(rt *rapid.T) *Pending {
	p := &Pending{User: u, Kind: "monitor"}
	var verify transparency.VerifyFunc[structs.Marshaller]
	var err error
	NoPanic(rt, "Monitor", func() { p.Mon, verify, err = u.C.Monitor() })
	u.Err = err
	if err != nil || p.Mon == nil {
		return nil
	}
	switch m := p.Mon.(type) {
	case *structs.ContactMonitorRequest:
		p.Kind, p.Label = "contact", m.Label
	case *structs.OwnerMonitorRequest:
		p.Kind, p.Label = "owner", m.Label
	}
	p.verify = verify
	return p
}

// Verify hands a response to the client.
func (p *Pending) Verify(rt *rapid.T, res structs.Marshaller) (err error) {
	if p.User.OnVerify != nil {
		p.User.OnVerify(p, res)
	}
	NoPanic(rt, "verifying a response ("+p.String()+")", func() { err = p.verify(res) })
	return
}

// Ask lets a server answer (encoding and decoding on the way).
func (p *Pending) Ask(rt *rapid.T, w *World, t wire.Interface) (structs.Marshaller, error) {
	switch {
	case p.Search != nil:
		res, err := w.AskSearch(rt, t, p.Search)
		if err != nil {
			return nil, err
		}
		return res, nil
	case p.Init != nil:
		res, err := w.AskOwnerInit(rt, t, p.Init)
		if err != nil {
			return nil, err
		}
		return res, nil
	case p.Update != nil:
		rt.Fatalf("harness: an update is not answered by one response")
	}
	return w.AskMonitor(rt, t, p.Mon)
}

// Decode decodes a response to this request; nil if that is impossible.
func (p *Pending) Decode(rt *rapid.T, w *World, raw []byte) (out structs.Marshaller) {
	buf := bytes.NewBuffer(Dup(raw))
	cfg := w.Config.Public()
	NoPanic(rt, "decoding a response", func() {
		switch p.Kind {
		case "search":
			if m, err := structs.NewSearchResponse(cfg, p.Search, buf); err == nil {
				out = m
			}
		case "init":
			if m, err := structs.NewOwnerInitResponse(cfg, buf); err == nil {
				out = m
			}
		case "contact":
			if m, err := structs.NewContactMonitorResponse(cfg, buf); err == nil {
				out = m
			}
		case "update":
			if m, err := structs.NewUpdateResponse(cfg, buf); err == nil {
				out = m
			}
		case "owner":
			if m, err := structs.NewOwnerMonitorResponse(cfg, buf); err == nil {
				out = m
			}
		}
	})
	if buf.Len() != 0 {
		return nil
	}
	return out
}

// Recode encodes and decodes a (mangled) response; nil if it has no encoding.
func (p *Pending) Recode(rt *rapid.T, w *World, res structs.Marshaller) structs.Marshaller {
	var raw []byte
	var err error
	NoPanic(rt, "encoding a response", func() { raw, err = structs.Marshal(res) })
	if err != nil {
		return nil
	}
	return p.Decode(rt, w, raw)
}

// Encoding is the encoding of a message, "" if it has none.
func Encoding(m structs.Marshaller) string {
	raw, err := structs.Marshal(m)
	if err != nil {
		return ""
	}
	return string(raw)
}

// TreeSize is the size of the tree a response is about.
func TreeSize(res structs.Marshaller, last *uint64) uint64 {
	if h := Head(res); h.TreeHead != nil {
		return h.TreeHead.TreeSize
	} else if last != nil {
		return *last
	}
	return 0
}

// Head is the tree head part of a response.
func Head(res structs.Marshaller) *structs.FullTreeHead {
	switch r := res.(type) {
	case *structs.SearchResponse:
		return &r.FullTreeHead
	case *structs.ContactMonitorResponse:
		return &r.FullTreeHead
	case *structs.OwnerInitResponse:
		return &r.FullTreeHead
	case *structs.OwnerMonitorResponse:
		return &r.FullTreeHead
	case *structs.UpdateResponse:
		return &r.FullTreeHead
	}
	panic("harness: not a response")
}

// Proof is the combined proof of a response.
func Proof(res structs.Marshaller) *structs.CombinedTreeProof {
	switch r := res.(type) {
	case *structs.SearchResponse:
		return &r.Search
	case *structs.ContactMonitorResponse:
		return &r.Monitor
	case *structs.OwnerInitResponse:
		return &r.Init
	case *structs.OwnerMonitorResponse:
		return &r.Monitor
	case *structs.UpdateResponse:
		return &r.Update
	}
	panic("harness: not a response")
}
