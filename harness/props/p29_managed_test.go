package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"sync"
	"testing"
	"testing/synctest"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/db"
	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/managed"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/tree/transparency/wire"
	"pgregory.net/rapid"

	. "verif/kit"
)

func TestP29(t *testing.T) {
	Run(t, "at least 3 updates went through the operator (operator); at least 4 manager requests were altered (requests); at least 2 versions with a substituted signature were shown to clients (smuggled); at least 8 increments (counter); at least 3 versions were signed and a store or the manager failed at least once (signing)",
		Sub{Name: "operator", Quick: 5000, Thorough: 150000, Bubble: true, Prop: propOperator},
		Sub{Name: "requests", Quick: 6000, Thorough: 200000, Bubble: true, Prop: propManagerRequests},
		Sub{Name: "smuggled", Quick: 5000, Thorough: 150000, Bubble: true, Prop: propSmuggled},
		Sub{Name: "counter", Quick: 4000, Thorough: 100000, Prop: propCounter},
		Sub{Name: "signing", Quick: 4000, Thorough: 150000, Bubble: true, Prop: propSigning},
	)
}

var managedOnly = []structs.DeploymentMode{structs.ThirdPartyManagement}

// counted records the ranges that a counter hands out.
type counted struct {
	db.ManagedLogStore
	mu     sync.Mutex
	ranges map[string][][2]int // [first, first+count) per label
}

func (k *counted) IncrementGreatestVersion(label []byte, count int) (int, error) {
	prev, err := k.ManagedLogStore.IncrementGreatestVersion(label, count)
	k.mu.Lock()
	defer k.mu.Unlock()
	if err == nil {
		k.ranges[string(label)] = append(k.ranges[string(label)], [2]int{prev + 1, prev + 1 + count})
	}
	return prev, err
}

// checkRanges says that ranges are disjoint and consecutive from version zero,
// and returns the next version.
func checkRanges(rt *rapid.T, label string, ranges [][2]int, ordered bool) int {
	rs := append([][2]int{}, ranges...)
	if !ordered {
		sort.Slice(rs, func(i, j int) bool {
			return rs[i][0] < rs[j][0] || rs[i][0] == rs[j][0] && rs[i][1] < rs[j][1]
		})
	}
	next := 0
	for _, r := range rs {
		if r[0] != next {
			rt.Fatalf("the operator's counter hands out versions %v of %q (first, next): they do not follow each other", rs, label)
		}
		next = r[1]
	}
	return next
}

// propCounter uses the operator's counter alone, also from several threads.
func propCounter(rt *rapid.T, c *Case) {
	labels := [][]byte{{}, {0}, []byte("a"), []byte("ab"), []byte("61"), {0x61, 0}}[:1+Flat(rt, 6, "labels")]
	k := &counted{memory.NewManagedLogStore(), sync.Mutex{}, map[string][][2]int{}}
	type inc struct {
		label []byte
		count int
	}
	draw := func() inc {
		return inc{Pick(rt, labels, "label"), Pick(rt, []int{0, 1, 1, 1, 2, 3, 255, 1000}, "count")}
	}
	total := map[string]int{}
	n := 0
	for i := Int(rt, 0, 10, "one by one"); i > 0; i-- {
		x := draw()
		prev, err := k.IncrementGreatestVersion(x.label, x.count)
		if err != nil {
			rt.Fatalf("incrementing the version of %q by %d fails: %v", x.label, x.count, err)
		} else if prev != total[string(x.label)]-1 {
			rt.Fatalf("incrementing the version of %q by %d says that %d was the greatest version, it was %d", x.label, x.count, prev, total[string(x.label)]-1)
		}
		total[string(x.label)] += x.count
		n++
	}
	if workers := Int(rt, 0, 6, "workers"); workers > 1 {
		c.Class("concurrent")
		per := 1 + Flat(rt, 40, "each")
		work := make([][]inc, workers)
		for i := range work {
			for j := 0; j < per; j++ {
				x := draw()
				work[i] = append(work[i], x)
				total[string(x.label)] += x.count
				n++
			}
		}
		c.Logf("%d workers, %d increments each, %d labels", workers, per, len(labels))
		var wg sync.WaitGroup
		start := make(chan struct{})
		fails := make(chan string, workers)
		for i := range work {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						fails <- fmt.Sprint(r)
					}
				}()
				<-start
				for _, x := range work[i] {
					if _, err := k.IncrementGreatestVersion(x.label, x.count); err != nil {
						fails <- err.Error()
						return
					}
					runtime.Gosched()
				}
			}()
		}
		close(start)
		wg.Wait()
		select {
		case f := <-fails:
			rt.Fatalf("incrementing versions from several threads fails: %s", f)
		default:
		}
	}
	for l, rs := range k.ranges {
		if next := checkRanges(rt, l, rs, false); next != total[l] {
			rt.Fatalf("after increments by %d the next version of %q is %d", total[l], l, next)
		}
	}
	if n >= 8 {
		c.NonTrivial()
	}
}

// hearing is a manager that writes down what it is asked and answers as told.
type hearing struct {
	ctx   context.Context
	op    string
	req   structs.Marshaller
	calls int
	out   structs.Marshaller // what it answers
	ch    chan wire.UpdateResponse
	err   error
}

func (h *hearing) hear(ctx context.Context, op string, req structs.Marshaller) {
	h.ctx, h.op, h.req = ctx, op, req
	h.calls++
}

func (h *hearing) Search(ctx context.Context, req *structs.SearchRequest) (*structs.SearchResponse, error) {
	h.hear(ctx, "search", req)
	out, _ := h.out.(*structs.SearchResponse)
	return out, h.err
}

func (h *hearing) ContactMonitor(ctx context.Context, req *structs.ContactMonitorRequest) (*structs.ContactMonitorResponse, error) {
	h.hear(ctx, "contact", req)
	out, _ := h.out.(*structs.ContactMonitorResponse)
	return out, h.err
}

func (h *hearing) OwnerInit(ctx context.Context, req *structs.OwnerInitRequest) (*structs.OwnerInitResponse, error) {
	h.hear(ctx, "init", req)
	out, _ := h.out.(*structs.OwnerInitResponse)
	return out, h.err
}

func (h *hearing) OwnerMonitor(ctx context.Context, req *structs.OwnerMonitorRequest) (*structs.OwnerMonitorResponse, error) {
	h.hear(ctx, "owner", req)
	out, _ := h.out.(*structs.OwnerMonitorResponse)
	return out, h.err
}

func (h *hearing) Update(ctx context.Context, req *structs.UpdateRequest) (<-chan wire.UpdateResponse, error) {
	h.hear(ctx, "unsigned update", req)
	return h.ch, h.err
}

func (h *hearing) ManagerUpdate(ctx context.Context, req *structs.ManagerUpdateRequest) (<-chan wire.UpdateResponse, error) {
	h.hear(ctx, "update", req)
	if h.err != nil {
		return nil, h.err
	}
	return h.ch, nil
}

// failing is a counter that may fail, before or after it has counted.
type failing struct {
	db.ManagedLogStore
	fail string
	junk int
}

func (k *failing) IncrementGreatestVersion(label []byte, count int) (int, error) {
	if k.fail == "before" {
		return k.junk, errStore
	}
	prev, err := k.ManagedLogStore.IncrementGreatestVersion(label, count)
	if k.fail == "after" {
		return k.junk, errStore
	}
	return prev, err
}

// propSigning is about the operator alone: whatever fails, no version is signed
// twice, what clients ask reaches the manager and what the manager answers
// reaches the clients.
func propSigning(rt *rapid.T, c *Case) {
	w := NewWorld(rt, c, Opts{Modes: managedOnly, Real: 5, Stores: []string{"tx"}, NoExpiry: true})
	labels := [][]byte{{}, {0}, []byte("a"), []byte("ab"), []byte("61"), {0x61, 0}}[:1+Flat(rt, 6, "labels")]
	k := &failing{ManagedLogStore: memory.NewManagedLogStore()}
	g := &gen{rt: rt, c: c, cfg: w.Config.Public()}
	h := &hearing{}
	open := func() *managed.ManagedLog {
		ml, err := managed.NewManagedLog(w.Config.Public(), h, k, w.Operator)
		if err != nil {
			rt.Fatalf("making the managed log failed: %v", err)
		}
		return ml
	}
	ml := open()
	signed := map[string]string{}
	next := map[string]int{} // versions counted so far
	faults := 0
	for i := 1 + Flat(rt, 20, "requests"); i > 0; i-- {
		if Prob(rt, 10, "restart") {
			ml = open()
		}
		*h = hearing{ch: make(chan wire.UpdateResponse, 1)}
		if Prob(rt, 25, "manager fails") {
			h.err = errors.New("the manager refuses")
			faults++
		}
		label := Pick(rt, labels, "label")
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		op := Pick(rt, []string{"update", "update", "update", "update", "search", "contact", "init", "owner"}, "operation")
		if op != "update" {
			var req, out structs.Marshaller
			var err error
			var sent string
			if h.err == nil || Bool(rt, "answer and error") {
				head := g.fullTreeHead()
				switch op {
				case "search":
					h.out = &structs.SearchResponse{FullTreeHead: head}
				case "contact":
					h.out = &structs.ContactMonitorResponse{FullTreeHead: head}
				case "init":
					h.out = &structs.OwnerInitResponse{FullTreeHead: head}
				case "owner":
					h.out = &structs.OwnerMonitorResponse{FullTreeHead: head}
				}
			}
			var want any
			if h.out != nil {
				want = DeepCopy(h.out)
			}
			last := g.optU64()
			switch op {
			case "search":
				r := &structs.SearchRequest{Last: last, Label: label, Version: g.optU32()}
				req, sent = r, Encoding(r)
				var o *structs.SearchResponse
				if o, err = ml.Search(ctx, r); o != nil {
					out = o
				}
			case "contact":
				r := &structs.ContactMonitorRequest{Last: last, Label: label}
				req, sent = r, Encoding(r)
				var o *structs.ContactMonitorResponse
				if o, err = ml.ContactMonitor(ctx, r); o != nil {
					out = o
				}
			case "init":
				r := &structs.OwnerInitRequest{Last: last, Label: label, Start: U64(rt, 0, 5, "start")}
				req, sent = r, Encoding(r)
				var o *structs.OwnerInitResponse
				if o, err = ml.OwnerInit(ctx, r); o != nil {
					out = o
				}
			case "owner":
				r := &structs.OwnerMonitorRequest{Last: last, Label: label, Start: U64(rt, 0, 5, "start"), GreatestVersion: g.optU32()}
				req, sent = r, Encoding(r)
				var o *structs.OwnerMonitorResponse
				if o, err = ml.OwnerMonitor(ctx, r); o != nil {
					out = o
				}
			}
			c.Class(op)
			if h.calls != 1 || h.op != op || Encoding(h.req) != sent || Encoding(req) != sent {
				rt.Fatalf("a request (%s) is passed on to the manager %d times, the last time as %s", op, h.calls, h.op)
			}
			if (err == nil) != (h.err == nil) || err == nil && (out == nil || !reflect.DeepEqual(out, want)) {
				rt.Fatalf("the manager answers a request (%s) with (%v, %v), the client gets (%v, %v)", op, h.out, h.err, out, err)
			}
			cancel()
			if h.ctx.Err() == nil {
				rt.Fatalf("a client that has gone away (%s) is still served", op)
			}
			continue
		}
		k.fail = ""
		if Prob(rt, 25, "counter fails") {
			k.fail = Pick(rt, []string{"before", "after"}, "when")
			k.junk = Pick(rt, []int{-1, 0, 1, 7}, "nonsense")
			faults++
		}
		req := &structs.UpdateRequest{Label: Dup(label), Last: g.optU64(), GreatestVersion: g.optU32()}
		if !Prob(rt, 10, "nothing new") {
			for _, v := range DrawValues(rt, 4) {
				req.Values = append(req.Values, structs.LabelValue{Value: v})
			}
		}
		sent := Encoding(req)
		ch, err := ml.Update(ctx, req)
		if k.fail != "before" {
			next[string(label)] += len(req.Values)
		}
		c.Class("update, counter fails: " + k.fail)
		if k.fail != "" {
			if err == nil || h.calls > 0 {
				rt.Fatalf("the operator's counter fails (%s) but versions of %q are assigned (%d requests to the manager, error %v)", k.fail, label, h.calls, err)
			}
			continue
		}
		if h.calls != 1 || h.op != "update" || Encoding(req) != sent {
			rt.Fatalf("an update is passed on to the manager %d times, the last time as %s (error %v)", h.calls, h.op, err)
		}
		m := h.req.(*structs.ManagerUpdateRequest)
		first := next[string(label)] - len(req.Values)
		if string(m.Label) != string(label) || len(m.Values) != len(req.Values) || len(m.Values) > 0 && m.SignedVersion != uint32(first) {
			rt.Fatalf("an update of %q with %d values from version %d on reaches the manager as one of %q with %d values from %d on", label, len(req.Values), first, m.Label, len(m.Values), m.SignedVersion)
		}
		if Encoding(&structs.UpdateRequest{Last: m.Last, Label: m.Label, GreatestVersion: m.GreatestVersion, Values: req.Values}) != sent {
			rt.Fatalf("an update of %q reaches the manager with a different idea of what the client knows", label)
		}
		for j, v := range m.Values {
			ver := uint32(first + j)
			if string(v.Value) != string(req.Values[j].Value) {
				rt.Fatalf("value %q of an update of %q reaches the manager as %q", req.Values[j].Value, label, v.Value)
			} else if !verifies(w, w.Operator.Public(), label, ver, v.Value, v.Signature) {
				rt.Fatalf("the manager is asked to add version %d of %q without the operator's signature on it", ver, label)
			}
			id := fmt.Sprintf("%q version %d", label, ver)
			if _, ok := signed[id]; ok {
				rt.Fatalf("%s is signed twice", id)
			}
			signed[id] = string(v.Value)
		}
		if (err == nil) != (h.err == nil) {
			rt.Fatalf("the manager answers an update with the error %v, the client gets %v", h.err, err)
		}
		if err == nil {
			res := &structs.UpdateResponse{FullTreeHead: g.fullTreeHead(), Position: U64(rt, 0, 9, "position")}
			want := DeepCopy(res)
			h.ch <- wire.UpdateResponse{Out: res}
			close(h.ch)
			got, ok := <-ch
			if !ok || got.Err != nil || got.Out == nil || !reflect.DeepEqual(got.Out, want) {
				rt.Fatalf("the manager's answer to an update of %q does not reach the client", label)
			}
			if _, more := <-ch; more {
				rt.Fatalf("the client gets more answers to an update of %q than the manager gives", label)
			}
		}
		cancel()
		if h.ctx.Err() == nil {
			rt.Fatalf("a client that has gone away (update) is still served")
		}
	}
	if len(signed) >= 3 && faults > 0 {
		c.NonTrivial()
	}
}

// operator is a service operator whose log is hosted by a manager.
type operator struct {
	w       *World
	k       *counted
	updates chan transparency.UpdateRequest
	ml      *managed.ManagedLog
}

func newOperator(rt *rapid.T, w *World) *operator {
	o := &operator{w: w, k: &counted{memory.NewManagedLogStore(), sync.Mutex{}, map[string][][2]int{}}}
	o.open(rt)
	return o
}

// open makes the operator connect to a manager that knows the log as of now.
func (o *operator) open(rt *rapid.T) {
	o.updates = make(chan transparency.UpdateRequest)
	tree, err := transparency.NewTree(o.w.Config, o.w.Store.Clone(), o.updates)
	if err != nil {
		rt.Fatalf("loading the tree failed: %v", err)
	}
	if o.ml, err = managed.NewManagedLog(o.w.Config.Public(), tree, o.k, o.w.Operator); err != nil {
		rt.Fatalf("making the managed log failed: %v", err)
	}
}

// propOperator sends concurrent updates through operators to a manager.
func propOperator(rt *rapid.T, c *Case) {
	w := NewWorld(rt, c, Opts{Modes: managedOnly, Real: 3, Stores: []string{"tx"}, NoExpiry: true})
	users := drawUsers(rt, w, 2)
	// Owners start at an entry that exists and follow the versions after it.
	if _, err := w.Mutate(rt, c, Batch{}); err != nil {
		rt.Fatalf("an empty mutation failed: %v", err)
	}
	o := newOperator(rt, w)
	lost := map[string]bool{} // labels of which the manager refused versions
	served := 0
	type stream struct {
		req *structs.UpdateRequest
		ml  *managed.ManagedLog
		ctx context.Context
		end context.CancelFunc
		out []*structs.UpdateResponse
		err error
	}
	for round := 1 + Flat(rt, 6, "rounds"); round > 0; round-- {
		w.Tick(rt, c)
		var streams []*stream
		waiting := 0
		for i := 1 + Flat(rt, 4, "streams"); i > 0; i-- {
			label := Pick(rt, w.Pool, "label")
			req := &structs.UpdateRequest{Label: Dup(label)}
			if n := w.N(); n > 0 && Bool(rt, "last") {
				req.Last = Ptr(1 + U64(rt, 0, n-1, "last"))
			}
			req.GreatestVersion = drawKnown(rt, w, label)
			if !Prob(rt, 10, "nothing new") {
				for _, v := range DrawValues(rt, 4) {
					req.Values = append(req.Values, structs.LabelValue{Value: v})
				}
				waiting++
			}
			s := &stream{req: RecodeUpdateRequest(rt, req)}
			s.ctx, s.end = context.WithCancel(context.Background())
			streams = append(streams, s)
			c.Logf("update %s with %d values", Short(label), len(req.Values))
		}
		o.open(rt)
		// The client goes away before or while the manager looks at its request.
		gone := -1
		if Prob(rt, 15, "client goes away") {
			gone = Flat(rt, len(streams), "which")
		}
		var wg sync.WaitGroup
		done := make(chan struct{})
		defer func() { // If the check fails, leave nobody behind.
			for _, s := range streams {
				s.end()
			}
			<-done
		}()
		for i, s := range streams {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						s.err = fmt.Errorf("panic: %v", r)
					}
				}()
				ch, err := o.ml.Update(s.ctx, s.req)
				if err != nil {
					s.err = err
					return
				}
				if i == gone {
					s.end()
				}
				for r := range ch {
					if r.Err != nil {
						s.err = r.Err
					} else {
						s.out = append(s.out, r.Out)
					}
				}
			}()
		}
		go func() { wg.Wait(); close(done) }()
		var asked []transparency.UpdateRequest
		// Everybody sends one request, the one who leaves maybe none.
		for more := true; more; {
			synctest.Wait()
			select {
			case ur := <-o.updates:
				asked = append(asked, ur)
			default:
				more = false
			}
		}
		for _, s := range streams {
			if s.err != nil {
				rt.Fatalf("an update of %q through the operator fails: %v", s.req.Label, s.err)
			}
		}
		if got := len(asked); got > waiting || got < waiting-1 || got < waiting && (gone < 0 || len(streams[gone].req.Values) == 0) {
			rt.Fatalf("the manager is asked to add versions %d times, there are %d such updates", got, waiting)
		}
		if gone >= 0 && len(streams[gone].req.Values) > 0 && len(asked) < waiting {
			lost[string(streams[gone].req.Label)] = true
		}
		byLabel := map[string][]transparency.UpdateRequest{}
		for _, ur := range asked {
			l := string(ur.Label)
			if ur.StartingVersion == nil {
				rt.Fatalf("the manager is asked to add versions of %q without a starting version", l)
			}
			for i, v := range ur.Values {
				ver := *ur.StartingVersion + uint32(i)
				if !bytes.Equal(v.Signature, w.Sign(rt, ur.Label, ver, v.Value)) && !verifies(w, w.Operator.Public(), ur.Label, ver, v.Value, v.Signature) {
					rt.Fatalf("the manager is asked to add version %d of %q (%q) without the operator's signature on it", ver, l, v.Value)
				}
			}
			byLabel[l] = append(byLabel[l], ur)
		}
		refuse := ""
		if Prob(rt, 10, "refuse") && len(asked) > 0 {
			refuse = string(asked[0].Label)
		}
		for l := range byLabel {
			sort.Slice(byLabel[l], func(i, j int) bool { return *byLabel[l][i].StartingVersion < *byLabel[l][j].StartingVersion })
		}
		for i, again := 0, true; again; i++ { // one update of a label per entry
			again = false
			b := Batch{}
			var answer []transparency.UpdateRequest
			for _, l := range w.Pool {
				urs := byLabel[string(l)]
				if i >= len(urs) {
					continue
				}
				ur := urs[i]
				again = true
				natural := uint32(len(w.Labels[string(l)]))
				if *ur.StartingVersion != natural && (!lost[string(l)] || *ur.StartingVersion < natural) {
					rt.Fatalf("the manager is asked to start at version %d of %q, the next is %d", *ur.StartingVersion, l, natural)
				}
				if *ur.StartingVersion != natural || string(l) == refuse {
					lost[string(l)] = true
					close(ur.Response)
					c.Class("refused")
					continue
				}
				for _, v := range ur.Values {
					b.Add = append(b.Add, transparency.LabelValue{Label: ur.Label, Value: v})
				}
				answer = append(answer, ur)
			}
			if len(b.Add) > 0 {
				if _, err := w.Mutate(rt, c, b); err != nil {
					rt.Fatalf("a mutation of only additions failed: %v", err)
				}
				for _, ur := range answer {
					ur.Response <- w.N() - 1
				}
			}
		}
		<-done
		for l, rs := range o.k.ranges {
			if next := checkRanges(rt, l, rs, false); next != len(w.Labels[l]) && !lost[l] {
				rt.Fatalf("the operator has assigned %d versions of %q, the manager %d", next, l, len(w.Labels[l]))
			}
		}
		for i, s := range streams {
			s.end()
			l := string(s.req.Label)
			if s.err != nil {
				if i == gone || lost[l] {
					continue
				}
				rt.Fatalf("an update of %q through the operator fails: %v", l, s.err)
			}
			served++
			// All versions the client did not know are announced with the
			// operator's signatures.
			ver := 0
			if s.req.GreatestVersion != nil {
				ver = int(*s.req.GreatestVersion) + 1
			}
			for _, r := range s.out {
				for j, info := range r.Info {
					if ver >= len(w.Labels[l]) {
						rt.Fatalf("the manager announces version %d of %q, there are %d", ver, l, len(w.Labels[l]))
					}
					v := w.Labels[l][ver]
					if !bytes.Equal(info.Signature, v.Sig) || v.Pos != r.Position {
						rt.Fatalf("the manager announces version %d of %q with the signature %x at %d, it was added with %x at %d", ver, l, info.Signature, r.Position, v.Sig, v.Pos)
					} else if len(r.Values) > 0 && string(r.Values[j].Value) != string(v.Value) {
						rt.Fatalf("the manager announces %q for version %d of %q, it is %q", r.Values[j].Value, ver, l, v.Value)
					}
					ver++
				}
			}
			if i != gone && len(s.req.Values) > 0 {
				at := -1
				vs := w.Labels[l]
				for x := 0; x+len(s.req.Values) <= ver && x+len(s.req.Values) <= len(vs); x++ {
					same := true
					for j, val := range s.req.Values {
						same = same && string(vs[x+j].Value) == string(val.Value) && vs[x+j].Pos == vs[x].Pos
					}
					if same {
						at = x
					}
				}
				if at < 0 {
					rt.Fatalf("the versions of an update of %q that succeeded do not exist", l)
				}
			}
		}
		// Through the operator, clients find what was stored.
		server := o.fresh(rt)
		for k := Int(rt, 1, 3, "searches"); k > 0; k-- {
			label := Pick(rt, w.Pool, "label")
			u := Pick(rt, users, "user")
			if w.N() == 0 {
				continue
			}
			searchThrough(rt, c, w, server, u, label, pickVersion(rt, len(w.Labels[string(label)])))
			u = u.Clone(rt)
			sameThrough(rt, c, w, server, u.StartMonitor(rt))
			label = Pick(rt, w.Pool, "owned label")
			if p := u.StartInit(rt, label); p != nil {
				if res := sameThrough(rt, c, w, server, p); res != nil && p.Verify(rt, res) == nil {
					w.Tick(rt, c)
					sameThrough(rt, c, w, server, u.StartMonitor(rt))
				}
			}
		}
	}
	if served >= 3 {
		c.NonTrivial()
	}
}

// drawKnown draws what an owner may know: all versions in entries up to some.
func drawKnown(rt *rapid.T, w *World, label []byte) *uint32 {
	vs := w.Labels[string(label)]
	known := []int{}
	if len(vs) == 0 || vs[0].Pos > 0 {
		known = append(known, -1)
	}
	for i := range vs {
		if i+1 == len(vs) || vs[i+1].Pos != vs[i].Pos {
			known = append(known, i)
		}
	}
	if k := Pick(rt, known, "known"); k >= 0 {
		return Ptr(uint32(k))
	}
	return nil
}

// fresh connects anew and returns the operator's log.
func (o *operator) fresh(rt *rapid.T) wire.Interface {
	o.open(rt)
	return o.ml
}

// verifies asks the key itself.
func verifies(w *World, key suites.SigningPublicKey, label []byte, ver uint32, value, sig []byte) bool {
	tbs, err := structs.Marshal(&structs.UpdateTBS{Config: w.Config.Public(), Label: label, Version: ver, Value: value})
	return err == nil && key.Verify(tbs, sig)
}

// searchThrough is a search of an honest log through some server.
func searchThrough(rt *rapid.T, c *Case, w *World, server wire.Interface, u *User, label []byte, ver *uint32) {
	p := u.StartSearch(rt, label, ver)
	vs := w.Labels[string(label)]
	res0, err := p.Ask(rt, w, server)
	if err != nil {
		rt.Fatalf("%s fails: %v", p, err)
	}
	res := res0.(*structs.SearchResponse)
	err = p.Verify(rt, res)
	target := len(vs) - 1
	if ver != nil {
		target = int(*ver)
	}
	switch {
	case target < 0 || target >= len(vs):
		if !isAbsent(err) {
			rt.Fatalf("%s of %d versions ends with %v", p, len(vs), err)
		}
		c.Class("absent")
	case err != nil:
		rt.Fatalf("%s: %v", p, err)
	case string(res.Value.Value) != string(vs[target].Value) || !verifies(w, w.Operator.Public(), label, uint32(target), res.Value.Value, res.Value.Signature):
		rt.Fatalf("%s gives %q with signature %x, version %d is %q", p, res.Value.Value, res.Value.Signature, target, vs[target].Value)
	default:
		c.Class("found")
		w.CheckUser(rt, u)
	}
}

// sameThrough compares what the manager answers itself.
func sameThrough(rt *rapid.T, c *Case, w *World, server wire.Interface, p *Pending) structs.Marshaller {
	if p == nil {
		return nil
	}
	one, err1 := p.Ask(rt, w, w.Tree)
	two, err2 := p.Ask(rt, w, server)
	if (err1 == nil) != (err2 == nil) || err1 == nil && Encoding(one) != Encoding(two) {
		rt.Fatalf("%s: the operator's answer (%v) is not the manager's (%v)", p, err2, err1)
	} else if err1 != nil {
		return nil
	}
	c.Class("same answer: " + p.Kind)
	return two
}

// stamp is what a signature was made for.
type stamp struct {
	key, config int
	label       string
	ver         uint32
	value       string
}

// signer makes signatures for other things.
type signer struct {
	w    *World
	keys []suites.SigningPrivateKey // the first is the operator's
}

func newSigner(rt *rapid.T, w *World) *signer {
	s := &signer{w: w, keys: []suites.SigningPrivateKey{w.Operator, w.Auditor, w.Config.SignatureKey}}
	k, err := w.Config.Suite.ParseSigningPrivateKey(H32('x', U64(rt, 0, 5, "other key")))
	if err != nil {
		rt.Fatalf("harness: %v", err)
	}
	s.keys = append(s.keys, k)
	return s
}

// draw draws what to sign instead of want: anything else, or the same.
func (s *signer) draw(rt *rapid.T, want stamp) stamp {
	out := want
	for k := Pick(rt, []int{1, 1, 1, 1, 2}, "alterations"); k > 0; k-- {
		switch Flat(rt, 9, "alteration") {
		case 0:
			out.key = Flat(rt, len(s.keys), "key")
		case 1, 2:
			out.ver = uint32(int64(want.ver) + int64(Pick(rt, []int{-1, 1, 2, -2, 256, 1 << 16, 1 << 24, 1 << 31}, "off")))
		case 3:
			out.label = string(Pick(rt, s.w.Pool, "label"))
		case 4:
			out.label = Pick(rt, []string{want.label + "\x00", "", want.label[:len(want.label)/2]}, "label")
			if len(out.label) > 255 {
				out.label = out.label[:255]
			}
		case 5:
			out.value = Pick(rt, []string{want.value + "\x00", "", want.value[:len(want.value)/2], "other"}, "value")
		case 6: // of an existing version
			if vs := s.w.Labels[want.label]; len(vs) > 0 {
				v := Flat(rt, len(vs), "version")
				out.ver = uint32(v)
				if Bool(rt, "its value") {
					out.value = string(vs[v].Value)
				}
			}
		case 7:
			out.config = Int(rt, 1, 6, "config")
		case 8: // Split the same bytes elsewhere.
			if all := want.label + want.value; len(all) > 0 && len(all) < 200 {
				at := Flat(rt, len(all)+1, "split")
				out.label, out.value = all[:at], all[at:]
			}
		}
	}
	return out
}

func (s *signer) sign(rt *rapid.T, st stamp) []byte {
	cfg := *s.w.Config.Public()
	switch st.config {
	case 1:
		cfg.ReasonableMonitoringWindow++
	case 2:
		cfg.MaximumLifetime = cfg.ReasonableMonitoringWindow + 77
	case 3:
		cfg.MaxAhead++
	case 4:
		cfg.MaxBehind--
	case 5:
		cfg.SignatureKey = s.keys[3].Public()
	case 6:
		k, err := cfg.Suite.ParseVRFPrivateKey(H32('y', 1))
		if err != nil {
			rt.Fatalf("harness: %v", err)
		}
		cfg.VrfKey = k.PublicKey()
	}
	tbs, err := structs.Marshal(&structs.UpdateTBS{Config: &cfg, Label: []byte(st.label), Version: st.ver, Value: []byte(st.value)})
	if err != nil {
		rt.Fatalf("harness: %v", err)
	}
	sig, err := s.keys[st.key].Sign(tbs)
	if err != nil {
		rt.Fatalf("harness: %v", err)
	}
	return sig
}

// substitute returns a signature for something else and says what, or damages
// the right one.
func (s *signer) substitute(rt *rapid.T, want stamp) ([]byte, string) {
	if Prob(rt, 20, "damage") {
		sig := s.sign(rt, want)
		switch Flat(rt, 4, "damage") {
		case 0:
			return []byte{}, "no signature"
		case 1:
			sig[Flat(rt, len(sig), "byte")] ^= 1 << Flat(rt, 8, "bit")
			if verifies(s.w, s.w.Operator.Public(), []byte(want.label), want.ver, []byte(want.value), sig) {
				return nil, ""
			}
			return sig, "flipped bit"
		case 2:
			return sig[:Flat(rt, len(sig), "length")], "short signature"
		default:
			return append(sig, 0), "long signature"
		}
	}
	other := s.draw(rt, want)
	if other == want {
		return nil, ""
	}
	return s.sign(rt, other), fmt.Sprintf("signature for %+v", other)
}

// propManagerRequests sends altered requests to the manager.
func propManagerRequests(rt *rapid.T, c *Case) {
	w := NewWorld(rt, c, Opts{Modes: managedOnly, Real: 3, Stores: []string{"tx"}, NoExpiry: true})
	for i := Int(rt, 1, 3, "entries"); i > 0; i-- {
		if _, err := w.Mutate(rt, c, Batch{Add: w.DrawAdds(rt, 5, nil)}); err != nil {
			rt.Fatalf("a mutation of only additions failed: %v", err)
		}
		w.Tick(rt, c)
	}
	s := newSigner(rt, w)
	altered := 0
	// Operators and managers whose configuration does not fit.
	cfg := *w.Config.Public()
	what := Pick(rt, []string{"", "another key", "no key", "another mode"}, "configuration")
	switch what {
	case "another key":
		cfg.LeafPublicKey = s.keys[1+Flat(rt, 3, "key")].Public()
	case "no key":
		cfg.LeafPublicKey = nil
	case "another mode":
		cfg.Mode = Pick(rt, []structs.DeploymentMode{structs.ContactMonitoring, structs.ThirdPartyAuditing}, "mode")
	}
	NoPanic(rt, "NewManagedLog", func() {
		_, err := managed.NewManagedLog(&cfg, w.Tree, memory.NewManagedLogStore(), w.Operator)
		if (err == nil) != (what == "") {
			rt.Fatalf("an operator with %q in its configuration: %v", what, err)
		}
	})
	if what == "another mode" {
		private := w.Config
		private.Mode = cfg.Mode
		req := &structs.ManagerUpdateRequest{Label: []byte("a")}
		tree, err := transparency.NewTree(private, w.Store.Clone(), nil)
		if err == nil {
			NoPanic(rt, "ManagerUpdate", func() { _, err = tree.ManagerUpdate(context.Background(), req) })
			if err == nil {
				rt.Fatalf("a log without third-party management takes an update from an operator")
			}
		}
	}
	for k := 6; k > 0; k-- {
		label := Pick(rt, w.Pool, "label")
		natural := uint32(len(w.Labels[string(label)]))
		first := natural
		if Prob(rt, 20, "elsewhere") {
			first = uint32(max(0, int64(natural)+int64(Pick(rt, []int{-1, 1, 2, 300, 1 << 30}, "start"))))
		}
		req := &structs.ManagerUpdateRequest{Label: Dup(label), SignedVersion: first}
		values := DrawValues(rt, 4)
		if Prob(rt, 5, "none") {
			values = nil
		}
		bad := ""
		var sigs [][]byte
		for i, v := range values {
			want := stamp{0, 0, string(label), first + uint32(i), string(v)}
			sigs = append(sigs, s.sign(rt, want))
		}
		switch Flat(rt, 5, "alter") {
		case 0: // nothing
		case 1: // other order
			if n := len(sigs); n > 1 {
				i, j := Flat(rt, n, "one"), Flat(rt, n, "other")
				if i != j && !bytes.Equal(sigs[i], sigs[j]) {
					sigs[i], sigs[j] = sigs[j], sigs[i]
					bad = "signatures exchanged"
				}
			}
		default:
			if n := len(sigs); n > 0 {
				i := Flat(rt, n, "which")
				if sig, what := s.substitute(rt, stamp{0, 0, string(label), first + uint32(i), string(values[i])}); what != "" {
					sigs[i], bad = sig, what
				}
			}
		}
		for i, v := range values {
			req.Values = append(req.Values, structs.UpdateValue{Value: v, UpdateSuffix: structs.UpdateSuffix{Signature: sigs[i]}})
		}
		// Owners know the versions in the first entry.
		req.GreatestVersion = drawKnown(rt, w, label)
		if n := w.N(); Bool(rt, "last") {
			req.Last = Ptr(1 + U64(rt, 0, n-1, "last"))
		}
		c.Logf("%s from %d (next %d), %d values: %s", Short(label), first, natural, len(values), bad)
		updates := make(chan transparency.UpdateRequest)
		tree, err := transparency.NewTree(w.Config, w.Store.Clone(), updates)
		if err != nil {
			rt.Fatalf("loading the tree failed: %v", err)
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel() // if the check fails
		var ch <-chan wire.UpdateResponse
		NoPanic(rt, "ManagerUpdate", func() { ch, err = tree.ManagerUpdate(ctx, req) })
		if bad != "" {
			altered++
			c.Class("altered")
			if err == nil {
				defer func() {
					for range ch {
					}
				}()
				cancel()
				rt.Fatalf("the manager takes version %d and following of %q with a wrong signature (%s)", first, label, bad)
			}
			cancel()
			continue
		}
		if err != nil {
			rt.Fatalf("the manager refuses correctly signed versions of %q from %d: %v", label, first, err)
		}
		asked := 0
		for open := true; open; {
			select {
			case ur := <-updates:
				asked++
				if ur.StartingVersion == nil || *ur.StartingVersion != first || !bytes.Equal(ur.Label, label) || len(ur.Values) != len(values) {
					rt.Fatalf("the sequencer is asked for %d versions of %q from %v, the request was for %d of %q from %d", len(ur.Values), ur.Label, ur.StartingVersion, len(values), label, first)
				}
				for i := range values {
					if !bytes.Equal(ur.Values[i].Value, values[i]) || !bytes.Equal(ur.Values[i].Signature, sigs[i]) {
						rt.Fatalf("the sequencer is asked to set %q (%x), the request was for %q (%x)", ur.Values[i].Value, ur.Values[i].Signature, values[i], sigs[i])
					}
				}
				if first != natural {
					close(ur.Response)
					c.Class("refused")
					break
				}
				pos, _ := w.Sequencer(rt, c, 3, nil)(ur)
				ur.Response <- pos
			case r, ok := <-ch:
				if !ok {
					open = false
				} else if r.Err != nil && first == natural {
					rt.Fatalf("an update of %q by the operator fails: %v", label, r.Err)
				}
			}
		}
		cancel()
		if want := min(len(values), 1); asked != want {
			rt.Fatalf("the sequencer is asked %d times, for %d values", asked, len(values))
		}
		c.Class("taken")
	}
	if altered >= 4 {
		c.NonTrivial()
	}
}

// propSmuggled has the manager add versions with substituted signatures.
func propSmuggled(rt *rapid.T, c *Case) {
	s := drawCoOwned(rt, c, Opts{Modes: managedOnly, Real: 3, Stores: []string{"tx"}, NoExpiry: true})
	if s == nil {
		return
	}
	w := s.w
	sg := newSigner(rt, w)
	bad := map[string]map[int]string{} // label, version: what is wrong
	shown := 0
	seen := func(label []byte, ver int) string { return bad[string(label)][ver] }
	spoil := func(label []byte, ver int, v *structs.UpdateValue, pct int) {
		if !Prob(rt, pct, "spoil") {
			return
		}
		sig, what := sg.substitute(rt, stamp{0, 0, string(label), uint32(ver), string(v.Value)})
		if what == "" {
			return
		}
		v.Signature = sig
		if bad[string(label)] == nil {
			bad[string(label)] = map[int]string{}
		}
		bad[string(label)][ver] = what
		c.Logf("version %d of %s: %s", ver, Short(label), what)
	}
	for round := 1 + Flat(rt, 4, "rounds"); round > 0; round-- {
		w.Tick(rt, c)
		// Some additions, of the owned label or others.
		b := Batch{Add: w.DrawAdds(rt, 5, nil)}
		next := map[string]int{}
		for i := range b.Add {
			l := string(b.Add[i].Label)
			if _, ok := next[l]; !ok {
				next[l] = len(w.Labels[l])
			}
			spoil(b.Add[i].Label, next[l], &b.Add[i].Value, 40)
			next[l]++
		}
		if _, err := w.Mutate(rt, c, b); err != nil {
			rt.Fatalf("a mutation of only additions failed: %v", err)
		}
		// Searches.
		for k := 0; k < 8; k++ {
			u := Pick(rt, append(append([]*User{}, s.users...), s.devices...), "user").Clone(rt)
			label := Pick(rt, w.Pool, "label")
			if len(b.Add) > 0 && Bool(rt, "new") {
				label = Pick(rt, b.Add, "added").Label
			}
			vs := w.Labels[string(label)]
			if len(vs) == 0 {
				continue
			}
			var ver *uint32
			target := len(vs) - 1
			if Bool(rt, "version") {
				target = Flat(rt, len(vs), "target")
				ver = Ptr(uint32(target))
			}
			p := u.StartSearch(rt, label, ver)
			res, err := p.Ask(rt, w, w.Tree)
			if err != nil {
				rt.Fatalf("the server refuses %s: %v", p, err)
			}
			before := u.DB.Dump()
			err = p.Verify(rt, res)
			if what := seen(label, target); what == "" {
				MustAccept(rt, p.String(), err)
				c.Class("search: good")
			} else if err == nil || isAbsent(err) {
				rt.Fatalf("%s: version %d is accepted (%v) although its signature is not the operator's on it (%s)", p, target, err, what)
			} else if u.DB.Dump() != before {
				rt.Fatalf("%s: rejected (%v), but the client's state changed", p, err)
			} else {
				shown++
				c.Class("search: bad")
			}
		}
		// An update stream, with or without values of the owner's.
		u := Pick(rt, s.devices, "device").Clone(rt)
		var values [][]byte
		if Bool(rt, "values") {
			values = DrawValues(rt, 3)
		}
		p := u.StartUpdate(rt, s.label, values)
		if p == nil {
			rt.Fatalf("%s can not make an update request", u.Name)
		}
		k := known(rt, u, s.label)
		out, err := w.ServeUpdate(rt, nil, p.Update, func(ur transparency.UpdateRequest) (uint64, bool) {
			n := len(w.Labels[string(s.label)])
			for i := range ur.Values {
				spoil(s.label, n+i, &ur.Values[i], 30)
			}
			return w.Sequencer(rt, c, 3, func(l []byte) bool { return string(l) != string(s.label) })(ur)
		})
		if err != nil {
			rt.Fatalf("an update fails: %v", err)
		}
		for _, r := range out {
			before := u.DB.Dump()
			err := p.Verify(rt, r)
			what := ""
			for i := range r.Info {
				if x := seen(s.label, k+i); x != "" {
					what = fmt.Sprintf("version %d: %s", k+i, x)
				}
			}
			if what == "" {
				MustAccept(rt, p.String(), err)
				c.Class("update: good")
			} else if err == nil {
				rt.Fatalf("an update response is accepted although a signature is not the operator's (%s)", what)
			} else if u.DB.Dump() != before {
				rt.Fatalf("%s: rejected (%v), but the client's state changed", p, err)
			} else {
				shown++
				c.Class("update: bad")
				break
			}
			k += len(r.Info)
		}
	}
	if shown >= 2 {
		c.NonTrivial()
	}
}
