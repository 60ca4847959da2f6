package kit

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/Bren2010/katie/db"
)

// ErrInjected is the failure a faulty store reports.
var ErrInjected = errors.New("injected storage fault")

// txCore is the committed contents shared by a store and its clones.
type txCore struct{ data map[string][]byte }

// TxStore is the harness' own transparency store: writes are visible to the
// writer at once and to everyone else from Commit on; a write that fails
// aborts the transaction. OnOp is called before every operation and may fail
// it.
type TxStore struct {
	core    *txCore
	pending map[string][]byte // nil value: deleted
	ro      bool
	OnOp    func(op string) error
	OnKey   func(key string) // called with every key that is read
	Ops     int
	// Isolate makes a read miss everything that is pending.
	Commits int
}

func NewTxStore() *TxStore {
	return &TxStore{core: &txCore{map[string][]byte{}}, pending: map[string][]byte{}}
}

// Restart is what a crash leaves behind: committed data only.
func (s *TxStore) Restart() *TxStore {
	return &TxStore{core: s.core, pending: map[string][]byte{}}
}

// Snapshot is an independent writable copy of the committed data.
func (s *TxStore) Snapshot() *TxStore {
	out := NewTxStore()
	for k, v := range s.core.data {
		out.core.data[k] = v
	}
	return out
}

// Edit changes one committed item behind the server's back.
func (s *TxStore) Edit(key string, f func(old []byte) []byte) {
	if v := f(Dup(s.core.data[key])); v == nil {
		delete(s.core.data, key)
	} else {
		s.core.data[key] = v
	}
}

// Get reads one committed item.
func (s *TxStore) Get(key string) []byte { return Dup(s.core.data[key]) }

// Keys lists the committed keys that start with prefix, in order.
func (s *TxStore) Keys(prefix string) []string {
	var keys []string
	for k := range s.core.data {
		if strings.HasPrefix(k, prefix) {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	return keys
}

// Dump is the committed contents, for comparison.
func (s *TxStore) Dump() string {
	keys := make([]string, 0, len(s.core.data))
	for k := range s.core.data {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	out := ""
	for _, k := range keys {
		out += fmt.Sprintf("%q=%x\n", k, s.core.data[k])
	}
	return out
}

func (s *TxStore) op(name string, write bool) error {
	s.Ops++
	if s.OnOp != nil {
		if err := s.OnOp(name); err != nil {
			if write {
				s.pending = map[string][]byte{}
			}
			return err
		}
	}
	if write && s.ro {
		return errors.New("store is read-only")
	}
	return nil
}

func (s *TxStore) get(k string) []byte {
	if s.OnKey != nil {
		s.OnKey(k)
	}
	if v, ok := s.pending[k]; ok {
		return Dup(v)
	}
	return Dup(s.core.data[k])
}

func (s *TxStore) put(op, k string, v []byte) error {
	if err := s.op(op, true); err != nil {
		return err
	}
	if v == nil {
		return errors.New("can not store nil value")
	}
	s.pending[k] = Dup(v)
	return nil
}

func (s *TxStore) del(op, k string) error {
	if err := s.op(op, true); err != nil {
		return err
	}
	s.pending[k] = nil
	return nil
}

func (s *TxStore) Clone() db.TransparencyStore {
	return &TxStore{core: s.core, pending: map[string][]byte{}, ro: true}
}

func (s *TxStore) GetTreeHead() ([]byte, []byte, error) {
	if err := s.op("GetTreeHead", false); err != nil {
		return nil, nil, err
	}
	return s.get("head"), s.get("auditor"), nil
}
func (s *TxStore) PutTreeHead(raw []byte) error { return s.put("PutTreeHead", "head", raw) }
func (s *TxStore) PutAuditorTreeHead(raw []byte) error {
	return s.put("PutAuditorTreeHead", "auditor", raw)
}

func (s *TxStore) BatchGetIndex(labels [][]byte) ([][]byte, error) {
	if err := s.op("BatchGetIndex", false); err != nil {
		return nil, err
	}
	out := make([][]byte, len(labels))
	for i, l := range labels {
		out[i] = s.get("i" + string(l))
	}
	return out, nil
}
func (s *TxStore) PutIndex(label, index []byte) error {
	return s.put("PutIndex", "i"+string(label), index)
}
func (s *TxStore) DeleteIndex(label []byte) error { return s.del("DeleteIndex", "i"+string(label)) }

func verKey(label []byte, ver uint32) string { return fmt.Sprintf("v%d:%s", ver, label) }

func (s *TxStore) GetVersion(label []byte, ver uint32) ([]byte, error) {
	if err := s.op("GetVersion", false); err != nil {
		return nil, err
	}
	return s.get(verKey(label, ver)), nil
}
func (s *TxStore) PutVersion(label []byte, ver uint32, data []byte) error {
	return s.put("PutVersion", verKey(label, ver), data)
}
func (s *TxStore) DeleteVersion(label []byte, ver uint32) error {
	return s.del("DeleteVersion", verKey(label, ver))
}

func (s *TxStore) batch(op, tag string, keys []uint64) (map[uint64][]byte, error) {
	if err := s.op(op, false); err != nil {
		return nil, err
	}
	out := map[uint64][]byte{}
	for _, k := range keys {
		if v := s.get(fmt.Sprintf("%s%d", tag, k)); v != nil {
			out[k] = v
		}
	}
	return out, nil
}

func (s *TxStore) BatchGet(keys []uint64) (map[uint64][]byte, error) {
	return s.batch("BatchGet", "t", keys)
}
func (s *TxStore) Put(key uint64, data []byte) error {
	return s.put("Put", fmt.Sprintf("t%d", key), data)
}
func (s *TxStore) Delete(key uint64) error     { return s.del("Delete", fmt.Sprintf("t%d", key)) }
func (s *TxStore) LogStore() db.LogStore       { return txLog{s} }
func (s *TxStore) PrefixStore() db.PrefixStore { return txPrefix{s} }

func (s *TxStore) Commit() error {
	if err := s.op("Commit", true); err != nil {
		return err
	}
	// One map is swapped for another, so that clones in other goroutines see
	// all of the commit or none of it.
	next := make(map[string][]byte, len(s.core.data)+len(s.pending))
	for k, v := range s.core.data {
		next[k] = v
	}
	for k, v := range s.pending {
		if v == nil {
			delete(next, k)
		} else {
			next[k] = v
		}
	}
	s.core.data = next
	s.pending = map[string][]byte{}
	s.Commits++
	return nil
}

type txLog struct{ s *TxStore }

func (l txLog) BatchGet(keys []uint64) (map[uint64][]byte, error) {
	return l.s.batch("log.BatchGet", "l", keys)
}
func (l txLog) Put(key uint64, v []byte) error { return l.s.put("log.Put", fmt.Sprintf("l%d", key), v) }
func (l txLog) Delete(key uint64) error        { return l.s.del("log.Delete", fmt.Sprintf("l%d", key)) }

type txPrefix struct{ s *TxStore }

func (p txPrefix) BatchGet(keys []string) (map[string][]byte, error) {
	if err := p.s.op("prefix.BatchGet", false); err != nil {
		return nil, err
	}
	out := map[string][]byte{}
	for _, k := range keys {
		if v := p.s.get("p" + k); v != nil {
			out[k] = v
		}
	}
	return out, nil
}
func (p txPrefix) Put(key string, v []byte) error { return p.s.put("prefix.Put", "p"+key, v) }
func (p txPrefix) Delete(key string) error        { return p.s.del("prefix.Delete", "p"+key) }

// ClientDB is a client's local store, as the interface documents it.
type ClientDB struct {
	State  []byte
	Labels map[string]ClientLabel
	OnOp   func(op string) error
	// Stale chooses among several stale labels.
	Stale func(labels []string) int
}

type ClientLabel struct {
	Raw      []byte
	Terminal uint64
}

func NewClientDB() *ClientDB { return &ClientDB{Labels: map[string]ClientLabel{}} }

func (s *ClientDB) Clone() *ClientDB {
	out := &ClientDB{State: Dup(s.State), Labels: map[string]ClientLabel{}, Stale: s.Stale}
	for k, v := range s.Labels {
		out.Labels[k] = ClientLabel{Dup(v.Raw), v.Terminal}
	}
	return out
}

// Dump is the whole contents, for comparison.
func (s *ClientDB) Dump() string {
	keys := make([]string, 0, len(s.Labels))
	for k := range s.Labels {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	out := fmt.Sprintf("state=%x\n", s.State)
	for _, k := range keys {
		out += fmt.Sprintf("%q=%x@%d\n", k, s.Labels[k].Raw, s.Labels[k].Terminal)
	}
	return out
}

func (s *ClientDB) op(name string) error {
	if s.OnOp != nil {
		return s.OnOp(name)
	}
	return nil
}

func (s *ClientDB) GetState() ([]byte, error) {
	if err := s.op("GetState"); err != nil {
		return nil, err
	}
	return Dup(s.State), nil
}

func (s *ClientDB) GetLabelState(label []byte) ([]byte, error) {
	if err := s.op("GetLabelState"); err != nil {
		return nil, err
	}
	l, ok := s.Labels[string(label)]
	if !ok {
		return nil, nil
	}
	return Dup(l.Raw), nil
}

func (s *ClientDB) GetStaleLabel(cutoff uint64) ([]byte, []byte, error) {
	if err := s.op("GetStaleLabel"); err != nil {
		return nil, nil, err
	}
	var stale []string
	for k, v := range s.Labels {
		if v.Terminal <= cutoff {
			stale = append(stale, k)
		}
	}
	if len(stale) == 0 {
		return nil, nil, nil
	}
	sort.Strings(stale)
	i := 0
	if s.Stale != nil {
		i = s.Stale(stale)
	}
	return append([]byte{}, stale[i]...), Dup(s.Labels[stale[i]].Raw), nil
}

func (s *ClientDB) PutState(raw []byte) error {
	if err := s.op("PutState"); err != nil {
		return err
	}
	s.State = Dup(raw)
	return nil
}

func (s *ClientDB) PutLabelState(raw, label, rawLabel []byte, terminal uint64) error {
	if err := s.op("PutLabelState"); err != nil {
		return err
	}
	s.State = Dup(raw)
	if rawLabel == nil {
		delete(s.Labels, string(label))
	} else {
		s.Labels[string(label)] = ClientLabel{Dup(rawLabel), terminal}
	}
	return nil
}
