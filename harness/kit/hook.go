package kit

import (
	"github.com/Bren2010/katie/db"
)

// HookStore calls OnOp before every operation on a store.
type HookStore struct {
	db.TransparencyStore
	OnOp func(op string) error
}

func (s *HookStore) op(name string) error {
	if s.OnOp == nil {
		return nil
	}
	return s.OnOp(name)
}

func (s *HookStore) Clone() db.TransparencyStore {
	return &HookStore{TransparencyStore: s.TransparencyStore.Clone()}
}

func (s *HookStore) GetTreeHead() ([]byte, []byte, error) {
	if err := s.op("GetTreeHead"); err != nil {
		return nil, nil, err
	}
	return s.TransparencyStore.GetTreeHead()
}

func (s *HookStore) PutTreeHead(raw []byte) error {
	if err := s.op("PutTreeHead"); err != nil {
		return err
	}
	return s.TransparencyStore.PutTreeHead(raw)
}

func (s *HookStore) PutAuditorTreeHead(raw []byte) error {
	if err := s.op("PutAuditorTreeHead"); err != nil {
		return err
	}
	return s.TransparencyStore.PutAuditorTreeHead(raw)
}

func (s *HookStore) BatchGetIndex(labels [][]byte) ([][]byte, error) {
	if err := s.op("BatchGetIndex"); err != nil {
		return nil, err
	}
	return s.TransparencyStore.BatchGetIndex(labels)
}

func (s *HookStore) PutIndex(label, index []byte) error {
	if err := s.op("PutIndex"); err != nil {
		return err
	}
	return s.TransparencyStore.PutIndex(label, index)
}

func (s *HookStore) GetVersion(label []byte, ver uint32) ([]byte, error) {
	if err := s.op("GetVersion"); err != nil {
		return nil, err
	}
	return s.TransparencyStore.GetVersion(label, ver)
}

func (s *HookStore) PutVersion(label []byte, ver uint32, data []byte) error {
	if err := s.op("PutVersion"); err != nil {
		return err
	}
	return s.TransparencyStore.PutVersion(label, ver, data)
}

func (s *HookStore) BatchGet(keys []uint64) (map[uint64][]byte, error) {
	if err := s.op("BatchGet"); err != nil {
		return nil, err
	}
	return s.TransparencyStore.BatchGet(keys)
}

func (s *HookStore) Put(key uint64, data []byte) error {
	if err := s.op("Put"); err != nil {
		return err
	}
	return s.TransparencyStore.Put(key, data)
}

func (s *HookStore) LogStore() db.LogStore { return hookLog{s, s.TransparencyStore.LogStore()} }
func (s *HookStore) PrefixStore() db.PrefixStore {
	return hookPrefix{s, s.TransparencyStore.PrefixStore()}
}

func (s *HookStore) Commit() error {
	if err := s.op("Commit"); err != nil {
		return err
	}
	return s.TransparencyStore.Commit()
}

type hookLog struct {
	s *HookStore
	db.LogStore
}

func (l hookLog) BatchGet(keys []uint64) (map[uint64][]byte, error) {
	if err := l.s.op("log.BatchGet"); err != nil {
		return nil, err
	}
	return l.LogStore.BatchGet(keys)
}

func (l hookLog) Put(key uint64, v []byte) error {
	if err := l.s.op("log.Put"); err != nil {
		return err
	}
	return l.LogStore.Put(key, v)
}

type hookPrefix struct {
	s *HookStore
	db.PrefixStore
}

func (p hookPrefix) BatchGet(keys []string) (map[string][]byte, error) {
	if err := p.s.op("prefix.BatchGet"); err != nil {
		return nil, err
	}
	return p.PrefixStore.BatchGet(keys)
}

func (p hookPrefix) Put(key string, v []byte) error {
	if err := p.s.op("prefix.Put"); err != nil {
		return err
	}
	return p.PrefixStore.Put(key, v)
}

// Reader is what a read-only server uses: a clone of the store. onOp (maybe
// nil) is called before each of its operations.
func (w *World) Reader(onOp func(op string) error) db.TransparencyStore {
	s := w.Store.Clone()
	switch s := s.(type) {
	case *TxStore:
		s.OnOp = onOp
	case *HookStore:
		s.OnOp = onOp
	}
	return s
}
