package kit

import (
	"bytes"
	"crypto/sha256"
)

// LogModel is the textbook definition of the log tree: a left-balanced Merkle
// tree whose intermediate hash is H(tag(left)||left||tag(right)||right), tag 0
// for leaves and 1 for intermediates. The first Base leaves all equal Uniform,
// so that huge trees can be described.
type LogModel struct {
	Base    uint64
	Uniform []byte
	Leaves  [][]byte // leaves Base, Base+1, ...

	uniform [][]byte // root of a full uniform subtree by level
	memo    map[[2]uint64][]byte
}

func NewLogModel(base uint64, uniform []byte) *LogModel {
	return &LogModel{Base: base, Uniform: uniform, memo: map[[2]uint64][]byte{}}
}

func (m *LogModel) Size() uint64 { return m.Base + uint64(len(m.Leaves)) }

func (m *LogModel) Leaf(i uint64) []byte {
	if i < m.Base {
		return m.Uniform
	}
	return m.Leaves[i-m.Base]
}

func combine(l []byte, lLeaf bool, r []byte, rLeaf bool) []byte {
	h := sha256.New()
	tag := func(leaf bool) byte {
		if leaf {
			return 0
		}
		return 1
	}
	h.Write([]byte{tag(lLeaf)})
	h.Write(l)
	h.Write([]byte{tag(rLeaf)})
	h.Write(r)
	return h.Sum(nil)
}

// UniformAt is the root of a full subtree of 2^level uniform leaves.
func (m *LogModel) UniformAt(level int) []byte {
	for len(m.uniform) <= level {
		if len(m.uniform) == 0 {
			m.uniform = append(m.uniform, m.Uniform)
			continue
		}
		prev := m.uniform[len(m.uniform)-1]
		leaf := len(m.uniform) == 1
		m.uniform = append(m.uniform, combine(prev, leaf, prev, leaf))
	}
	return m.uniform[level]
}

// Full is the value of the full subtree over [start, start+2^level).
func (m *LogModel) Full(start uint64, level int) []byte {
	if start+(1<<uint(level)) <= m.Base {
		return m.UniformAt(level)
	}
	if level == 0 {
		return m.Leaf(start)
	}
	key := [2]uint64{start, uint64(level)}
	if v, ok := m.memo[key]; ok {
		return v
	}
	half := uint64(1) << uint(level-1)
	v := combine(m.Full(start, level-1), level == 1, m.Full(start+half, level-1), level == 1)
	m.memo[key] = v
	return v
}

// Range is a full subtree: 2^Level leaves from Start.
type Range struct {
	Start uint64
	Level int
}

// Decompose lists the full subtrees of a tree with n leaves, left to right.
func Decompose(n uint64) []Range {
	var out []Range
	start := uint64(0)
	for l := 63; l >= 0; l-- {
		if n&(1<<uint(l)) != 0 {
			out = append(out, Range{start, l})
			start += 1 << uint(l)
		}
	}
	return out
}

func (m *LogModel) FullSubtrees(n uint64) [][]byte {
	var out [][]byte
	for _, r := range Decompose(n) {
		out = append(out, m.Full(r.Start, r.Level))
	}
	return out
}

// Root of the tree over the first n leaves.
func (m *LogModel) Root(n uint64) []byte { return FoldRoot(n, m.FullSubtrees(n)) }

// FoldRoot combines full subtree values into a root.
func FoldRoot(n uint64, subtrees [][]byte) []byte {
	rs := Decompose(n)
	last := len(rs) - 1
	acc, leaf := subtrees[last], rs[last].Level == 0
	for i := last - 1; i >= 0; i-- {
		acc, leaf = combine(subtrees[i], rs[i].Level == 0, acc, leaf), false
	}
	return acc
}

func Equal2(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// NewLogModelOf is the tree of the given leaves.
func NewLogModelOf(leaves [][]byte) *LogModel {
	m := NewLogModel(0, nil)
	m.Leaves = leaves
	return m
}
