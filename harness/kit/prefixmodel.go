package kit

import (
	"crypto/sha256"
	"sort"
)

// PrefixModel is a plain map from key (VRF output) to commitment; its root is
// computed from the definition of the prefix tree alone.
type PrefixModel map[string][]byte

func (m PrefixModel) Clone() PrefixModel {
	out := make(PrefixModel, len(m))
	for k, v := range m {
		out[k] = v
	}
	return out
}

func (m PrefixModel) Keys() []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func LeafHash(key, commitment []byte) []byte {
	h := sha256.New()
	h.Write([]byte{2})
	h.Write(key)
	h.Write(commitment)
	return h.Sum(nil)
}

func ParentHash(l, r []byte) []byte {
	h := sha256.New()
	h.Write([]byte{3})
	h.Write(l)
	h.Write(r)
	return h.Sum(nil)
}

func Bit(b []byte, i int) bool    { return b[i/8]>>(7-i%8)&1 == 1 }
func BitStr(b string, i int) bool { return b[i/8]>>(7-i%8)&1 == 1 }

// Root: all-zero if empty, the leaf itself if there is one, otherwise a parent
// over the keys whose bit at this depth is 0 and 1.
func (m PrefixModel) Root() []byte { return m.root(m.Keys(), 0) }

func (m PrefixModel) root(keys []string, depth int) []byte {
	switch len(keys) {
	case 0:
		return make([]byte, 32)
	case 1:
		return LeafHash([]byte(keys[0]), m[keys[0]])
	}
	i := sort.Search(len(keys), func(i int) bool { return BitStr(keys[i], depth) })
	return ParentHash(m.root(keys[:i], depth+1), m.root(keys[i:], depth+1))
}

// Under returns the sorted keys below the node at the given depth on the path
// of key.
func (m PrefixModel) Under(key []byte, depth int) []string {
	var out []string
	for _, k := range m.Keys() {
		same := true
		for i := 0; i < depth; i++ {
			if BitStr(k, i) != Bit(key, i) {
				same = false
				break
			}
		}
		if same {
			out = append(out, k)
		}
	}
	return out
}

// HashUnder is the node value at the given depth on the path of key.
func (m PrefixModel) HashUnder(key []byte, depth int) []byte {
	return m.root(m.Under(key, depth), depth)
}

// Terminal is where a search for key ends: the depth, and the key of the leaf
// found there (empty if the node is empty).
func (m PrefixModel) Terminal(key []byte) (int, string) {
	for d := 0; ; d++ {
		u := m.Under(key, d)
		if len(u) == 0 {
			return d, ""
		} else if len(u) == 1 {
			return d, u[0]
		}
	}
}

// LoneSibling reports whether replacing before by after makes the tree
// collapse onto a leaf that is not named by any key of the batch, so that a
// verifier who sees only the batch proof knows it as an opaque hash.
func LoneSibling(before, after PrefixModel, batch map[string]bool) bool {
	return loneSibling(before, before.Keys(), after, after.Keys(), batch, 0)
}

func loneSibling(b PrefixModel, bk []string, a PrefixModel, ak []string, batch map[string]bool, depth int) bool {
	// A subtree that contained several leaves and is left with exactly one
	// which the batch does not reveal.
	if len(bk) >= 2 && len(ak) == 1 && !batch[ak[0]] {
		// Is it revealed as the terminal leaf of some batch key's search?
		for k := range batch {
			if _, leaf := b.Terminal([]byte(k)); leaf == ak[0] {
				return false
			}
		}
		return true
	}
	if len(bk) < 2 || len(ak) == 0 {
		return false
	}
	i := sort.Search(len(bk), func(i int) bool { return BitStr(bk[i], depth) })
	j := sort.Search(len(ak), func(j int) bool { return BitStr(ak[j], depth) })
	return loneSibling(b, bk[:i], a, ak[:j], batch, depth+1) || loneSibling(b, bk[i:], a, ak[j:], batch, depth+1)
}
