package kit

import (
	"crypto/sha256"
	"sort"

	"pgregory.net/rapid"
)

// Int draws an int in [lo, hi].
func Int(rt *rapid.T, lo, hi int, label string) int {
	return rapid.IntRange(lo, hi).Draw(rt, label)
}

func U64(rt *rapid.T, lo, hi uint64, label string) uint64 {
	return rapid.Uint64Range(lo, hi).Draw(rt, label)
}

func U32(rt *rapid.T, lo, hi uint32, label string) uint32 {
	return rapid.Uint32Range(lo, hi).Draw(rt, label)
}

func Bool(rt *rapid.T, label string) bool { return rapid.Bool().Draw(rt, label) }

// Prob is true about pct times in a hundred (shrinks to false).
func Prob(rt *rapid.T, pct int, label string) bool {
	return rapid.IntRange(0, 99).Draw(rt, label) >= 100-pct
}

// Flat draws uniformly from [0,n) – rapid's ranges are biased to small values,
// which is not wanted when choosing among equals.
func Flat(rt *rapid.T, n int, label string) int {
	if n <= 1 {
		return 0
	}
	return rapid.SampledFrom(seq(n)).Draw(rt, label)
}

var seqs = map[int][]int{}

func seq(n int) []int {
	if s, ok := seqs[n]; ok {
		return s
	}
	s := make([]int, n)
	for i := range s {
		s[i] = i
	}
	if n <= 4096 {
		seqs[n] = s
	}
	return s
}

func Pick[T any](rt *rapid.T, xs []T, label string) T { return xs[Flat(rt, len(xs), label)] }

// Size draws from [lo,hi] so that all magnitudes and the neighbourhoods of
// powers of two are likely.
func Size(rt *rapid.T, lo, hi uint64, label string) uint64 {
	switch Flat(rt, 4, label+"/kind") {
	case 0:
		return U64(rt, lo, hi, label)
	case 1: // near a power of two
		bits := 0
		for b := hi; b > 0; b >>= 1 {
			bits++
		}
		v := uint64(1) << uint(Flat(rt, bits, label+"/pow"))
		d := Flat(rt, 5, label+"/delta") - 2
		x := v + uint64(int64(d))
		if x < lo || x > hi || (d < 0 && v < uint64(-d)) {
			return lo
		}
		return x
	case 2: // sparse bits
		x := uint64(0)
		bits := 0
		for b := hi; b > 0; b >>= 1 {
			bits++
		}
		for i := Int(rt, 1, 5, label+"/n"); i > 0; i-- {
			x |= uint64(1) << uint(Flat(rt, bits, label+"/bit"))
		}
		if x < lo || x > hi {
			return lo
		}
		return x
	default:
		span := hi - lo
		if span > 40 {
			span = 40
		}
		return hi - U64(rt, 0, span, label+"/fromtop")
	}
}

// Subset draws up to max distinct sorted values below n.
func Subset(rt *rapid.T, n uint64, max int, label string) []uint64 {
	k := Int(rt, 0, max, label+"/k")
	set := map[uint64]struct{}{}
	for i := 0; i < k; i++ {
		var x uint64
		switch Flat(rt, 3, label+"/how") {
		case 0:
			x = U64(rt, 0, n-1, label)
		case 1:
			x = n - 1 - U64(rt, 0, min(n-1, 20), label+"/end")
		default:
			x = Size(rt, 0, n-1, label)
		}
		set[x] = struct{}{}
	}
	return SortedKeys(set)
}

func SortedKeys[V any](m map[uint64]V) []uint64 {
	out := make([]uint64, 0, len(m))
	for x := range m {
		out = append(out, x)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// Bytes draws a byte string.
func Bytes(rt *rapid.T, lo, hi int, label string) []byte {
	return rapid.SliceOfN(rapid.Byte(), lo, hi).Draw(rt, label)
}

// Digest is a short fingerprint for descriptions.
func Digest(b []byte) []byte {
	s := sha256.Sum256(b)
	return s[:6]
}

// Shuffle puts xs in any order.
func Shuffle[T any](rt *rapid.T, xs []T) {
	for i := len(xs) - 1; i > 0; i-- {
		j := Flat(rt, i+1, "swap")
		xs[i], xs[j] = xs[j], xs[i]
	}
}

// SortedStrings are the keys of a map in order.
func SortedStrings[V any](m map[string]V) []string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}
