package kit

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strconv"

	"github.com/Bren2010/katie/tree/prefix"
	"pgregory.net/rapid"
)

// This file alters decoded messages: structure-aware mutations at any place of
// a message, with parts of other messages (donors) as material.

var resultType = reflect.TypeOf((*prefix.PrefixSearchResult)(nil)).Elem()

// DeepCopy copies a message.
func DeepCopy[T any](x T) T {
	return deepCopy(reflect.ValueOf(x)).Interface().(T)
}

func deepCopy(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			p := reflect.New(v.Type().Elem())
			p.Elem().Set(deepCopy(v.Elem()))
			out.Set(p)
		}
	case reflect.Slice:
		if !v.IsNil() {
			out.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
			for i := 0; i < v.Len(); i++ {
				out.Index(i).Set(deepCopy(v.Index(i)))
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			out.Field(i).Set(deepCopy(v.Field(i)))
		}
	default:
		out.Set(v) // numbers, and search results, which are immutable
	}
	return out
}

type site struct {
	path string
	kind string // the path without indices
	v    reflect.Value
}

// sites lists the places in v. Of very long lists (a hostile response can hold
// many thousand elements) only the beginning and the end are considered.
func sites(v reflect.Value, path, kind string, out []site) []site {
	switch v.Kind() {
	case reflect.Pointer:
		if v.CanSet() {
			out = append(out, site{path, kind, v})
		}
		if !v.IsNil() {
			out = sites(v.Elem(), path, kind, out)
		}
	case reflect.Slice:
		out = append(out, site{path, kind, v})
		if v.Type().Elem().Kind() != reflect.Uint8 {
			n := v.Len()
			for i := 0; i < n; i++ {
				if n > 512 && i == 256 {
					i = n - 256
				}
				out = sites(v.Index(i), path+"["+strconv.Itoa(i)+"]", kind+"[]", out)
			}
		}
	case reflect.Struct:
		if path != "" {
			out = append(out, site{path, kind, v})
		}
		for i := 0; i < v.NumField(); i++ {
			f := "." + v.Type().Field(i).Name
			out = sites(v.Field(i), path+f, kind+f, out)
		}
	default:
		out = append(out, site{path, kind, v})
	}
	return out
}

// Mangle changes x (a pointer to a message) at one drawn place. It returns what
// was done, or "" if the place drawn admits no change.
func Mangle(rt *rapid.T, x any, donors []any) string {
	all := sites(reflect.ValueOf(x), "", "", nil)
	// Places of the same kind are drawn together, so that long proofs do not
	// crowd out the rest.
	groups := map[string][]site{}
	for _, s := range all {
		groups[s.kind] = append(groups[s.kind], s)
	}
	names := make([]string, 0, len(groups))
	for g := range groups {
		names = append(names, g)
	}
	sort.Strings(names)
	g := groups[Pick(rt, names, "where")]
	s := g[Flat(rt, len(g), "which")]

	// Values of the same type elsewhere.
	material := func() (reflect.Value, bool) {
		var pool []reflect.Value
		add := func(v any, same bool) {
			for _, d := range sites(reflect.ValueOf(v), "", "", nil) {
				if d.v.Type() != s.v.Type() {
					continue
				}
				pool = append(pool, d.v)
				// The same place of another message is the likeliest to fit.
				if d.kind == s.kind {
					pool = append(pool, d.v, d.v, d.v)
				}
			}
		}
		add(x, true)
		for _, d := range donors {
			add(d, false)
		}
		if len(pool) == 0 {
			return reflect.Value{}, false
		}
		return deepCopy(pool[Flat(rt, len(pool), "material")]), true
	}
	before := deepCopy(s.v)
	what := ""
	switch {
	case s.v.Kind() == reflect.Uint64 || s.v.Kind() == reflect.Uint32 || s.v.Kind() == reflect.Uint8:
		bits := s.v.Type().Bits()
		old := s.v.Uint()
		val := old
		switch Flat(rt, 7, "number") {
		case 0:
			val = old + 1
		case 1:
			val = old - 1
		case 2:
			val = 0
		case 3:
			val = ^uint64(0)
		case 4:
			val = old ^ 1<<uint(Flat(rt, bits, "bit"))
		case 5:
			val = U64(rt, 0, 1<<40, "value")
		default:
			if m, ok := material(); ok {
				val = m.Uint()
			}
		}
		if bits < 64 {
			val &= 1<<uint(bits) - 1
		}
		s.v.SetUint(val)
		what = fmt.Sprintf("%d", val)
	case s.v.Kind() == reflect.Slice && s.v.Type().Elem().Kind() == reflect.Uint8:
		b := Dup(s.v.Bytes())
		switch Flat(rt, 7, "bytes") {
		case 0, 1:
			if len(b) > 0 {
				b[Flat(rt, len(b), "byte")] ^= 1 << uint(Flat(rt, 8, "bit"))
			} else {
				b = Bytes(rt, 1, 3, "new")
			}
			what = "flip"
		case 2:
			b = make([]byte, len(b))
			what = "zero"
		case 3:
			b = nil
			what = "nil"
		case 4:
			if len(b) > 0 && Bool(rt, "cut") {
				b = b[:len(b)-1]
			} else {
				b = append(b, 0)
			}
			what = "resize"
		default:
			if m, ok := material(); ok {
				b = Dup(m.Bytes())
			}
			what = "other"
		}
		if s.v.IsNil() && len(b) == 0 {
			return ""
		}
		s.v.SetBytes(b)
	case s.v.Kind() == reflect.Slice:
		n := s.v.Len()
		cut := func(i int) {
			out := reflect.MakeSlice(s.v.Type(), 0, n)
			out = reflect.AppendSlice(out, s.v.Slice(0, i))
			out = reflect.AppendSlice(out, s.v.Slice(i+1, n))
			s.v.Set(out)
		}
		insert := func(i int, e reflect.Value) {
			out := reflect.MakeSlice(s.v.Type(), 0, n+1)
			out = reflect.AppendSlice(out, s.v.Slice(0, i))
			out = reflect.Append(out, e)
			out = reflect.AppendSlice(out, s.v.Slice(i, n))
			s.v.Set(out)
		}
		switch Flat(rt, 6, "list") {
		case 0:
			if n == 0 {
				return ""
			}
			i := Flat(rt, n, "element")
			cut(i)
			what = fmt.Sprintf("drop %d", i)
		case 1:
			if n == 0 {
				insert(0, reflect.Zero(s.v.Type().Elem()))
				if s.v.Index(0).Kind() == reflect.Interface {
					s.v.Index(0).Set(reflect.ValueOf(drawResult(rt)))
				}
				what = "new"
				break
			}
			i := Flat(rt, n, "element")
			insert(i, deepCopy(s.v.Index(i)))
			what = fmt.Sprintf("repeat %d", i)
		case 2:
			if n < 2 {
				return ""
			}
			i := Flat(rt, n-1, "element")
			a, b := deepCopy(s.v.Index(i)), deepCopy(s.v.Index(i+1))
			s.v.Index(i).Set(b)
			s.v.Index(i + 1).Set(a)
			what = fmt.Sprintf("swap %d", i)
		case 3:
			if n == 0 {
				return ""
			}
			k := Flat(rt, n, "keep")
			s.v.Set(s.v.Slice(0, k))
			what = fmt.Sprintf("cut to %d", k)
		case 4:
			if m, ok := material(); ok {
				s.v.Set(m)
			}
			what = "other"
		default:
			if m, ok := material(); ok && m.Len() > 0 {
				insert(Flat(rt, n+1, "at"), m.Index(Flat(rt, m.Len(), "element")))
			}
			what = "insert"
		}
	case s.v.Kind() == reflect.Pointer:
		if !s.v.IsNil() && Bool(rt, "nil") {
			s.v.Set(reflect.Zero(s.v.Type()))
			what = "nil"
		} else if m, ok := material(); ok {
			s.v.Set(m)
			what = "other"
		}
	case s.v.Type() == resultType:
		if Bool(rt, "new result") {
			if m, ok := material(); ok {
				s.v.Set(m)
			}
			what = "other"
		} else {
			s.v.Set(reflect.ValueOf(mangleResult(rt, s.v.Interface().(prefix.PrefixSearchResult))))
			what = "change"
		}
	default:
		if m, ok := material(); ok {
			s.v.Set(m)
			what = "other"
		}
	}
	if reflect.DeepEqual(before.Interface(), s.v.Interface()) {
		return ""
	}
	return s.path + ":" + what
}

func encodeResult(r prefix.PrefixSearchResult) []byte {
	buf := &bytes.Buffer{}
	r.Marshal(buf)
	return buf.Bytes()
}

func decodeResult(b []byte) prefix.PrefixSearchResult {
	raw := append([]byte{1}, b...)
	raw = append(raw, 0, 0)
	p, err := prefix.NewPrefixProof(FakeSuite{}, bytes.NewBuffer(raw))
	if err != nil {
		return nil
	}
	return p.Results[0]
}

// BareResult keeps of a search result whether the entry is there, and how deep.
func BareResult(r prefix.PrefixSearchResult) prefix.PrefixSearchResult {
	if r.Inclusion() {
		return decodeResult([]byte{1, byte(r.Depth())})
	}
	return decodeResult([]byte{3, byte(r.Depth())})
}

func drawResult(rt *rapid.T) prefix.PrefixSearchResult {
	switch d := byte(Int(rt, 0, 255, "depth")); Flat(rt, 3, "result") {
	case 0:
		return decodeResult([]byte{1, d})
	case 1:
		return decodeResult([]byte{3, d})
	default:
		leaf := append(H32('x', U64(rt, 0, 9, "leaf")), H32('y', 0)...)
		return decodeResult(append(append([]byte{2}, leaf...), d))
	}
}

// mangleResult changes the kind, the depth or the leaf of a search result.
func mangleResult(rt *rapid.T, r prefix.PrefixSearchResult) prefix.PrefixSearchResult {
	b := encodeResult(r)
	switch Flat(rt, 4, "result change") {
	case 0:
		b[len(b)-1] = byte(int(b[len(b)-1]) + Pick(rt, []int{1, -1, 2}, "depth by"))
	case 1:
		b[len(b)-1] = byte(Int(rt, 0, 255, "depth"))
	case 2:
		if len(b) == 2 {
			b[0] = 4 - b[0] // inclusion, or an empty place
		} else {
			b = []byte{Pick(rt, []byte{1, 3}, "kind"), b[len(b)-1]}
		}
	default:
		if len(b) == 2 {
			return drawResult(rt)
		}
		b[1+Flat(rt, 64, "byte")] ^= 1 << uint(Flat(rt, 8, "bit"))
	}
	if out := decodeResult(b); out != nil {
		return out
	}
	return r
}

// MangleBytes changes an encoding.
func MangleBytes(rt *rapid.T, b []byte) []byte {
	out := Dup(b)
	if len(out) == 0 {
		return Bytes(rt, 0, 20, "bytes")
	}
	for k := Int(rt, 1, 3, "edits"); k > 0; k-- {
		if len(out) == 0 {
			break
		}
		i := Flat(rt, len(out), "at")
		switch Flat(rt, 5, "edit") {
		case 0:
			out[i] ^= 1 << uint(Flat(rt, 8, "bit"))
		case 1:
			out[i] = Pick(rt, []byte{0, 1, 2, 127, 128, 255}, "value")
		case 2:
			out = append(out[:i], out[min(len(out), i+Int(rt, 1, 40, "len")):]...)
		case 3:
			out = append(out[:i], append(Bytes(rt, 1, 34, "ins"), out[i:]...)...)
		default:
			out = out[:i]
		}
	}
	return out
}
