package fdo

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"slices"
	"sort"
)

// Tag is a tagged value, Map an ordered map, Raw pre-encoded bytes, Undefined and Simple simple values.
type Tag struct {
	N uint64
	V any
}

// KV is one map entry.
type KV struct{ K, V any }

// Map is an ordered map.
type Map []KV

// Raw is an already encoded item.
type Raw []byte

// Simple is a simple value.
type Simple byte

func head(b *bytes.Buffer, major byte, n uint64) {
	m := major << 5
	switch {
	case n < 24:
		b.WriteByte(m | byte(n))
	case n <= 0xff:
		b.Write([]byte{m | 24, byte(n)})
	case n <= 0xffff:
		b.WriteByte(m | 25)
		binary.Write(b, binary.BigEndian, uint16(n))
	case n <= 0xffffffff:
		b.WriteByte(m | 26)
		binary.Write(b, binary.BigEndian, uint32(n))
	default:
		b.WriteByte(m | 27)
		binary.Write(b, binary.BigEndian, n)
	}
}

func enc(b *bytes.Buffer, v any) {
	switch t := v.(type) {
	case nil:
		b.WriteByte(0xf6)
	case bool:
		if t {
			b.WriteByte(0xf5)
		} else {
			b.WriteByte(0xf4)
		}
	case int:
		enc(b, int64(t))
	case int64:
		if t >= 0 {
			head(b, 0, uint64(t))
		} else {
			head(b, 1, uint64(-1-t))
		}
	case uint64:
		head(b, 0, t)
	case uint8:
		head(b, 0, uint64(t))
	case []byte:
		head(b, 2, uint64(len(t)))
		b.Write(t)
	case string:
		head(b, 3, uint64(len(t)))
		b.WriteString(t)
	case []any:
		head(b, 4, uint64(len(t)))
		for _, e := range t {
			enc(b, e)
		}
	case Map:
		head(b, 5, uint64(len(t)))
		for _, e := range t {
			enc(b, e.K)
			enc(b, e.V)
		}
	case Tag:
		head(b, 6, t.N)
		enc(b, t.V)
	case Raw:
		b.Write(t)
	case Simple:
		b.WriteByte(0xe0 | byte(t))
	case float64:
		b.WriteByte(0xfb)
		binary.Write(b, binary.BigEndian, math.Float64bits(t))
	default:
		panic(fmt.Sprintf("enc %T", v))
	}
}

// Encode is deterministic definite-length CBOR.
func Encode(v any) []byte {
	var b bytes.Buffer
	enc(&b, v)
	return b.Bytes()
}

// A builds an array.
func A(v ...any) []any { return v }

var errCBOR = errors.New("malformed cbor")

type dec struct {
	b []byte
	p int
}

func (d *dec) head() (byte, byte, uint64, error) {
	if d.p >= len(d.b) {
		return 0, 0, 0, errCBOR
	}
	c := d.b[d.p]
	d.p++
	maj, ai := c>>5, c&31
	n := 0
	switch {
	case ai < 24:
		return maj, ai, uint64(ai), nil
	case ai == 24:
		n = 1
	case ai == 25:
		n = 2
	case ai == 26:
		n = 4
	case ai == 27:
		n = 8
	default:
		return 0, 0, 0, errCBOR
	}
	if d.p+n > len(d.b) {
		return 0, 0, 0, errCBOR
	}
	var v uint64
	for i := 0; i < n; i++ {
		v = v<<8 | uint64(d.b[d.p+i])
	}
	d.p += n
	return maj, ai, v, nil
}

func (d *dec) item(depth int) (any, error) {
	if depth > 32 {
		return nil, errCBOR
	}
	maj, ai, n, err := d.head()
	if err != nil {
		return nil, err
	}
	switch maj {
	case 0:
		if n > math.MaxInt64 {
			return n, nil
		}
		return int64(n), nil
	case 1:
		if n > math.MaxInt64 {
			return nil, errCBOR
		}
		return -1 - int64(n), nil
	case 2, 3:
		if n > uint64(len(d.b)-d.p) {
			return nil, errCBOR
		}
		s := d.b[d.p : d.p+int(n)]
		d.p += int(n)
		if maj == 3 {
			return string(s), nil
		}
		return append([]byte{}, s...), nil
	case 4:
		if n > uint64(len(d.b)-d.p) {
			return nil, errCBOR
		}
		a := make([]any, 0, n)
		for i := uint64(0); i < n; i++ {
			e, err := d.item(depth + 1)
			if err != nil {
				return nil, err
			}
			a = append(a, e)
		}
		return a, nil
	case 5:
		if n > uint64(len(d.b)-d.p) {
			return nil, errCBOR
		}
		m := make(Map, 0, n)
		for i := uint64(0); i < n; i++ {
			k, err := d.item(depth + 1)
			if err != nil {
				return nil, err
			}
			v, err := d.item(depth + 1)
			if err != nil {
				return nil, err
			}
			m = append(m, KV{k, v})
		}
		return m, nil
	case 6:
		v, err := d.item(depth + 1)
		if err != nil {
			return nil, err
		}
		return Tag{n, v}, nil
	}
	switch {
	case ai == 20:
		return false, nil
	case ai == 21:
		return true, nil
	case ai == 22:
		return nil, nil
	case ai == 27:
		return math.Float64frombits(n), nil
	case ai == 26:
		return float64(math.Float32frombits(uint32(n))), nil
	case ai < 24:
		return Simple(ai), nil
	case ai == 24 && n >= 32:
		return Simple(n), nil
	case ai == 25:
		return Simple(0), nil // a half float, never looked at
	}
	return nil, errCBOR
}

// Decode parses exactly one item.
func Decode(b []byte) (any, error) {
	d := &dec{b: b}
	v, err := d.item(0)
	if err != nil {
		return nil, err
	}
	if d.p != len(b) {
		return nil, fmt.Errorf("%d trailing bytes", len(b)-d.p)
	}
	return v, nil
}

// MustDecode panics on malformed input.
func MustDecode(b []byte) any {
	v, err := Decode(b)
	if err != nil {
		panic(fmt.Sprintf("decode %x: %v", b, err))
	}
	return v
}

// ToInt converts numeric items.
func ToInt(v any) (int64, bool) {
	switch t := v.(type) {
	case int64:
		return t, true
	case int:
		return int64(t), true
	}
	return 0, false
}

// Get looks a map key up.
func (m Map) Get(k any) (any, bool) {
	ks := string(Encode(k))
	for _, e := range m {
		if string(Encode(e.K)) == ks {
			return e.V, true
		}
	}
	return nil, false
}

// Clone deep-copies a value.
func Clone(v any) any {
	switch t := v.(type) {
	case []any:
		o := make([]any, len(t))
		for i := range t {
			o[i] = Clone(t[i])
		}
		return o
	case Map:
		o := make(Map, len(t))
		for i := range t {
			o[i] = KV{Clone(t[i].K), Clone(t[i].V)}
		}
		return o
	case Tag:
		return Tag{t.N, Clone(t.V)}
	case []byte:
		return append([]byte{}, t...)
	}
	return v
}

// Mutant is one structural mutation of an encoded item.
type Mutant struct {
	Path string
	Kind string
	V    any
}

// algSets are numbers that stand for algorithms of the same sort.
var algSets = [][]int64{{-7, -35, -257, -258}, {-16, -43, 5, 6}, {1, 5, 10, 11}, {1, 3, 32, 33}}

// Mutants enumerates single-node structural mutations: every node of the tree
// replaced, removed, duplicated or perturbed.
func Mutants(v any) []Mutant {
	var out []Mutant
	var walk func(n any, path string, put func(any) any)
	walk = func(n any, path string, put func(any) any) {
		add := func(kind string, nv any) { out = append(out, Mutant{path, kind, put(nv)}) }
		// type confusion
		for _, r := range []struct {
			k string
			v any
		}{{"null", nil}, {"int", int64(7)}, {"neg", int64(-3)}, {"bytes", []byte{1, 2, 3}}, {"text", "x"}, {"array0", []any{}}, {"map0", Map{}}, {"true", true}, {"tag", Tag{99, n}}} {
			if string(Encode(r.v)) != string(Encode(n)) {
				add("type:"+r.k, r.v)
			}
		}
		switch t := n.(type) {
		case int64:
			add("int+1", t+1)
			add("int-1", t-1)
			add("int:2^31", int64(1)<<31)
			add("int:-2^31", -(int64(1) << 31))
			add("int:2^63-1", int64(math.MaxInt64))
			add("int:neg", -t)
			add("int:+256", t+256)
			seen := map[int64]bool{t: true, t + 1: true, t - 1: true, -t: true}
			for _, set := range algSets {
				if slices.Contains(set, t) {
					for _, o := range set {
						if !seen[o] {
							seen[o] = true
							add(fmt.Sprintf("alg:%d", o), o)
						}
					}
				}
			}
		case []byte:
			if len(t) > 0 {
				for _, i := range []int{0, len(t) / 2, len(t) - 1} {
					c := append([]byte{}, t...)
					c[i] ^= 0x01
					add(fmt.Sprintf("flip@%d", i), c)
				}
				add("trunc1", append([]byte{}, t[:len(t)-1]...))
				add("empty", []byte{})
			}
			add("ext1", append(append([]byte{}, t...), 0))
			if len(t) > 2 {
				if in, err := Decode(t); err == nil {
					switch in.(type) {
					case []any, Map, Tag:
						walk(in, path+"<", func(x any) any { return put(Encode(x)) })
					}
				}
			}
		case string:
			add("text+", t+"x")
			add("text:empty", "")
		case bool:
			add("not", !t)
		case []any:
			for i := range t {
				i := i
				rm := append(append([]any{}, t[:i]...), t[i+1:]...)
				add(fmt.Sprintf("del[%d]", i), rm)
				dup := append(append(append([]any{}, t[:i+1]...), t[i]), t[i+1:]...)
				add(fmt.Sprintf("dup[%d]", i), dup)
				walk(t[i], fmt.Sprintf("%s/%d", path, i), func(x any) any {
					c := append([]any{}, t...)
					c[i] = x
					return put(c)
				})
			}
			add("append", append(append([]any{}, t...), nil))
		case Map:
			for i := range t {
				i := i
				rm := append(append(Map{}, t[:i]...), t[i+1:]...)
				add(fmt.Sprintf("mdel[%v]", t[i].K), rm)
				walk(t[i].V, fmt.Sprintf("%s{%v}", path, t[i].K), func(x any) any {
					c := append(Map{}, t...)
					c[i] = KV{t[i].K, x}
					return put(c)
				})
			}
		case Tag:
			add("untag", t.V)
			add("retag", Tag{t.N + 1, t.V})
			walk(t.V, path+"#", func(x any) any { return put(Tag{t.N, x}) })
		}
	}
	walk(v, "", func(x any) any { return x })
	return out
}

// SortMap orders a map canonically by encoded key.
func SortMap(m Map) Map {
	o := append(Map{}, m...)
	sort.Slice(o, func(i, j int) bool { return string(Encode(o[i].K)) < string(Encode(o[j].K)) })
	return o
}
