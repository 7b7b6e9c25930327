// P21: device service info is decoded exactly or refused.
package main

import (
	"fmt"
	"reflect"
	"strings"
	"unicode/utf8"

	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"

	"github.com/fido-alliance/iot-fdo-conformance-tools/core/do/to2"

	"verif/mc/fdo"
	"verif/mc/hx"
)

const (
	tBool = iota
	tText
	tUint
	tMods
)

// the mandatory items and the declared type of each
var items = []struct {
	k string
	t int
}{
	{"devmod:active", tBool}, {"devmod:os", tText}, {"devmod:arch", tText}, {"devmod:version", tText}, {"devmod:device", tText},
	{"devmod:sep", tText}, {"devmod:bin", tText}, {"devmod:nummodules", tUint}, {"devmod:modules", tMods},
}

func typeOf(k string) int {
	for _, i := range items {
		if i.k == k {
			return i.t
		}
	}
	return -1
}

// odd tells whether a tree holds a form decoders read differently.
func odd(v any) bool {
	switch t := v.(type) {
	case []any:
		for _, e := range t {
			if odd(e) {
				return true
			}
		}
	case fdo.Map:
		for _, e := range t {
			if odd(e.K) || odd(e.V) {
				return true
			}
		}
	case string:
		return !utf8.ValidString(t)
	case bool, int, int64, uint64, []byte:
	default: // null, tags, floats, simple values
		return true
	}
	return false
}

// read is the reference reading of one item.
func read(k string, b []byte) (v any, ok, unsure bool) {
	t := typeOf(k)
	if t < 0 {
		return nil, true, false
	}
	v, err := fdo.Decode(b)
	if err != nil {
		// a cut or overlong encoding is refused by everyone; others may be read by a laxer decoder
		return nil, false, !broken(b)
	}
	if odd(v) {
		return nil, false, true
	}
	switch t {
	case tBool:
		_, ok = v.(bool)
	case tText:
		_, ok = v.(string)
	case tUint:
		n, isN := fdo.ToInt(v)
		_, isU := v.(uint64)
		ok = isN && n >= 0 || isU
	case tMods:
		l, isL := v.([]any)
		if !isL || len(l) < 3 {
			return nil, false, isL && len(l) == 2 // a list naming no module
		}
		for i, e := range l {
			n, isN := fdo.ToInt(e)
			_, isU := e.(uint64)
			_, isS := e.(string)
			if i < 2 && !(isN && n >= 0 || isU) || i >= 2 && !isS {
				return nil, false, false
			}
		}
		n, _ := fdo.ToInt(l[1])
		ok, unsure = true, int(n) != len(l)-2 // the count may or may not be checked
	}
	return v, ok, unsure
}

// broken reports a definite-length item that is cut short or followed by more bytes, or nothing at all.
func broken(b []byte) bool {
	if len(b) == 0 {
		return true
	}
	for n := 1; n < len(b); n++ {
		if _, err := fdo.Decode(b[:n]); err == nil {
			return true
		}
	}
	for _, pad := range [][]byte{{0x00}, {0x61, 'a'}, {0xf6}} {
		c := append([]byte{}, b...)
		for i := 0; i < 24; i++ {
			c = append(c, pad...)
			if _, err := fdo.Decode(c); err == nil {
				return true
			}
		}
	}
	return false
}

func field(res any, k string) (any, bool) {
	name := map[string]string{"devmod:active": "ACTIVE", "devmod:os": "OS", "devmod:arch": "ARCH", "devmod:version": "VERSION", "devmod:device": "DEVICE",
		"devmod:sep": "SEP", "devmod:bin": "BIN", "devmod:nummodules": "NUMMODULES", "devmod:modules": "MODULES"}[k]
	f := reflect.ValueOf(res).Elem().FieldByName("SIM_DEVMOD_" + name)
	if f.IsNil() {
		return nil, false
	}
	return f.Elem().Interface(), true
}

func same(t int, got any, want any) bool {
	if t == tUint {
		n, _ := fdo.ToInt(want)
		if u, isU := want.(uint64); isU {
			n = int64(u)
		}
		return reflect.ValueOf(got).Uint() == uint64(n)
	}
	return reflect.DeepEqual(got, want)
}

// check compares the system's reading of a list with the reference.
func check(x *hx.X, l []fdo.SI, key, what string) {
	seen := map[string]bool{}
	all, unsure := true, false
	vals := map[string][]any{}
	var mods []string
	for _, s := range l {
		seen[s.K] = true
		v, ok, u := read(s.K, s.V)
		all, unsure = all && (ok || u), unsure || u
		if typeOf(s.K) < 0 {
			continue
		}
		if ok && typeOf(s.K) == tMods {
			for _, m := range v.([]any)[2:] {
				mods = append(mods, m.(string))
			}
		}
		vals[s.K] = append(vals[s.K], v)
	}
	for _, i := range items {
		all = all && seen[i.k]
	}
	var kv []fdoshared.ServiceInfoKV
	for _, s := range l {
		kv = append(kv, fdoshared.ServiceInfoKV{ServiceInfoKey: fdoshared.SIM_ID(s.K), ServiceInfoVal: s.V})
	}
	var res *fdoshared.RESULT_SIMS
	var err error
	if p, fr := hx.Guard(func() { res, err = to2.ValidateDeviceSIMs(fdoshared.FdoGuid{1}, kv) }); p != nil {
		x.Fail("panic:"+fr, "%s: panics: %v", what, p)
	}
	x.Run().Transitions.Add(1)
	x.Outcome(fmt.Sprint("reference ", all, " unsure ", unsure, " system ", err == nil))
	if err == nil && !all {
		x.Fail("accepted:"+key, "%s: accepted", what)
	}
	if err != nil && all && !unsure {
		x.Fail("refused:"+key, "%s: refused: %v", what, err)
	}
	if err != nil || unsure {
		return
	}
	for _, i := range items {
		got, ok := field(res, i.k)
		if !ok {
			x.Fail("lost:"+i.k, "%s: %s is not in the result", what, i.k)
		}
		if i.t == tMods {
			if g, _ := got.([]string); !reflect.DeepEqual(g, mods) {
				x.Fail("altered:"+i.k, "%s: modules read as %q instead of %q", what, got, mods)
			}
			continue
		}
		hit := false
		for _, w := range vals[i.k] {
			hit = hit || same(i.t, got, w)
		}
		if !hit {
			x.Fail("altered:"+i.k, "%s: %s read as %v instead of %v", what, i.k, got, vals[i.k])
		}
	}
}

func good(k string) []byte {
	switch typeOf(k) {
	case tBool:
		return fdo.Encode(true)
	case tUint:
		return fdo.Encode(2)
	case tMods:
		return fdo.Encode(fdo.A(0, 2, "alpha", "beta"))
	}
	return fdo.Encode("value of " + k)
}

func base() (l []fdo.SI) {
	for _, i := range items {
		l = append(l, fdo.SI{K: i.k, V: good(i.k)})
	}
	return
}

var (
	values = []any{nil, true, false, 0, 1, 23, 24, 255, 256, 65535, 65536, int64(1<<32 - 1), int64(1 << 32), int64(1<<62 - 1), -1, -24, -25, -1000, "", "x", "true", "ünï", []byte{}, []byte("os"),
		fdo.A(), fdo.A(0), fdo.A(0, 1), fdo.A(0, 1, "m"), fdo.A(0, 0, "m"), fdo.A(0, 2, "m"), fdo.A(1, 1, "m"), fdo.A(-1, 1, "m"), fdo.A(0, -1, "m"), fdo.A("0", 1, "m"), fdo.A(0, "1", "m"), fdo.A(0, 1, 5), fdo.A(0, 1, []byte("m")), fdo.A(0, 2, "m", 5), fdo.A(0, 2, 5, "m"),
		fdo.A(0, 1, fdo.A("m")), fdo.A(0, 3, "m", "n", "o"), fdo.A(0, 1, ""), fdo.A(true, 1, "m"), fdo.A(0, false, "m"), fdo.A("m"), fdo.A("m", "n", "o"), fdo.A(fdo.A(0, 1, "m")), fdo.Map{}, fdo.Map{{K: 0, V: 1}, {K: 1, V: "m"}}, fdo.Map{{K: "a", V: true}},
		fdo.A(int64(1<<62), 1, "m"), fdo.A(0, 1, "devmod:os")}
	unknown = []string{"devmod:sn", "devmod:pathsep", "devmod:nl", "devmod:tmp", "devmod:dir", "devmod:progenv", "devmod:mudurl", "devmod", "devmod:", "devmod:OS", "Devmod:os", " devmod:os", "devmod:os ", "devmod:os2", "other:active", "", "fido_alliance:active", "devmod:nope"}
)

func main() {
	hx.Main("P21", "every subset of the mandatory items, every order of them, every item with every value shape, every one- and two-byte value, every cut and extension of a good value, module lists in up to 3 chunks of 0-3 names, unknown items of every shape, duplicates; judged by a reference decoder; subsets and value shapes also over the wire", func(r *hx.Run) {
		n := len(items)
		r.Explore(&hx.Space{Name: "subset", Body: func(x *hx.X) {
			s := x.Choose("subset", 1<<n)
			x.State(fmt.Sprint(s))
			var l []fdo.SI
			for i, e := range base() {
				if s>>i&1 == 1 {
					l = append(l, e)
				}
			}
			check(x, l, "subset", fmt.Sprintf("items %09b", s))
			if s != 1<<n-1 {
				// nothing stands in for a missing item
				for _, u := range unknown {
					check(x, append(append([]fdo.SI{}, l...), fdo.SI{K: u, V: fdo.Encode("x")}), "stand-in", fmt.Sprintf("items %09b and %q", s, u))
				}
				for _, e := range l {
					check(x, append(append([]fdo.SI{}, l...), e, e), "repeat", fmt.Sprintf("items %09b and %q again", s, e.K))
				}
			}
		}})
		r.Explore(&hx.Space{Name: "order", Body: func(x *hx.X) {
			// the first three picks are choice points, the rest is enumerated inside
			left := base()
			var l []fdo.SI
			for i := 0; i < 3; i++ {
				k := x.Choose("next", len(left))
				l = append(l, left[k])
				left = append(append([]fdo.SI{}, left[:k]...), left[k+1:]...)
			}
			x.State(fmt.Sprint(l))
			var rec func(l, left []fdo.SI)
			rec = func(l, left []fdo.SI) {
				if len(left) == 0 {
					check(x, l, "order", fmt.Sprintf("order %v", l))
					return
				}
				for k := range left {
					rec(append(append([]fdo.SI{}, l...), left[k]), append(append([]fdo.SI{}, left[:k]...), left[k+1:]...))
				}
			}
			rec(l, left)
		}})
		// with tries a value for one item, in place and as a duplicate before or after a good one
		with := func(x *hx.X, k string, v []byte, key, what string) {
			l := base()
			for i := range l {
				if l[i].K == k {
					l[i].V = v
				}
			}
			x.State(k + string(v))
			check(x, l, key, what)
			check(x, append(base(), fdo.SI{K: k, V: v}), key+":later", what+" after a good one")
			check(x, append([]fdo.SI{{K: k, V: v}}, base()...), key+":earlier", what+" before a good one")
		}
		r.Explore(&hx.Space{Name: "value", Body: func(x *hx.X) {
			k := items[x.Choose("item", n)].k
			v := values[x.Choose("value", len(values))]
			with(x, k, fdo.Encode(v), "value:"+k, fmt.Sprintf("%s = %v", k, v))
		}})
		r.Explore(&hx.Space{Name: "cut", Body: func(x *hx.X) {
			k := items[x.Choose("item", n)].k
			g := good(k)
			for i := 0; i < len(g); i++ {
				with(x, k, g[:i], "cut:"+k, fmt.Sprintf("%s cut to %d bytes", k, i))
			}
			for _, tail := range [][]byte{{0}, {0xf6}, {0xff}, g, make([]byte, 300)} {
				with(x, k, append(append([]byte{}, g...), tail...), "tail:"+k, fmt.Sprintf("%s followed by %x", k, tail))
			}
			for _, m := range fdo.Mutants(fdo.MustDecode(g)) {
				with(x, k, fdo.Encode(m.V), "mutant:"+k, fmt.Sprintf("%s with node %s %s", k, m.Path, m.Kind))
			}
		}})
		r.Explore(&hx.Space{Name: "bytes", Body: func(x *hx.X) {
			k := items[x.Choose("item", n)].k
			b := x.Choose("byte", 256)
			with(x, k, []byte{byte(b)}, "byte:"+k, fmt.Sprintf("%s = %02x", k, b))
			for c := 0; c < 256; c++ {
				with(x, k, []byte{byte(b), byte(c)}, "byte2:"+k, fmt.Sprintf("%s = %02x%02x", k, b, c))
				if r.Thorough {
					for d := 0; d < 256; d += 5 {
						with(x, k, []byte{byte(b), byte(c), byte(d)}, "byte3:"+k, fmt.Sprintf("%s = %02x%02x%02x", k, b, c, d))
					}
				}
			}
		}})
		r.Explore(&hx.Space{Name: "unknown", Body: func(x *hx.X) {
			u := unknown[x.Choose("name", len(unknown))]
			v := values[x.Choose("value", len(values))]
			pos := x.Choose("position", n+1)
			l := append([]fdo.SI{}, base()[:pos]...)
			l = append(append(l, fdo.SI{K: u, V: fdo.Encode(v)}), base()[pos:]...)
			x.State(fmt.Sprint(u, v, pos))
			if len(u) > 7 && u[:7] == "devmod:" && typeOf(u) < 0 && fdoOptional[u] {
				// the type of an optional item may or may not be checked: only no crash
				var kv []fdoshared.ServiceInfoKV
				for _, s := range l {
					kv = append(kv, fdoshared.ServiceInfoKV{ServiceInfoKey: fdoshared.SIM_ID(s.K), ServiceInfoVal: s.V})
				}
				if p, fr := hx.Guard(func() { to2.ValidateDeviceSIMs(fdoshared.FdoGuid{}, kv) }); p != nil {
					x.Fail("panic:"+fr, "%s = %v: panics: %v", u, v, p)
				}
				return
			}
			check(x, l, "unknown", fmt.Sprintf("unknown item %q = %v", u, v))
		}})
		r.Explore(&hx.Space{Name: "modules", Body: func(x *hx.X) {
			// the module list in chunks, spread over the list of items
			chunks := 1 + x.Choose("chunks", 3)
			l := base()[:n-1]
			at, total := 0, 0
			for c := 0; c < chunks; c++ {
				k := x.Choose("names", 4)
				m := fdo.A(at, k)
				for i := 0; i < k; i++ {
					m = append(m, fmt.Sprintf("module-%d", total))
					total++
				}
				at += k
				p := x.Choose("position", 3) * (len(l) / 2)
				if p > len(l) || c > 0 {
					p = len(l)
				}
				l = append(append(append([]fdo.SI{}, l[:p]...), fdo.SI{K: "devmod:modules", V: fdo.Encode(m)}), l[p:]...)
			}
			x.State(fmt.Sprint(l))
			check(x, l, "modules", fmt.Sprintf("module list in %d chunks with %d names", chunks, total))
		}})
		r.Explore(&hx.Space{Name: "repeated modules", Body: func(x *hx.X) {
			// every list of names, equal ones included, in up to three chunks
			chunks := 1 + x.Choose("chunks", 3)
			l, at := base()[:n-1], 0
			for c := 0; c < chunks; c++ {
				k := x.Choose("names", 4)
				m := fdo.A(at, k)
				for i := 0; i < k; i++ {
					m = append(m, []string{"fdo.download", "fdo"}[x.Choose("name", 2)])
				}
				at += k
				l = append(l, fdo.SI{K: "devmod:modules", V: fdo.Encode(m)})
			}
			x.State(fmt.Sprint(l))
			check(x, l, "repeated-modules", fmt.Sprintf("module list in %d chunks with %d names", chunks, at))
		}})
		r.Explore(&hx.Space{Name: "long lists and values", Body: func(x *hx.X) {
			if k := x.Choose("text item", n); typeOf(items[k].k) == tText {
				for _, c := range []int{0, 1, 23, 24, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 1300, 4095, 4096, 65535, 65536, 100000} {
					l := base()
					l[k].V = fdo.Encode(strings.Repeat("x", c-min(c, 1)) + "y"[:min(c, 1)])
					x.State(fmt.Sprint(k, c))
					check(x, l, "long:"+items[k].k, fmt.Sprintf("%s of %d characters", items[k].k, c))
				}
				return
			} else if typeOf(items[k].k) != tMods {
				return
			}
			total := 1 + x.Choose("names", 120)
			if total > 100 {
				total = []int{127, 128, 200, 254, 255, 256, 257, 258, 300, 500, 511, 512, 513, 777, 1000, 1023, 1024, 1025, 2000, 5000}[total-101]
			}
			for _, per := range []int{1, 2, 3, 7, 8, 9, 10, 16, 23, 24, 25, 100, 256, 100000} {
				if total/per > 600 {
					continue
				}
				l := base()[:n-1]
				for at := 0; at < total; at += per {
					m := fdo.A(at, min(per, total-at))
					for i := at; i < min(at+per, total); i++ {
						m = append(m, fmt.Sprintf("module-%d", i))
					}
					l = append(l, fdo.SI{K: "devmod:modules", V: fdo.Encode(m)})
				}
				for i := range l {
					if l[i].K == "devmod:nummodules" {
						l[i].V = fdo.Encode(total)
					}
				}
				x.State(fmt.Sprint(total, per))
				check(x, l, "many-modules", fmt.Sprintf("%d module names, %d in a list", total, per))
			}
		}})
		// over the wire: what the function decides is what the device is told
		d := fdo.NewDevice(fdo.ES256, fdo.ES256, "p21", 1)
		wire := func(x *hx.X, l []fdo.SI, want bool, key, what string) {
			w := fdo.NewWorld(fdo.Config{NoAPI: true})
			x.Cleanup(w.Close)
			d.Install(w)
			t := fdo.NewTo2(w, d, 1, "ECDH256")
			if err := t.Reach(66); err != nil {
				x.Fail("onboard", "cannot reach the service info phase: %v", err)
			}
			split := x.Choose("split", 2)
			if split == 1 && len(l) > 1 {
				if rs, _, err := t.Info(true, l[:len(l)/2]); err != nil {
					x.Fail("wire-first", "%s: first part answered %s", what, rs)
				}
				l = l[len(l)/2:]
			}
			rs, i, err := t.Info(false, l)
			x.Step("%s -> %s", what, rs)
			switch {
			case rs.Dropped():
				x.Fail("wire-drop:"+rs.Frame, "%s: dropped: %s", what, rs)
			case want && (err != nil || !i.Done):
				x.Fail("wire-refused:"+key, "%s: answered %s (%v)", what, rs, err)
			case !want && rs.Status == 200:
				x.Fail("wire-accepted:"+key, "%s: accepted", what)
			case !want && !rs.IsErr():
				x.Fail("wire-noerr:"+key, "%s: refused without a protocol error: %s", what, rs)
			}
			x.Outcome("wire " + rs.Class())
		}
		r.Explore(&hx.Space{Name: "wire-subset", Body: func(x *hx.X) {
			s := x.Choose("subset", 1<<n)
			if c := bits(s); !r.Thorough && c < n-2 && c > 1 {
				return
			}
			var l []fdo.SI
			for i, e := range base() {
				if s>>i&1 == 1 {
					l = append(l, e)
				}
			}
			wire(x, l, s == 1<<n-1, "subset", fmt.Sprintf("items %09b", s))
			x.State(fmt.Sprint("wire", s))
		}})
		r.Explore(&hx.Space{Name: "wire-value", Body: func(x *hx.X) {
			k := items[x.Choose("item", n)].k
			v := values[x.Choose("value", len(values))]
			_, ok, unsure := read(k, fdo.Encode(v))
			if unsure {
				return
			}
			l := base()
			for i := range l {
				if l[i].K == k {
					l[i].V = fdo.Encode(v)
				}
			}
			wire(x, l, ok, "value:"+k, fmt.Sprintf("%s = %v", k, v))
			x.State(fmt.Sprint("wire", k, v))
		}})
	})
}

var fdoOptional = map[string]bool{"devmod:sn": true, "devmod:pathsep": true, "devmod:nl": true, "devmod:tmp": true, "devmod:dir": true, "devmod:progenv": true, "devmod:mudurl": true}

func bits(n int) (c int) {
	for ; n > 0; n >>= 1 {
		c += n & 1
	}
	return
}
