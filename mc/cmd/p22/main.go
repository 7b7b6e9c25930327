// P22: rendezvous info round trips between URLs and the wire and is decoded
// exactly or refused.
package main

import (
	"bytes"
	"fmt"
	"net"
	"reflect"
	"strings"
	"unicode/utf8"

	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"

	"verif/mc/fdo"
	"verif/mc/hx"
)

// dir is the reference reading of one directive.
type dir struct {
	flags  [16]bool
	ips    [][]byte
	ints   map[int]int64
	texts  map[int]string
	hashes map[int]string
	ext    string
}

var widths = map[int]int64{3: 65535, 4: 65535, 11: 255, 12: 255, 13: 1<<32 - 1}

// read decodes one directive; unsure is set when acceptance is left open.
func read(v any) (d dir, ok, unsure bool) {
	l, isL := v.([]any)
	if !isL {
		return d, false, v == nil
	}
	d.ints, d.texts, d.hashes = map[int]int64{}, map[int]string{}, map[int]string{}
	seen := map[int64]bool{}
	host := false
	for _, it := range l {
		p, isP := it.([]any)
		if !isP || len(p) != 2 {
			return d, false, it == nil
		}
		k, isK := fdo.ToInt(p[0])
		if p[0] == nil {
			return d, false, true
		}
		if !isK || k < 0 || k > 255 {
			return d, false, false
		}
		if seen[k] && k != 2 {
			return d, false, false
		}
		seen[k] = true
		if k == 0 || k == 1 || k == 8 || k == 14 {
			if p[1] != nil {
				if a, isA := p[1].([]any); isA && len(a) == 0 {
					unsure = true
				}
				return d, false, unsure
			}
			d.flags[k] = true
			continue
		}
		b, isB := p[1].([]byte)
		if !isB {
			_, arr := p[1].([]any) // a list of numbers reads as bytes
			return d, false, arr
		}
		val, err := fdo.Decode(b)
		if err != nil {
			return d, false, false
		}
		if val == nil { // null reads as nothing
			unsure = true
			if k == 2 {
				return d, false, true
			}
			if k == 5 {
				host = true
			}
			continue
		}
		if _, tag := val.(fdo.Tag); tag {
			return d, false, true
		}
		switch k {
		case 2:
			ip, isB := val.([]byte)
			if !isB || len(ip) != 4 && len(ip) != 16 {
				_, arr := val.([]any)
				return d, false, arr
			}
			d.ips = append(d.ips, ip)
			host = true
		case 3, 4, 11, 12, 13:
			n, isN := fdo.ToInt(val)
			if !isN || n < 0 || n > widths[int(k)] {
				return d, false, false
			}
			d.ints[int(k)] = n
		case 5, 9, 10:
			s, isS := val.(string)
			if !isS {
				return d, false, false
			}
			d.texts[int(k)] = s
			host = host || k == 5
		case 6, 7:
			h, isH := val.([]any)
			if !isH || len(h) != 2 {
				return d, false, false
			}
			t, isN := fdo.ToInt(h[0])
			hb, isB := h[1].([]byte)
			if !isN || !isB {
				_, arr := h[1].([]any)
				return d, false, arr || h[0] == nil || h[1] == nil
			}
			d.hashes[int(k)] = fmt.Sprintf("%d:%x", t, hb)
		case 15:
			a, isA := val.([]any)
			if !isA {
				return d, false, false
			}
			d.ext = fmt.Sprint(len(a))
		default:
			unsure = true // unknown instruction
		}
	}
	if !host {
		return d, false, unsure
	}
	if d.flags[0] && d.flags[1] {
		return d, false, false
	}
	return d, true, unsure
}

// of turns the system's reading into the reference form.
func of(m fdoshared.MappedRVDirective) dir {
	d := dir{ints: map[int]int64{}, texts: map[int]string{}, hashes: map[int]string{}}
	d.flags[0], d.flags[1], d.flags[8], d.flags[14] = m.RVDevOnly, m.RVOwnerOnly, m.RVUserInput, m.RVBypass
	for _, ip := range m.RVIPAddresses {
		d.ips = append(d.ips, []byte(ip))
	}
	if m.RVDevPort != nil {
		d.ints[3] = int64(*m.RVDevPort)
	}
	if m.RVOwnerPort != nil {
		d.ints[4] = int64(*m.RVOwnerPort)
	}
	if m.RVMedium != nil {
		d.ints[11] = int64(*m.RVMedium)
	}
	if m.RVProtocol != nil {
		d.ints[12] = int64(*m.RVProtocol)
	}
	if m.RVDelaysec != nil {
		d.ints[13] = int64(*m.RVDelaysec)
	}
	for k, p := range map[int]*string{5: m.RVDns, 9: m.RVWifiSsid, 10: m.RVWifiPw} {
		if p != nil {
			d.texts[k] = *p
		}
	}
	for k, p := range map[int]*fdoshared.HashOrHmac{6: m.RVSvCertHash, 7: m.RVClCertHash} {
		if p != nil {
			d.hashes[k] = fmt.Sprintf("%d:%x", p.Type, p.Hash)
		}
	}
	if m.RVExtRV != nil {
		d.ext = fmt.Sprint(len(*m.RVExtRV))
	}
	return d
}

// system decodes an encoded rendezvous info all the way.
func system(x *hx.X, b []byte, what string) (m fdoshared.MappedRVInfo, err error) {
	if p, fr := hx.Guard(func() {
		var ri fdoshared.RendezvousInfo
		if err = fdoshared.CborCust.Unmarshal(b, &ri); err == nil {
			m, err = fdoshared.GetMappedRVInfo(ri)
		}
		if err == nil {
			for i := range m {
				m[i].GetOwnerUrls()
			}
			m.GetOwnerOnly()
			m.GetDevOnly()
		}
	}); p != nil {
		x.Fail("panic:"+fr, "decoding %s panics: %v (%x)", what, p, b)
	}
	x.Run().Transitions.Add(1)
	return
}

// compare checks the system's reading of an encoding against the reference.
func compare(x *hx.X, b []byte, lenient bool, key, what string) {
	m, err := system(x, b, what)
	v, derr := fdo.Decode(b)
	if derr != nil {
		if err == nil && !lenient {
			x.Fail("accepted:"+key, "%s: not CBOR yet accepted: %x", what, b)
		}
		return
	}
	l, isL := v.([]any)
	if !isL {
		if err == nil && !lenient && v != nil {
			x.Fail("accepted:"+key, "%s: not a list yet accepted: %x", what, b)
		}
		return
	}
	var want []dir
	all, unsure := true, lenient
	for _, e := range l {
		d, ok, u := read(e)
		unsure = unsure || u
		all = all && ok
		want = append(want, d)
	}
	x.Outcome(fmt.Sprint("ref ", all, " sys ", err == nil, " unsure ", unsure))
	if all && !unsure && err != nil {
		x.Fail("refused:"+key, "%s: well formed info refused: %v (%x)", what, err, b)
	}
	if err != nil || unsure {
		return
	}
	if !all {
		x.Fail("accepted:"+key, "%s: malformed info accepted: %x read as %+v", what, b, m)
	}
	if len(m) != len(want) {
		x.Fail("count:"+key, "%s: %d directives read as %d", what, len(want), len(m))
	}
	for i := range want {
		if got := of(m[i]); !reflect.DeepEqual(got, want[i]) {
			x.Fail("altered:"+key, "%s: directive %d read as %+v instead of %+v", what, i, got, want[i])
		}
	}
	// filters
	var own, dev []dir
	for _, d := range want {
		if !d.flags[0] {
			own = append(own, d)
		}
		if !d.flags[1] {
			dev = append(dev, d)
		}
	}
	for name, p := range map[string]struct {
		got  fdoshared.MappedRVInfo
		want []dir
	}{"owner": {m.GetOwnerOnly(), own}, "device": {m.GetDevOnly(), dev}} {
		var g []dir
		for _, e := range p.got {
			g = append(g, of(e))
		}
		if !reflect.DeepEqual(g, p.want) {
			x.Fail("filter:"+name, "%s: %s directives are %+v instead of %+v", what, name, g, p.want)
		}
	}
	for i, d := range want {
		port := int64(443)
		if p, ok := d.ints[4]; ok {
			port = p
		}
		var urls []string
		if h, ok := d.texts[5]; ok {
			urls = append(urls, fmt.Sprintf("https://%s:%d", h, port))
		}
		for _, ip := range d.ips {
			urls = append(urls, fmt.Sprintf("https://%s", net.JoinHostPort(net.IP(ip).String(), fmt.Sprint(port))))
		}
		if got := m[i].GetOwnerUrls(); !reflect.DeepEqual(got, urls) {
			x.Fail("owner-urls", "%s: owner URLs %v instead of %v", what, got, urls)
		}
	}
}

// odd tells whether a tree holds a form decoders read differently: a tag, a
// simple value, a float, a text that is not UTF-8 - also inside an embedded item.
func odd(v any) bool {
	switch t := v.(type) {
	case []any:
		for _, e := range t {
			if odd(e) {
				return true
			}
		}
	case fdo.Map:
		for _, e := range t {
			if odd(e.K) || odd(e.V) {
				return true
			}
		}
	case fdo.Tag:
		return true
	case string:
		return !utf8.ValidString(t)
	case []byte:
		if in, err := fdo.Decode(t); err == nil {
			if _, leaf := in.([]byte); !leaf {
				return odd(in)
			}
		}
	case nil, bool, int, int64, uint64:
	default:
		_, isInt := fdo.ToInt(v)
		return !isInt
	}
	return false
}

func val(k int, v any) any { return fdo.A(k, fdo.Encode(v)) }

type uspec struct {
	scheme, host, port, tail string
}

func (u uspec) String() string { return u.scheme + "://" + u.host + u.port + u.tail }

func (u uspec) want() (d dir, ok bool) {
	d = dir{ints: map[int]int64{}, texts: map[int]string{}, hashes: map[int]string{}}
	def := map[string]int64{"http": 80, "https": 443}
	s := strings.ToLower(u.scheme)
	p, good := def[s]
	if !good || u.host == "" {
		return d, false
	}
	if u.port != "" && u.port != ":" {
		if _, err := fmt.Sscanf(u.port, ":%d", &p); err != nil || p < 0 || p > 65535 || fmt.Sprintf(":%d", p) != u.port {
			return d, false
		}
	}
	d.ints[3], d.ints[4] = p, p
	d.ints[12] = map[string]int64{"http": 1, "https": 2}[s]
	h := strings.Trim(u.host, "[]")
	if ip := net.ParseIP(h); ip != nil {
		if v4 := ip.To4(); v4 != nil {
			ip = v4
		}
		d.ips = [][]byte{ip}
	} else {
		d.texts[5] = h
	}
	return d, true
}

func main() {
	schemes := []string{"http", "https", "HTTP", "Https", "ftp", "coap", "tcp", "", "httpx"}
	hosts := []string{"rv.example", "localhost", "a", "RV.Example", "10.0.0.1", "255.255.255.255", "0.0.0.0", "[::1]", "[2001:db8::ff00:42:8329]", "[::ffff:192.0.2.9]", "[::]", "xn--bcher-kva.example", "under_score.example",
		"1.2.3", "1.2.3.4.5", "256.1.1.1", strings.Repeat("a", 63) + ".example", strings.Repeat("b.", 100) + "example", "rv.example.", ""}
	ports := []string{"", ":", ":80", ":443", ":8043", ":1", ":0", ":255", ":256", ":65535", ":65536", ":99999999999999999999", ":-1", ":abc", ":80x"}
	tails := []string{"", "/", "/fdo/101?x=1#y"}
	hx.Main("P22", "all URL lists of length 0-2 from schemes x hosts x ports x tails; every instruction kind with every value shape, alone and in pairs; all orders of up to 3 directives; every structural mutation, bit flip and truncation of encoded info; against a reference decoder", func(r *hx.Run) {
		build := func(x *hx.X, us []uspec) {
			var in []string
			var want []dir
			all := true
			for _, u := range us {
				in = append(in, u.String())
				d, ok := u.want()
				all = all && ok
				want = append(want, d)
			}
			x.State(fmt.Sprint(in))
			var ri fdoshared.RendezvousInfo
			var err error
			if p, fr := hx.Guard(func() { ri, err = fdoshared.UrlsToRendezvousInfo(in) }); p != nil {
				x.Fail("panic:"+fr, "%v panics: %v", in, p)
			}
			x.Run().Transitions.Add(1)
			if (err == nil) != all {
				x.Fail("url-accept", "%q: accepted=%v, want %v (%v)", in, err == nil, all, err)
			}
			x.Outcome(fmt.Sprint("urls ", all))
			if err != nil {
				return
			}
			b, err := fdoshared.CborCust.Marshal(ri)
			if err != nil {
				x.Fail("encode", "%v: %v", in, err)
			}
			// the reference reads the wire form
			l, _ := fdo.MustDecode(b).([]any)
			if len(l) != len(want) {
				x.Fail("url-count", "%v gives %d directives", in, len(l))
			}
			for i := range l {
				d, ok, _ := read(l[i])
				if !ok || !reflect.DeepEqual(d, want[i]) {
					x.Fail("url-wire", "%v: directive %d on the wire is %+v instead of %+v", in, i, d, want[i])
				}
			}
			compare(x, b, false, "url", fmt.Sprint(in))
			for i, u := range in {
				e, err := fdoshared.UrlToTOAddrEntry(u)
				if err != nil {
					x.Fail("addr-refused", "%q: %v", u, err)
				}
				w := want[i]
				good := int64(e.RVPort) == w.ints[3] && int64(e.RVProtocol) == map[int64]int64{1: 3, 2: 5}[w.ints[12]]
				if len(w.ips) > 0 {
					good = good && e.RVDNS == nil && e.RVIP != nil && bytes.Equal(*e.RVIP, w.ips[0])
				} else {
					good = good && e.RVIP == nil && e.RVDNS != nil && *e.RVDNS == w.texts[5]
				}
				if !good {
					x.Fail("addr", "%q becomes address entry %+v", u, *e)
				}
			}
		}
		r.Explore(&hx.Space{Name: "url", Body: func(x *hx.X) {
			n := len(schemes) * len(hosts)
			k := x.Choose("scheme-host", n)
			for _, p := range ports {
				for _, t := range tails {
					build(x, []uspec{{schemes[k%len(schemes)], hosts[k/len(schemes)], p, t}})
				}
			}
		}})
		r.Explore(&hx.Space{Name: "url-lists", Body: func(x *hx.X) {
			if x.Choose("empty", 2) == 1 {
				build(x, nil)
				return
			}
			var pool []uspec
			for _, s := range []string{"http", "https", "ftp"} {
				for _, h := range []string{"rv.example", "10.0.0.1", "[::1]"} {
					for _, p := range []string{"", ":8043", ":bad"} {
						pool = append(pool, uspec{s, h, p, ""})
					}
				}
			}
			a := pool[x.Choose("a", len(pool))]
			b := pool[x.Choose("b", len(pool))]
			build(x, []uspec{a, b})
			if r.Thorough {
				for _, c := range pool {
					build(x, []uspec{a, b, c})
				}
			}
		}})
		good := map[int]any{2: []byte{10, 0, 0, 1}, 3: 8043, 4: 443, 5: "rv.example", 6: fdo.Hash(-16, []byte("a")), 7: fdo.Hash(-43, []byte("b")), 9: "net", 10: "pw", 11: 21, 12: 1, 13: 60, 15: fdo.A("ext")}
		values := []any{nil, true, false, 0, 1, 23, 24, 255, 256, 443, 65535, 65536, int64(1<<32 - 1), int64(1 << 32), int64(1<<62 - 1), -1, -256, "", "x", "rv.example", []byte{}, []byte{1}, []byte{1, 2, 3}, []byte{1, 2, 3, 4}, []byte{1, 2, 3, 4, 5}, make([]byte, 15), make([]byte, 16), make([]byte, 17),
			fdo.A(), fdo.A(1), fdo.A(-16, make([]byte, 32)), fdo.A(-16), fdo.A(-16, "x"), fdo.A(1, 2, 3), fdo.Map{}, fdo.Map{{K: 1, V: 2}}, fdo.Tag{N: 1, V: 5}}
		keys := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 100, 255}
		instr := func(k int) any {
			if v, ok := good[k]; ok {
				return val(k, v)
			}
			if k > 15 {
				return val(k, 1)
			}
			return fdo.A(k, nil)
		}
		r.Explore(&hx.Space{Name: "values", Body: func(x *hx.X) {
			k := keys[x.Choose("key", len(keys))]
			for vi, v := range values {
				for _, with := range []int{5, 2, 0} {
					l := []any{val(k, v)}
					if with > 0 {
						l = append([]any{val(with, good[with])}, l...)
					}
					x.State(fmt.Sprint(k, vi, with))
					compare(x, fdo.Encode(fdo.A(l)), false, fmt.Sprintf("value:%d", k), fmt.Sprintf("instruction %d with value %v (host %d)", k, v, with))
				}
			}
			for _, raw := range []any{nil, 1, "x", []byte{}, []byte{0xff}, []byte{0x61}, []byte{1, 1}, fdo.A(), fdo.A(1), fdo.Map{}, true} {
				compare(x, fdo.Encode(fdo.A(fdo.A(val(5, "h"), fdo.A(k, raw)))), false, fmt.Sprintf("raw:%d", k), fmt.Sprintf("instruction %d with raw value %v", k, raw))
				x.State(fmt.Sprint("raw", k, raw))
			}
			for _, short := range []any{fdo.A(k), fdo.A(), fdo.A(k, nil, nil), fdo.A(k, fdo.Encode(1), 3)} {
				if len(short.([]any)) == 1 && (k == 0 || k == 1 || k == 8 || k == 14) {
					continue // a boolean may be sent without a value slot
				}
				compare(x, fdo.Encode(fdo.A(fdo.A(val(5, "h"), short))), false, "arity", fmt.Sprintf("instruction %v", short))
			}
		}})
		r.Explore(&hx.Space{Name: "long", Body: func(x *hx.X) {
			n := []int{5, 7, 8, 9, 10, 12, 15, 16, 17, 23, 24, 25, 32, 33, 50, 64, 65, 100, 128, 129, 255, 256, 257, 300}[x.Choose("size", 24)]
			ip := func(i int) any {
				if i%3 == 2 {
					return val(2, append(make([]byte, 14), byte(i>>8), byte(i)))
				}
				return val(2, []byte{10, 1, byte(i >> 8), byte(i)})
			}
			switch x.Choose("shape", 4) {
			case 0: // many directives
				l := []any{}
				for i := 0; i < n; i++ {
					d := []any{val(5, fmt.Sprintf("h%d.example", i)), val(12, i%3)}
					switch i % 4 {
					case 1:
						d = append(d, val(3, 1+i), val(4, 2+i))
					case 2:
						d = append(d, fdo.A(0, nil))
					case 3:
						d = append(d, fdo.A(1, nil), ip(i))
					}
					l = append(l, d)
				}
				compare(x, fdo.Encode(l), false, "many-directives", fmt.Sprintf("%d directives", n))
			case 1: // many addresses in one
				d := []any{val(5, "h.example"), val(3, 8043)}
				for i := 0; i < n; i++ {
					d = append(d, ip(i))
				}
				compare(x, fdo.Encode(fdo.A(d)), false, "many-addresses", fmt.Sprintf("%d addresses", n))
			case 2: // a long name
				for _, k := range []int{n, 4 * n, 1000 * n} {
					compare(x, fdo.Encode(fdo.A(fdo.A(val(5, strings.Repeat("n", k)), val(9, strings.Repeat("s", k)), val(10, strings.Repeat("p", k))))), false, "long-text", fmt.Sprintf("texts of %d characters", k))
				}
			case 3: // a broken one among many
				for bad := 0; bad < n; bad++ {
					if bad > 3 && bad < n-3 && bad%7 != 0 {
						continue
					}
					l := []any{}
					for i := 0; i < n; i++ {
						if i == bad {
							l = append(l, fdo.A(val(5, "h"), val(3, "not a port")))
						} else {
							l = append(l, fdo.A(val(5, "h"), val(3, i+1)))
						}
					}
					compare(x, fdo.Encode(l), false, "many-one-bad", fmt.Sprintf("directive %d of %d is malformed", bad, n))
				}
			}
			x.State(fmt.Sprint("long", n))
		}})
		r.Explore(&hx.Space{Name: "pairs", Body: func(x *hx.X) {
			a, b := keys[x.Choose("a", len(keys))], keys[x.Choose("b", len(keys))]
			for c := -1; c < len(keys); c++ {
				l := []any{instr(a), instr(b)}
				if c >= 0 {
					l = append(l, instr(keys[c]))
				}
				x.State(fmt.Sprint(a, b, c))
				compare(x, fdo.Encode(fdo.A(l)), false, "pair", fmt.Sprintf("instructions %d %d %d", a, b, c))
				compare(x, fdo.Encode(fdo.A(append(l, val(2, make([]byte, 16))))), false, "pair", fmt.Sprintf("instructions %d %d %d and an IPv6 address", a, b, c))
			}
		}})
		r.Explore(&hx.Space{Name: "orders", Body: func(x *hx.X) {
			ds := []any{
				fdo.A(val(5, "a.example"), val(3, 1), val(4, 2), val(12, 1)),
				fdo.A(val(2, []byte{1, 2, 3, 4}), val(2, make([]byte, 16)), val(4, 9), fdo.A(1, nil)),
				fdo.A(fdo.A(0, nil), val(5, "d.example")),
				fdo.A(val(5, "x"), fdo.A(0, nil), fdo.A(1, nil)),
				fdo.A(),
				fdo.A(val(13, 5), val(5, "z"), val(14, nil)),
			}
			n := x.Choose("n", 4)
			l := []any{}
			for i := 0; i < n; i++ {
				l = append(l, ds[x.Choose("d", len(ds))])
			}
			b := fdo.Encode(l)
			x.State(string(b))
			compare(x, b, false, "order", fmt.Sprintf("directives %v", l))
		}})
		base := []any{}
		all := []any{}
		for _, k := range keys[:16] {
			if k != 0 {
				all = append(all, instr(k))
			}
		}
		base = append(base, all, fdo.A(val(2, make([]byte, 16)), fdo.A(0, nil), val(3, 80)))
		ms := fdo.Mutants(base)
		r.Explore(&hx.Space{Name: "mutants", Body: func(x *hx.X) {
			m := ms[x.Choose("mutant", len(ms))]
			b := fdo.Encode(m.V)
			x.State(m.Path + m.Kind)
			len1 := m.Kind == "untag" || m.Kind == "retag" || m.Kind == "type:tag" || strings.HasPrefix(m.Kind, "del[") && strings.Contains(m.Path, "/")
			compare(x, b, len1, "mutant:"+m.Kind, fmt.Sprintf("info with node %s %s", m.Path, m.Kind))
		}})
		enc := fdo.Encode(base)
		r.Explore(&hx.Space{Name: "bytes", Body: func(x *hx.X) {
			i := x.Choose("at", len(enc))
			_, err := system(x, enc[:i], "cut info")
			if err == nil {
				x.Fail("accepted:cut", "info cut to %d bytes is accepted", i)
			}
			for b := 0; b < 256; b++ {
				m := append([]byte{}, enc...)
				m[i] = byte(b)
				x.State(fmt.Sprint(i, b))
				// decoders differ on forms such as indefinite lengths, floats and duplicate keys
				mv, derr := fdo.Decode(m)
				compare(x, m, derr != nil || odd(mv), "byte", fmt.Sprintf("info with byte %d = %02x", i, b))
			}
		}})
	})
}
