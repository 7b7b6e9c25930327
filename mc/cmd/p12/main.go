// P12: whatever is sent, the services answer, and refuse with a protocol error.
package main

import (
	"bytes"
	"fmt"
	"net/http"
	"strings"

	"verif/mc/fdo"
	"verif/mc/hx"
)

type combo struct {
	dev, owner, suite int
	kex               string
}

func (c combo) String() string {
	return fmt.Sprintf("%s/%s/%s/%s", fdo.AlgName(c.dev), fdo.AlgName(c.owner), fdo.SuiteByID(c.suite).Name, c.kex)
}

var combos = []combo{
	{fdo.ES256, fdo.ES256, 1, "ECDH256"},
	{fdo.ES384, fdo.RS256, 30, "DHKEXid14"},
	{fdo.ES256, fdo.RS384, 33, "ASYMKEX3072"},
	{fdo.ES384, fdo.ES384, -17760704, "ECDH384"},
	{fdo.ES256, fdo.RS256, 3, "ASYMKEX2048"},
	{fdo.ES256, fdo.ES256, 32, "DHKEXid15"},
}

// env is one prepared world in which message n is due.
type env struct {
	c  combo
	w  *fdo.World
	d  *fdo.Device
	t0 *fdo.To0
	t1 *fdo.To1
	t2 *fdo.To2
}

func prepare(x *hx.X, c combo, n int) *env {
	e := &env{c: c, w: fdo.NewWorld(fdo.Config{NoAPI: true}), d: fdo.NewDevice(c.dev, c.owner, "a", 1)}
	x.Cleanup(e.w.Close)
	die := func(what string, err any) {
		x.Fail("setup:"+what, "%s: correct run up to %d refused at %s: %v", c, n, what, err)
	}
	if n < 40 {
		e.t0 = &fdo.To0{W: e.w}
		if n == 22 || n == 30 || n == 32 {
			if r := e.t0.Hello(); !r.OK(21) {
				die("20", r)
			}
		}
		if n == 30 || n == 32 {
			if r, _ := e.t0.Register(e.d, 1000, "o.verif.test"); !r.OK(23) {
				die("22", r)
			}
		}
		e.t1 = &fdo.To1{W: e.w}
		if n == 32 {
			if r := e.t1.Hello(e.d.GUID, c.dev); !r.OK(31) {
				die("30", r)
			}
		}
		return e
	}
	e.d.Install(e.w)
	e.t2 = fdo.NewTo2(e.w, e.d, c.suite, c.kex)
	up := map[int]int{62: 60, 64: 62, 66: 64, 68: 66, 70: 66}[n]
	if up > 0 {
		if err := e.t2.Reach(up); err != nil {
			die("60..", err)
		}
	}
	if n == 70 {
		if _, _, err := e.t2.Info(false, fdo.Mandatory()); err != nil {
			die("68", err)
		}
	}
	return e
}

func (e *env) token(n int) string {
	switch n {
	case 22:
		return e.t0.Token
	case 32:
		return e.t1.Token
	case 62, 64, 66, 68, 70:
		return e.t2.Token
	}
	return ""
}

// layer is one level at which a message can be broken: the tree that is
// mutated and how the rest of the message is correctly made around it.
type layer struct {
	n    int
	name string
	tree func(e *env) any
	wrap func(e *env, v any) []byte
}

func plain(e *env, v any) []byte { return fdo.Encode(v) }

func si() []any {
	o := []any{}
	for _, s := range fdo.Mandatory() {
		o = append(o, fdo.A(s.K, s.V))
	}
	return o
}

func to0d(e *env) []any { return fdo.A(e.d.V.Tree(), 1000, e.t0.Nonce) }

var addrs = fdo.A(fdo.A([]byte{192, 0, 2, 7}, "o.verif.test", 8043, 3), fdo.A(nil, "p.verif.test", 80, 1))

func layers() []layer {
	ls := []layer{
		{20, "message", func(e *env) any { return fdo.A() }, plain},
		{22, "message", func(e *env) any {
			t, _ := fdo.OwnerSign(e.d.V.Tree(), e.t0.Nonce, 1000, addrs, e.d.V.Owner(), -16)
			return t
		}, plain},
		{22, "to0d", func(e *env) any { return to0d(e) }, func(e *env, v any) []byte {
			b := fdo.Encode(v)
			return fdo.Encode(fdo.A(b, e.d.V.Owner().Sign1(nil, fdo.Encode(fdo.A(addrs, fdo.Hash(-16, b))))))
		}},
		{22, "to1d payload", func(e *env) any { return fdo.A(addrs, fdo.Hash(-16, fdo.Encode(to0d(e)))) }, func(e *env, v any) []byte {
			return fdo.Encode(fdo.A(fdo.Encode(to0d(e)), e.d.V.Owner().Sign1(nil, fdo.Encode(v))))
		}},
		{30, "message", func(e *env) any { return fdo.A(e.d.GUID, fdo.A(e.c.dev, []byte{})) }, plain},
		{32, "message", func(e *env) any {
			return e.d.Key.Sign1(nil, fdo.Encode(fdo.EatPayload(e.t1.Nonce, e.d.GUID, nil)))
		}, plain},
		{32, "payload", func(e *env) any { return fdo.EatPayload(e.t1.Nonce, e.d.GUID, nil) }, func(e *env, v any) []byte {
			return fdo.Encode(e.d.Key.Sign1(nil, fdo.Encode(v)))
		}},
		{60, "message", func(e *env) any { return e.t2.HelloBody() }, plain},
		{62, "message", func(e *env) any { return fdo.A(0) }, plain},
		{64, "message", func(e *env) any {
			e.t2.StartKex()
			return e.t2.ProveItem(e.d.Key, e.t2.NProveDv, e.d.GUID, e.t2.XB(), fdo.RandBytes(16))
		}, plain},
		{64, "payload", func(e *env) any {
			e.t2.StartKex()
			return fdo.EatPayload(e.t2.NProveDv, e.d.GUID, e.t2.XB())
		}, func(e *env, v any) []byte {
			return fdo.Encode(e.d.Key.Sign1(fdo.Map{{K: -259, V: fdo.RandBytes(16)}}, fdo.Encode(v)))
		}},
	}
	inner := map[int]func(e *env) any{
		66: func(e *env) any { return fdo.A(nil, 1300) },
		68: func(e *env) any { return fdo.A(false, si()) },
		70: func(e *env) any { return fdo.A(e.t2.NProveDv) },
	}
	for _, n := range []int{66, 68, 70} {
		n := n
		ls = append(ls,
			layer{n, "plaintext", inner[n], func(e *env, v any) []byte { return fdo.Encrypt(e.t2.Suite, e.t2.Key, fdo.Encode(v)) }},
			layer{n, "ciphertext", func(e *env) any { return fdo.EncryptItem(e.t2.Suite, e.t2.Key, fdo.Encode(inner[n](e))) }, plain})
	}
	return ls
}

var garbage = []struct {
	name string
	b    []byte
}{
	{"empty", nil},
	{"null", []byte{0xf6}},
	{"int", []byte{0x07}},
	{"text", []byte("\x65hello")},
	{"array0", []byte{0x80}},
	{"map0", []byte{0xa0}},
	{"undefined", []byte{0xf7}},
	{"float-nan", []byte{0xf9, 0x7e, 0x00}},
	{"break", []byte{0xff}},
	{"reserved", []byte{0x1c}},
	{"truncated", []byte{0x83, 0x01}},
	{"huge-bytes", []byte{0x5b, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}},
	{"huge-array", []byte{0x9b, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}},
	{"huge-map", []byte{0xbb, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}},
	{"indefinite", []byte{0x9f, 0x01, 0xff}},
	{"indefinite-open", []byte{0x9f, 0x01}},
	{"bad-utf8", []byte{0x62, 0xc3, 0x28}},
	{"dup-map", []byte{0xa2, 0x01, 0x02, 0x01, 0x03}},
	{"deep", bytes.Repeat([]byte{0x81}, 200)},
	{"deep-tags", bytes.Repeat([]byte{0xc1}, 300)},
	{"zeros", make([]byte, 64)},
	{"ones", bytes.Repeat([]byte{0xff}, 64)},
	{"json", []byte(`{"a":1}`)},
	{"nulls", fdo.Encode(fdo.A(nil, nil, nil, nil, nil, nil))},
	{"two-nulls", fdo.Encode(fdo.A(nil, nil))},
	{"three-nulls", fdo.Encode(fdo.A(nil, nil, nil))},
	{"one-null", fdo.Encode(fdo.A(nil))},
	{"arrays", fdo.Encode(fdo.A(fdo.A(), fdo.A()))},
	{"sign1-nulls", fdo.Encode(fdo.Tag{N: 18, V: fdo.A(nil, nil, nil, nil)})},
	{"sign1-empties", fdo.Encode(fdo.Tag{N: 18, V: fdo.A([]byte{}, fdo.Map{}, []byte{}, []byte{})})},
	{"encrypt0-nulls", fdo.Encode(fdo.Tag{N: 16, V: fdo.A(nil, nil, nil)})},
	{"encrypt0-empties", fdo.Encode(fdo.Tag{N: 16, V: fdo.A([]byte{}, fdo.Map{}, []byte{})})},
	{"encrypt0-bare", fdo.Encode(fdo.A([]byte{}, fdo.Map{}, []byte{}))},
	{"mac0-nulls", fdo.Encode(fdo.Tag{N: 17, V: fdo.A(nil, nil, nil, nil)})},
	{"mac0-empties", fdo.Encode(fdo.Tag{N: 17, V: fdo.A([]byte{}, fdo.Map{}, []byte{}, []byte{})})},
	{"big", append([]byte{0x5a, 0x00, 0x10, 0x00, 0x00}, make([]byte, 1<<20)...)},
	{"error-message", fdo.Encode(fdo.A(100, 20, "x", 0, 1))},
}

// judge checks that an answer is proper: either the protocol reply (if that is
// allowed) or a single protocol error naming the message.
func judge(x *hx.X, n int, r fdo.Resp, mayPass bool, key, what string) {
	x.Step("%s -> %s", what, r)
	switch {
	case r.Dropped():
		x.Fail(fmt.Sprintf("drop:%d:%s", n, r.Frame), "%s: connection dropped: %s", what, r)
	case r.Status == 200:
		if !mayPass {
			x.Fail(fmt.Sprintf("accepted:%d:%s", n, key), "%s: malformed message got the protocol reply: %s", what, r)
		}
		if !r.OK(n + 1) {
			x.Fail(fmt.Sprintf("not-a-reply:%d:%s", n, key), "%s: answered 200 without the protocol reply: %s", what, r)
		}
		if _, err := fdo.Decode(r.Body); err != nil {
			x.Fail(fmt.Sprintf("bad-reply:%d:%s", n, key), "%s: reply is not one CBOR item: %v", what, err)
		}
	default:
		_, prev, ok := r.FdoErr()
		if !ok {
			x.Fail(fmt.Sprintf("noerr:%d:%s", n, strings.SplitN(key, ":", 2)[0]), "%s: refused with %d but the body is not one error message: %x", what, r.Status, trunc(r.Body))
		}
		if prev != int64(n) {
			x.Fail(fmt.Sprintf("wrong-message-named:%d:%s", n, strings.SplitN(key, ":", 2)[0]), "%s: the error names message %d", what, prev)
		}
	}
	x.Outcome(fmt.Sprintf("%d:%s", n, r.Class()))
}

func trunc(b []byte) []byte {
	if len(b) > 60 {
		return b[:60]
	}
	return b
}

// tolerated are mutations that leave a message as good as before or whose
// acceptance is a matter of how lenient a decoder is.
func tolerated(n int, l string, m fdo.Mutant) bool {
	if m.Kind == "type:tag" || m.Kind == "type:null" || m.Kind == "untag" || m.Kind == "retag" {
		return true
	}
	switch fmt.Sprintf("%d %s", n, l) {
	case "22 message", "32 message", "64 message":
		return strings.Contains(m.Path, "#/1")
	}
	return false
}

func main() {
	hx.Main("P12", "every single-node mutation of every message at its stage, in the message itself and inside its signed or encrypted parts (re-signed, re-encrypted); every byte changed, every truncation; generic garbage of every message type at every stage; every wrong method, content type and token", func(r *hx.Run) {
		ls := layers()
		cs := combos
		for li := range ls {
			l := ls[li]
			counts := make([]int, len(cs))
			for ci, c := range cs {
				pr := &hx.Space{}
				_ = pr
				counts[ci] = shape(c, l)
			}
			r.Explore(&hx.Space{Name: fmt.Sprintf("mutate-%d-%s", l.n, l.name), Body: func(x *hx.X) {
				ci := x.Choose("combo", len(cs))
				k := x.Choose("mutant", counts[ci])
				c := cs[ci]
				e := prepare(x, c, l.n)
				tree := l.tree(e)
				ms := fdo.Mutants(tree)
				if k >= len(ms) {
					x.Prune("fewer mutants")
				}
				m := ms[k]
				if bytes.Equal(fdo.Encode(m.V), fdo.Encode(tree)) {
					x.Prune("identical")
				}
				x.State(c.String() + m.Path + m.Kind)
				may := tolerated(l.n, l.name, m) || passes(l, m)
				judge(x, l.n, e.w.Send(l.n, e.token(l.n), l.wrap(e, m.V)), may, l.name+":"+m.Path+":"+m.Kind, fmt.Sprintf("%s: %d %s node %s %s", c, l.n, l.name, m.Path, m.Kind))
			}})
		}
		// bytes of the message as sent
		for li := range ls {
			l := ls[li]
			if l.name != "message" && l.name != "ciphertext" {
				continue
			}
			r.Explore(&hx.Space{Name: fmt.Sprintf("bytes-%d", l.n), Body: func(x *hx.X) {
				ci := 0
				if l.n >= 66 || r.Thorough {
					ci = x.Choose("combo", len(cs))
				}
				e := prepare(x, cs[ci], l.n)
				b := l.wrap(e, l.tree(e))
				op := x.Choose("op", 4)
				n := len(b)
				if l.n == 22 && !r.Thorough {
					n = (len(b) + 3) / 4 // every fourth byte of the long voucher message
				}
				i := x.Choose("at", n)
				if i >= len(b) {
					x.Prune("shorter")
				}
				if n < len(b) {
					i = i * 4
				}
				if i >= len(b) {
					x.Prune("shorter")
				}
				switch op {
				case 0:
					b = b[:i]
				case 1:
					b[i] ^= 0x01
				case 2:
					b[i] ^= 0x80
				case 3:
					b[i] ^= 0xff
				}
				x.State(fmt.Sprint(ci, op, i))
				judge(x, l.n, e.w.Send(l.n, e.token(l.n), b), op > 0, "bytes", fmt.Sprintf("%s: %d with byte %d changed (op %d)", cs[ci], l.n, i, op))
			}})
		}
		all := []int{20, 22, 30, 32, 60, 62, 64, 66, 68, 70}
		r.Explore(&hx.Space{Name: "garbage", Body: func(x *hx.X) {
			ci := 0
			if r.Thorough {
				ci = x.Choose("combo", len(cs))
			}
			stage := all[x.Choose("stage", len(all))]
			n := all[x.Choose("msg", len(all))]
			k := x.Choose("garbage", len(garbage))
			e := prepare(x, cs[ci], stage)
			g := garbage[k]
			tok := e.token(stage)
			enc := e.t2 != nil && e.t2.HaveKey && n > 64 && x.Choose("encrypted", 2) == 1
			body := g.b
			if enc {
				body = fdo.Encrypt(e.t2.Suite, e.t2.Key, g.b)
			}
			x.State(fmt.Sprint(ci, stage, n, k, enc))
			may := n == 20 && (g.name == "array0" || g.name == "null" || g.name == "undefined" || g.name == "map0") || n == 62 && stage == 64 && g.name == "one-null" || n == 62 && stage == 62 && g.name == "one-null" ||
				n == 66 && stage == 66 && enc && (g.name == "two-nulls") || n == 62 && (g.name == "null" || g.name == "undefined") || n == 66 && stage == 66 && enc && (g.name == "null" || g.name == "undefined")
			judge(x, n, e.w.Send(n, tok, body), may, "garbage:"+g.name, fmt.Sprintf("%s: %s as message %d when %d is due (encrypted %v)", cs[ci], g.name, n, stage, enc))
		}})
		runs(r)
		type hv struct {
			name, method, ctype, auth string
			may                       bool
		}
		r.Explore(&hx.Space{Name: "http", Body: func(x *hx.X) {
			li := x.Choose("layer", len(ls))
			l := ls[li]
			if l.name != "message" && l.name != "plaintext" {
				x.Prune("not a message")
			}
			e := prepare(x, cs[0], l.n)
			body := l.wrap(e, l.tree(e))
			tok := e.token(l.n)
			bare := strings.TrimPrefix(tok, "Bearer ")
			vs := []hv{
				{"get", "GET", "application/cbor", tok, false}, {"put", "PUT", "application/cbor", tok, false}, {"delete", "DELETE", "application/cbor", tok, false},
				{"patch", "PATCH", "application/cbor", tok, false}, {"lower", "post", "application/cbor", tok, false},
				{"no-type", "POST", "", tok, false}, {"text", "POST", "text/plain", tok, false}, {"json", "POST", "application/json", tok, false}, {"cose", "POST", "application/cose", tok, false},
				{"cbor-seq", "POST", "application/cbor-seq", tok, false}, {"cborx", "POST", "application/cborx", tok, false}, {"type-cut", "POST", "application/cbo", tok, false}, {"type-prefixed", "POST", "xapplication/cbor", tok, false},
				{"type-list", "POST", "text/plain, application/cbor", tok, false}, {"type-latin1", "POST", "application/cbor\xe9", tok, false}, {"type-bytes", "POST", "\xff\xfe\x80", tok, false}, {"type-cut-rune", "POST", "text/\xe2\x82", tok, false}, {"type-long", "POST", strings.Repeat("x", 70000), tok, false},
				{"type-quote", "POST", "text/\"x\"\\", tok, false},
				{"params", "POST", "application/cbor; charset=x", tok, true}, {"upper", "POST", "APPLICATION/CBOR", tok, true},
			}
			if tok != "" {
				vs = append(vs,
					hv{"no-token", "POST", "application/cbor", "", false}, hv{"bearer-only", "POST", "application/cbor", "Bearer", false}, hv{"bearer-space", "POST", "application/cbor", "Bearer ", false},
					hv{"basic", "POST", "application/cbor", "Basic " + bare, true}, hv{"bare", "POST", "application/cbor", bare, true}, hv{"cut", "POST", "application/cbor", tok[:len(tok)-1], false},
					hv{"longer", "POST", "application/cbor", tok + "0", false}, hv{"upper-token", "POST", "application/cbor", "Bearer " + strings.ToUpper(bare), false}, hv{"spaces", "POST", "application/cbor", "Bearer  " + bare, true},
					hv{"three-parts", "POST", "application/cbor", tok + " x", true}, hv{"very-long", "POST", "application/cbor", "Bearer " + strings.Repeat("a", 70000), false},
					hv{"binary", "POST", "application/cbor", "Bearer \x00\xff", false}, hv{"path", "POST", "application/cbor", "Bearer ../../x", false}, hv{"prefixed", "POST", "application/cbor", "Bearer session-" + bare, false},
					hv{"guid", "POST", "application/cbor", "Bearer " + fmt.Sprintf("%x", e.d.GUID), false})
			}
			v := vs[x.Choose("variant", len(vs))]
			h := http.Header{}
			if v.ctype != "" {
				h.Set("Content-Type", v.ctype)
			}
			if v.auth != "" {
				h["Authorization"] = []string{v.auth}
			}
			x.State(fmt.Sprint(l.n, v.name))
			judge(x, l.n, fdo.Do(e.w.Mux, v.method, fmt.Sprintf("/fdo/101/msg/%d", l.n), h, body), v.may, "http:"+v.name, fmt.Sprintf("message %d with %s", l.n, v.name))
		}})
	})
}

// shape counts a layer's mutants for a combination.
func shape(c combo, l layer) (n int) {
	x := &probe{}
	x.run(c, l)
	return x.n
}

type probe struct{ n int }

func (p *probe) run(c combo, l layer) {
	hx.Detached(func(x *hx.X) {
		e := prepare(x, c, l.n)
		p.n = len(fdo.Mutants(l.tree(e)))
	})
}

// passes lists mutations that make another correct message.
func passes(l layer, m fdo.Mutant) bool { return passTable(l, m) }
