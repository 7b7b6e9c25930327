// P13: the tool's protocol clients accept genuine answers and report everything else as an error.
package main

import (
	"bytes"
	"context"
	"fmt"
	"strings"

	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to1"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to2"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/do/to0"
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"

	"verif/mc/fdo"
	"verif/mc/hx"
)

type want int

const (
	yes want = iota
	no
	either
)

func (w want) String() string { return []string{"success", "an error", "either"}[w] }

type rig struct {
	x       *hx.X
	ref     *fdo.Ref
	d       *fdo.Device
	srv     fdoshared.SRVEntry
	ctx     context.Context
	pos     int // answer that is broken
	hit     int // how often it came by
	nth     int // which of them is broken
	f       func(t *fdo.Turn)
	what    string
	w       want
	answers map[int][]byte // last genuine bodies
	refused []string
	stale   []string
	fresh   map[string]string // client chosen values seen so far
}

func newRig(x *hx.X, d *fdo.Device, si int) *rig {
	g := &rig{x: x, ref: fdo.NewRef(), d: d, answers: map[int][]byte{}, fresh: map[string]string{}}
	u, rel := fdo.NewHost(g.ref)
	x.Cleanup(rel)
	g.srv = fdoshared.SRVEntry{SrvURL: u}
	g.ctx = fdo.MakeCtx(fdo.Config{}, u)
	g.ref.AddVoucher(d.V.Tree(), d.V.Owner())
	for i := 0; i < si; i++ {
		g.ref.OwnerSI = append(g.ref.OwnerSI, fdo.SI{K: "fido_alliance:active", V: fdo.Encode(true)})
	}
	g.ref.Tap = func(t *fdo.Turn) {
		if t.Why != nil {
			g.refused = append(g.refused, fmt.Sprintf("%d: %v", t.Msg, t.Why))
			return
		}
		g.freshness(t)
		if g.f != nil && t.Ans.Msg == g.pos {
			g.hit++
			if g.hit == g.nth+1 {
				f := g.f
				g.f = nil
				f(t)
				return
			}
		}
		g.answers[t.Ans.Msg] = t.Ans.Body()
	}
	return g
}

// freshness checks that the client's nonces and key exchange values are never used twice.
func (g *rig) freshness(t *fdo.Turn) {
	if t.Msg != 60 && t.Msg != 64 || g.what != "" {
		return
	}
	put := func(name string, v any) {
		b, _ := v.([]byte)
		if len(b) == 0 || bytes.Equal(b, make([]byte, len(b))) {
			g.stale = append(g.stale, name+" is empty or zero")
			return
		}
		if o, ok := g.fresh[string(b)]; ok {
			g.stale = append(g.stale, name+" repeats "+o)
		}
		g.fresh[string(b)] = name
	}
	v := fdo.MustDecode(t.Req)
	if t.Msg == 60 {
		put("the ProveOV nonce", v.([]any)[2])
		return
	}
	s, err := fdo.ParseSign1(v)
	if err != nil {
		return
	}
	n, _ := s.Unprot.Get(-259)
	put("the SetupDv nonce", n)
	if m, ok := fdo.MustDecode(s.Payload).(fdo.Map); ok {
		if f, ok := m.Get(-257); ok {
			put("the key exchange message", f.([]any)[0])
		}
	}
}

// step runs one client step; false means it reported an error.
func (g *rig) step(name string, f func() (any, error)) (v any, ok bool) {
	var err error
	if p, fr := hx.Guard(func() { v, err = f() }); p != nil {
		g.x.Fail("crash:"+name+":"+fr, "%s crashed (%v at %s) after %s", name, p, fr, g.what)
	}
	if err != nil {
		g.x.Step("%s: error %v", name, err)
		return nil, false
	}
	g.x.Step("%s: success", name)
	return v, true
}

type ptr[T any] struct{ p *T }

// to0 runs owner registration up to the step answered by pos.
func (g *rig) to0(upto int) bool {
	c := to0.NewTo0Requestor(g.srv, g.d.VoucherEntry(), g.ctx)
	var ack *fdoshared.HelloAck21
	_, ok := g.step("Hello20", func() (any, error) {
		a, _, err := c.Hello20(testcom.NULL_TEST)
		if ack = a; err == nil && a == nil {
			g.x.Fail("nil:21", "Hello20 reports success without a result after %s", g.what)
		}
		return a, err
	})
	if !ok || upto == 21 {
		return ok
	}
	_, ok = g.step("OwnerSign22", func() (any, error) {
		a, _, err := c.OwnerSign22(ack.NonceTO0Sign, testcom.NULL_TEST)
		if err == nil && a == nil {
			g.x.Fail("nil:23", "OwnerSign22 reports success without a result after %s", g.what)
		}
		if err == nil && g.what == "" && a.WaitSeconds != to0.ServerWaitSeconds {
			g.x.Fail("value:23", "OwnerSign22 returns %d, the answer was %d", a.WaitSeconds, to0.ServerWaitSeconds)
		}
		return a, err
	})
	return ok
}

func (g *rig) to1(upto int) bool {
	c := to1.NewTo1Requestor(g.srv, g.d.CredOf())
	var ack *fdoshared.HelloRVAck31
	_, ok := g.step("HelloRV30", func() (any, error) {
		a, _, err := c.HelloRV30(testcom.NULL_TEST)
		if ack = a; err == nil && a == nil {
			g.x.Fail("nil:31", "HelloRV30 reports success without a result after %s", g.what)
		}
		return a, err
	})
	if !ok || upto == 31 {
		return ok
	}
	_, ok = g.step("ProveToRV32", func() (any, error) {
		a, _, err := c.ProveToRV32(*ack, testcom.NULL_TEST)
		if err == nil && a == nil {
			g.x.Fail("nil:33", "ProveToRV32 reports success without a result after %s", g.what)
		}
		if err == nil && g.w == yes {
			b, _ := fdoshared.CborCust.Marshal(a)
			if !bytes.Equal(b, g.ref.Registered(g.d.GUID)) {
				g.x.Fail("value:33", "ProveToRV32 returns another blob than the server sent")
			}
		}
		return a, err
	})
	return ok
}

func (g *rig) to2(kex string, suite int, upto int) bool {
	c := to2.NewTo2Requestor(g.srv, g.d.CredOf(), fdoshared.KexSuiteName(kex), fdoshared.CipherSuiteName(suite))
	var p61 *fdoshared.TO2ProveOVHdrPayload
	if _, ok := g.step("HelloDevice60", func() (any, error) {
		a, _, err := c.HelloDevice60(testcom.NULL_TEST)
		if p61 = a; err == nil && a == nil {
			g.x.Fail("nil:61", "HelloDevice60 reports success without a result after %s", g.what)
		}
		return a, err
	}); !ok {
		return false
	}
	var es fdoshared.OVEntryArray
	for i := 0; i < int(p61.NumOVEntries); i++ {
		var e *fdoshared.OVNextEntry63
		if _, ok := g.step("GetOVNextEntry62", func() (any, error) {
			a, _, err := c.GetOVNextEntry62(uint8(i), testcom.NULL_TEST)
			if e = a; err == nil && a == nil {
				g.x.Fail("nil:63", "GetOVNextEntry62 reports success without a result after %s", g.what)
			}
			return a, err
		}); !ok {
			return false
		}
		if int(e.OVEntryNum) != i {
			g.x.Fail("entry-number", "GetOVNextEntry62(%d) reports success for an answer with entry %d (%s)", i, e.OVEntryNum, g.what)
		}
		es = append(es, e.OVEntry)
	}
	if _, ok := g.step("verify entries", func() (any, error) {
		if err := es.VerifyEntries(p61.OVHeader, p61.HMac); err != nil {
			return nil, err
		}
		if len(es) == 0 {
			return nil, fmt.Errorf("no entries")
		}
		k, err := es[len(es)-1].GetOVEntryPubKey()
		if err != nil {
			return nil, err
		}
		return nil, c.ProveOVHdr61PubKey.Equal(k)
	}); !ok {
		return false
	}
	if upto <= 63 {
		return true
	}
	if _, ok := g.step("ProveDevice64", func() (any, error) {
		a, _, err := c.ProveDevice64(testcom.NULL_TEST)
		if err == nil && a == nil {
			g.x.Fail("nil:65", "ProveDevice64 reports success without a result after %s", g.what)
		}
		return a, err
	}); !ok || upto == 65 {
		return ok
	}
	if _, ok := g.step("DeviceServiceInfoReady66", func() (any, error) {
		a, _, err := c.DeviceServiceInfoReady66(testcom.NULL_TEST)
		if err == nil && a == nil {
			g.x.Fail("nil:67", "DeviceServiceInfoReady66 reports success without a result after %s", g.what)
		}
		return a, err
	}); !ok || upto == 67 {
		return ok
	}
	sims := fdo.Mandatory()
	for i, s := range sims {
		var o *fdoshared.OwnerServiceInfo69
		last := i == len(sims)-1
		if _, ok := g.step("DeviceServiceInfo68", func() (any, error) {
			a, _, err := c.DeviceServiceInfo68(fdoshared.DeviceServiceInfo68{IsMoreServiceInfo: !last,
				ServiceInfo: []fdoshared.ServiceInfoKV{{ServiceInfoKey: fdoshared.SIM_ID(s.K), ServiceInfoVal: s.V}}}, testcom.NULL_TEST)
			if o = a; err == nil && a == nil {
				g.x.Fail("nil:69", "DeviceServiceInfo68 reports success without a result after %s", g.what)
			}
			return a, err
		}); !ok {
			return false
		}
		if last && g.w == yes && (!o.IsDone || len(o.ServiceInfo) != len(g.ref.OwnerSI)) {
			g.x.Fail("value:69", "DeviceServiceInfo68 returns %+v", *o)
		}
		if upto == 69 && g.f == nil && g.what != "" && g.what != "pending" {
			return true
		}
	}
	_, ok := g.step("Done70", func() (any, error) {
		a, _, err := c.Done70(testcom.NULL_TEST)
		if err == nil && a == nil {
			g.x.Fail("nil:71", "Done70 reports success without a result after %s", g.what)
		}
		return a, err
	})
	return ok
}

func (g *rig) judge(ok bool, key string) {
	if ok {
		g.x.Outcome(fmt.Sprint(g.pos, ":accepted"))
	} else {
		g.x.Outcome(fmt.Sprint(g.pos, ":refused"))
	}
	if ok && g.w == no {
		g.x.Fail(fmt.Sprintf("accepted:%d:%s", g.pos, key), "the client reports success although %s", g.what)
	}
	if !ok && g.w == yes {
		g.x.Fail(fmt.Sprintf("refused:%d:%s", g.pos, key), "the client reports an error although %s; reference peer refusals: %v", g.what, g.refused)
	}
}

var positions = []int{21, 23, 31, 33, 61, 63, 65, 67, 69, 71}

const (
	kexDef   = "ECDH256"
	suiteDef = 1
)

func (g *rig) drive(kex string, suite int) bool {
	switch {
	case g.pos < 30:
		return g.to0(g.pos)
	case g.pos < 40:
		_, blob := fdo.OwnerSign(g.d.V.Tree(), make([]byte, 16), 1000, fdo.A(fdo.RvAddr("o.verif.test", 8043)), g.d.V.Owner(), fdo.HashType(g.d.V.Owner().Alg))
		g.ref.SetBlob(g.d.GUID, blob, g.d.V.Spec.Dev.Certs)
		return g.to1(g.pos)
	}
	return g.to2(kex, suite, g.pos)
}

func same(a, b any) bool { return bytes.Equal(fdo.Encode(a), fdo.Encode(b)) }

func uintMax(v any, max int64) want {
	n, ok := fdo.ToInt(v)
	if !ok {
		if v == nil {
			return either
		}
		if _, s := v.(fdo.Simple); s {
			return either
		}
		if _, s := v.(fdo.Tag); s {
			return either
		}
		return no
	}
	if n < 0 || n > max {
		return no
	}
	return yes
}

// nonce judges a fresh nonce the client cannot know.
func nonce(v any) want {
	switch t := v.(type) {
	case []byte:
		if len(t) == 16 {
			return yes
		}
		return either
	case nil, fdo.Tag:
		return either
	case []any:
		return either // arrays of small integers decode as bytes
	}
	return no
}

// eq judges a value the client must compare.
func eq(v, orig any) want {
	if same(v, orig) {
		return yes
	}
	if untagged := strip(v); same(untagged, orig) {
		return either
	}
	if n, ok := fdo.ToInt(orig); ok && n == 0 && v == nil {
		return either // null is read as the zero value
	}
	// shorter byte strings are padded, longer ones cut by the decoder
	if a, ok := v.([]byte); ok {
		if b, ok := orig.([]byte); ok && len(b) == 16 {
			var p [16]byte
			copy(p[:], a)
			if bytes.Equal(p[:], b) {
				return either
			}
		}
	}
	return no
}

// strip removes tags the decoder ignores.
func strip(v any) any {
	switch t := v.(type) {
	case fdo.Tag:
		return strip(t.V)
	case []any:
		o := []any{}
		for _, e := range t {
			o = append(o, strip(e))
		}
		return o
	}
	return v
}

func all(w ...want) want {
	out := yes
	for _, v := range w {
		if v == no {
			return no
		}
		if v == either {
			out = either
		}
	}
	return out
}

func wellFormedSign1(v any) want {
	t, ok := v.(fdo.Tag)
	out := yes
	if !ok || t.N != 18 {
		out = either
		if ok {
			v = t.V
		}
	} else {
		v = t.V
	}
	a, ok := v.([]any)
	if !ok {
		if _, tag := v.(fdo.Tag); tag || v == nil {
			return either
		}
		return no
	}
	if len(a) != 4 {
		return no
	}
	by := func(v any) want {
		switch v.(type) {
		case []byte:
			return yes
		case nil, []any, fdo.Tag:
			return either
		}
		return no
	}
	un := func(v any) want {
		switch v.(type) {
		case fdo.Map:
			return either
		case nil, fdo.Tag:
			return either
		}
		return no
	}
	return all(out, by(a[0]), un(a[1]), by(a[2]), by(a[3]))
}

// judgeTree judges a changed plain answer (re-signed and re-encrypted by the genuine peer).
func judgeTree(pos int, v, orig any, nth int) want {
	if same(v, orig) {
		return yes
	}
	if t, ok := v.(fdo.Tag); ok && pos != 33 {
		return all(either, judgeTree(pos, t.V, orig, nth))
	}
	a, isA := v.([]any)
	o, _ := orig.([]any)
	if pos == 33 {
		return wellFormedSign1(v)
	}
	if !isA || len(a) != len(o) {
		return no
	}
	switch pos {
	case 21:
		return nonce(a[0])
	case 23:
		return uintMax(a[0], 1<<32-1)
	case 31:
		return all(nonce(a[0]), sigInfo(a[1], o[1]))
	case 61:
		return all(eq(a[0], o[0]), numEntries(a[1], o[1]), eq(a[2], o[2]), eq(a[3], o[3]), sigInfo(a[4], o[4]), kexMsg(a[5], o[5]), eq(a[6], o[6]), uintMax(a[7], 65535))
	case 63:
		e := no
		if same(a[1], o[1]) {
			e = yes
		} else if w := wellFormedSign1(a[1]); w != no {
			e = entryLenient(a[1], o[1])
		}
		return all(eq(a[0], o[0]), e)
	case 65:
		g := nonce(a[1])
		if !same(a[1], o[1]) {
			g = all(g, either)
		}
		rv := yes
		if !same(a[0], o[0]) {
			rv = either
			if l, ok := a[0].([]any); ok && len(l) == 0 {
				rv = no
			}
			switch a[0].(type) {
			case []any, fdo.Tag:
			default:
				rv = no
			}
		}
		return all(rv, g, eq(a[2], o[2]), eqKey(a[3], o[3]))
	case 67:
		if a[0] == nil {
			return yes
		}
		return uintMax(a[0], 65535)
	case 69:
		return all(boolean(a[0]), boolean(a[1]), siList(a[2]))
	case 71:
		return eq(a[0], o[0])
	}
	return either
}

func numEntries(v, o any) want {
	if same(v, o) {
		return yes
	}
	if w := uintMax(v, 255); w == no {
		return no
	}
	// a shorter or longer list of entries cannot end in the signing owner's key
	if n, ok := fdo.ToInt(v); ok {
		_ = n
		return no
	}
	return either
}

func kexMsg(v, o any) want {
	if same(v, o) {
		return yes
	}
	switch v.(type) {
	case []byte, nil, []any, fdo.Tag:
		return either // judged when it is used
	}
	return no
}

func sigInfo(v, o any) want {
	if same(v, o) {
		return yes
	}
	a, ok := v.([]any)
	if !ok {
		if t, tag := v.(fdo.Tag); tag {
			return all(either, sigInfo(t.V, o))
		}
		return no
	}
	if len(a) != 2 {
		return no
	}
	oa := o.([]any)
	w := eq(a[0], oa[0])
	switch a[1].(type) {
	case nil, fdo.Tag:
		return all(w, either)
	case []any:
		if len(a[1].([]any)) == 0 {
			return all(w, either)
		}
	}
	return all(w, eq(a[1], oa[1]))
}

func eqKey(v, o any) want {
	if same(v, o) {
		return yes
	}
	if t, ok := v.(fdo.Tag); ok {
		return all(either, eqKey(t.V, o))
	}
	a, ok := v.([]any)
	if !ok || len(a) != 3 {
		return no
	}
	oa := o.([]any)
	return all(eq(a[0], oa[0]), eq(a[1], oa[1]), eq(a[2], oa[2]))
}

func boolean(v any) want {
	switch v.(type) {
	case bool:
		return yes
	case nil, fdo.Tag, fdo.Simple:
		return either
	}
	return no
}

func siList(v any) want {
	switch t := v.(type) {
	case nil, fdo.Tag:
		return either
	case []any:
		w := yes
		for _, e := range t {
			kv, ok := e.([]any)
			if !ok {
				if _, tag := e.(fdo.Tag); tag || e == nil {
					w = all(w, either)
					continue
				}
				return no
			}
			if len(kv) != 2 {
				return no
			}
			switch kv[0].(type) {
			case string:
			case nil, fdo.Tag:
				w = all(w, either)
			default:
				return no
			}
			switch kv[1].(type) {
			case []byte:
			case nil, fdo.Tag, []any:
				w = all(w, either)
			default:
				return no
			}
		}
		return all(w, either)
	}
	return no
}

// entryLenient: an entry whose protected, payload and signature are unchanged
// differs only in what no signature or hash covers.
func entryLenient(v, o any) want {
	strip := func(v any) []any {
		if t, ok := v.(fdo.Tag); ok {
			v = t.V
		}
		if t, ok := v.(fdo.Tag); ok {
			v = t.V
		}
		a, _ := v.([]any)
		return a
	}
	a, b := strip(v), strip(o)
	if len(a) != 4 || len(b) != 4 {
		return no
	}
	un := func(v any) any {
		if t, ok := v.(fdo.Tag); ok {
			return t.V
		}
		return v
	}
	for _, i := range []int{0, 2, 3} {
		if !same(un(a[i]), b[i]) {
			return no
		}
	}
	return either
}

func (g *rig) faults() (key string) {
	x := g.x
	kinds := []string{"transport", "body", "tree", "item", "wrap", "peer"}
	k := kinds[x.Choose("kind", len(kinds))]
	set := func(w want, what string, f func(a *fdo.Answer)) {
		g.w, g.what = w, what
		g.f = func(t *fdo.Turn) { f(t.Ans) }
	}
	switch k {
	case "transport":
		type tr struct {
			name string
			w    want
			f    func(a *fdo.Answer)
		}
		l := []tr{}
		for _, s := range []int{400, 401, 404, 405, 500, 502, 503} {
			s := s
			l = append(l, tr{fmt.Sprint("status-", s), no, func(a *fdo.Answer) { a.Status = s }})
		}
		l = append(l, tr{"type-none", either, func(a *fdo.Answer) { a.MsgType = "-" }},
			tr{"type-255", no, func(a *fdo.Answer) { a.MsgType = "255" }},
			tr{"type-request", no, func(a *fdo.Answer) { a.MsgType = fmt.Sprint(a.Msg - 1) }},
			tr{"type-other", no, func(a *fdo.Answer) { a.MsgType = fmt.Sprint(a.Msg + 2) }},
			tr{"type-text", no, func(a *fdo.Answer) { a.MsgType = "x" }},
			tr{"drop", no, func(a *fdo.Answer) { a.Drop = true }},
			tr{"error-500", no, func(a *fdo.Answer) {
				a.Wrap, a.Status, a.MsgType = func([]byte) []byte { return fdo.ErrBody(100, a.Msg-1, "no") }, 500, "255"
			}},
			tr{"error-200", no, func(a *fdo.Answer) {
				a.Wrap, a.MsgType = func([]byte) []byte { return fdo.ErrBody(100, a.Msg-1, "no") }, "255"
			}},
			tr{"error-200-type", no, func(a *fdo.Answer) {
				a.Wrap = func([]byte) []byte { return fdo.ErrBody(100, a.Msg-1, "no") }
			}},
			tr{"error-500-enc", no, func(a *fdo.Answer) {
				a.Tree, a.Signer, a.Status, a.MsgType = fdo.A(100, a.Msg-1, "no", 0, 1), nil, 500, "255"
			}},
			tr{"error-200-enc", no, func(a *fdo.Answer) { a.Tree, a.Signer = fdo.A(100, a.Msg-1, "no", 0, 1), nil }})
		t := l[x.Choose("t", len(l))]
		set(t.w, fmt.Sprintf("answer %d had transport fault %s", g.pos, t.name), t.f)
		return t.name
	case "body":
		l := []struct {
			name string
			f    func(b []byte) []byte
		}{
			{"empty", func(b []byte) []byte { return nil }},
			{"null", func(b []byte) []byte { return []byte{0xf6} }},
			{"undefined", func(b []byte) []byte { return []byte{0xf7} }},
			{"html", func(b []byte) []byte { return []byte("<html>oops</html>") }},
			{"ff", func(b []byte) []byte { return []byte{0xff} }},
			{"array0", func(b []byte) []byte { return []byte{0x80} }},
			{"map0", func(b []byte) []byte { return []byte{0xa0} }},
			{"int", func(b []byte) []byte { return []byte{0x00} }},
			{"trunc1", func(b []byte) []byte { return b[:len(b)-1] }},
			{"half", func(b []byte) []byte { return b[:len(b)/2] }},
			{"trailing", func(b []byte) []byte { return append(append([]byte{}, b...), 0) }},
			{"twice", func(b []byte) []byte { return append(append([]byte{}, b...), b...) }},
			{"bstr", func(b []byte) []byte { return fdo.Encode(b) }},
			{"deep", func(b []byte) []byte { return bytes.Repeat([]byte{0x81}, 5000) }},
			{"huge", func(b []byte) []byte { return []byte{0x9b, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff} }},
		}
		t := l[x.Choose("t", len(l))]
		at := 0 // on the wire, or (1) inside the encryption
		if g.pos >= 65 {
			at = x.Choose("inside", 2)
		}
		set(no, fmt.Sprintf("answer %d had a broken body (%s, inside=%d)", g.pos, t.name, at), func(a *fdo.Answer) {
			if at == 0 {
				a.Wrap = t.f
				return
			}
			a.Item = func(v any) any { return fdo.Raw(t.f(fdo.Encode(v))) }
		})
		if g.pos == 67 && at == 1 && t.name == "array0" {
			g.w = no
		}
		return t.name
	case "tree", "item":
		// the tree is only known at run time: enumerate against a template of the same shape
		var m fdo.Mutant
		g.f = func(t *fdo.Turn) {
			a := t.Ans
			if k == "tree" {
				ms := fdo.Mutants(a.Tree)
				m = ms[x.Choose("mut", len(ms))]
				g.w = judgeTree(g.pos, m.V, a.Tree, g.nth)
				g.what = fmt.Sprintf("answer %d was changed at %s (%s)", g.pos, m.Path, m.Kind)
				a.Tree = m.V
				return
			}
			if a.Signer == nil {
				x.Choose("mut", 1)
				g.w, g.what = yes, "nothing was changed"
				return
			}
			s := a.Signer.Sign1(a.Unprot, fdo.Encode(a.Tree))
			ms := fdo.Mutants(s)
			m = ms[x.Choose("mut", len(ms))]
			a.Item = func(any) any { return m.V }
			g.what = fmt.Sprintf("the signed item of answer %d was changed at %s (%s)", g.pos, m.Path, m.Kind)
			g.w = judgeItem(g.pos, m.V, s)
		}
		g.w, g.what = no, "pending"
		return k
	case "wrap":
		if g.pos < 65 {
			x.Prune("not encrypted")
		}
		g.what = "pending"
		g.f = func(t *fdo.Turn) {
			a := t.Ans
			enc := a.Body()
			v := fdo.MustDecode(enc)
			ms := fdo.Mutants(v)
			m := ms[x.Choose("mut", len(ms))]
			g.what = fmt.Sprintf("the encrypted answer %d was changed at %s (%s)", g.pos, m.Path, m.Kind)
			b := fdo.Encode(m.V)
			a.Wrap = func([]byte) []byte { return b }
			if _, err := fdo.Decrypt(a.Suite, a.Key, b); err == nil || m.Kind == "untag" || m.Kind == "retag" || strings.HasPrefix(m.Kind, "type:tag") {
				g.w = either
			} else {
				g.w = no
			}
			g.w = wrapWant(g.w, m)
		}
		return k
	}
	// peer: a genuine looking answer by the wrong peer, at the wrong time or out of place
	other := fdo.PoolKey(g.d.V.Owner().Alg, "stranger")
	type pe struct {
		name string
		w    want
		f    func(a *fdo.Answer)
	}
	l := []pe{}
	switch g.pos {
	case 61:
		l = append(l, pe{"stranger-signs", no, func(a *fdo.Answer) { a.Signer = other }},
			pe{"stranger-key", no, func(a *fdo.Answer) { a.Signer = other; a.Unprot = fdo.Map{a.Unprot[0], {257, other.Pub()}} }},
			pe{"previous-owner", no, func(a *fdo.Answer) {
				a.Signer = g.d.V.Spec.Owners[0]
				a.Unprot = fdo.Map{a.Unprot[0], {257, a.Signer.Pub()}}
			}},
			pe{"manufacturer", no, func(a *fdo.Answer) {
				a.Signer = g.d.V.Spec.Mfg
				a.Unprot = fdo.Map{a.Unprot[0], {257, a.Signer.Pub()}}
			}},
			pe{"no-nonce", no, func(a *fdo.Answer) { a.Unprot = fdo.Map{a.Unprot[1]} }},
			pe{"no-key", no, func(a *fdo.Answer) { a.Unprot = fdo.Map{a.Unprot[0]} }},
			pe{"no-unprotected", no, func(a *fdo.Answer) { a.Unprot = fdo.Map{} }},
			pe{"stale-nonce", no, func(a *fdo.Answer) { t := fdo.Clone(a.Tree).([]any); t[3] = fdo.RandBytes(16); a.Tree = t }},
			pe{"zero-nonce", no, func(a *fdo.Answer) { t := fdo.Clone(a.Tree).([]any); t[3] = make([]byte, 16); a.Tree = t }},
			pe{"other-hello-hash", no, func(a *fdo.Answer) {
				t := fdo.Clone(a.Tree).([]any)
				t[6] = fdo.Hash(-16, []byte("x"))
				a.Tree = t
			}},
			pe{"hash-for-hmac", no, func(a *fdo.Answer) {
				t := fdo.Clone(a.Tree).([]any)
				t[2] = fdo.Hash(-16, t[0].([]byte))
				a.Tree = t
			}},
			pe{"long-hash-for-hmac", no, func(a *fdo.Answer) {
				t := fdo.Clone(a.Tree).([]any)
				t[2] = fdo.Hash(-43, t[0].([]byte))
				a.Tree = t
			}},
			pe{"hmac-of-nobody", no, func(a *fdo.Answer) {
				t := fdo.Clone(a.Tree).([]any)
				t[2] = fdo.A(5, fdo.RawHmac(5, nil, t[0].([]byte)))
				a.Tree = t
			}},
			pe{"other-voucher", no, func(a *fdo.Answer) {
				o := fdo.NewDevice(g.d.Alg, g.d.V.Owner().Alg, "other", 2)
				t := fdo.Clone(a.Tree).([]any)
				t[0], t[2] = o.V.Header, any(o.V.Hmac)
				a.Tree = t
			}},
			pe{"no-entries", no, func(a *fdo.Answer) { t := fdo.Clone(a.Tree).([]any); t[1] = 0; a.Tree = t }})
	case 63:
		n := len(g.d.V.Entries)
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if i != j {
					i, j := i, j
					l = append(l, pe{fmt.Sprintf("entry-%d-for-%d", j, i), no, func(a *fdo.Answer) { a.Tree = fdo.A(g.nth, g.d.V.Entries[(g.nth+j-i+n)%n]) }})
				}
			}
		}
		l = append(l, pe{"number", no, func(a *fdo.Answer) { t := fdo.Clone(a.Tree).([]any); t[0] = g.nth + 1; a.Tree = t }},
			pe{"previous-number", no, func(a *fdo.Answer) { t := fdo.Clone(a.Tree).([]any); t[0] = (g.nth + 1) % 2; a.Tree = t }},
			pe{"resigned-by-stranger", no, func(a *fdo.Answer) {
				a.Tree = fdo.A(g.nth, other.Sign1(nil, fdo.Encode(g.d.V.EntryPayload(g.nth))))
			}},
			pe{"handed-to-stranger", no, func(a *fdo.Answer) {
				p := g.d.V.EntryPayload(g.nth)
				p[3] = other.Pub()
				a.Tree = fdo.A(g.nth, g.d.V.Signer(g.nth).Sign1(nil, fdo.Encode(p)))
			}},
			pe{"other-voucher", no, func(a *fdo.Answer) {
				o := fdo.NewDevice(g.d.Alg, g.d.V.Owner().Alg, "a", 2)
				a.Tree = fdo.A(g.nth, o.V.Entries[g.nth])
			}})
	case 65:
		l = append(l, pe{"stranger-signs", no, func(a *fdo.Answer) { a.Signer = other }},
			pe{"stale-nonce", no, func(a *fdo.Answer) { t := fdo.Clone(a.Tree).([]any); t[2] = fdo.RandBytes(16); a.Tree = t }},
			pe{"zero-nonce", no, func(a *fdo.Answer) { t := fdo.Clone(a.Tree).([]any); t[2] = make([]byte, 16); a.Tree = t }},
			pe{"stranger-key", no, func(a *fdo.Answer) { t := fdo.Clone(a.Tree).([]any); t[3] = other.Pub(); a.Tree = t }})
	case 71:
		l = append(l, pe{"stale-nonce", no, func(a *fdo.Answer) { a.Tree = fdo.A(fdo.RandBytes(16)) }},
			pe{"zero-nonce", no, func(a *fdo.Answer) { a.Tree = fdo.A(make([]byte, 16)) }})
	case 31:
		l = append(l, pe{"other-siginfo", no, func(a *fdo.Answer) {
			t := fdo.Clone(a.Tree).([]any)
			t[1] = fdo.A(fdo.ES256+fdo.ES384-g.d.Alg, []byte{})
			a.Tree = t
		}},
			pe{"rsa-siginfo", no, func(a *fdo.Answer) { t := fdo.Clone(a.Tree).([]any); t[1] = fdo.A(fdo.RS256, []byte{}); a.Tree = t }})
	}
	if g.pos >= 65 {
		l = append(l, pe{"cleartext", no, func(a *fdo.Answer) { a.Enc = false }},
			pe{"other-key", no, func(a *fdo.Answer) { a.Key = fdo.SessKey{ShSe: fdo.RandBytes(32), Ctx: []byte{}} }},
			pe{"zero-key", no, func(a *fdo.Answer) { a.Key = fdo.SessKey{ShSe: []byte{}, Ctx: []byte{}} }},
			pe{"other-suite", no, func(a *fdo.Answer) {
				if a.Suite.ID == 3 {
					a.Suite = fdo.SuiteByID(1)
				} else {
					a.Suite = fdo.SuiteByID(3)
				}
			}},
			pe{"reencrypted-twice", no, func(a *fdo.Answer) {
				s, k := a.Suite, a.Key
				a.Wrap = func(b []byte) []byte { return fdo.Encrypt(s, k, b) }
			}})
	}
	if g.pos >= 61 && g.pos != 63 {
		l = append(l, pe{"replay", no, nil})
	}
	for _, p := range positions {
		if p != g.pos && (p < 30) == (g.pos < 30) && (p < 40) == (g.pos < 40) && p < g.pos {
			p := p
			l = append(l, pe{fmt.Sprint("answer-", p, "-again"), no, func(a *fdo.Answer) {
				a.Wrap = func([]byte) []byte { return g.answers[p] }
			}})
		}
	}
	if len(l) == 0 {
		x.Prune("nothing here")
	}
	p := l[x.Choose("p", len(l))]
	if p.name == "replay" {
		// record a complete genuine session of the same device first
		g.drive(kexDef, suiteDef)
		old := g.answers[g.pos]
		p.f = func(a *fdo.Answer) { a.Wrap = func([]byte) []byte { return old } }
	}
	set(p.w, fmt.Sprintf("answer %d was wrong (%s)", g.pos, p.name), p.f)
	return p.name
}

func wrapWant(w want, m fdo.Mutant) want {
	// arrays of integers, null and tags are read leniently by the decoder
	switch m.Kind {
	case "type:array0", "type:null", "type:map0", "append":
		if w == no {
			return no
		}
	}
	return w
}

func judgeItem(pos int, v any, orig fdo.Tag) want {
	if w := wellFormedSign1(v); w == no {
		return no
	}
	strip := func(v any) []any {
		for {
			t, ok := v.(fdo.Tag)
			if !ok {
				break
			}
			v = t.V
		}
		a, _ := v.([]any)
		return a
	}
	a, o := strip(v), strip(orig)
	if len(a) != 4 {
		return no
	}
	for _, i := range []int{0, 2, 3} {
		if t, ok := a[i].(fdo.Tag); ok && same(t.V, o[i]) {
			continue
		}
		if !same(a[i], o[i]) {
			return no
		}
	}
	if pos == 61 && !same(a[1], o[1]) {
		m, ok := a[1].(fdo.Map)
		if !ok {
			if t, ok := a[1].(fdo.Tag); ok {
				m, _ = t.V.(fdo.Map)
			} else {
				return no
			}
		}
		om := o[1].(fdo.Map)
		n, ok := m.Get(256)
		if !ok || n == nil {
			return no
		}
		if nonce(n) == no {
			return no
		}
		k, ok := m.Get(257)
		ok1, _ := om.Get(257)
		if !ok || eqKey(k, ok1) == no {
			return no
		}
	}
	return either
}

func main() {
	hx.Main("P13", "every single fault of one server answer: transport, body, each node of the plain, signed and encrypted answer, wrong peers, replays, for each client step", func(r *hx.Run) {
		// every protocol step succeeds against the strict reference peer
		type combo struct {
			dev, own int
			kex      string
			suite    int
		}
		var cs []combo
		for _, dv := range []int{fdo.ES256, fdo.ES384} {
			for _, ow := range []int{fdo.ES256, fdo.ES384, fdo.RS256, fdo.RS384} {
				for _, k := range []string{"ECDH256", "ECDH384", "DHKEXid14", "DHKEXid15", "ASYMKEX2048", "ASYMKEX3072"} {
					if strings.HasPrefix(k, "ASYM") && (ow == fdo.ES256 || ow == fdo.ES384) {
						continue
					}
					for _, s := range fdo.Suites {
						if !s.Unimplemented {
							cs = append(cs, combo{dv, ow, k, s.ID})
						}
					}
				}
			}
		}
		r.Explore(&hx.Space{Name: "genuine", Body: func(x *hx.X) {
			c := cs[x.Choose("combo", len(cs))]
			n := 1 + x.Choose("entries", 3)
			g := newRig(x, fdo.NewDevice(c.dev, c.own, "a", n), x.Choose("si", 2))
			g.w = yes
			key := fmt.Sprintf("%s/%s/%s/%d", fdo.AlgName(c.dev), fdo.AlgName(c.own), c.kex, c.suite)
			for _, p := range []int{23, 33, 71, 71} {
				g.pos = p
				g.judge(g.drive(c.kex, c.suite), key)
				if len(g.stale) > 0 {
					x.Fail("stale", "%v", g.stale)
				}
			}
		}})
		names := []struct{ dev, own int }{{fdo.ES256, fdo.ES256}, {fdo.ES384, fdo.RS256}}
		if r.Thorough {
			names = append(names, struct{ dev, own int }{fdo.ES384, fdo.ES384}, struct{ dev, own int }{fdo.ES256, fdo.RS384})
		}
		for _, nm := range names {
			nm := nm
			r.Explore(&hx.Space{Name: fmt.Sprintf("fault-%s-%s", fdo.AlgName(nm.dev), fdo.AlgName(nm.own)), Body: func(x *hx.X) {
				g := newRig(x, fdo.NewDevice(nm.dev, nm.own, "a", 2), 1)
				g.pos = positions[x.Choose("pos", len(positions))]
				if g.pos == 63 {
					g.nth = x.Choose("nth", 2)
				}
				if g.pos == 69 {
					g.nth = []int{0, len(fdo.Mandatory()) - 1}[x.Choose("nth", 2)]
				}
				kex := kexDef
				if nm.own == fdo.RS256 {
					kex = "ASYMKEX2048"
				}
				key := g.faults()
				g.hit = 0
				ok := g.drive(kex, suiteDef)
				if g.what == "pending" || g.f != nil {
					x.Fail("no-answer", "the step answered by %d was never reached: %v", g.pos, g.refused)
				}
				if strings.Contains(g.what, " at ") {
					key = g.what[strings.Index(g.what, " at ")+4:]
				}
				g.judge(ok, key)
			}})
		}
	})
}
