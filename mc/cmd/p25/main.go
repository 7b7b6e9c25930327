// P25: with an interop dashboard configured, every onboarding step that
// completes is reported to it exactly once, and nothing else is.
package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"net/http"
	"strings"

	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"

	"github.com/fido-alliance/iot-fdo-conformance-tools/core/do/to0"

	"verif/mc/fdo"
	"verif/mc/hx"
	"verif/mc/sched"
)

// dash is the dashboard: it keeps what it is told and behaves as told.
type dash struct {
	mode int
	got  []string
}

var modes = []string{"ok", "500 text", "400 protocol error", "connection dropped", "200 garbage", "401 empty"}

func (d *dash) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	var b bytes.Buffer
	b.ReadFrom(r.Body)
	d.got = append(d.got, fmt.Sprintf("%s %s %q %q %x", r.Method, r.URL.Path, r.Header.Get("Authorization"), r.Header.Get("Content-Type"), b.Bytes()))
	switch d.mode {
	case 1:
		w.WriteHeader(500)
		w.Write([]byte("oops"))
	case 2:
		w.WriteHeader(400)
		w.Write(fdo.ErrBody(100, 0, "no"))
	case 3:
		panic(http.ErrAbortHandler)
	case 4:
		w.Write([]byte{0xff, 0x00, 0x1b})
	case 5:
		w.WriteHeader(401)
	}
}

func event(prefix, authz string, guid []byte, proto int, nonce []byte) string {
	return fmt.Sprintf("POST %s/logger/101/msg %q %q %x", prefix, authz, "application/cbor", fdo.Encode(fdo.A(guid, proto, nonce)))
}

type base struct{ suffix, prefix string }

var bases = []base{{"", ""}, {"/", ""}, {"/a/b", "/a/b"}, {"/a/", "/a"}}

const (
	rvTok = "Bearer RV-verif/1="
	doTok = "Bearer DO-verif/2="
)

func newWorld(x *hx.X, d *dash, b base, unreachable, interop bool, simMap, rvTok, doTok string) *fdo.World {
	u, rel := fdo.NewHost(d)
	x.Cleanup(rel)
	if unreachable {
		rel()
	}
	du := u + b.suffix
	if !interop {
		du = ""
	}
	w := fdo.NewWorld(fdo.Config{Interop: interop, SimMap: simMap, Extra: map[any]any{
		fdoshared.CFG_ENV_INTEROP_DASHBOARD_URL: du, fdoshared.CFG_ENV_INTEROP_DASHBOARD_RV_AUTHZ: rvTok, fdoshared.CFG_ENV_INTEROP_DASHBOARD_DO_AUTHZ: doTok}})
	x.Cleanup(w.Close)
	return w
}

// withToken leaves out the events of components without a token: they may report without one, or not at all.
func withToken(events []string) []string {
	var r []string
	for _, e := range events {
		if !strings.Contains(e, `/msg "" "application/cbor" `) {
			r = append(r, e)
		}
	}
	return r
}

// run is the state of one execution.
type run struct {
	x      *hx.X
	w      *fdo.World
	d      *dash
	prefix string
	rv, do string // the services' tokens
	off    bool   // nothing may arrive
}

func (r *run) check(what string, resp fdo.Resp, want ...string) {
	r.x.Step("%s -> %s; dashboard got %d", what, resp, len(r.d.got))
	if resp.Dropped() {
		r.x.Fail("drop:"+resp.Frame, "%s: connection dropped", what)
	}
	if r.off {
		want = nil
	}
	if fmt.Sprint(r.d.got) != fmt.Sprint(want) && fmt.Sprint(r.d.got) != fmt.Sprint(withToken(want)) {
		r.x.Fail("events:"+strings.Fields(what)[0], "after %s (answer %s) the dashboard got %v instead of %v", what, resp, r.d.got, want)
	}
	r.x.State(fmt.Sprintf("%d|%s|%s|%d", r.d.mode, what, resp.Class(), len(r.d.got)))
	r.x.Outcome(fmt.Sprintf("%s: %s, %d events", what, resp.Class(), len(r.d.got)))
	r.d.got = nil
}

func (r *run) setup(dashes bool) {
	x := r.x
	b := bases[0]
	r.d = &dash{}
	r.rv, r.do = rvTok, doTok
	un, iop := false, true
	if dashes {
		m := x.Choose("dashboard", len(modes)+2)
		switch {
		case m < len(modes):
			r.d.mode = m
		case m == len(modes):
			un = true
		default:
			iop = false
		}
		if m == 0 {
			k := x.Choose("base or tokens", len(bases)+3)
			switch {
			case k < len(bases):
				b = bases[k]
			case k == len(bases):
				r.rv = ""
			case k == len(bases)+1:
				r.do = ""
			default:
				r.rv = doTok
			}
		}
	}
	r.off = un || !iop
	r.prefix = b.prefix
	r.w = newWorld(x, r.d, b, un, iop, "[]", r.rv, r.do)
}

func main() {
	hx.Main("P25", "all sequences of valid, broken and repeated messages of TO0, TO1 and the end of TO2, over dashboards that work, fail or vanish; each request's reports compared with what completed", func(hr *hx.Run) {
		depth := 4
		if hr.Thorough {
			depth = 5
		}
		for _, dashes := range []bool{true, false} {
			n := depth
			tag := "one dashboard"
			if dashes {
				n, tag = depth-1, "every dashboard"
			}
			hr.Explore(&hx.Space{Name: "registration, " + tag, Body: func(x *hx.X) {
				r := &run{x: x}
				r.setup(dashes)
				a, b := fdo.NewDevice(fdo.ES256, fdo.ES256, "a", 1), fdo.NewDevice(fdo.ES384, fdo.ES384, "b", 2)
				t := &fdo.To0{W: r.w}
				r.check("20", t.Hello())
				for i := 0; i < n; i++ {
					switch op := x.Choose("op", 6); op {
					case 0, 1:
						d := []*fdo.Device{a, b}[op]
						tok, nonce := t.Token, t.Nonce
						resp, _ := t.Register(d, 3600, "owner.verif.test")
						if resp.OK(23) {
							r.check("22 valid", resp, event(r.prefix, r.rv, d.GUID, 0, nonce))
						} else {
							r.check("22 again", resp)
						}
						if i == 0 && !resp.OK(23) {
							x.Fail("refused", "a valid registration is refused: %s (session %q)", resp, tok)
						}
					case 2: // signed by another key
						tree, _ := fdo.OwnerSign(a.V.Tree(), t.Nonce, 60, fdo.A(fdo.RvAddr("o", 1)), b.V.Owner(), -16)
						resp := r.w.Send(22, t.Token, fdo.Encode(tree))
						r.check("22 signed by another key", resp)
					case 3: // stale nonce
						tree, _ := fdo.OwnerSign(a.V.Tree(), make([]byte, 16), 60, fdo.A(fdo.RvAddr("o", 1)), a.V.Owner(), -16)
						r.check("22 with another nonce", r.w.Send(22, t.Token, fdo.Encode(tree)))
					case 4:
						r.check("20", t.Hello())
					case 5:
						r.check("22 garbage", r.w.Send(22, t.Token, []byte{0x82, 0x41}))
					}
				}
			}})
			hr.Explore(&hx.Space{Name: "rendezvous, " + tag, Body: func(x *hx.X) {
				r := &run{x: x}
				r.setup(dashes)
				a, b := fdo.NewDevice(fdo.ES256, fdo.ES256, "a", 1), fdo.NewDevice(fdo.ES384, fdo.ES384, "b", 2)
				for _, d := range []*fdo.Device{a, b} {
					t := &fdo.To0{W: r.w}
					t.Hello()
					t.Register(d, 3600, "owner.verif.test")
				}
				r.d.got = nil
				cur := []*fdo.Device{a, b}[x.Choose("device", 2)]
				t := &fdo.To1{W: r.w}
				r.check("30", t.Hello(cur.GUID, cur.Alg))
				first := true
				for i := 0; i < n; i++ {
					switch x.Choose("op", 6) {
					case 0:
						resp := t.Prove(cur)
						if resp.OK(33) {
							r.check("32 valid", resp, event(r.prefix, r.rv, cur.GUID, 1, t.Nonce))
						} else {
							r.check("32 again", resp)
						}
						if first && !resp.OK(33) {
							x.Fail("refused", "a valid proof is refused: %s", resp)
						}
						first = false
					case 1: // another device's proof
						o := a
						if cur == a {
							o = b
						}
						r.check("32 by another device", t.Prove(o))
						first = false
					case 2: // claims the GUID with another key
						k := fdo.PoolKey(cur.Alg, "stranger")
						r.check("32 by a stranger", r.w.Send(32, t.Token, fdo.Encode(k.Sign1(nil, fdo.Encode(fdo.EatPayload(t.Nonce, cur.GUID, nil))))))
						first = false
					case 3:
						r.check("32 with another nonce", r.w.Send(32, t.Token, fdo.Encode(cur.Key.Sign1(nil, fdo.Encode(fdo.EatPayload(make([]byte, 16), cur.GUID, nil))))))
						first = false
					case 4:
						r.check("30", t.Hello(cur.GUID, cur.Alg))
						first = true
					case 5:
						r.check("30 of a stranger", (&fdo.To1{W: r.w}).Hello(make([]byte, 16), fdo.ES256))
					}
				}
			}})
			hr.Explore(&hx.Space{Name: "onboarding, " + tag, Body: func(x *hx.X) {
				r := &run{x: x}
				r.setup(dashes)
				a := fdo.NewDevice(fdo.ES256, fdo.ES256, "a", 1)
				a.Install(r.w)
				t := fdo.NewTo2(r.w, a, 1, "ECDH256")
				if err := t.Reach(66); err != nil {
					x.Fail("reach", "%v", err)
				}
				resp, _, err := t.Info(false, fdo.Mandatory())
				if err != nil {
					x.Fail("info", "%v", err)
				}
				r.check("68", resp)
				first := true
				for i := 0; i < n; i++ {
					switch x.Choose("op", 4) {
					case 0:
						resp, err := t.Done()
						if resp.OK(71) {
							r.check("70 valid", resp, event(r.prefix, r.do, a.GUID, 2, t.NSetupDv))
						} else {
							r.check("70 again", resp)
						}
						if first && err != nil {
							x.Fail("refused", "the end of the protocol is refused: %v", err)
						}
						first = false
					case 1:
						resp, _, _ := t.SendEnc(70, fdo.A(make([]byte, 16)))
						r.check("70 with another nonce", resp)
						first = false
					case 2:
						r.check("70 garbage", r.w.Send(70, t.Token, []byte{0x80}))
						first = false
					case 3:
						resp, _, _ := t.Info(false, nil)
						r.check("68 again", resp)
						first = false
					}
				}
			}})
		}
		// Accesses to the database fail, and the message may be sent again.
		hr.Explore(&hx.Space{Name: "failing accesses", Body: func(x *hx.X) {
			r := &run{x: x}
			r.setup(false)
			a := fdo.NewDevice(fdo.ES256, fdo.ES256, "a", 1)
			a.Install(r.w)
			var send func() fdo.Resp
			var ok int
			var want string
			switch x.Choose("message", 3) {
			case 0:
				t := &fdo.To0{W: r.w}
				t.Hello()
				if x.Choose("registered before", 2) == 1 {
					t.Register(a, 3600, "old.verif.test")
					t = &fdo.To0{W: r.w}
					t.Hello()
				}
				ok, want = 23, event(r.prefix, r.rv, a.GUID, 0, t.Nonce)
				send = func() fdo.Resp { resp, _ := t.Register(a, 3600, "owner.verif.test"); return resp }
			case 1:
				t0 := &fdo.To0{W: r.w}
				t0.Hello()
				t0.Register(a, 3600, "owner.verif.test")
				t := &fdo.To1{W: r.w}
				t.Hello(a.GUID, a.Alg)
				ok, want = 33, event(r.prefix, r.rv, a.GUID, 1, t.Nonce)
				send = func() fdo.Resp { return t.Prove(a) }
			case 2:
				t := fdo.NewTo2(r.w, a, 1, "ECDH256")
				if err := t.Reach(66); err != nil {
					x.Fail("reach", "%v", err)
				}
				if _, _, err := t.Info(false, fdo.Mandatory()); err != nil {
					x.Fail("info", "%v", err)
				}
				ok, want = 71, event(r.prefix, r.do, a.GUID, 2, t.NSetupDv)
				send = func() fdo.Resp { resp, _ := t.Done(); return resp }
			}
			r.d.got = nil
			f := &sched.Faults{Reads: x.Choose("reads", 2) == 1}
			k, on := x.Choose("access", 12), x.Choose("from then on", 2) == 1
			hit := false
			f.Fails = func(n int) bool {
				bad := n == k || on && n > k
				hit = hit || bad
				return bad
			}
			for i := 0; i < 3; i++ {
				var resp fdo.Resp
				if i == 0 {
					f.With(r.w.DB, func() { resp = send() })
					if !hit {
						x.Prune("no such access")
					}
				} else {
					resp = send()
				}
				what := fmt.Sprintf("%d with access %d failing", ok-1, k)
				if i > 0 {
					what = fmt.Sprintf("%d sent again", ok-1)
				}
				if resp.OK(ok) {
					r.check(what, resp, want)
				} else {
					r.check(what, resp)
				}
			}
		}})
		// The traffic of conformance tests is not onboarding.
		hr.Explore(&hx.Space{Name: "conformance tests", Body: func(x *hx.X) {
			r := &run{x: x}
			r.setup(false)
			api := fdo.NewApi(r.w)
			a := fdo.NewDevice(fdo.ES256, fdo.ES256, "a", 1)
			if resp := api.CreateDevice("a", a); !resp.ApiOK() {
				x.Fail("create", "%s", resp)
			}
			// adding the device registers it with this server's own rendezvous
			r.x.Step("adding a device: dashboard got %d", len(r.d.got))
			for _, g := range r.d.got {
				if !strings.Contains(g, fmt.Sprintf("%x", fdo.Encode(a.GUID))) {
					x.Fail("events:create", "adding a device reports %s", g)
				}
			}
			if len(r.d.got) != 2 {
				x.Fail("events:create", "adding a device registers it once, which both ends report, but the dashboard got %v", r.d.got)
			}
			r.d.got = nil
			proto := 1 + x.Choose("protocol", 2)
			if resp := api.StartDevice(api.DeviceOf(a).ID, fmt.Sprint(proto)); !resp.ApiOK() {
				x.Fail("start", "%s", resp)
			}
			dut := &fdo.Dut{W: r.w, D: a, Suite: 1, Kex: "ECDH256"}
			for i := 0; i < 100; i++ {
				done := dut.Attempt(proto)
				d := api.DeviceOf(a)
				runs := d.Runs(proto)
				ended := runs[len(runs)-1].Completed
				x.Step("attempt %d: device done %v, run completed %v, dashboard got %v", i, done, ended, r.d.got)
				if len(r.d.got) > 0 {
					x.Fail("events:test", "the traffic of a TO%d conformance run is reported as onboarding: %v", proto, r.d.got)
				}
				if ended {
					break
				}
				if i == 99 {
					x.Fail("endless", "the run does not end")
				}
			}
			// and onboarding after it is
			if proto == 1 {
				t := &fdo.To1{W: r.w}
				r.check("30", t.Hello(a.GUID, a.Alg))
				resp := t.Prove(a)
				r.check("32 valid", resp, event(r.prefix, r.rv, a.GUID, 1, t.Nonce))
			} else {
				t := fdo.NewTo2(r.w, a, 1, "ECDH256")
				if err := t.Reach(66); err != nil {
					x.Fail("reach", "%v", err)
				}
				if _, _, err := t.Info(false, fdo.Mandatory()); err != nil {
					x.Fail("info", "%v", err)
				}
				resp, _ := t.Done()
				r.check("70 valid", resp, event(r.prefix, r.do, a.GUID, 2, t.NSetupDv))
			}
		}})
		// The owner's own registration.
		answers := []string{"genuine", "protocol error with 200", "protocol error with 400", "500", "dropped", "cut short", "wrong type"}
		hr.Explore(&hx.Space{Name: "owner registers", Body: func(x *hx.X) {
			r := &run{x: x}
			r.setup(true)
			a := fdo.NewDevice(fdo.ES256, []int{fdo.ES256, fdo.ES384, fdo.RS256}[x.Choose("owner", 3)], "a", 1)
			ref := fdo.NewRef()
			u, rel := fdo.NewHost(ref)
			x.Cleanup(rel)
			at, how := 20+2*x.Choose("at", 2), x.Choose("answer", len(answers))
			var nonce []byte
			ref.Tap = func(t *fdo.Turn) {
				if t.Why != nil {
					x.Report("client", "%d refused by the reference: %v", t.Msg, t.Why)
				}
				if t.Msg == 20 && t.Why == nil {
					if l, ok := t.Ans.Tree.([]any); ok {
						nonce, _ = l[0].([]byte)
					}
				}
				if t.Msg != at {
					return
				}
				switch how {
				case 1, 2:
					t.Ans.Wrap = func([]byte) []byte { return fdo.ErrBody(500, t.Msg, "no") }
					t.Ans.Status = 200
					if how == 2 {
						t.Ans.Status = 400
					}
				case 3:
					t.Ans.Status = 500
					t.Ans.Wrap = func([]byte) []byte { return []byte("oops") }
				case 4:
					t.Ans.Drop = true
				case 5:
					t.Ans.Wrap = func(b []byte) []byte { return b[:len(b)-1] }
				case 6:
					t.Ans.Wrap = func(b []byte) []byte { return fdo.Encode(fdo.A("x")) }
				}
			}
			c := to0.NewTo0Requestor(fdoshared.SRVEntry{SrvURL: u}, a.VoucherEntry(), r.w.Ctx)
			ack, _, err := c.Hello20(testcom.NULL_TEST)
			x.Step("20 -> %v", err)
			if err == nil {
				_, _, err = c.OwnerSign22(ack.NonceTO0Sign, testcom.NULL_TEST)
				x.Step("22 -> %v", err)
			}
			var want []string
			if how == 0 {
				if err != nil {
					x.Fail("refused", "a registration that is accepted fails: %v", err)
				}
				want = []string{event(r.prefix, r.do, a.GUID, 0, nonce)}
			} else if err == nil {
				x.Fail("accepted", "the registration succeeds although message %d is answered with: %s", at, answers[how])
			}
			if r.off {
				want = nil
			}
			if fmt.Sprint(r.d.got) != fmt.Sprint(want) {
				x.Fail("events:owner", "%s of %d: the dashboard got %v instead of %v", answers[how], at, r.d.got, want)
			}
		}})
		// Device tokens go to exactly the devices they are configured for.
		hr.Explore(&hx.Space{Name: "tokens", Body: func(x *hx.X) {
			r := &run{x: x, d: &dash{}}
			devs := []*fdo.Device{fdo.NewDevice(fdo.ES256, fdo.ES256, "a", 1), fdo.NewDevice(fdo.ES384, fdo.ES384, "b", 2), fdo.NewDevice(fdo.ES256, fdo.RS256, "c", 1)}
			want := map[int]string{}
			list := [][]string{}
			order := x.Choose("order", 2)
			for i := range devs {
				k := i
				if order == 1 {
					k = len(devs) - 1 - i
				}
				switch x.Choose("mapped", 3) {
				case 1:
					want[k] = fmt.Sprintf("Bearer DEVICE-%d/+=", k)
					list = append(list, []string{hex.EncodeToString(devs[k].GUID), want[k]})
				case 2:
					want[k] = "t"
					list = append(list, []string{strings.ToUpper(hex.EncodeToString(devs[k].GUID)), want[k]})
				}
			}
			conf, _ := json.Marshal(list)
			r.w = newWorld(x, r.d, bases[0], false, true, string(conf), rvTok, doTok)
			for i, d := range devs {
				d.Install(r.w)
				t := fdo.NewTo2(r.w, d, 1, "ECDH256")
				if err := t.Reach(66); err != nil {
					x.Fail("reach", "device %d: %v", i, err)
				}
				var got []fdo.SI
				for n := 0; ; n++ {
					var send []fdo.SI
					if n == 0 {
						send = fdo.Mandatory()
					}
					_, inf, err := t.Info(false, send)
					if err != nil {
						x.Fail("info", "device %d: %v", i, err)
					}
					got = append(got, inf.SI...)
					if inf.Done {
						break
					}
					if n > 10 {
						x.Fail("endless", "device %d: the owner's service info does not end", i)
					}
				}
				x.Step("device %d got %d items", i, len(got))
				var exp []fdo.SI
				if tok, ok := want[i]; ok {
					exp = []fdo.SI{{K: "fido_alliance:active", V: fdo.Encode(true)}, {K: "fido_alliance:dev_conformance", V: []byte(tok)}}
				}
				if fmt.Sprint(got) != fmt.Sprint(exp) {
					x.Fail("token", "with %s device %d (%x) got %q instead of %q", conf, i, d.GUID, got, exp)
				}
				if _, err := t.Done(); err != nil {
					x.Fail("done", "device %d: %v", i, err)
				}
			}
		}})
		g := strings.Repeat("ab", 16)
		broken := []string{"", "{", "null", "[]", `[[]]`, `[["` + g + `"]]`, `[["` + g + `","t","u"]]`, `[["zz","t"]]`, `[["ab","t"]]`, `[["` + g + `00","t"]]`, `[["",""]]`, `[null]`, `[[null,null]]`, `[[1,2]]`, `{"a":"b"}`, `"x"`, `[["` + g + `",1]]`, `[["` + g + `","t"],[]]`}
		hr.Explore(&hx.Space{Name: "broken token settings", Body: func(x *hx.X) {
			r := &run{x: x, d: &dash{}}
			conf := broken[x.Choose("setting", len(broken))]
			r.w = newWorld(x, r.d, bases[0], false, true, conf, rvTok, doTok)
			d := fdo.NewDevice(fdo.ES256, fdo.ES256, "a", 1)
			d.Install(r.w)
			t := fdo.NewTo2(r.w, d, 1, "ECDH256")
			see := func(msg int, resp fdo.Resp, err error) bool {
				x.Step("%d -> %s %v", msg, resp, err)
				if resp.Dropped() {
					x.Fail("drop:"+resp.Frame, "with the token setting %q the connection is dropped at %d", conf, msg)
				}
				if err != nil && !resp.IsErr() {
					x.Fail("answer", "with the token setting %q message %d is answered with %s: %v", conf, msg, resp, err)
				}
				return err == nil
			}
			resp, err := t.Hello()
			if !see(60, resp, err) {
				return
			}
			for i := 0; i < t.Num; i++ {
				resp, err = t.Entry(i)
				if !see(62, resp, err) {
					return
				}
			}
			resp, err = t.Prove()
			if !see(64, resp, err) {
				return
			}
			resp, err = t.Ready(nil)
			if !see(66, resp, err) {
				return
			}
			for n := 0; n < 5; n++ {
				var send []fdo.SI
				if n == 0 {
					send = fdo.Mandatory()
				}
				resp, inf, err := t.Info(false, send)
				if !see(68, resp, err) {
					return
				}
				if inf.Done {
					break
				}
			}
			resp, err = t.Done()
			see(70, resp, err)
		}})
	})
}
