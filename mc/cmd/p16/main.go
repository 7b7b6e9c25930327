// P16: verdicts of server conformance runs match the behaviour of the server under test.
package main

import (
	"fmt"
	"slices"
	"sort"
	"strings"

	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"

	"verif/mc/fdo"
	"verif/mc/hx"
	"verif/mc/rnd"
	"verif/mc/srv"
)

type kind struct {
	name string
	f    func(t *fdo.Turn, last []byte, ref *fdo.Ref)
}

func body(status int, b []byte) func(*fdo.Turn, []byte, *fdo.Ref) {
	return func(t *fdo.Turn, _ []byte, _ *fdo.Ref) {
		t.Ans = &fdo.Answer{Msg: t.Msg + 1, Status: status, Tree: fdo.A(), Wrap: func([]byte) []byte { return b }, Token: t.Ans.Token}
	}
}

var null = []byte{0xf6}

// for a message that must be refused
var badKinds = []kind{
	{"accepted", func(t *fdo.Turn, last []byte, ref *fdo.Ref) { t.Ans = ref.Plausible(t, last) }},
	{"accepted with status 500", func(t *fdo.Turn, last []byte, ref *fdo.Ref) {
		t.Ans = ref.Plausible(t, last)
		t.Ans.Status = 500
	}},
	{"200 and a protocol error", func(t *fdo.Turn, _ []byte, _ *fdo.Ref) { t.Ans.Status = 200 }},
	{"dropped", func(t *fdo.Turn, _ []byte, _ *fdo.Ref) { t.Ans.Drop = true }},
	{"200 empty", body(200, nil)},
	{"500 empty", body(500, nil)},
	{"500 null", body(500, null)},
	{"500 text", body(500, []byte("Internal Server Error"))},
	{"500 truncated error", func(t *fdo.Turn, last []byte, ref *fdo.Ref) {
		b := fdo.ErrBody(100, t.Msg, "broken")
		body(500, b[:len(b)-1])(t, last, ref)
	}},
	{"500 error without a code", body(500, fdo.Encode(fdo.A(nil, nil, nil, nil, nil)))},
	{"500 error with missing fields", body(500, fdo.Encode(fdo.A(100, 20)))},
	{"404 text", body(404, []byte("404 page not found\n"))},
}

// for a message that must be answered
var goodKinds = []kind{
	{"refused", func(t *fdo.Turn, last []byte, ref *fdo.Ref) { body(500, fdo.ErrBody(101, t.Msg, "no"))(t, last, ref) }},
	{"dropped", func(t *fdo.Turn, _ []byte, _ *fdo.Ref) { t.Ans.Drop = true }},
	{"200 and a protocol error", func(t *fdo.Turn, last []byte, ref *fdo.Ref) { body(200, fdo.ErrBody(101, t.Msg, "no"))(t, last, ref) }},
	{"200 empty", body(200, nil)},
	{"200 null", body(200, null)},
	{"200 text", body(200, []byte("hello"))},
	{"200 other array", body(200, fdo.Encode(fdo.A(1, 2, 3)))},
	{"500 empty", body(500, nil)},
	{"right answer with status 500", func(t *fdo.Turn, _ []byte, _ *fdo.Ref) { t.Ans.Status = 500 }},
	{"right answer as another message", func(t *fdo.Turn, _ []byte, _ *fdo.Ref) { t.Ans.MsgType = "99" }},
	{"right answer as a message whose type is not text", func(t *fdo.Turn, _ []byte, _ *fdo.Ref) { t.Ans.MsgType = "6\xff1\xe2\x82" }},
	{"truncated", func(t *fdo.Turn, _ []byte, _ *fdo.Ref) {
		t.Ans.Wrap = func(b []byte) []byte { return b[:len(b)-1] }
	}},
	{"last byte changed", func(t *fdo.Turn, _ []byte, _ *fdo.Ref) {
		t.Ans.Wrap = func(b []byte) []byte { b[len(b)-1] ^= 1; return b }
	}},
}

func tree(f func(a []any)) func(*fdo.Turn, []byte, *fdo.Ref) {
	return func(t *fdo.Turn, _ []byte, _ *fdo.Ref) {
		a := fdo.Clone(t.Ans.Tree).([]any)
		f(a)
		t.Ans.Tree = a
	}
}

func nonce(i int) func(a []any) {
	return func(a []any) { a[i] = fdo.RandBytes(16) }
}

// well formed, signed and encrypted answers with other contents
var semKinds = map[int][]kind{
	60: {
		{"a voucher without entries", tree(func(a []any) { a[1] = 0 })},
		{"one entry too many", tree(func(a []any) { n, _ := fdo.ToInt(a[1]); a[1] = n + 1 })},
		{"another ProveOV nonce", tree(nonce(3))},
		{"one entry too few", tree(func(a []any) {
			if n, _ := fdo.ToInt(a[1]); n > 1 {
				a[1] = n - 1
			} else {
				a[1] = 3
			}
		})},
		{"another header HMAC", tree(func(a []any) {
			h := fdo.Clone(a[2]).([]any)
			b := append([]byte{}, h[1].([]byte)...)
			b[len(b)-1] ^= 1
			h[1] = b
			a[2] = h
		})},
		{"another signature info", tree(func(a []any) { a[4] = fdo.A(-257, []byte{}) })},
		{"another hello hash", tree(func(a []any) { a[6] = fdo.Hash(-16, []byte("x")) })},
		{"another owner", func(t *fdo.Turn, _ []byte, _ *fdo.Ref) {
			k := fdo.PoolKey(fdo.ES256, "stranger")
			t.Ans.Signer = k
			t.Ans.Unprot = fdo.Map{t.Ans.Unprot[0], {K: 257, V: k.Pub()}}
		}},
	},
	62: {
		{"another entry number", tree(func(a []any) { n, _ := fdo.ToInt(a[0]); a[0] = n + 1 })},
		{"a smaller entry number", tree(func(a []any) {
			n, _ := fdo.ToInt(a[0])
			if n--; n < 0 {
				n = 255
			}
			a[0] = n
		})},
		{"another entry", tree(func(a []any) {
			e := a[1].(fdo.Tag)
			l := fdo.Clone(e.V).([]any)
			b := append([]byte{}, l[3].([]byte)...)
			b[3] ^= 1
			l[3] = b
			a[1] = fdo.Tag{N: e.N, V: l}
		})},
	},
	64: {
		{"another SetupDv nonce", tree(nonce(2))},
		{"signed by another", func(t *fdo.Turn, _ []byte, _ *fdo.Ref) { t.Ans.Signer = fdo.PoolKey(fdo.ES256, "stranger") }},
	},
	68: {{"the end is never announced", tree(func(a []any) { a[1] = false })}},
	70: {{"another SetupDv nonce", tree(nonce(0))}},
}

// detectable tells whether the client can notice kind k on a good answer of this turn.
func detectable(tn srv.Turn, k string) bool {
	if k == "a voucher without entries" {
		return !strings.Contains(tn.Test, "_60_")
	}
	if k == "another entry" || k == "one entry too many" || k == "one entry too few" || k == "another owner" {
		// only looked at once all entries are there
		return !strings.Contains(tn.Test, "_60_") && !(strings.Contains(tn.Test, "_62_") && tn.Test != string(testcom.FIDO_DOT_62_POSITIVE))
	}
	if k != "last byte changed" {
		return true
	}
	switch tn.Msg {
	case 60, 64, 66, 68, 70:
		return true
	}
	return false
}

func show(x *hx.X, o *srv.Result) {
	for _, t := range o.Turns {
		x.Step("%d %s %v", t.Msg, t.Test, map[bool]string{true: "refused", false: "answered"}[t.Bad])
	}
	var l []string
	for k, v := range o.State {
		l = append(l, fmt.Sprintf("%s=%v %s", k, v.Passed, v.Error))
	}
	sort.Strings(l)
	x.Logf("%s", strings.Join(l, "\n"))
}

func sane(x *hx.X, c srv.Conf, o *srv.Result, what string) {
	if o.Panic != nil {
		x.Fail(fmt.Sprintf("crash:TO%d:%s", c.Proto, o.Frame), "%s: the run crashed with %v when the server's %s", c, o.Panic, what)
	}
	if o.Lost != nil {
		x.Fail(fmt.Sprintf("unreadable:TO%d", c.Proto), "%s: after the run nothing recorded for this server can be read any more (%v), when the server's %s", c, o.Lost, what)
	}
	if !o.Finished {
		x.Fail(fmt.Sprintf("unfinished:TO%d", c.Proto), "%s: the run is still marked in progress after it ended, when the server's %s", c, what)
	}
	if o.Runs != 1 {
		x.Fail("runs", "%s: one run is listed %d times", c, o.Runs)
	}
	for id := range o.State {
		if strings.HasPrefix(id, "history") {
			x.Fail("history", "%s: %s", c, id)
		}
	}
}

func main() {
	hx.Main("P16", "every record of every run was compared with what the server under test had done", func(r *hx.Run) {
		confs := []srv.Conf{
			{Proto: 0}, {Proto: 1}, {Proto: 0, End: true}, {Proto: 1, End: true},
			{2, fdo.ES256, fdo.ES256, 2, 2, true}, {2, fdo.ES384, fdo.ES384, 1, 1, false}, {2, fdo.ES256, fdo.RS256, 3, 0, true},
		}
		if r.Thorough {
			confs = append(confs, srv.Conf{2, fdo.ES384, fdo.RS256, 1, 0, true}, srv.Conf{2, fdo.ES256, fdo.RS384, 2, 1, true}, srv.Conf{2, fdo.ES384, fdo.ES256, 5, 3, false},
				srv.Conf{2, fdo.ES384, fdo.RS384, 1, 1, true}, srv.Conf{2, fdo.ES256, fdo.ES384, 3, 1, true})
		}
		base := make([]*srv.Result, len(confs))
		r.Explore(&hx.Space{Name: "a conformant server", MaxDev: 1, Body: func(x *hx.X) {
			i := x.Choose("configuration", len(confs))
			c := confs[i]
			n := 0
			z := srv.Zeros()
			o := srv.Run(c, func(max int64) (int64, bool) {
				v, ok := z(max)
				n++
				if !ok || c.Proto < 2 && !r.Thorough && n > 60 || n > 400 {
					return v, ok
				}
				vs := rnd.Few(max, 4)
				if len(vs) < 2 {
					return vs[0], true
				}
				k := x.Dev(fmt.Sprintf("random<%d", max), len(vs))
				if k > 0 && !c.End && c.Proto < 2 {
					x.Prune("explored with the other")
				}
				return vs[k], true
			}, nil)
			show(x, o)
			sane(x, c, o, "behaviour is right")
			for _, id := range srv.Listed(c.Proto) {
				s, ok := o.State[id]
				if !ok {
					x.Fail("not-run:"+id, "%s: %s was never recorded in a run against a conformant server", c, id)
				}
				if !s.Passed {
					x.Fail("false-fail:"+id, "%s: a conformant server is recorded as failing %s: %s", c, id, s.Error)
				}
				if s.Error != "" {
					x.Fail("pass-with-error:"+id, "%s: %s is recorded as passed with an error: %s", c, id, s.Error)
				}
			}
			if len(o.State) != len(srv.Listed(c.Proto)) {
				x.Fail("extra", "%s: other tests than the listed ones are recorded: %v", c, o.State)
			}
			x.Outcome("passes")
		}})
		for i, c := range confs {
			base[i] = srv.Run(c, srv.Zeros(), nil)
		}
		r.Explore(&hx.Space{Name: "one wrong answer", Body: func(x *hx.X) {
			i := x.Choose("configuration", len(confs))
			c, b := confs[i], base[i]
			if c.Proto == 2 && i > 4 && !r.Thorough || c.Proto < 2 && !c.End && !r.Thorough {
				x.Prune("left to thorough")
			}
			n := x.Choose("turn", len(b.Turns))
			tn := b.Turns[n]
			ks := goodKinds
			if tn.Bad {
				ks = badKinds
			} else {
				ks = append(append([]kind{}, ks...), semKinds[tn.Msg]...)
			}
			// setup turns of the later groups repeat the same calls
			if !tn.Last && c.Proto == 2 && !r.Thorough && n > 40 {
				ks = ks[:2]
			}
			k := ks[x.Choose("answer", len(ks))]
			if !detectable(tn, k.name) {
				x.Prune("cannot be noticed")
			}
			if strings.HasPrefix(k.name, "the end is") && (n+1 < len(b.Turns) && b.Turns[n+1].Msg == 68 && b.Turns[n+1].Test == tn.Test || strings.Contains(tn.Test, "_68_") && !strings.HasSuffix(tn.Test, "POSITIVE")) {
				x.Prune("not the end")
			}
			what := fmt.Sprintf("answer to message %d (turn %d, %s) was changed: %s", tn.Msg, n, tn.Test, k.name)
			o := srv.Run(c, srv.Zeros(), func(i int, t *fdo.Turn, last []byte, ref *fdo.Ref) {
				if i == n {
					k.f(t, last, ref)
				}
			})
			show(x, o)
			sane(x, c, o, what)
			judge(x, c, b, o, map[string]bool{tn.Test: true}, what, fmt.Sprintf("%d:%s", tn.Msg, k.name))
			// a failure is recorded, and takes away neither what was done before nor, where each
			// test has its own session, what comes after
			for _, id := range srv.Listed(c.Proto) {
				_, ok := o.State[id]
				if _, setup := o.State[string(testcom.NULL_TO1_SETUP)]; setup {
					break
				}
				if !ok && (c.Proto == 0 || id == tn.Test || slices.Index(b.Order, id) < slices.Index(b.Order, tn.Test)) {
					x.Fail("not-recorded:"+id, "%s: %s has no verdict although only the server's %s", c, id, what)
				}
			}
		}})
		r.Explore(&hx.Space{Name: "one message type always answered wrongly", Body: func(x *hx.X) {
			i := x.Choose("configuration", len(confs))
			c, b := confs[i], base[i]
			msgs := [][]int{{20, 22}, {20, 22, 30, 32}, {60, 62, 64, 66, 68, 70}}[c.Proto]
			m := msgs[x.Choose("message", len(msgs))]
			bad := x.Choose("to broken messages", 2) == 1
			ks := goodKinds
			if bad {
				ks = badKinds
			} else {
				ks = append(append([]kind{}, ks...), semKinds[m]...)
			}
			k := ks[x.Choose("answer", len(ks))]
			if strings.HasPrefix(k.name, "the end is") {
				x.Prune("one answer at a time")
			}
			if k.name == "last byte changed" && !detectable(srv.Turn{Msg: m}, k.name) {
				x.Prune("cannot be noticed")
			}
			what := fmt.Sprintf("answers to message %d were always changed: %s (broken messages: %v)", m, k.name, bad)
			hit := map[string]bool{}
			for _, t := range b.Turns {
				if t.Msg == m && t.Bad == bad && (bad || detectable(t, k.name)) {
					hit[t.Test] = true
				}
			}
			o := srv.Run(c, srv.Zeros(), func(i int, t *fdo.Turn, last []byte, ref *fdo.Ref) {
				if t.Msg == m && (t.Why != nil) == bad {
					k.f(t, last, ref)
				}
			})
			show(x, o)
			sane(x, c, o, what)
			judge(x, c, b, o, hit, what, fmt.Sprintf("%d:%s", m, k.name))
		}})
	})
}

// judge: no test that met a wrong answer passes, some test fails, and the others do not fail.
func judge(x *hx.X, c srv.Conf, b, o *srv.Result, hit map[string]bool, what, key string) {
	failed := false
	for id, s := range o.State {
		if !s.Passed {
			failed = true
		}
		if hit[id] && s.Passed {
			x.Fail("false-pass:"+id, "%s: %s is recorded as passed although the server's %s", c, id, what)
		}
		if strings.Contains(key, "too few") && id == string(testcom.FIDO_DOT_62_GETOVNEXT_BAD_INDEX) {
			continue // the index asked for may then exist
		}
		if !s.Passed && !hit[id] && id != string(testcom.NULL_TO1_SETUP) {
			x.Fail("other-fail:"+id, "%s: %s is recorded as failed (%s) although only the server's %s", c, id, s.Error, what)
		}
	}
	if len(hit) > 0 && !failed {
		x.Fail("unnoticed:"+key, "%s: no test is recorded as failed although the server's %s", c, what)
	}
	x.Outcome(fmt.Sprint(failed))
}
