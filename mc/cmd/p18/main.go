// P18: API data is reachable only with the cookie of a live session of the user it belongs to.
package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"net/http"
	"reflect"
	"sort"
	"strings"

	"github.com/fido-alliance/iot-fdo-conformance-tools/dbs"

	"verif/mc/fdo"
	"verif/mc/hx"
	"verif/mc/rnd"
	"verif/mc/srv"
)

const first = "tester@fido.local"

// owned is what one user has.
type owned struct {
	email  string
	cookie string // of a live session that stays
	api    *fdo.Api
	rvt    []fdo.SrvInst
	dot    []fdo.SrvInst
	dev    []fdo.DevItem
	d      *fdo.Device
	recs   []string // keys of the records
}

type sys struct {
	x    *hx.X
	w    *fdo.World
	ref  *fdo.Ref
	url  string
	msgs int // messages a tested server has received
}

func newSys(x *hx.X) *sys {
	s := &sys{x: x, w: fdo.NewWorld(fdo.Config{}), ref: fdo.NewRef()}
	x.Cleanup(s.w.Close)
	u, rel := fdo.NewHost(s.ref)
	x.Cleanup(rel)
	s.url = u
	s.ref.Tap = func(*fdo.Turn) { s.msgs++ }
	s.w.Seed(24)
	return s
}

// session makes a session record the way the server stores them.
func (s *sys) session(email string, in bool) string {
	id, err := dbs.NewSessionDB(s.w.DB).NewSessionEntry(dbs.SessionEntry{Email: email, LoggedIn: in})
	if err != nil {
		panic(err)
	}
	return string(id)
}

// user makes a user with one test of each kind, each with a run.
func (s *sys) user(n int) *owned {
	u := &owned{email: first}
	before := fdo.Records(s.w.DB)
	if n == 0 {
		u.api = fdo.NewApi(s.w)
	} else {
		u.email = fmt.Sprintf("other%d@fido.local", n)
		if err := dbs.NewUserTestDB(s.w.DB).Save(dbs.UserTestDBEntry{Email: u.email}); err != nil {
			panic(err)
		}
		u.api = &fdo.Api{W: s.w, Cookie: s.session(u.email, true)}
	}
	u.cookie = u.api.Cookie
	u.d = fdo.NewDevice(fdo.ES256, fdo.ES256, fmt.Sprintf("p18-%d", n), 1)
	must := func(what string, r fdo.Resp) {
		if !r.ApiOK() {
			s.x.Fail("setup", "%s for %s failed: %s", what, u.email, r)
		}
	}
	must("creating an RVT", u.api.CreateRvt(s.url))
	must("creating a DOT", u.api.CreateDot(s.url, fdo.PoolKey(fdo.ES256, fmt.Sprintf("dot%d", n))))
	must("creating a device test", u.api.CreateDevice("device", u.d))
	it := u.api.DeviceOf(u.d)
	if it == nil {
		s.x.Fail("setup", "the device test of %s is not listed", u.email)
	}
	must("starting a run", u.api.StartDevice(it.ID, "1"))
	must("starting a run", u.api.StartDevice(it.ID, "2"))
	s.ref.Tap = func(t *fdo.Turn) { t.Ans.Drop = true }
	for _, k := range []string{"rvt", "dot"} {
		l, r := u.api.Servers(k)
		must("listing", r)
		for _, i := range l {
			if i.Protocol != 0 {
				must("executing", u.api.Execute(k, i.ID))
			}
		}
	}
	s.ref.Tap = func(*fdo.Turn) { s.msgs++ }
	s.load(u)
	for k := range fdo.Records(s.w.DB) {
		if _, ok := before[k]; !ok {
			u.recs = append(u.recs, k)
		}
	}
	sort.Strings(u.recs)
	return u
}

// load reads what the user is shown.
func (s *sys) load(u *owned) {
	var r [3]fdo.Resp
	u.rvt, r[0] = u.api.Servers("rvt")
	u.dot, r[1] = u.api.Servers("dot")
	u.dev, r[2] = u.api.Devices()
	for _, v := range r {
		if !v.ApiOK() {
			s.x.Fail("list", "listing for %s failed: %s", u.email, v)
		}
	}
}

// call is a request that does something with what target has.
type call struct {
	name   string
	method string
	path   string
	body   any
	safe   bool // reads only
	zip    bool
	needs  bool // names an instance
	act    bool // success implies messages to the tested server
}

func calls(s *sys, u *owned) []call {
	k := fdo.PoolKey(fdo.ES256, "dotx")
	pem := fdo.DotBody(s.url, k)
	nd := fdo.NewDevice(fdo.ES384, fdo.ES256, "p18-new", 1)
	l := []call{
		{name: "rvt list", method: "GET", path: "/api/rvt/testruns", safe: true},
		{name: "dot list", method: "GET", path: "/api/dot/testruns", safe: true},
		{name: "device list", method: "GET", path: "/api/device/testruns", safe: true},
		{name: "loggedin", method: "GET", path: "/api/user/loggedin", safe: true},
		{name: "rvt create", method: "POST", path: "/api/rvt/create", body: map[string]any{"url": s.url}},
		{name: "dot create", method: "POST", path: "/api/dot/create", body: pem},
		{name: "device create", method: "POST", path: "/api/device/create", body: map[string]any{"name": "n", "voucher": nd.Pem()}},
		{name: "purge", method: "POST", path: "/api/user/purgetests"},
		{name: "rvt execute", method: "POST", path: "/api/rvt/execute", body: map[string]any{"id": u.rvt[1].ID}, needs: true, act: true},
		{name: "dot execute", method: "POST", path: "/api/dot/execute", body: map[string]any{"id": u.dot[0].ID}, needs: true, act: true},
		{name: "voucher download", method: "GET", path: "/api/dot/vouchers/" + u.dot[0].ID, safe: true, zip: true, needs: true},
		{name: "rvt delete", method: "DELETE", path: "/api/rvt/testruns/" + u.rvt[1].ID + "/" + u.rvt[1].Runs[0].Uuid, needs: true},
		{name: "dot delete", method: "DELETE", path: "/api/dot/testruns/" + u.dot[0].ID + "/" + u.dot[0].Runs[0].Uuid, needs: true},
		{name: "device start", method: "POST", path: "/api/device/testruns/1/" + u.dev[0].ID, needs: true},
		{name: "device start 2", method: "POST", path: "/api/device/testruns/2/" + u.dev[0].ID, needs: true},
		{name: "device delete", method: "DELETE", path: "/api/device/testruns/1/" + u.dev[0].ID + "/" + u.dev[0].To1[0].Uuid, needs: true},
		{name: "device delete 2", method: "DELETE", path: "/api/device/testruns/2/" + u.dev[0].ID + "/" + u.dev[0].To2[0].Uuid, needs: true},
		{name: "logout", method: "POST", path: "/api/user/logout"},
	}
	return l
}

// send sends a call with chosen headers.
func (s *sys) send(c call, h http.Header) fdo.Resp {
	hdr := http.Header{}
	for k, v := range h {
		hdr[k] = v
	}
	if c.method != "GET" && c.method != "DELETE" {
		hdr.Set("Content-Type", "application/json")
	}
	path := c.path
	if q := hdr.Get("X-Query"); q != "" {
		path += "?" + q
		hdr.Del("X-Query")
	}
	var r fdo.Resp
	p, frame := hx.Guard(func() {
		rnd.With(srv.Zeros(), func() { r = fdo.Do(s.w.Mux, c.method, path, hdr, fdo.JSON(c.body)) }, nil)
	})
	if p != nil {
		if frame == "harness" {
			panic(p)
		}
		r.Panic, r.Frame = p, frame
	}
	return r
}

func succeeded(c call, r fdo.Resp) bool {
	if c.zip {
		return r.Panic == nil && r.Status == 200
	}
	return r.ApiOK()
}

func diff(a, b map[string]fdo.Rec) (o []string) {
	for k, v := range a {
		if w, ok := b[k]; !ok || !reflect.DeepEqual(v, w) {
			o = append(o, k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			o = append(o, k)
		}
	}
	sort.Strings(o)
	return
}

func printable(l []string) (o []string) {
	for _, k := range l {
		o = append(o, fmt.Sprintf("%q", k))
	}
	return
}

// refused sends a call that must fail and have no effect.
func (s *sys) refused(key string, c call, h http.Header, secrets []string) {
	before, n := fdo.Records(s.w.DB), s.msgs
	s.x.Step("%s %s", key, c.name)
	r := s.send(c, h)
	if r.Panic != nil {
		s.x.Report("crash:"+r.Frame, "%s: %s crashed: %v", key, c.name, r.Panic)
		return
	}
	if succeeded(c, r) || r.Status < 400 {
		s.x.Report("allowed", "%s: %s %s was answered with %s", key, c.method, c.path, r)
	}
	if d := diff(before, fdo.Records(s.w.DB)); len(d) > 0 {
		s.x.Report("effect", "%s: the refused %s changed %v", key, c.name, printable(d))
	}
	if s.msgs != n {
		s.x.Report("effect", "%s: the refused %s sent messages to a server", key, c.name)
	}
	for _, t := range secrets {
		if bytes.Contains(r.Body, []byte(t)) && !strings.Contains(c.path, t) {
			s.x.Report("leak", "%s: the refusal of %s contains %s", key, c.name, t)
		}
	}
}

func (u *owned) secrets() (o []string) {
	o = []string{u.email, "PRIVATE KEY", hex.EncodeToString(u.d.GUID)}
	for _, i := range append(append([]fdo.SrvInst{}, u.rvt...), u.dot...) {
		o = append(o, i.ID)
		for _, r := range i.Runs {
			o = append(o, r.Uuid)
		}
	}
	return append(o, u.dev[0].ID, u.dev[0].To1[0].Uuid)
}

func cookie(v string) http.Header { return http.Header{"Cookie": {"session=" + v}} }

type cred struct {
	name string
	h    http.Header
}

// worthless are credentials that give access to nothing.
func (s *sys) worthless(u *owned) []cred {
	c := u.cookie
	out := &fdo.Api{W: s.w}
	out.Login()
	if r := out.Call("POST", "/api/user/logout", nil); !r.ApiOK() {
		s.x.Fail("logout", "logging out failed: %s", r)
	}
	exp := s.session(u.email, true)
	fdo.Expire(s.w.DB, "session-"+exp)
	l := []cred{
		{"no cookie", nil},
		{"empty cookie", cookie("")},
		{"cookie of nobody", cookie("6ba7b810-9dad-11d1-80b4-00c04fd430c8")},
		{"zero cookie", cookie("00000000-0000-0000-0000-000000000000")},
		{"record key", cookie("session-" + c)},
		{"lengthened cookie", cookie(c + "0")},
		{"shortened cookie", cookie(c[:len(c)-1])},
		{"half a cookie", cookie(c[:8])},
		{"cookie of another name", http.Header{"Cookie": {"sessionid=" + c + "; Session=" + c}}},
		{"no cookie but a token", http.Header{"Authorization": {c}}},
		{"no cookie but a bearer token", http.Header{"Authorization": {"Bearer " + c}}},
		{"no cookie but a parameter", http.Header{"X-Query": {"session=" + c}}},
		{"user's address", cookie(u.email)},
		{"quoted path", cookie("../session-" + c)},
		{"logged out", cookie(out.Cookie)},
		{"expired", cookie(exp)},
		{"not logged in", cookie(s.session(u.email, false))},
		{"session of a user that is gone", cookie(s.session("gone@fido.local", true))},
		{"not logged in, user gone", cookie(s.session("gone@fido.local", false))},
		{"session of nobody", cookie(s.session("", true))},
		{"long cookie", cookie(strings.Repeat("a", 70000))},
	}
	var t0 fdo.To0
	t0.W = s.w
	t0.Hello()
	t1 := fdo.To1{W: s.w}
	d := fdo.NewDevice(fdo.ES256, fdo.ES256, "p18-token", 1)
	d.Install(s.w)
	t := fdo.To0{W: s.w}
	t.Hello()
	t.Register(d, 3600, "owner.verif.test")
	t1.Hello(d.GUID, fdo.ES256)
	t2 := fdo.NewTo2(s.w, d, 1, "ECDH256")
	if err := t2.Reach(61); err != nil {
		s.x.Fail("setup", "TO2 failed: %v", err)
	}
	t3 := fdo.NewTo2(s.w, d, 1, "ECDH256")
	if err := t3.Reach(67); err != nil {
		s.x.Fail("setup", "TO2 failed: %v", err)
	}
	for n, k := range []string{t0.Token, t1.Token, t2.Token, t3.Token} {
		if k == "" {
			s.x.Fail("setup", "no token %d", n)
		}
		l = append(l, cred{fmt.Sprintf("protocol token %d", n), cookie(strings.TrimPrefix(k, "Bearer "))}, cred{fmt.Sprintf("bare protocol token %d", n), cookie(k)})
	}
	return l
}

// product tries every endpoint with every credential.
func product(r *hx.Run) {
	r.Explore(&hx.Space{Name: "credentials", Body: func(x *hx.X) {
		s := newSys(x)
		a, b := s.user(0), s.user(1)
		w := s.worthless(a)
		c := w[x.Choose("credential", len(w))]
		sec := append(a.secrets(), b.secrets()...)
		for _, u := range []*owned{a, b} {
			for _, cl := range calls(s, u) {
				if cl.name == "loggedin" && strings.Contains(c.name, "user that is gone") || cl.name == "loggedin" && c.name == "session of nobody" {
					continue // a session of no user reaches nothing but this answer
				}
				if cl.name == "logout" && (strings.Contains(c.name, "not logged in") || strings.Contains(c.name, "session of")) {
					continue // ending such a session harms nobody
				}
				s.refused(c.name, cl, c.h, sec)
				x.State(c.name + cl.name)
				for _, m := range []string{"GET", "POST", "DELETE", "PUT", "HEAD", "PATCH", "OPTIONS"} {
					if m != cl.method && (m != "POST" || !strings.HasPrefix(cl.path, "/api/user")) {
						o := cl
						o.method = m
						before, n := fdo.Records(s.w.DB), s.msgs
						r := s.send(o, c.h)
						if r.Panic != nil || r.ApiOK() || s.msgs != n || len(diff(before, fdo.Records(s.w.DB))) > 0 {
							x.Report("method", "%s: %s %s was answered with %s or had an effect", c.name, m, o.path, r)
						}
					}
				}
			}
		}
		x.Outcome("refused")
	}})
	r.Explore(&hx.Space{Name: "owners", Body: func(x *hx.X) {
		s := newSys(x)
		us := []*owned{s.user(0), s.user(1)}
		k := x.Choose("user", 2)
		me, other := us[k], us[1-k]
		mine := calls(s, me)
		n := x.Choose("operation", 2*len(mine))
		x.State(fmt.Sprint(k, n))
		if n >= len(mine) {
			c := calls(s, other)[n-len(mine)]
			if !c.needs {
				x.Outcome("n/a")
				return
			}
			s.refused("another user", c, cookie(me.cookie), other.secrets())
			// the same with one's own instance named on the way
			if c.method == "DELETE" {
				p := strings.Split(c.path, "/")
				q := strings.Split(mine[n-len(mine)].path, "/")
				p[len(p)-2] = q[len(q)-2]
				before := fdo.Records(s.w.DB)
				c.path = strings.Join(p, "/")
				s.send(c, cookie(me.cookie))
				s.untouched(other, before, "deleting a run of another user under one's own instance")
			}
			x.Outcome("refused")
			return
		}
		c := mine[n]
		before, m := fdo.Records(s.w.DB), s.msgs
		r := s.send(c, cookie(me.cookie))
		if !succeeded(c, r) {
			x.Fail("refused", "the user's own %s was refused: %s", c.name, r)
		}
		if c.act && s.msgs == m {
			x.Fail("no-effect", "%s sent no message", c.name)
		}
		after := fdo.Records(s.w.DB)
		d := diff(before, after)
		if c.safe && len(d) > 0 {
			x.Fail("effect", "%s changed %v", c.name, printable(d))
		}
		if !c.safe && len(d) == 0 {
			x.Fail("no-effect", "%s had no effect", c.name)
		}
		s.untouched(other, before, c.name)
		for _, t := range other.secrets() {
			if t != "PRIVATE KEY" && bytes.Contains(r.Body, []byte(t)) {
				x.Fail("leak", "%s shows %s of another user", c.name, t)
			}
		}
		for _, o := range us {
			want := c.name != "logout" || o != me
			if got := o.api.Call("GET", "/api/user/loggedin", nil); got.ApiOK() != want {
				x.Fail("session", "after %s the session of %s is answered with %s", c.name, o.email, got)
			}
		}
		for _, v := range mine {
			if c.name == "purge" && v.needs || c.name == "logout" {
				s.refused("after "+c.name, v, cookie(me.cookie), other.secrets())
			}
		}
		x.Outcome("done")
	}})
	r.Explore(&hx.Space{Name: "protocol messages", Body: func(x *hx.X) {
		s := newSys(x)
		u := s.user(0)
		var n []int
		for m := 20; m <= 70; m += 2 {
			if m == 20 || m == 22 || m == 30 || m == 32 || m >= 60 {
				n = append(n, m)
			}
		}
		m := n[x.Choose("message", len(n))]
		tok := []string{u.cookie, "Bearer " + u.cookie, "session-" + u.cookie}[x.Choose("form", 3)]
		x.State(fmt.Sprint(m, tok))
		if m == 20 || m == 30 || m == 60 {
			// first messages make their own session
			s.w.Send(m, tok, fdo.Encode(fdo.A()))
		} else {
			before := fdo.Records(s.w.DB)
			for _, b := range [][]byte{fdo.Encode(fdo.A(0)), fdo.Encode(fdo.A()), fdo.Encode(fdo.A([]byte{}, nil))} {
				if r := s.w.Send(m, tok, b); !r.IsErr() {
					x.Fail("token", "message %d with an API session was answered with %s", m, r)
				}
			}
			for _, k := range diff(before, fdo.Records(s.w.DB)) {
				if strings.HasPrefix(k, "session-"+u.cookie) {
					x.Fail("token", "message %d with an API session changed that session", m)
				}
			}
		}
		if r := u.api.Call("GET", "/api/user/loggedin", nil); !r.ApiOK() {
			x.Fail("session", "message %d ended an API session: %s", m, r)
		}
		x.Outcome("refused")
	}})
}

// untouched checks that what a user has is as it was.
func (s *sys) untouched(u *owned, before map[string]fdo.Rec, what string) {
	after := fdo.Records(s.w.DB)
	for _, k := range u.recs {
		if !reflect.DeepEqual(before[k], after[k]) {
			s.x.Fail("effect", "%s changed %q, which belongs to %s", what, k, u.email)
		}
	}
}

/* ---- histories ---- */

type sess struct {
	id   string
	user int
	live bool
	in   bool
}

type hist struct {
	*sys
	ss   []*sess
	n    [2]int // tests a user has
	runs [2]int
}

func email(u int) string {
	if u == 0 {
		return first
	}
	return "other@fido.local"
}

func (h *hist) add(id string, user int, in bool) {
	for _, o := range h.ss {
		if o.id == id {
			h.x.Fail("reuse", "a login gave out an identifier that was used before")
		}
	}
	if len(id) < 16 {
		h.x.Fail("reuse", "a login gave out the identifier %q", id)
	}
	h.ss = append(h.ss, &sess{id: id, user: user, live: true, in: in})
}

// probe checks what every session reaches.
func (h *hist) probe(when string) {
	for n, se := range h.ss {
		a := &fdo.Api{W: h.w, Cookie: se.id}
		ok := se.live && se.in
		if r := a.Call("GET", "/api/user/loggedin", nil); r.ApiOK() != ok {
			h.x.Fail("session", "%s: session %d (%+v) is answered with %s", when, n, *se, r)
		}
		l, r := a.Servers("rvt")
		if r.ApiOK() != ok {
			h.x.Fail("session", "%s: the listing for session %d (%+v) is %s", when, n, *se, r)
		}
		if !ok {
			if r.Status != 401 {
				h.x.Fail("status", "%s: the listing for session %d (%+v) is refused with %s", when, n, *se, r)
			}
			continue
		}
		if len(l) != 2*h.n[se.user] {
			h.x.Fail("tests", "%s: session %d of user %d lists %d instances, want %d", when, n, se.user, len(l), 2*h.n[se.user])
		}
	}
}

func (h *hist) key() string {
	var b strings.Builder
	for _, se := range h.ss {
		fmt.Fprintf(&b, "%d%v%v ", se.user, se.live, se.in)
	}
	return fmt.Sprint(b.String(), h.n)
}

type op struct {
	name string
	f    func()
}

func (h *hist) ops() (l []op) {
	do := func(name string, f func()) { l = append(l, op{name, f}) }
	login := func(with string) {
		a := &fdo.Api{W: h.w, Cookie: with}
		if r := a.Login(); !r.ApiOK() || a.Cookie == with {
			h.x.Fail("login", "login with the cookie %q failed or made no new session: %s", with, r)
		}
		h.add(a.Cookie, 0, true)
	}
	if len(h.ss) < 4 {
		do("login", func() { login("") })
		do("login with a chosen identifier", func() { login("6ba7b810-9dad-11d1-80b4-00c04fd430c8") })
		do("second user logs in", func() { h.add(h.session(email(1), true), 1, true) })
		do("session without login", func() { h.add(h.session(first, false), 0, false) })
	}
	do("failed login", func() {
		for _, c := range []struct{ m, t string }{{"GET", "application/json"}, {"POST", "text/plain"}, {"POST", ""}, {"PUT", "application/json"}, {"HEAD", "application/json"}, {"DELETE", ""}} {
			before := fdo.Records(h.w.DB)
			r := fdo.Do(h.w.Mux, c.m, "/api/user/login/onprem", http.Header{"Content-Type": {c.t}}, []byte("{}"))
			if v, ok := r.SetCookie(); ok && v != "" || r.ApiOK() || r.Panic != nil {
				h.x.Fail("login", "%s %s logged in: %s", c.m, c.t, r)
			}
			if d := diff(before, fdo.Records(h.w.DB)); len(d) > 0 {
				h.x.Fail("login", "a failed login changed %v", printable(d))
			}
		}
	})
	for n, se := range h.ss {
		a := &fdo.Api{W: h.w, Cookie: se.id}
		if se.live && se.in {
			do(fmt.Sprintf("session %d logs in again", n), func() { login(se.id) })
		}
		do(fmt.Sprintf("session %d logs out", n), func() {
			r := a.Call("POST", "/api/user/logout", nil)
			if se.in && r.ApiOK() != se.live {
				h.x.Fail("logout", "logging out session %d (%+v) is answered with %s", n, *se, r)
			}
			if se.in || r.ApiOK() {
				se.live = false
			}
		})
		if se.live {
			do(fmt.Sprintf("session %d ends by time", n), func() {
				fdo.Expire(h.w.DB, "session-"+se.id)
				se.live = false
			})
		}
		do(fmt.Sprintf("session %d creates a test", n), func() {
			r := a.CreateRvt(h.url)
			if r.ApiOK() != (se.live && se.in) {
				h.x.Fail("create", "creating a test in session %d (%+v) is answered with %s", n, *se, r)
			}
			if r.ApiOK() {
				h.n[se.user]++
			}
		})
		do(fmt.Sprintf("session %d purges", n), func() {
			r := a.Call("POST", "/api/user/purgetests", nil)
			if r.ApiOK() != (se.live && se.in) {
				h.x.Fail("purge", "purging in session %d (%+v) is answered with %s", n, *se, r)
			}
			if r.ApiOK() {
				h.n[se.user] = 0
			}
		})
	}
	do("restart", func() {
		nw := fdo.NewWorld(fdo.Config{DB: h.w.DB})
		h.x.Cleanup(nw.Close)
		h.w = nw
	})
	return
}

func histories(r *hx.Run) {
	depth := 5
	if r.Thorough {
		depth = 7
	}
	r.Explore(&hx.Space{Name: "histories", Body: func(x *hx.X) {
		h := &hist{sys: newSys(x)}
		if err := dbs.NewUserTestDB(h.w.DB).Save(dbs.UserTestDBEntry{Email: email(1)}); err != nil {
			panic(err)
		}
		p, frame := hx.Guard(func() {
			rnd.With(srv.Zeros(), func() {
				for d := 0; d < depth; d++ {
					k := h.key()
					x.Seen(k, depth-d)
					x.State(k)
					ops := h.ops()
					o := ops[x.Choose("operation", len(ops))]
					x.Step("%s", o.name)
					o.f()
					h.probe("after " + o.name)
				}
			}, nil)
		})
		if p != nil {
			if frame == "harness" {
				panic(p)
			}
			x.Fail("crash:"+frame, "%v", p)
		}
		x.Outcome("end")
	}})
}

func main() {
	hx.Main("P18", "every endpoint was called with every credential against every owner's tests, and every session probed after every operation", func(r *hx.Run) {
		product(r)
		histories(r)
	})
}
