// Package scen is a server in use: a stored state with tests, runs and sessions,
// what its user sees, and the operations that change it.
package scen

import (
	"fmt"
	"net/http"
	"sort"
	"strings"

	"verif/mc/fdo"
	"verif/mc/rnd"
	"verif/mc/srv"
)

// Base is the stored state every execution starts from.
type Base struct {
	Recs    map[string]fdo.Rec
	URL     string
	Cookies [3]string
	A, B, C *fdo.Device
	RVT     []fdo.SrvInst
	dot     []fdo.SrvInst
	dev     []fdo.DevItem // a, b
	old     map[string]string
	K       *fdo.Key
}

func must(r fdo.Resp, what string) {
	if !r.ApiOK() {
		panic(what + ": " + r.String())
	}
}

// Build makes the state.
func Build() *Base {
	b := &Base{old: map[string]string{}, K: fdo.PoolKey(fdo.ES256, "p19")}
	b.URL, _ = fdo.NewHost(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(500) }))
	w := fdo.NewWorld(fdo.Config{})
	defer w.Close()
	w.Seed(24)
	var api *fdo.Api
	for i := range b.Cookies {
		api = fdo.NewApi(w)
		b.Cookies[i] = api.Cookie
	}
	b.A, b.B, b.C = fdo.NewDevice(fdo.ES256, fdo.ES256, "p19a", 1), fdo.NewDevice(fdo.ES256, fdo.ES256, "p19b", 1), fdo.NewDevice(fdo.ES256, fdo.ES256, "p19c", 1)
	rnd.With(srv.Zeros(), func() {
		must(api.CreateRvt(b.URL), "rvt")
		must(api.CreateDot(b.URL, b.K), "dot")
		must(api.CreateDevice("a", b.A), "device a")
		must(api.CreateDevice("b", b.B), "device b")
		ia := api.DeviceOf(b.A).ID
		for _, p := range []string{"1", "2"} {
			for i := 0; i < 2; i++ {
				must(api.StartDevice(ia, p), "start")
				(&fdo.Dut{W: w, D: b.A, Suite: 1, Kex: "ECDH256"}).Attempt(int(p[0] - '0'))
			}
		}
		b.RVT, _ = api.Servers("rvt")
		for i := 0; i < 2; i++ {
			must(api.Execute("rvt", b.RVT[1].ID), "execute")
		}
	}, nil)
	b.RVT, _ = api.Servers("rvt")
	b.dot, _ = api.Servers("dot")
	b.dev, _ = api.Devices()
	for _, i := range append(append([]fdo.SrvInst{}, b.RVT...), b.dot...) {
		for k, r := range i.Runs {
			b.old[r.Uuid] = fmt.Sprintf("old%d", k)
		}
	}
	for _, d := range b.dev {
		for p := 1; p <= 2; p++ {
			for k, r := range d.Runs(p) {
				b.old[r.Uuid] = fmt.Sprintf("old%d", k)
			}
		}
	}
	b.Recs = fdo.Records(w.DB)
	return b
}

// View is what the user sees, without what differs between any two executions.
func (b *Base) View(w *fdo.World) string {
	api := &fdo.Api{W: w, Cookie: b.Cookies[2]}
	var l []string
	add := func(f string, a ...any) { l = append(l, fmt.Sprintf(f, a...)) }
	name := func(id string) string {
		if n, ok := b.old[id]; ok {
			return n
		}
		return "new"
	}
	for _, kind := range []string{"rvt", "dot"} {
		is, r := api.Servers(kind)
		if !r.ApiOK() {
			add("%s list: %s", kind, r.Class())
		}
		for _, i := range is {
			var runs []string
			for _, ru := range i.Runs {
				p := 0
				for _, t := range ru.Tests {
					if t.Passed {
						p++
					}
				}
				runs = append(runs, fmt.Sprintf("%s %d/%d", name(ru.Uuid), p, len(ru.Tests)))
			}
			add("%s TO%d %v %v", kind, i.Protocol, i.InProgress, runs)
		}
	}
	ds, r := api.Devices()
	if !r.ApiOK() {
		add("device list: %s", r.Class())
	}
	for _, d := range ds {
		s := d.Name
		for p := 1; p <= 2; p++ {
			for _, ru := range d.Runs(p) {
				s += fmt.Sprintf(" TO%d %s %v", p, name(ru.Uuid), ru.Completed)
				for _, t := range ru.Tests {
					s += fmt.Sprintf(" %s=%v", strings.TrimPrefix(t.ID, "FIDO_LISTENER_"), t.Passed)
				}
			}
		}
		add("%s", s)
	}
	for i, c := range b.Cookies {
		add("session %d %v", i, (&fdo.Api{W: w, Cookie: c}).Call("GET", "/api/user/loggedin", nil).ApiOK())
	}
	for _, d := range []*fdo.Device{b.A, b.B, b.C} {
		t := &fdo.To1{W: w}
		add("%x registered %v", d.GUID[:2], t.Hello(d.GUID, d.Alg).OK(31))
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// Op is an operation.
type Op struct {
	Name string
	Run  func(b *Base, w *fdo.World, yield func()) string // its answers
	Long bool
}

// Class is the kind of an answer.
func Class(r fdo.Resp) string {
	if r.Panic != nil {
		return fmt.Sprintf("crash in %s: %v", r.Frame, r.Panic)
	}
	if r.ApiOK() {
		return "ok"
	}
	return fmt.Sprint(r.Status)
}

func apiOp(name string, f func(b *Base, a *fdo.Api) fdo.Resp) Op {
	return Op{Name: name, Run: func(b *Base, w *fdo.World, yield func()) string {
		return Class(f(b, &fdo.Api{W: w, Cookie: b.Cookies[0]}))
	}}
}

// Attempt is an attempt of a device.
func Attempt(name string, dev func(b *Base) *fdo.Device, proto int) Op {
	return Op{Name: name, Long: proto == 2, Run: func(b *Base, w *fdo.World, yield func()) string {
		var s []string
		(&fdo.Dut{W: w, D: dev(b), Suite: 1, Kex: "ECDH256", On: func(msg int, r fdo.Resp, err error) bool {
			s = append(s, fmt.Sprintf("%d:%v", msg, err == nil))
			if r.Panic != nil {
				s = append(s, Class(r))
			}
			yield()
			return err == nil
		}}).Attempt(proto)
		return strings.Join(s, " ")
	}}
}

// Ops are the operations.
func Ops() []Op {
	run := func(d, p, k int) func(b *Base, a *fdo.Api) fdo.Resp {
		return func(b *Base, a *fdo.Api) fdo.Resp {
			return a.DeleteDeviceRun(b.dev[d].ID, fmt.Sprint(p), b.dev[d].Runs(p)[k].Uuid)
		}
	}
	start := func(d int, p string) func(b *Base, a *fdo.Api) fdo.Resp {
		return func(b *Base, a *fdo.Api) fdo.Resp { return a.StartDevice(b.dev[d].ID, p) }
	}
	devA := func(b *Base) *fdo.Device { return b.A }
	devB := func(b *Base) *fdo.Device { return b.B }
	return []Op{
		apiOp("create an RVT", func(b *Base, a *fdo.Api) fdo.Resp { return a.CreateRvt(b.URL) }),
		apiOp("create a DOT", func(b *Base, a *fdo.Api) fdo.Resp { return a.CreateDot(b.URL, b.K) }),
		apiOp("upload device c", func(b *Base, a *fdo.Api) fdo.Resp { return a.CreateDevice("c", b.C) }),
		apiOp("upload device a again", func(b *Base, a *fdo.Api) fdo.Resp { return a.CreateDevice("a2", b.A) }),
		apiOp("purge", func(b *Base, a *fdo.Api) fdo.Resp { return a.Call("POST", "/api/user/purgetests", nil) }),
		apiOp("start TO1 of a", start(0, "1")),
		apiOp("start TO2 of a", start(0, "2")),
		apiOp("start TO1 of b", start(1, "1")),
		apiOp("delete the current TO1 run of a", run(0, 1, 0)),
		apiOp("delete the old TO1 run of a", run(0, 1, 1)),
		apiOp("delete the current TO2 run of a", run(0, 2, 0)),
		apiOp("delete the old TO2 run of a", run(0, 2, 1)),
		Attempt("TO1 attempt of a", devA, 1),
		Attempt("TO1 attempt of b", devB, 1),
		apiOp("delete an RVT run", func(b *Base, a *fdo.Api) fdo.Resp {
			return a.DeleteRun("rvt", b.RVT[1].ID, b.RVT[1].Runs[1].Uuid)
		}),
		{Name: "log out", Run: func(b *Base, w *fdo.World, yield func()) string {
			// who is told that there was nothing left to do does not matter
			if c := Class((&fdo.Api{W: w, Cookie: b.Cookies[1]}).Call("POST", "/api/user/logout", nil)); c != "401" {
				return c
			}
			return "ok"
		}},
		{Name: "log in", Run: func(b *Base, w *fdo.World, yield func()) string { return Class((&fdo.Api{W: w}).Login()) }},
		{Name: "register a", Run: func(b *Base, w *fdo.World, yield func()) string {
			t := &fdo.To0{W: w}
			t.Hello()
			yield()
			r, _ := t.Register(b.A, 3600, "x.verif.test")
			return r.Class()
		}},
		Attempt("TO2 attempt of a", devA, 2),
		Attempt("TO2 attempt of b", devB, 2),
		{Name: "execute an RVT", Long: true, Run: func(b *Base, w *fdo.World, yield func()) string {
			return Class((&fdo.Api{W: w, Cookie: b.Cookies[0]}).Execute("rvt", b.RVT[1].ID))
		}},
	}
}

// Scripted runs an operation with its random choices fixed.
func (b *Base) Scripted(o Op, w *fdo.World, yield func()) (s string) {
	rnd.With(srv.Zeros(), func() { s = o.Run(b, w, yield) }, nil)
	return
}

// AttemptA is the next rendezvous attempt of device a.
func AttemptA(b *Base, w *fdo.World) string {
	return Attempt("", func(b *Base) *fdo.Device { return b.A }, 1).Run(b, w, func() {})
}

// ExecuteDot executes the first test of an onboarding server.
func (b *Base) ExecuteDot() Op {
	return Op{Name: "execute a DOT", Long: true, Run: func(b *Base, w *fdo.World, yield func()) string {
		return Class((&fdo.Api{W: w, Cookie: b.Cookies[0]}).Execute("dot", b.dot[0].ID))
	}}
}

// Newest is the run of a device that has been started since.
func (b *Base) Newest(d *fdo.DevItem, proto int) *fdo.RunRec {
	for _, r := range d.Runs(proto) {
		if _, ok := b.old[r.Uuid]; !ok {
			return &r
		}
	}
	return nil
}
