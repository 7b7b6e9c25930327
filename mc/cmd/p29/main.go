// P29: a request is answered as successful only if all it had to store has been
// stored, whichever access to the database fails.
package main

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"sort"
	"strings"

	"github.com/fido-alliance/iot-fdo-conformance-tools/dbs"

	"verif/mc/fdo"
	"verif/mc/hx"
	"verif/mc/rnd"
	"verif/mc/scen"
	"verif/mc/sched"
	"verif/mc/srv"
	"verif/mc/tool"
)

// request is what happened to one request.
type request struct {
	path string
	lost map[string]bool // what could not be written
	resp fdo.Resp
}

// good tells whether a request was answered as successful.
func (q request) good() bool {
	if strings.HasPrefix(q.path, "/fdo/") {
		return q.resp.Panic == nil && q.resp.Status == 200
	}
	return q.resp.ApiOK() || q.resp.Panic == nil && q.resp.Status == 200 && !strings.Contains(q.resp.Header.Get("Content-Type"), "json")
}

func kind(keys map[string]bool) string {
	m := map[string]bool{}
	for k := range keys {
		if i := strings.IndexByte(k, '-'); i > 0 {
			k = k[:i]
			if k == "lstdb" && strings.Contains(k, "guid-map") {
				k = "lstdb-guid-map"
			}
		}
		m[k] = true
	}
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, "+")
}

// outcome is how an operation ended.
type outcome struct {
	ans  string
	reqs []request
	n    int // accesses
	recs map[string]fdo.Rec
	view string
}

func (o outcome) good() bool {
	for _, q := range o.reqs {
		if !q.good() {
			return false
		}
	}
	return true
}

func (o outcome) failed() (s []string) {
	for _, q := range o.reqs {
		if len(q.lost) > 0 {
			s = append(s, fmt.Sprintf("%s -> %s lost %s", q.path, q.resp, kind(q.lost)))
		}
	}
	return
}

// perform runs an operation on a state while accesses fail.
func perform(b *scen.Base, recs map[string]fdo.Rec, o scen.Op, reads bool, fails func(n int) bool) (out outcome) {
	w := fdo.NewWorld(fdo.Config{DB: fdo.Load(recs)})
	defer func() { w.Close(); w.DB.Close() }()
	f := &sched.Faults{Reads: reads, Fails: fails}
	var cur *request
	f.Failed = func(keys []string) {
		if cur != nil {
			for _, k := range keys {
				cur.lost[k] = true
			}
		}
	}
	f.Done = func(keys []string) {
		if cur != nil {
			for _, k := range keys {
				delete(cur.lost, k)
			}
		}
	}
	inner := w.Mux
	w.Mux = http.NewServeMux()
	w.Mux.HandleFunc("/", func(rw http.ResponseWriter, r *http.Request) {
		q := request{path: r.Method + " " + r.URL.Path, lost: map[string]bool{}}
		if strings.HasPrefix(r.URL.Path, "/fdo/") {
			q.path = r.URL.Path
		}
		cur = &q
		rec := httptest.NewRecorder()
		defer func() {
			cur = nil
			if p := recover(); p != nil {
				q.resp = fdo.Resp{Panic: p}
				out.reqs = append(out.reqs, q)
				panic(p)
			}
		}()
		inner.ServeHTTP(rec, r)
		q.resp = fdo.Resp{Status: rec.Code, Header: rec.Result().Header, Body: rec.Body.Bytes()}
		out.reqs = append(out.reqs, q)
		for k, v := range rec.Result().Header {
			rw.Header()[k] = v
		}
		rw.WriteHeader(rec.Code)
		rw.Write(rec.Body.Bytes())
	})
	f.With(w.DB, func() { out.ans = b.Scripted(o, w, func() {}) })
	w.Mux = inner
	out.n = f.N
	out.recs = fdo.Records(w.DB)
	out.view = b.View(w)
	return
}

func never(int) bool { return false }

// touched are the stored keys an operation changes.
func touched(a, b map[string]fdo.Rec) map[string]bool {
	m := map[string]bool{}
	for k, r := range a {
		if s, ok := b[k]; !ok || string(s.Val) != string(r.Val) {
			m[k] = true
		}
	}
	return m
}

// mask leaves out how far the runs of the device that makes an attempt are.
func mask(op, s string) string {
	if !strings.Contains(op, "attempt of a") {
		return s
	}
	var o []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "a ") {
			var f []string
			for _, w := range strings.Fields(l) {
				if !strings.Contains(w, "=") && w != "true" && w != "false" {
					f = append(f, w)
				}
			}
			l = strings.Join(f, " ")
		}
		o = append(o, l)
	}
	return strings.Join(o, "\n")
}

func diff(got, want string) string {
	in := map[string]int{}
	for _, l := range strings.Split(want, "\n") {
		in[l]++
	}
	var d []string
	for _, l := range strings.Split(got, "\n") {
		if in[l]--; in[l] < 0 {
			d = append(d, "got "+l)
		}
	}
	for l, k := range in {
		if k > 0 {
			d = append(d, "want "+l)
		}
	}
	sort.Strings(d)
	return strings.Join(d, "; ")
}

func main() {
	hx.Main("P29", "every single database access of every operation failed, once or from then on, and the operation was repeated afterwards", func(r *hx.Run) {
		b := scen.Build()
		ops := append(scen.Ops(), b.ExecuteDot())
		plain := make([]outcome, len(ops))
		reads := make([]int, len(ops))
		for i, o := range ops {
			plain[i] = perform(b, b.Recs, o, false, never)
			reads[i] = perform(b, b.Recs, o, true, never).n
		}
		check := func(x *hx.X, i int, out outcome, what string) {
			o := ops[i]
			x.Step("%s, %s: %s %v", o.Name, what, out.ans, out.failed())
			for _, q := range out.reqs {
				if q.resp.Panic != nil {
					x.Report("crash:"+q.path+":"+kind(q.lost), "%s, %s: %s crashes: %v", o.Name, what, q.path, q.resp.Panic)
				}
			}
			may := touched(b.Recs, plain[i].recs)
			for k := range touched(b.Recs, out.recs) {
				// a device whose test fails gets a verdict
				if !may[k] && !(strings.Contains(o.Name, "attempt of") && strings.HasPrefix(k, "lstdb-")) {
					x.Report("other:"+o.Name+":"+kind(map[string]bool{k: true}), "%s, %s: it changes %q", o.Name, what, k)
				}
			}
		}
		repeat := func(x *hx.X, i int, out outcome, what string) {
			o := ops[i]
			again := perform(b, out.recs, o, false, never)
			if strings.HasPrefix(o.Name, "execute") {
				// the run that failed may be listed as well
				if again.ans != plain[i].ans {
					x.Report("again:"+o.Name, "%s, %s: then it is answered %s instead of %s", o.Name, what, again.ans, plain[i].ans)
				}
				return
			}
			if !strings.Contains(o.Name, "attempt of a") && again.ans != plain[i].ans {
				x.Report("again:"+o.Name, "%s, %s: then it is answered %s instead of %s", o.Name, what, again.ans, plain[i].ans)
			}
			if g, w := mask(o.Name, again.view), mask(o.Name, plain[i].view); g != w {
				x.Report("again-view:"+o.Name, "%s, %s, repeated: %s", o.Name, what, diff(g, w))
			}
		}
		var ws, rs []int
		for i := range ops {
			ws = append(ws, plain[i].n)
			rs = append(rs, reads[i])
		}
		pick := func(x *hx.X, ns []int) (i, k int) {
			i = x.Choose("operation", len(ops))
			if ns[i] == 0 {
				x.Prune("no access")
			}
			return i, x.Choose("access", ns[i])
		}
		r.Explore(&hx.Space{Name: "failing writes", Body: func(x *hx.X) {
			i, k := pick(x, ws)
			on := x.Choose("from then on", 2) == 1
			out := perform(b, b.Recs, ops[i], false, func(n int) bool { return n == k || on && n > k })
			what := fmt.Sprintf("write %d of %d fails", k, ws[i])
			if on {
				what += " and all later ones"
			}
			check(x, i, out, what)
			for _, q := range out.reqs {
				if len(q.lost) > 0 && q.good() {
					x.Report("acknowledged:"+q.path+":"+kind(q.lost), "%s, %s: %s is answered %s though %s could not be written", ops[i].Name, what, q.path, q.resp, kind(q.lost))
				}
			}
			if !strings.Contains(ops[i].Name, "attempt of a") && out.good() {
				if out.view != plain[i].view {
					x.Report("lost:"+ops[i].Name, "%s, %s: it is answered as usual, but: %s", ops[i].Name, what, diff(out.view, plain[i].view))
				}
				x.Outcome("no loss")
			} else {
				x.Outcome("reported")
			}
			x.State(ops[i].Name + out.view)
			repeat(x, i, out, what)
		}})
		r.Explore(&hx.Space{Name: "failing reads", Body: func(x *hx.X) {
			i, k := pick(x, rs)
			on := x.Choose("from then on", 2) == 1
			out := perform(b, b.Recs, ops[i], true, func(n int) bool { return n == k || on && n > k })
			what := fmt.Sprintf("read %d of %d fails", k, rs[i])
			if on {
				what += " and all later ones"
			}
			check(x, i, out, what)
			x.State(ops[i].Name + out.view)
			repeat(x, i, out, what)
			x.Outcome("survived")
		}})
		if r.Thorough {
			r.Explore(&hx.Space{Name: "two failing writes", Body: func(x *hx.X) {
				i, k := pick(x, ws)
				j := k + 1 + x.Choose("second", 12)
				out := perform(b, b.Recs, ops[i], false, func(n int) bool { return n == k || n == j })
				what := fmt.Sprintf("writes %d and %d of %d fail", k, j, ws[i])
				check(x, i, out, what)
				for _, q := range out.reqs {
					if len(q.lost) > 0 && q.good() {
						x.Report("acknowledged:"+q.path+":"+kind(q.lost), "%s, %s: %s is answered %s though %s could not be written", ops[i].Name, what, q.path, q.resp, kind(q.lost))
					}
				}
				repeat(x, i, out, what)
				x.Outcome("reported")
			}})
		}
		// whole runs of a device, which another one of its attempts goes on with
		type at struct {
			proto, n int
			recs     map[string]fdo.Rec
			plain    outcome
		}
		var ats []at
		tests := map[int]string{}
		for proto := 1; proto <= 2; proto++ {
			recs := begin(b, proto)
			for n := 0; ; n++ {
				if tests[proto] = ended(b, recs, proto); tests[proto] != "" || n == 100 {
					break
				}
				out := perform(b, recs, attempt(proto), false, never)
				ats = append(ats, at{proto, n, recs, out})
				recs = out.recs
			}
			if tests[proto] == "" {
				r.Violation("device test runs", fmt.Sprintf("run:TO%d", proto), fmt.Sprintf("a TO%d run without any failure does not end", proto))
			}
		}
		r.Explore(&hx.Space{Name: "device test runs", Body: func(x *hx.X) {
			a := ats[x.Choose("attempt", len(ats))]
			if a.plain.n == 0 {
				x.Prune("no access")
			}
			k := x.Choose("access", a.plain.n)
			on := x.Choose("from then on", 2) == 1
			what := fmt.Sprintf("TO%d run, attempt %d, write %d of %d fails (later ones too: %v)", a.proto, a.n, k, a.plain.n, on)
			out := perform(b, a.recs, attempt(a.proto), false, func(n int) bool { return n == k || on && n > k })
			x.Step("%s: %s %v", what, out.ans, out.failed())
			for _, q := range out.reqs {
				if q.resp.Panic != nil {
					x.Report("crash:"+q.path+":"+kind(q.lost), "%s: %s crashes: %v", what, q.path, q.resp.Panic)
				}
				if len(q.lost) > 0 && q.good() {
					x.Report("acknowledged:"+q.path+":"+kind(q.lost), "%s: %s is answered %s though %s could not be written", what, q.path, q.resp, kind(q.lost))
				}
			}
			x.State(fmt.Sprint(a.proto, out.view))
			if !r.Thorough && a.proto == 2 && (a.n+k)%4 != 0 {
				x.Outcome("reported")
				return
			}
			recs, end := out.recs, ""
			for n := 0; end == ""; n++ {
				if end = ended(b, recs, a.proto); end == "" && n == 150 {
					end = "the run does not end"
				}
				if end == "" {
					recs = perform(b, recs, attempt(a.proto), false, never).recs
				}
			}
			if end != tests[a.proto] {
				x.Report(fmt.Sprintf("run:TO%d", a.proto), "%s: the run ends with %s instead of %s", what, end, tests[a.proto])
			}
			x.Outcome("completed")
		}})
		// the first start of the server
		seed := func(recs map[string]fdo.Rec, reads bool, fails func(n int) bool) (out map[string]fdo.Rec, n int, err error) {
			db := fdo.Load(recs)
			defer db.Close()
			f := &sched.Faults{Reads: reads, Fails: fails}
			if tool.HasStart {
				f.With(db, func() { err = tool.Start(db) })
			}
			return fdo.Records(db), f.N, err
		}
		_, sw, err := seed(nil, false, never)
		if err != nil {
			panic(err)
		}
		_, sr, _ := seed(nil, true, never)
		if sw+sr < 2000 && tool.HasStart {
			r.Explore(&hx.Space{Name: "first start", Body: func(x *hx.X) {
				rd := x.Choose("read", 2) == 1
				n := sw
				if rd {
					n = sr
				}
				if n == 0 {
					x.Prune("no access")
				}
				k := x.Choose("access", n)
				on := x.Choose("from then on", 2) == 1
				recs, _, err := seed(nil, rd, func(n int) bool { return n == k || on && n > k })
				if err == nil {
					complete(x, b, recs, fmt.Sprintf("a start during which access %d failed and that reported nothing", k))
				}
				recs, _, err = seed(recs, false, never)
				if err != nil {
					x.Fail("start", "the start after one with a failing access fails: %v", err)
				}
				complete(x, b, recs, fmt.Sprintf("a start during which access %d failed, and another", k))
				x.Outcome("seeded")
			}})
		}
	})
}

// complete demands that a server is ready for use.
func complete(x *hx.X, b *scen.Base, recs map[string]fdo.Rec, after string) {
	w := fdo.NewWorld(fdo.Config{DB: fdo.Load(recs)})
	defer func() { w.Close(); w.DB.Close() }()
	cfg, err := dbs.NewConfigDB(w.DB).Get()
	if err != nil {
		x.Fail("seeds", "after %s there are no seeds: %v", after, err)
	}
	for _, l := range cfg.SeededGuids {
		for _, g := range l {
			if _, err := dbs.NewDeviceBaseDB(w.DB).Get(g); err != nil {
				x.Fail("credential", "after %s a listed credential is missing: %v", after, err)
			}
		}
	}
	api := fdo.NewApi(w)
	rnd.With(srv.Zeros(), func() {
		if resp := api.CreateRvt(b.URL); !resp.ApiOK() {
			x.Fail("rvt", "after %s a test cannot be created: %s", after, resp)
		}
	}, nil)
}

func attempt(proto int) scen.Op {
	return scen.Attempt(fmt.Sprintf("TO%d attempt of a", proto), func(b *scen.Base) *fdo.Device { return b.A }, proto)
}

// begin starts a run of device a.
func begin(b *scen.Base, proto int) map[string]fdo.Rec {
	w := fdo.NewWorld(fdo.Config{DB: fdo.Load(b.Recs)})
	defer func() { w.Close(); w.DB.Close() }()
	api := &fdo.Api{W: w, Cookie: b.Cookies[0]}
	api.StartDevice(api.DeviceOf(b.A).ID, fmt.Sprint(proto))
	return fdo.Records(w.DB)
}

// ended lists the tests of a run that is complete.
func ended(b *scen.Base, recs map[string]fdo.Rec, proto int) string {
	w := fdo.NewWorld(fdo.Config{DB: fdo.Load(recs)})
	defer func() { w.Close(); w.DB.Close() }()
	d := (&fdo.Api{W: w, Cookie: b.Cookies[0]}).DeviceOf(b.A)
	if d == nil {
		return "the test is not listed"
	}
	ru := b.Newest(d, proto)
	if ru == nil {
		return "the run is not listed"
	}
	if !ru.Completed {
		return ""
	}
	m := map[string]bool{}
	for _, t := range ru.Tests {
		m[t.ID] = true
	}
	var l []string
	for t := range m {
		l = append(l, t)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}
