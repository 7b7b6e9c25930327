// P20: the store stays usable and keeps what was acknowledged, whichever write the server dies before.
package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/fido-alliance/iot-fdo-conformance-tools/dbs"

	"verif/mc/fdo"
	"verif/mc/hx"
	"verif/mc/rnd"
	"verif/mc/scen"
	"verif/mc/sched"
	"verif/mc/srv"
	"verif/mc/tool"
)

type stop struct{}

// cut runs an operation on a state and gives the state before its request n, or
// after all of them.
func cut(b *scen.Base, recs map[string]fdo.Rec, o scen.Op, n int) (out map[string]fdo.Rec, ended bool, ans string) {
	w := fdo.NewWorld(fdo.Config{DB: fdo.Load(recs)})
	defer func() { w.Close(); w.DB.Close() }()
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(stop); !ok {
					panic(p)
				}
			}
		}()
		k := 0
		if n == 0 {
			return
		}
		ans = b.Scripted(o, w, func() {
			if k++; k == n {
				panic(stop{})
			}
		})
		ended = true
	}()
	return fdo.Records(w.DB), ended, ans
}

// crash runs an operation on a state and gives what is stored when the server
// ends before commit number n.
func crash(b *scen.Base, recs map[string]fdo.Rec, o scen.Op, n int) (out map[string]fdo.Rec, crashed bool, keys []string) {
	w := fdo.NewWorld(fdo.Config{DB: fdo.Load(recs)})
	defer func() { w.Close(); w.DB.Close() }()
	_, crashed, keys = sched.Crash(w.DB, n, func() { b.Scripted(o, w, func() {}) })
	return fdo.Records(w.DB), crashed, keys
}

func on(recs map[string]fdo.Rec, f func(w *fdo.World)) {
	w := fdo.NewWorld(fdo.Config{DB: fdo.Load(recs)})
	defer func() { w.Close(); w.DB.Close() }()
	f(w)
}

func view(b *scen.Base, recs map[string]fdo.Rec) (v string) {
	on(recs, func(w *fdo.World) { v = b.View(w) })
	return
}

// then is the outcome of an operation on a state.
func then(b *scen.Base, recs map[string]fdo.Rec, o scen.Op) (s string) {
	on(recs, func(w *fdo.World) {
		s = b.Scripted(o, w, func() {}) + "\n" + b.View(w)
		rnd.With(srv.Zeros(), func() { s += "\n" + scen.AttemptA(b, w) }, nil)
		s += "\n" + b.View(w)
	})
	return
}

type ref struct {
	op     string
	once   sync.Once
	states []map[string]fdo.Rec // before each request and after the last
	views  map[string]bool
	mu     sync.Mutex
	then   map[string]map[string]bool
	next   map[string]*ref
}

func (r *ref) after(b *scen.Base, f scen.Op) map[string]bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.then[f.Name] == nil {
		r.then[f.Name] = map[string]bool{}
		for _, s := range r.states {
			r.then[f.Name][r.mask(then(b, s, f))] = true
		}
	}
	return r.then[f.Name]
}

func (r *ref) add(b *scen.Base, s map[string]fdo.Rec) {
	r.states = append(r.states, s)
	r.views[r.mask(view(b, s))] = true
}

// mask leaves out how far the run of the device that makes the attempt is, which
// is the matter of the whole runs.
func (r *ref) mask(s string) string {
	if !strings.Contains(r.op, "attempt of a") {
		return s
	}
	var o []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "30:") {
			continue
		}
		if strings.HasPrefix(l, "a ") {
			var f []string
			for _, w := range strings.Fields(l) {
				if !strings.Contains(w, "=") {
					f = append(f, w)
				}
			}
			l = strings.Join(f, " ")
		}
		o = append(o, l)
	}
	return strings.Join(o, "\n")
}

// build finds what may be stored once an operation has been started in one of
// some states.
func (r *ref) build(b *scen.Base, from []map[string]fdo.Rec, o scen.Op) {
	r.op += " " + o.Name
	r.views, r.then = map[string]bool{}, map[string]map[string]bool{}
	for _, recs := range from {
		r.start(b, recs, o)
	}
}

func (r *ref) start(b *scen.Base, recs map[string]fdo.Rec, o scen.Op) {
	for n := 0; ; n++ {
		s, ended, _ := cut(b, recs, o, n)
		r.add(b, s)
		if ended {
			break
		}
	}
	if strings.HasPrefix(o.Name, "upload") {
		// the device's owner is registered first
		on(recs, func(w *fdo.World) {
			t, d := &fdo.To0{W: w}, b.C
			if strings.HasSuffix(o.Name, "again") {
				d = b.A
			}
			t.Hello()
			t.Register(d, 3600, "x.verif.test")
			r.add(b, fdo.Records(w.DB))
		})
		// the device is told to whoever uploaded it last
		last := map[string]fdo.Rec{}
		for k, v := range r.states[len(r.states)-2] {
			last[k] = v
		}
		for k, v := range recs {
			if strings.HasPrefix(k, "usere-") {
				last[k] = v
			}
		}
		r.add(b, last)
	}
}

// points is the number of commits of an operation.
func points(b *scen.Base, recs map[string]fdo.Rec, o scen.Op) (n int) {
	for {
		if _, c, _ := crash(b, recs, o, n); !c {
			return
		}
		n++
	}
}

func diff(got string, want map[string]bool) string {
	best := ""
	n := 1 << 30
	for s := range want {
		in := map[string]int{}
		for _, l := range strings.Split(s, "\n") {
			in[l]++
		}
		var d []string
		for _, l := range strings.Split(got, "\n") {
			if in[l]--; in[l] < 0 {
				d = append(d, "got "+l)
			}
		}
		for l, k := range in {
			if k > 0 {
				d = append(d, "want "+l)
			}
		}
		sort.Strings(d)
		if len(d) < n {
			n, best = len(d), strings.Join(d, "; ")
		}
	}
	return best
}

// run is a device test run from its start to its end without any crash.
type run struct {
	proto int
	at    []map[string]fdo.Rec // before each attempt
	n     []int                // commits of each attempt
	mu    sync.Mutex
	ends  map[string]string // how a run ends that has come to some state
}

// state is all that later attempts can depend on.
func state(recs map[string]fdo.Rec) string {
	var l []string
	for k, r := range recs {
		if !strings.HasPrefix(k, "session-") {
			l = append(l, k+"="+string(r.Val))
		}
	}
	sort.Strings(l)
	return strings.Join(l, "\x00")
}

// begin starts a run.
func begin(b *scen.Base, proto int) *run {
	r := &run{proto: proto, ends: map[string]string{}}
	on(b.Recs, func(w *fdo.World) {
		api := &fdo.Api{W: w, Cookie: b.Cookies[0]}
		api.StartDevice(api.DeviceOf(b.A).ID, fmt.Sprint(proto))
		r.at = append(r.at, fdo.Records(w.DB))
	})
	for r.ended(b, r.at[len(r.at)-1]) == "" && len(r.at) < 100 {
		recs, _, n := r.attempt(b, r.at[len(r.at)-1], -1)
		r.at = append(r.at, recs)
		r.n = append(r.n, n)
	}
	return r
}

// attempt makes one attempt, during which the server ends before commit at.
func (r *run) attempt(b *scen.Base, recs map[string]fdo.Rec, at int) (out map[string]fdo.Rec, crashed bool, n int) {
	on(recs, func(w *fdo.World) {
		n, crashed, _ = sched.Crash(w.DB, at, func() {
			rnd.With(srv.Zeros(), func() {
				(&fdo.Dut{W: w, D: b.A, Suite: 1, Kex: "ECDH256", On: func(msg int, r fdo.Resp, err error) bool { return err == nil }}).Attempt(r.proto)
			}, nil)
		})
		out = fdo.Records(w.DB)
	})
	return
}

// ended tells the verdicts of a run that is complete.
func (r *run) ended(b *scen.Base, recs map[string]fdo.Rec) (end string) {
	on(recs, func(w *fdo.World) {
		d := (&fdo.Api{W: w, Cookie: b.Cookies[0]}).DeviceOf(b.A)
		if d == nil {
			end = "the test is not listed"
			return
		}
		ru := b.Newest(d, r.proto)
		if ru == nil {
			end = "the run is not listed"
			return
		}
		if !ru.Completed {
			return
		}
		pass := map[string]bool{}
		for _, t := range ru.Tests {
			was, ok := pass[t.ID]
			pass[t.ID] = t.Passed && (was || !ok)
		}
		var l []string
		for t, p := range pass {
			l = append(l, fmt.Sprintf("%s=%v", strings.TrimPrefix(t, "FIDO_LISTENER_"), p))
		}
		sort.Strings(l)
		end = strings.Join(l, "\n")
	})
	return
}

// finish lets the device make attempts until its run is complete.
func (r *run) finish(b *scen.Base, recs map[string]fdo.Rec) (end string) {
	var path []string
	for n := 0; end == ""; n++ {
		k := state(recs)
		r.mu.Lock()
		end = r.ends[k]
		r.mu.Unlock()
		path = append(path, k)
		if end == "" {
			end = r.ended(b, recs)
		}
		if end == "" && n == 100 {
			end = "the run does not end"
		}
		if end == "" {
			recs, _, _ = r.attempt(b, recs, -1)
		}
	}
	r.mu.Lock()
	for _, k := range path {
		r.ends[k] = end
	}
	r.mu.Unlock()
	return
}

// execute runs a server test up to commit at.
func execute(b *scen.Base, recs map[string]fdo.Rec, n, at int) (map[string]fdo.Rec, bool, fdo.Resp) {
	w := fdo.NewWorld(fdo.Config{DB: fdo.Load(recs)})
	defer func() { w.Close(); w.DB.Close() }()
	api := &fdo.Api{W: w, Cookie: b.Cookies[0]}
	var r fdo.Resp
	_, crashed, _ := sched.Crash(w.DB, at, func() {
		rnd.With(srv.Zeros(), func() { r = api.Execute("rvt", b.RVT[n].ID) }, nil)
	})
	return fdo.Records(w.DB), crashed, r
}

func main() {
	hx.Main("P20", "the server was ended before every single commit of every operation, started again on what was stored, and used on", func(r *hx.Run) {
		b := scen.Build()
		var all []scen.Op
		for _, o := range scen.Ops() {
			if o.Name != "execute an RVT" {
				all = append(all, o)
			}
		}
		base := []map[string]fdo.Rec{b.Recs}
		refs := make([]ref, len(all))
		type pair struct{ i, k int }
		var ps []pair
		for i, o := range all {
			for k := range points(b, b.Recs, o) {
				ps = append(ps, pair{i, k})
			}
		}
		r.Explore(&hx.Space{Name: "one crash", Body: func(x *hx.X) {
			p := ps[x.Choose("crash", len(ps))]
			o := all[p.i]
			rf := &refs[p.i]
			rf.once.Do(func() { rf.build(b, base, o) })
			recs, crashed, keys := crash(b, b.Recs, o, p.k)
			if !crashed {
				x.Fail("no crash", "%s has fewer commits than before", o.Name)
			}
			x.Step("%s ends before it writes %q", o.Name, keys)
			v := rf.mask(view(b, recs))
			x.State(o.Name + v)
			if !rf.views[v] {
				x.Report(fmt.Sprintf("view:%s:%d", o.Name, p.k), "%s ended before it writes %q: %s", o.Name, keys, diff(v, rf.views))
			}
			for _, f := range all {
				got := rf.mask(then(b, recs, f))
				want := rf.after(b, f)
				if !want[got] {
					x.Report(fmt.Sprintf("then:%s:%d:%s", o.Name, p.k, f.Name), "%s ended before it writes %q, then %s: %s", o.Name, keys, f.Name, diff(got, want))
				}
			}
			x.Outcome("usable")
		}})
		rs := []*run{begin(b, 1), begin(b, 2)}
		var want []map[string]bool
		for _, ru := range rs {
			end := ru.finish(b, ru.at[0])
			if !strings.Contains(end, "=") {
				r.Violation("device test runs", fmt.Sprintf("run:TO%d", ru.proto), fmt.Sprintf("a TO%d run without any crash: %s", ru.proto, end))
			}
			want = append(want, map[string]bool{end: true})
		}
		runsSpace := func(name string, twice bool) {
			r.Explore(&hx.Space{Name: name, Body: func(x *hx.X) {
				i := x.Choose("protocol", 2)
				ru := rs[i]
				a := x.Choose("attempt", len(ru.n))
				k := x.Choose("commit", ru.n[a])
				recs, _, _ := ru.attempt(b, ru.at[a], k)
				if twice {
					crashed := false
					recs, crashed, _ = ru.attempt(b, recs, x.Choose("commit", 16))
					if !crashed {
						x.Prune("fewer commits")
					}
				}
				x.State(state(recs))
				end := ru.finish(b, recs)
				if !want[i][end] {
					x.Fail(fmt.Sprintf("run:TO%d:%s", ru.proto, diff(end, want[i])), "TO%d run, server ended before commit %d of %d of attempt %d of %d: %s", ru.proto, k, ru.n[a], a, len(ru.n), diff(end, want[i]))
				}
				x.Outcome("completed")
			}})
		}
		runsSpace("device test runs", false)
		var xn [2]int
		for n := range xn {
			for {
				if _, c, _ := execute(b, b.Recs, n, xn[n]); !c {
					break
				}
				xn[n]++
			}
		}
		r.Explore(&hx.Space{Name: "executions", Body: func(x *hx.X) {
			n := x.Choose("test", 2)
			k := x.Choose("commit", xn[n])
			recs, _, _ := execute(b, b.Recs, n, k)
			before := runs(b, recs, n)
			old := len(b.RVT[n].Runs)
			if len(before) < old || strings.Join(before[len(before)-old:], "\n") != strings.Join(runs(b, b.Recs, n), "\n") {
				x.Fail("old runs", "server ended before commit %d of an execution: earlier runs became %q", k, before)
			}
			recs, _, resp := execute(b, recs, n, -1)
			if !resp.ApiOK() {
				x.Fail("again", "server ended before commit %d of an execution: the next one is answered %s", k, resp)
			}
			after := runs(b, recs, n)
			if len(after) != len(before)+1 || strings.Join(after[1:], "\n") != strings.Join(before, "\n") {
				x.Fail("again runs", "server ended before commit %d of an execution: the next one changes the runs from %q to %q", k, before, after)
			}
			full, _, _ := execute(b, b.Recs, n, -1)
			if got, want := after[0], runs(b, full, n)[0]; got != want {
				x.Fail("again results", "server ended before commit %d of an execution: the next one has the results %s, want %s", k, got, want)
			}
			x.Outcome("repeated")
		}})
		// the first start of the server, with its commits numbered
		seed := func(recs map[string]fdo.Rec, at int) (out map[string]fdo.Rec, n int, err error) {
			db := fdo.Load(recs)
			defer db.Close()
			if tool.HasStart {
				n, _, _ = sched.Crash(db, at, func() { err = tool.Start(db) })
			}
			return fdo.Records(db), n, err
		}
		_, sn, err := seed(nil, -1)
		if err != nil {
			panic(err)
		}
		if sn < 1000 && tool.HasStart {
			r.Explore(&hx.Space{Name: "first start", Body: func(x *hx.X) {
				k := x.Choose("commit", sn)
				recs, _, _ := seed(nil, k)
				if r.Thorough {
					recs, _, _ = seed(recs, x.Choose("commit of the second start", sn))
				}
				recs, _, err := seed(recs, -1)
				if err != nil {
					x.Fail("start", "the start after one ended before its commit %d of %d fails: %v", k, sn, err)
				}
				on(recs, func(w *fdo.World) {
					cfg, err := dbs.NewConfigDB(w.DB).Get()
					if err != nil {
						x.Fail("seeds", "after a start that ended before its commit %d of %d and another, there are no seeds: %v", k, sn, err)
					}
					for _, l := range cfg.SeededGuids {
						for _, g := range l {
							if _, err := dbs.NewDeviceBaseDB(w.DB).Get(g); err != nil {
								x.Fail("credential", "after a start that ended before its commit %d of %d and another, a listed credential is missing: %v", k, sn, err)
							}
						}
					}
					api := fdo.NewApi(w)
					rnd.With(srv.Zeros(), func() {
						if resp := api.CreateRvt(b.URL); !resp.ApiOK() {
							x.Fail("rvt", "after a start that ended before its commit %d of %d and another, a test cannot be created: %s", k, sn, resp)
						}
						if resp := api.CreateDot(b.URL, b.K); !resp.ApiOK() {
							x.Fail("dot", "after a start that ended before its commit %d of %d and another, a test cannot be created: %s", k, sn, resp)
						}
					}, nil)
				})
				x.Outcome("seeded")
			}})
		}
		r.Explore(&hx.Space{Name: "two crashes", Body: func(x *hx.X) {
			p := ps[x.Choose("first crash", len(ps))]
			q := ps[x.Choose("second crash", len(ps))]
			if !r.Thorough && all[q.i].Long {
				x.Prune("long")
			}
			o, f := all[p.i], all[q.i]
			recs, _, _ := crash(b, b.Recs, o, p.k)
			recs, crashed, _ := crash(b, recs, f, q.k)
			if !crashed {
				x.Prune("fewer commits")
			}
			rf := &refs[p.i]
			rf.once.Do(func() { rf.build(b, base, o) })
			two := rf.with(b, f)
			v := two.mask(view(b, recs))
			x.State(v)
			if !two.views[v] {
				x.Fail(fmt.Sprintf("view:%s:%d:%s:%d", o.Name, p.k, f.Name, q.k), "%s, then %s, ended before commits %d and %d: %s", o.Name, f.Name, p.k, q.k, diff(v, two.views))
			}
			for _, g := range []scen.Op{o, f} {
				got := two.mask(then(b, recs, g))
				want := two.after(b, g)
				if !want[got] {
					x.Fail(fmt.Sprintf("then:%s:%d:%s:%d:%s", o.Name, p.k, f.Name, q.k, g.Name), "%s, then %s, ended before commits %d and %d, then %s: %s", o.Name, f.Name, p.k, q.k, g.Name, diff(got, want))
				}
			}
			x.Outcome("usable")
		}})
		if r.Thorough {
			runsSpace("device test runs, two crashes", true)
		}
	})
}

// runs are the runs of a server test, the newest first.
func runs(b *scen.Base, recs map[string]fdo.Rec, n int) (o []string) {
	on(recs, func(w *fdo.World) {
		is, r := (&fdo.Api{W: w, Cookie: b.Cookies[0]}).Servers("rvt")
		if !r.ApiOK() {
			o = []string{"listing answered " + r.String()}
			return
		}
		for _, i := range is {
			if i.ID == b.RVT[n].ID {
				for _, ru := range i.Runs {
					var l []string
					for _, t := range ru.Tests {
						l = append(l, fmt.Sprintf("%s=%v", t.ID, t.Passed))
					}
					sort.Strings(l)
					o = append(o, strings.Join(l, " "))
				}
			}
		}
	})
	return
}

// with is what may be stored once another operation has been started after this one.
func (r *ref) with(b *scen.Base, o scen.Op) *ref {
	r.mu.Lock()
	two := r.next[o.Name]
	if two == nil {
		if r.next == nil {
			r.next = map[string]*ref{}
		}
		two = &ref{op: r.op}
		r.next[o.Name] = two
	}
	r.mu.Unlock()
	two.once.Do(func() { two.build(b, r.states, o) })
	return two
}
