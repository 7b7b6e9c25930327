// P19: concurrent requests have an outcome that some order of the same requests has.
package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"

	"verif/mc/fdo"
	"verif/mc/hx"
	"verif/mc/rnd"
	"verif/mc/scen"
	"verif/mc/sched"
	"verif/mc/srv"
)

// fresh are the operations on a server without a user.
func fresh() []scen.Op {
	then := func(name string, f func(a *fdo.Api) fdo.Resp) scen.Op {
		return scen.Op{Name: "log in and " + name, Run: func(b *scen.Base, w *fdo.World, yield func()) string {
			a := &fdo.Api{W: w}
			s := scen.Class(a.Login())
			yield()
			return s + " " + scen.Class(f(a))
		}}
	}
	var l []scen.Op
	for _, o := range scen.Ops() {
		if o.Name == "log in" || o.Name == "create an RVT" || o.Name == "upload device c" {
			l = append(l, o)
		}
	}
	return append(l,
		then("upload device c", func(a *fdo.Api) fdo.Resp { return a.CreateDevice("c", the.C) }),
		then("create an RVT", func(a *fdo.Api) fdo.Resp { return a.CreateRvt(the.URL) }),
		then("purge", func(a *fdo.Api) fdo.Resp { return a.Call("POST", "/api/user/purgetests", nil) }))
}

var the *scen.Base

// sameSession are groups of messages sent at the same time in one TO2 session.
func sameSession(b *scen.Base) (gs []*group) {
	type msg struct {
		n    int
		send func(t *fdo.To2) error
	}
	e := func(_ any, err error) error { return err }
	l := fdo.Mandatory()
	entry := msg{62, func(t *fdo.To2) error { return e(t.Entry(0)) }}
	prove := msg{64, func(t *fdo.To2) error { return e(t.Prove()) }}
	ready := msg{66, func(t *fdo.To2) error { return e(t.Ready(nil)) }}
	info := func(i, j int) msg {
		return msg{68, func(t *fdo.To2) error { _, _, err := t.Info(j < len(l), l[i:j]); return err }}
	}
	done := msg{70, func(t *fdo.To2) error { return e(t.Done()) }}
	all := []msg{entry, prove, ready, info(0, 4), info(4, len(l)), done}
	add := func(dev *fdo.Device, name string, n int, pair ...msg) {
		what := fmt.Sprintf("in one session of %s after %d messages:", name, n)
		for _, m := range pair {
			what += fmt.Sprintf(" %d", m.n)
		}
		gs = append(gs, &group{what: what, setup: func(w *fdo.World) (os []scen.Op, after func() string) {
			t := fdo.NewTo2(w, dev, 1, "ECDH256")
			t.Max = 1300
			r, _ := t.Hello() // which may be a test
			t.Token = r.Token()
			for _, m := range all[:n] {
				m.send(t)
			}
			cl := make([]fdo.To2, len(pair))
			ok := make([]bool, len(pair))
			for i, m := range pair {
				cl[i] = *t
				os = append(os, scen.Op{Name: fmt.Sprint(m.n), Run: func(b *scen.Base, w *fdo.World, yield func()) string {
					err := m.send(&cl[i])
					ok[i] = err == nil
					return fmt.Sprint(ok[i])
				}})
			}
			return os, func() (s string) {
				for i := range cl {
					if !ok[i] {
						continue
					}
					for _, m := range all {
						s += fmt.Sprintf(" %d:%v", m.n, m.send(&cl[i]) == nil)
					}
				}
				return
			}
		}})
	}
	for i, d := range []*fdo.Device{b.A, b.B} {
		name := []string{"a", "b"}[i]
		for n := range all {
			add(d, name, n, all[n], all[n])
			if n > 0 {
				add(d, name, n, all[n], all[n-1])
			}
		}
		add(d, name, 3, info(0, 4), info(0, len(l)))
		add(d, name, 3, info(0, len(l)), done)
		add(d, name, 0, entry, entry, prove)
		add(d, name, 4, info(4, len(l)), done, done)
	}
	return
}

// sessions are groups of messages sent at the same time in as many TO2 sessions of one device.
func sessions(devs []*fdo.Device, lists ...[]int) (gs []*group) {
	e := func(_ any, err error) error { return err }
	l := fdo.Mandatory()
	all := []func(t *fdo.To2) error{
		func(t *fdo.To2) error { r, err := t.Hello(); t.Token = r.Token(); return err },
		func(t *fdo.To2) error { return e(t.Entry(0)) },
		func(t *fdo.To2) error { return e(t.Prove()) },
		func(t *fdo.To2) error { return e(t.Ready(nil)) },
		func(t *fdo.To2) error { _, _, err := t.Info(false, l); return err },
		func(t *fdo.To2) error { return e(t.Done()) },
	}
	for i, d := range devs {
		for _, ns := range lists {
			what := fmt.Sprintf("in %d sessions of %s: messages", len(ns), []string{"a", "b"}[i])
			for _, n := range ns {
				what += fmt.Sprintf(" %d", 60+2*n)
			}
			gs = append(gs, &group{what: what, setup: func(w *fdo.World) (os []scen.Op, after func() string) {
				ok := make([]bool, len(ns))
				cl := make([]*fdo.To2, len(ns))
				for j, at := range ns {
					t := fdo.NewTo2(w, d, 1, "ECDH256")
					t.Max = 1300
					for _, send := range all[:at] {
						send(t) // which may be a test
					}
					cl[j] = t
					os = append(os, scen.Op{Name: fmt.Sprint(60 + 2*at), Run: func(b *scen.Base, w *fdo.World, yield func()) string {
						ok[j] = all[at](t) == nil
						return fmt.Sprint(ok[j])
					}})
				}
				return os, func() (s string) {
					for j, at := range ns {
						if ok[j] && at+1 < len(all) {
							s += fmt.Sprintf(" then %d:%v", 62+2*at, all[at+1](cl[j]) == nil)
						}
					}
					return
				}
			}})
		}
	}
	return
}

func tell(b *scen.Base, w *fdo.World, ans []string) string {
	v := b.View(w)
	var last string
	rnd.With(srv.Zeros(), func() {
		last = scen.Attempt("", func(b *scen.Base) *fdo.Device { return b.A }, 1).Run(b, w, func() {})
	}, nil)
	sort.Strings(ans)
	return strings.Join(ans, "\n") + "\n" + v + "\n" + last + "\n" + b.View(w)
}

// sequential are the outcomes of all orders of the requests of some operations,
// where an operation is left between two of its requests at most max times.
func sequential(b *scen.Base, g *group, max int) map[string]bool {
	out := map[string]bool{}
	sched.All(max, func(c sched.Chooser) {
		w, os, outcome := g.start(b)
		defer w.DB.Close()
		defer w.Close()
		ans := make([]string, len(os))
		if sched.Turns(c, threads(b, w, os, ans)) != nil {
			panic("stuck")
		}
		out[outcome(ans)] = true
	})
	return out
}

func threads(b *scen.Base, w *fdo.World, os []scen.Op, ans []string) (ts []*sched.Thread) {
	for i, o := range os {
		ts = append(ts, &sched.Thread{Name: o.Name, Run: func(yield func()) { ans[i] = o.Name + ": " + b.Scripted(o, w, yield) }})
	}
	return
}

type group struct {
	os   []scen.Op
	what string
	// setup comes before the operations, and gives them and what is done afterwards
	setup func(w *fdo.World) (os []scen.Op, after func() string)
	fresh bool // no user exists yet

	once sync.Once
	seq  map[string]bool
}

// start is the world, the operations, and how their outcome is told.
func (g *group) start(b *scen.Base) (w *fdo.World, os []scen.Op, outcome func(ans []string) string) {
	recs := b.Recs
	if g.fresh {
		recs = map[string]fdo.Rec{}
		for k, r := range b.Recs {
			if !strings.HasPrefix(k, "usere-") {
				recs[k] = r
			}
		}
	}
	w = fdo.NewWorld(fdo.Config{DB: fdo.Load(recs)})
	os = g.os
	after := func() string { return "" }
	if g.setup != nil {
		rnd.With(srv.Zeros(), func() { os, after = g.setup(w) }, nil)
	}
	return w, os, func(ans []string) (out string) {
		if g.fresh {
			(&fdo.Api{W: w}).Login()
		}
		rnd.With(srv.Zeros(), func() { out = after() }, nil)
		return tell(b, w, append(ans, out))
	}
}

func (g *group) name() string {
	if g.what != "" {
		return g.what
	}
	var l []string
	for _, o := range g.os {
		l = append(l, o.Name)
	}
	return strings.Join(l, " + ")
}

// first tells in what an outcome differs from the nearest sequential one.
func nearest(got string, seq map[string]bool) string {
	best := ""
	n := 1 << 30
	for s := range seq {
		in := map[string]int{}
		for _, l := range strings.Split(s, "\n") {
			in[l]++
		}
		var d []string
		for _, l := range strings.Split(got, "\n") {
			if in[l]--; in[l] < 0 {
				d = append(d, "got "+l)
			}
		}
		for l, k := range in {
			if k > 0 {
				d = append(d, "want "+l)
			}
		}
		sort.Strings(d)
		if len(d) < n {
			n, best = len(d), strings.Join(d, "; ")
		}
	}
	return best
}

func explore(r *hx.Run, b *scen.Base, name string, dev int, gs []*group) {
	r.Explore(&hx.Space{Name: name, MaxDev: dev, Body: func(x *hx.X) {
		g := gs[x.Choose("requests", len(gs))]
		g.once.Do(func() { g.seq = sequential(b, g, 2*dev) })
		w, os, outcome := g.start(b)
		x.Cleanup(func() { w.Close(); w.DB.Close() })
		ans := make([]string, len(os))
		ts := threads(b, w, os, ans)
		stuck := sched.Run(x, w.DB, ts)
		if stuck != nil {
			x.Fail("deadlock:"+g.name(), "%s: %v wait for each other", g.name(), stuck)
		}
		for _, t := range ts {
			if t.Panic != nil {
				panic(t.Panic)
			}
		}
		for _, a := range ans {
			if strings.Contains(a, "crash in") {
				x.Fail("crash:"+g.name(), "%s: %s", g.name(), a)
			}
		}
		got := outcome(ans)
		x.State(g.name() + got)
		if _, ok := g.seq[got]; !ok {
			x.Fail("order:"+g.name(), "%s: no order of these requests has this outcome: %s", g.name(), nearest(got, g.seq))
		}
		x.Outcome("as in some order")
	}})
}

func main() {
	hx.Main("P19", "every interleaving of the database transactions of concurrent requests, within the preemption bound, was compared with the outcomes of all orders of the same requests", func(r *hx.Run) {
		b := scen.Build()
		the = b
		all := scen.Ops()
		var short, long []*group
		for i := range all {
			for j := i; j < len(all); j++ {
				g := &group{os: []scen.Op{all[i], all[j]}}
				if all[i].Long || all[j].Long {
					long = append(long, g)
				} else {
					short = append(short, g)
				}
			}
		}
		var first, triples []*group
		for i, o := range fresh() {
			for _, p := range fresh()[i:] {
				first = append(first, &group{os: []scen.Op{o, p}, fresh: true})
			}
		}
		few := map[string]bool{"create an RVT": true, "upload device c": true, "purge": true, "start TO1 of a": true, "delete the current TO1 run of a": true, "TO1 attempt of a": true, "upload device a again": true}
		for i := range all {
			for j := i; j < len(all); j++ {
				for k := j; k < len(all); k++ {
					g := []scen.Op{all[i], all[j], all[k]}
					if few[g[0].Name] && few[g[1].Name] && few[g[2].Name] || r.Thorough && !g[0].Long && !g[1].Long && !g[2].Long {
						triples = append(triples, &group{os: g})
					}
				}
			}
		}
		var two, three [][]int
		for n := 0; n < 6; n++ {
			for m := n; m < 6; m++ {
				two = append(two, []int{n, m})
			}
			if n == 1 || n == 3 || r.Thorough {
				three = append(three, []int{n, n, n})
			}
		}
		explore(r, b, "pairs", 1, short)
		explore(r, b, "first log-in", 2, first)
		explore(r, b, "same session", 1, sameSession(b))
		explore(r, b, "two sessions", 1, sessions([]*fdo.Device{b.A, b.B}, two...))
		explore(r, b, "three sessions", 2, sessions([]*fdo.Device{b.A}, three...))
		explore(r, b, "long pairs", 1, long)
		explore(r, b, "triples", 1, triples)
		explore(r, b, "pairs, two preemptions", 2, short)
		if r.Thorough {
			explore(r, b, "same session, two preemptions", 2, sameSession(b))
			explore(r, b, "two sessions, two preemptions", 2, sessions([]*fdo.Device{b.A, b.B}, two...))
			explore(r, b, "triples, two preemptions", 2, triples)
			explore(r, b, "long pairs, two preemptions", 2, long)
		}
	})
}
