// P17: results of server test runs are recorded in their own run, runs are
// listed newest first and deleted one by one.
package main

import (
	"encoding/hex"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"verif/mc/fdo"
	"verif/mc/hx"
	"verif/mc/rnd"
	"verif/mc/srv"
)

type run struct {
	uuid string
	res  map[string]fdo.TestRec
	gone bool
}

type inst struct {
	fdo.SrvInst
	name    string
	runs    []*run // newest first, deleted ones included
	expired bool
}

// exec is a run in progress.
type exec struct {
	in  *inst
	run *run
	bad bool // the server drops every connection
	n   int  // turns

	// of a run that is left in the middle
	stop   int // the turn after which it waits, if any
	paused chan bool
	resume chan bool
	resp   fdo.Resp
}

type sys struct {
	x      *hx.X
	w      *fdo.World
	api    *fdo.Api
	ref    *fdo.Ref
	url    string
	insts  []*inst
	active []*exec
	at     func(e *exec) // between the turns of a run
	broken bool
}

func (s *sys) fail(key, f string, a ...any) {
	if !s.broken {
		s.x.Report(key, f, a...)
	}
	s.broken = true
}

func world(x *hx.X, rvts int, dots ...int) *sys {
	s := &sys{x: x, w: fdo.NewWorld(fdo.Config{}), ref: fdo.NewRef()}
	x.Cleanup(s.w.Close)
	u, rel := fdo.NewHost(s.ref)
	x.Cleanup(rel)
	s.url = u
	s.w.Seed(24)
	s.api = fdo.NewApi(s.w)
	for i := 0; i < rvts; i++ {
		if r := s.api.CreateRvt(u); !r.ApiOK() {
			x.Fail("create-rvt", "the rendezvous test was not created: %s", r)
		}
	}
	for _, a := range dots {
		if r := s.api.CreateDot(u, fdo.PoolKey(a, "dot")); !r.ApiOK() {
			x.Fail("create-dot", "the onboarding test with a %s key was not created: %s", fdo.AlgName(a), r)
		}
	}
	for _, kind := range []string{"rvt", "dot"} {
		l, r := s.api.Servers(kind)
		if !r.ApiOK() {
			x.Fail("list", "listing failed: %s", r)
		}
		for _, v := range l {
			in := &inst{SrvInst: v, name: fmt.Sprintf("%s%d/TO%d", kind, len(s.insts), v.Protocol)}
			s.insts = append(s.insts, in)
			if len(v.Runs) != 0 || v.InProgress {
				x.Fail("fresh", "a fresh instance has runs or is in progress: %+v", v)
			}
			if kind == "dot" {
				v, k, err := s.api.Download(in.ID)
				if err != nil {
					x.Fail("download", "the vouchers do not download: %v", err)
				}
				t, err := fdo.Decode(v)
				if err != nil {
					x.Fail("download", "the downloaded voucher does not decode: %v", err)
				}
				s.ref.AddVoucher(t.([]any), k)
			}
		}
	}
	if len(s.insts) != 2*rvts+len(dots) {
		x.Fail("create", "%d instances are listed", len(s.insts))
	}
	s.ref.Tap = func(t *fdo.Turn) {
		if len(s.active) == 0 {
			return
		}
		e := s.active[len(s.active)-1]
		e.n++
		if s.at != nil && !s.broken {
			s.check(fmt.Sprintf("turn %d of %s", e.n, e.in.name))
			s.at(e)
		}
		if e.stop > 0 && e.n == e.stop {
			e.paused <- true
			<-e.resume
		}
		if e.bad {
			t.Ans.Drop = true
		}
	}
	return s
}

// check compares the listings with the model.
func (s *sys) check(when string) {
	if s.broken {
		return
	}
	all := map[string]fdo.SrvInst{}
	for _, kind := range []string{"rvt", "dot"} {
		l, r := s.api.Servers(kind)
		if !r.ApiOK() {
			s.fail("list", "%s: listing %s failed: %s", when, kind, r)
			return
		}
		for _, v := range l {
			all[v.ID] = v
		}
	}
	var top *exec
	if n := len(s.active); n > 0 {
		top = s.active[n-1]
	}
	for _, in := range s.insts {
		v, ok := all[in.ID]
		if !ok {
			if !s.lost(in) {
				s.fail("instance", "%s: %s is not listed", when, in.name)
			}
			continue
		}
		if v.URL != in.URL || v.Protocol != in.Protocol || v.Kind != in.Kind {
			s.fail("instance", "%s: %s is listed as %+v", when, in.name, v)
		}
		byID := map[string]*run{}
		var want []string
		for _, ru := range in.runs {
			byID[ru.uuid] = ru
			if !ru.gone {
				want = append(want, ru.uuid)
			}
		}
		var got []string
		for k, g := range v.Runs {
			ru := byID[g.Uuid]
			if ru == nil {
				if k != 0 || top == nil || top.in != in || top.run != nil {
					s.fail("extra", "%s: %s lists an unknown run at %d", when, in.name, k)
					return
				}
				ru = &run{uuid: g.Uuid, res: map[string]fdo.TestRec{}}
				top.run = ru
				in.runs = append([]*run{ru}, in.runs...)
				want = append([]string{g.Uuid}, want...)
				byID[g.Uuid] = ru
			}
			got = append(got, g.Uuid)
			if g.Protocol != in.Protocol {
				s.fail("protocol", "%s: a run of %s is filed under TO%d", when, in.name, g.Protocol)
			}
			now := g.Tests
			if now == nil {
				now = map[string]fdo.TestRec{}
			}
			for id, r := range ru.res {
				if n, ok := now[id]; !ok || n != r && (top == nil || top.run != ru) {
					s.fail("result", "%s: the result of %s in run %d of %s changed from %+v to %+v", when, id, k, in.name, r, n)
				}
			}
			if top == nil || top.run != ru {
				for id := range now {
					if _, ok := ru.res[id]; !ok {
						s.fail("stray", "%s: a result of %s appeared in run %d of %s, which was not reporting", when, id, k, in.name)
					}
				}
			}
			ru.res = now
		}
		if !reflect.DeepEqual(got, want) && len(got)+len(want) > 0 {
			k := "order"
			a, b := append([]string{}, got...), append([]string{}, want...)
			sort.Strings(a)
			sort.Strings(b)
			if !reflect.DeepEqual(a, b) {
				k = "runs"
			}
			s.fail(k, "%s: %s lists %d runs, want %d, newest first: %v, want %v", when, in.name, len(got), len(want), got, want)
		}
		newest, running := false, false
		for _, e := range s.active {
			if e.in == in {
				running = true
				newest = newest || e.run != nil && len(in.runs) > 0 && in.runs[0] == e.run && !e.run.gone
			}
		}
		if !running && v.InProgress {
			s.fail("in-progress", "%s: %s is in progress although no run is", when, in.name)
		}
		if newest && !v.InProgress {
			s.fail("in-progress", "%s: %s is not marked in progress during its newest run", when, in.name)
		}
	}
}

// lost tells whether the record behind an instance, or behind the item it belongs to, has expired.
func (s *sys) lost(in *inst) bool {
	for _, o := range s.insts {
		if o.Item == in.Item && o.expired {
			return true
		}
	}
	return false
}

func (s *sys) exec(in *inst, bad bool) {
	s.x.Step("execute %s, failing %v", in.name, bad)
	e := &exec{in: in, bad: bad}
	s.active = append(s.active, e)
	r := s.api.Execute(in.Kind, in.ID)
	s.active = s.active[:len(s.active)-1]
	s.ended(e, r)
}

// ended checks a run that has come to its end.
func (s *sys) ended(e *exec, r fdo.Resp) {
	in := e.in
	if s.broken {
		return
	}
	if r.Panic != nil {
		s.fail("crash", "executing %s crashed: %v", in.name, r.Panic)
		return
	}
	if in.expired {
		return
	}
	// its last results
	s.active = append(s.active, e)
	s.checkEnd(e)
	s.active = s.active[:len(s.active)-1]
	s.check("after " + in.name)
	if s.broken || e.run == nil || e.run.gone {
		return
	}
	if !r.ApiOK() {
		s.fail("execute", "executing %s failed: %s", in.name, r)
	}
	if e.bad {
		if len(e.run.res) == 0 {
			s.fail("empty", "a run of %s against a dead server has no results", in.name)
		}
		for id, t := range e.run.res {
			if t.Passed {
				s.fail("false-pass", "a run of %s against a dead server passed %s", in.name, id)
			}
		}
		return
	}
	for _, id := range srv.Listed(in.Protocol) {
		if t, ok := e.run.res[id]; !ok || !t.Passed {
			s.fail("incomplete:"+id, "a finished run of %s against a conformant server has %+v for %s (recorded %v)", in.name, t, id, ok)
		}
	}
	if len(e.run.res) != len(srv.Listed(in.Protocol)) {
		s.fail("incomplete", "a finished run of %s has %d results, want %d", in.name, len(e.run.res), len(srv.Listed(in.Protocol)))
	}
}

// begin starts a run that will be left after a number of turns, and tells whether it has come that far.
func (s *sys) begin(in *inst, bad bool, stop int) (e *exec, ok bool) {
	s.x.Step("execute %s, failing %v, up to turn %d", in.name, bad, stop)
	e = &exec{in: in, bad: bad, stop: stop, paused: make(chan bool), resume: make(chan bool)}
	s.active = append(s.active, e)
	go func() {
		p, frame := hx.Guard(func() { rnd.With(srv.Zeros(), func() { e.resp = s.api.Execute(in.Kind, in.ID) }, nil) })
		if p != nil {
			e.resp = fdo.Resp{Panic: p, Frame: frame}
		}
		e.paused <- false
	}()
	ok = <-e.paused
	if !ok {
		s.active = s.active[:len(s.active)-1]
		s.ended(e, e.resp)
	}
	return
}

// finish lets a run go on to its end.
func (s *sys) finish(e *exec) {
	s.x.Step("the run of %s left after turn %d goes on", e.in.name, e.n)
	for i, o := range s.active {
		if o == e {
			s.active = append(append(s.active[:i:i], s.active[i+1:]...), e)
			break
		}
	}
	e.resume <- true
	<-e.paused
	s.active = s.active[:len(s.active)-1]
	s.ended(e, e.resp)
}

// checkEnd takes over what the run has recorded since its last turn.
func (s *sys) checkEnd(e *exec) {
	l, r := s.api.Servers(e.in.Kind)
	if !r.ApiOK() {
		s.fail("list", "listing failed: %s", r)
		return
	}
	for _, v := range l {
		if v.ID != e.in.ID {
			continue
		}
		if e.run == nil && len(v.Runs) > 0 {
			known := false
			for _, ru := range e.in.runs {
				known = known || ru.uuid == v.Runs[0].Uuid
			}
			if !known {
				e.run = &run{uuid: v.Runs[0].Uuid}
				e.in.runs = append([]*run{e.run}, e.in.runs...)
			}
		}
		if e.run == nil {
			s.fail("runs", "the executed run of %s is not listed", e.in.name)
			return
		}
		for _, g := range v.Runs {
			if g.Uuid == e.run.uuid {
				for id, t := range e.run.res {
					if _, ok := g.Tests[id]; !ok {
						s.fail("result", "the result %+v of %s is no longer recorded", t, id)
					}
				}
				e.run.res = g.Tests
			}
		}
	}
}

func (s *sys) del(in *inst, k int) {
	live := in.live()
	s.x.Step("delete run %d of %s", k, in.name)
	r := s.api.DeleteRun(in.Kind, in.ID, live[k].uuid)
	if r.Panic != nil {
		s.fail("crash", "deleting a run of %s crashed: %v", in.name, r.Panic)
		return
	}
	if !r.ApiOK() && !in.expired {
		s.fail("delete", "deleting a run of %s failed: %s", in.name, r)
	}
	live[k].gone = true
}

func (in *inst) live() (l []*run) {
	for _, ru := range in.runs {
		if !ru.gone {
			l = append(l, ru)
		}
	}
	return
}

// bad sends requests that must change nothing.
func (s *sys) bad() {
	s.x.Step("requests with unknown ids")
	try := func(m, p string, body any) {
		if r := s.api.Call(m, p, body); r.Panic != nil {
			s.fail("crash", "%s %s %v crashed: %v", m, p, body, r.Panic)
		}
	}
	for n, in := range s.insts {
		other := s.insts[(n+1)%len(s.insts)]
		ids := []string{"00", "zz", strings.Repeat("00", 16), in.ID[:30], in.ID + "00", in.Item}
		for _, kind := range []string{"rvt", "dot"} {
			bad := ids
			if kind != in.Kind {
				bad = append(append([]string{}, ids...), in.ID)
			}
			for _, id := range bad {
				if id == in.ID || id != other.ID {
					try("POST", "/api/"+kind+"/execute", map[string]any{"id": id})
				}
				for _, ru := range in.live() {
					try("DELETE", "/api/"+kind+"/testruns/"+id+"/"+ru.uuid, nil)
				}
			}
			try("POST", "/api/"+kind+"/execute", map[string]any{"id": ""})
			try("POST", "/api/"+kind+"/execute", map[string]any{})
			try("POST", "/api/"+kind+"/execute", "null")
		}
		for _, ru := range []string{"x", strings.Repeat("0", 36), in.ID} {
			try("DELETE", "/api/"+in.Kind+"/testruns/"+in.ID+"/"+ru, nil)
		}
		for _, ru := range in.live() {
			if other != in {
				try("DELETE", "/api/"+other.Kind+"/testruns/"+other.ID+"/"+ru.uuid, nil)
			}
			try("DELETE", "/api/"+in.Kind+"/testruns/"+in.ID+"/"+strings.ToUpper(ru.uuid), nil)
		}
		try("GET", "/api/dot/vouchers/"+strings.Repeat("00", 16), nil)
		try("GET", "/api/dot/vouchers/x", nil)
	}
}

func (s *sys) restart() {
	s.x.Step("server restart")
	nw := fdo.NewWorld(fdo.Config{DB: s.w.DB})
	s.x.Cleanup(nw.Close)
	s.w, s.api.W = nw, nw
}

func (s *sys) expire(in *inst) {
	s.x.Step("the record of %s reaches the end of its life", in.name)
	b, _ := hex.DecodeString(in.ID)
	fdo.Expire(s.w.DB, "rvte-"+string(b))
	in.expired = true
}

func (s *sys) key() string {
	var b strings.Builder
	for _, in := range s.insts {
		fmt.Fprintf(&b, "|%v", in.expired)
		for _, ru := range in.runs {
			p := 0
			for _, t := range ru.res {
				if t.Passed {
					p++
				}
			}
			fmt.Fprintf(&b, " %v %d/%d", ru.gone, p, len(ru.res))
		}
	}
	return b.String()
}

type op struct {
	name string
	f    func()
}

func (s *sys) ops(nested bool, use []*inst) (l []op) {
	for _, in := range use {
		l = append(l, op{"execute", func() { s.exec(in, nested) }})
		if !nested {
			l = append(l, op{"execute, dead server", func() { s.exec(in, true) }})
		}
		for k := range in.live() {
			if nested && k > 1 {
				break
			}
			l = append(l, op{"delete", func() { s.del(in, k) }})
		}
		if !nested && !in.expired {
			l = append(l, op{"expire", func() { s.expire(in) }})
		}
	}
	l = append(l, op{"bad requests", s.bad})
	return append(l, op{"restart", s.restart})
}

func scripted(x *hx.X, s *sys, f func()) {
	p, frame := hx.Guard(func() { rnd.With(srv.Zeros(), f, nil) })
	if p != nil {
		if frame == "harness" {
			panic(p)
		}
		x.Fail("crash:"+frame, "%v", p)
	}
}

func histories(r *hx.Run) {
	type conf struct {
		name  string
		rvts  int
		dots  []int
		use   []int
		depth int
	}
	confs := []conf{{"one TO1", 1, nil, []int{1}, 5}, {"TO0 and TO1", 1, nil, []int{0, 1}, 3}, {"two TO1", 2, nil, []int{1, 3}, 4}, {"TO2 and TO1", 1, []int{fdo.ES256}, []int{1, 2}, 3}}
	if r.Thorough {
		confs = []conf{{"one TO1", 1, nil, []int{1}, 7}, {"TO0 and TO1", 1, nil, []int{0, 1}, 4}, {"two TO1", 2, nil, []int{1, 3}, 5}, {"two TO2", 0, []int{fdo.ES384, fdo.ES256}, []int{0, 1}, 4}}
	}
	r.Explore(&hx.Space{Name: "histories", Body: func(x *hx.X) {
		ci := x.Choose("configuration", len(confs))
		c := confs[ci]
		s := world(x, c.rvts, c.dots...)
		var use []*inst
		for _, i := range c.use {
			use = append(use, s.insts[i])
		}
		for d := 0; d < c.depth && !s.broken; d++ {
			k := fmt.Sprintf("%d%s", ci, s.key())
			x.Seen(k, c.depth-d)
			x.State(k)
			ops := s.ops(false, use)
			o := ops[x.Choose("operation", len(ops))]
			scripted(x, s, o.f)
			s.check("after " + o.name)
		}
		x.Outcome("end")
	}})
}

func nested(r *hx.Run) {
	r.Explore(&hx.Space{Name: "one operation during a run", MaxDev: 1, Body: func(x *hx.X) {
		during(x, x.Choose("protocol", 2), 2*x.Choose("earlier runs", 2), 1)
	}})
	every := 2
	if r.Thorough {
		every = 1
	}
	r.Explore(&hx.Space{Name: "operations during a run", MaxDev: 2, Body: func(x *hx.X) {
		during(x, 1, 2, every)
	}})
}

// during executes runs of one instance with operations between their turns.
func during(x *hx.X, proto, before, every int) {
	s := world(x, 2)
	in, other := s.insts[proto], s.insts[2+proto]
	scripted(x, s, func() {
		for i := 0; i < before; i++ {
			s.exec(in, i == 0)
		}
		s.at = func(e *exec) {
			if e.in == in && e.run != nil && len(s.active) <= 2 {
				x.State(fmt.Sprintf("%d %d %d %d %v", proto, e.n, len(in.live()), len(s.active), e.run.gone))
			}
			if e.n%every != 0 || len(s.active) > 2 {
				return
			}
			ops := s.ops(true, []*inst{in, other})
			if k := x.Dev("during the run", len(ops)+1); k > 0 {
				x.Step("turn %d", e.n)
				ops[k-1].f()
				s.check("during the run, after " + ops[k-1].name)
			}
		}
		s.exec(in, false)
		s.at = nil
		if !s.broken {
			s.exec(in, false)
		}
	})
	s.check("at the end")
	x.Outcome(fmt.Sprintf("%d runs", len(in.live())))
}

func nested2(r *hx.Run) {
	// onboarding service tests have many more turns
	r.Explore(&hx.Space{Name: "during a TO2 run", MaxDev: 1, Body: func(x *hx.X) {
		owners := []int{fdo.ES256, fdo.RS256, fdo.ES384, fdo.RS384}
		k := x.Choose("owner key", 4)
		s := world(x, 1, owners[k])
		in := s.insts[2]
		scripted(x, s, func() {
			s.exec(in, true)
			every := 12
			if k > 0 {
				every = 60
			}
			if x.Run().Thorough {
				every = 1
			}
			s.at = func(e *exec) {
				if e.n%every != 1%every || len(s.active) > 1 {
					return
				}
				ops := s.ops(true, []*inst{in, s.insts[1]})
				if k := x.Dev("during the run", len(ops)+1); k > 0 {
					x.Step("turn %d", e.n)
					ops[k-1].f()
					s.check("during the run, after " + ops[k-1].name)
				}
			}
			s.exec(in, false)
			s.at = nil
		})
		s.check("at the end")
		x.Outcome(fmt.Sprintf("%d runs", len(in.live())))
	}})
}

// overlap: runs of one instance or of two that begin and end in any order.
func overlap(r *hx.Run) {
	orders := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	r.Explore(&hx.Space{Name: "overlapping runs", Body: func(x *hx.X) {
		n := 2
		turns := [][]int{{1, 2, 3, 5, 8}, {1, 2, 4}, {2}}
		proto := x.Choose("protocol", 2)
		three := x.Choose("three", 2) == 1
		if three {
			n, turns = 3, [][]int{{2}, {1}, {2}}
			if x.Run().Thorough {
				turns = [][]int{{1, 2, 4}, {1, 2, 3}, {1, 3}}
			}
		} else if x.Run().Thorough {
			all := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
			turns = [][]int{all, all}
		}
		order := orders
		if n == 2 {
			order = [][]int{orders[0], orders[2]}
		}
		s := world(x, 2)
		var es []*exec
		fits := true
		for i := 0; i < n && fits; i++ {
			in := s.insts[proto]
			if i == 1 && x.Choose("second run", 2) == 1 {
				in = s.insts[2+1-proto] // of the other server
			}
			e, ok := s.begin(in, i == 0 && !three && x.Choose("dead server", 2) == 1, turns[i][x.Choose("left after turn", len(turns[i]))])
			if ok {
				es = append(es, e)
			}
			fits = ok
			s.check("while a run waits")
		}
		var left []*exec
		if fits {
			if k := x.Choose("delete", n+1); k > 0 {
				if ru := es[k-1].run; ru != nil && es[k-1].in == s.insts[proto] {
					for i, l := range es[k-1].in.live() {
						if l == ru {
							s.del(es[k-1].in, i)
							break
						}
					}
				}
				s.check("after a run was deleted")
			}
			for _, i := range order[x.Choose("order", len(order))] {
				if i < n {
					left = append(left, es[i])
				}
			}
		} else {
			left = es
		}
		for _, e := range left {
			s.finish(e)
			s.check("after a run")
		}
		if !fits {
			x.Prune("the run has fewer turns")
		}
		scripted(x, s, func() { s.exec(s.insts[proto], false) })
		s.check("at the end")
		x.Outcome(fmt.Sprintf("%d runs", len(s.insts[proto].live())))
	}})
}

// long: many instances, and many runs of one deleted in different orders.
func long(r *hx.Run) {
	rvts, runs := 8, 24
	if r.Thorough {
		rvts, runs = 16, 80
	}
	r.Explore(&hx.Space{Name: "long histories", Body: func(x *hx.X) {
		which := x.Choose("instance", 3)
		order := x.Choose("deletions", 5)
		s := world(x, rvts)
		in := s.insts[[]int{1, rvts | 1, 2*rvts - 1}[which]]
		scripted(x, s, func() {
			for k := 0; k < runs && !s.broken; k++ {
				s.exec(in, k%4 != 1)
				if k%9 == 4 {
					s.exec(s.insts[k%len(s.insts)], true)
				}
				if k == runs/2 {
					s.restart()
				}
			}
			for len(in.live()) > 0 && !s.broken {
				l := len(in.live())
				s.del(in, []int{0, l - 1, l / 2, (l * 7919) % l, (l - 1) &^ 1}[order])
				s.check("delete")
				if l == 3 {
					s.exec(in, false)
					s.del(in, 0)
				}
			}
		})
		s.check("at the end")
		x.Outcome("end")
	}})
}

func main() {
	hx.Main("P17", "every listing between the turns of every run was compared with the reference record of runs and results", func(r *hx.Run) {
		histories(r)
		overlap(r)
		nested2(r)
		nested(r)
		long(r)
	})
}
