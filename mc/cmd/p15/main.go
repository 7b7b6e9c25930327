// P15: the listed device runs are exactly those started and not deleted.
package main

import (
	"fmt"
	"reflect"
	"strings"

	"verif/mc/dutm"
	"verif/mc/fdo"
	"verif/mc/hx"
)

type run struct {
	uuid string
	m    *dutm.Model
	last []fdo.TestRec
	end  bool // not in progress at the last listing
}

type inst struct {
	id   string
	name string
	dev  *fdo.Device
	runs [3][]*run
	cur  [3]*run
}

type sys struct {
	x      *hx.X
	w      *fdo.World
	api    *fdo.Api
	insts  []*inst
	target map[*fdo.Device]*inst
	kex    string
	suite  int
}

func (s *sys) upload(d *fdo.Device) {
	name := fmt.Sprintf("upload %d", len(s.insts))
	if r := s.api.CreateDevice(name, d); !r.ApiOK() {
		s.x.Fail("create", "the device test was not created: %s", r)
	}
	l, r := s.api.Devices()
	if !r.ApiOK() {
		s.x.Fail("list", "listing failed: %s", r)
	}
	if len(l) != len(s.insts)+1 {
		s.x.Fail("create", "%d instances are listed after %d uploads", len(l), len(s.insts)+1)
	}
	for _, it := range l {
		if it.Name == name {
			i := &inst{id: it.ID, name: name, dev: d}
			s.insts = append(s.insts, i)
			s.target[d] = i
			return
		}
	}
	s.x.Fail("create", "the created device test is not listed")
}

// check compares the listing with the model.
func (s *sys) check(when string) {
	x := s.x
	l, r := s.api.Devices()
	if !r.ApiOK() {
		x.Fail("list", "%s: listing failed: %s", when, r)
	}
	if len(l) != len(s.insts) {
		x.Fail("instances", "%s: %d instances are listed, want %d", when, len(l), len(s.insts))
	}
	for n, in := range s.insts {
		var it *fdo.DevItem
		for i := range l {
			if l[i].ID == in.id {
				it = &l[i]
			}
		}
		if it == nil || it.Name != in.name || it.Guid != fmt.Sprintf("%x", in.dev.GUID) {
			x.Fail("instances", "%s: instance %d is not listed as uploaded: %+v", when, n, it)
		}
		for proto := 1; proto <= 2; proto++ {
			what := fmt.Sprintf("%s: instance %d TO%d", when, n, proto)
			got := it.Runs(proto)
			seen := map[string]bool{}
			for k, g := range got {
				if seen[g.Uuid] {
					x.Fail("twice", "%s: run %d is listed twice", what, k)
				}
				seen[g.Uuid] = true
				var ru *run
				for _, v := range in.runs[proto] {
					if v.uuid == g.Uuid {
						ru = v
					}
				}
				if ru == nil {
					x.Fail("extra", "%s: run %d was deleted or never started", what, k)
				}
				if ru.end && !reflect.DeepEqual(g.Tests, ru.last) && !(len(g.Tests) == 0 && len(ru.last) == 0) {
					x.Fail("changed", "%s: the results of a run not in progress changed from %v to %v", what, ru.last, g.Tests)
				}
				ru.last, ru.end = g.Tests, ru != in.cur[proto]
				ru.m.Compare(&g, what)
			}
			if len(got) < len(in.runs[proto]) {
				x.Fail("lost", "%s: %d of %d runs are listed", what, len(got), len(in.runs[proto]))
			}
			if c := in.cur[proto]; c != nil && got[0].Uuid != c.uuid {
				x.Fail("first", "%s: the run in progress is not the first", what)
			}
		}
	}
}

// known is the listed run that is not yet in the model.
func (s *sys) unknown(in *inst, proto int) *fdo.RunRec {
	l, _ := s.api.Devices()
	for _, it := range l {
		if it.ID != in.id {
			continue
		}
	next:
		for _, g := range it.Runs(proto) {
			for _, v := range in.runs[proto] {
				if v.uuid == g.Uuid {
					continue next
				}
			}
			g := g
			return &g
		}
	}
	return nil
}

func (s *sys) start(n, proto int) {
	in := s.insts[n]
	s.x.Step("start TO%d of instance %d", proto, n)
	if r := s.api.StartDevice(in.id, fmt.Sprint(proto)); !r.ApiOK() {
		s.x.Fail("start", "the run was not started: %s", r)
	}
	g := s.unknown(in, proto)
	if g == nil {
		s.x.Fail("lost", "the started run of instance %d TO%d is not listed", n, proto)
	}
	if len(g.Tests) != 0 || g.Completed {
		s.x.Fail("slate", "a run begins with %v completed=%v", g.Tests, g.Completed)
	}
	ru := &run{uuid: g.Uuid, m: dutm.New(s.x, proto)}
	in.runs[proto] = append(in.runs[proto], ru)
	in.cur[proto] = ru
}

func (s *sys) del(n, proto, k int) {
	in := s.insts[n]
	ru := in.runs[proto][k]
	s.x.Step("delete run %d of TO%d of instance %d", k, proto, n)
	if r := s.api.DeleteDeviceRun(in.id, fmt.Sprint(proto), ru.uuid); !r.ApiOK() {
		s.x.Fail("delete", "the run was not deleted: %s", r)
	}
	in.runs[proto] = append(append([]*run{}, in.runs[proto][:k]...), in.runs[proto][k+1:]...)
	if in.cur[proto] == ru {
		in.cur[proto] = nil
	}
}

// bad sends requests that must change nothing.
func (s *sys) bad() {
	s.x.Step("requests with unknown ids and protocols")
	id, other := s.insts[0].id, s.insts[len(s.insts)-1]
	var reqs [][2]string
	add := func(m, p string) { reqs = append(reqs, [2]string{m, p}) }
	for _, p := range []string{"3", "-1", "x", "99999999999999999999", "01x", "0x1"} {
		add("POST", "/api/device/testruns/"+p+"/"+id)
		for _, ru := range append(append([]*run{}, s.insts[0].runs[1]...), s.insts[0].runs[2]...) {
			add("DELETE", "/api/device/testruns/"+p+"/"+id+"/"+ru.uuid)
		}
	}
	for proto := 1; proto <= 2; proto++ {
		for _, i := range []string{"00", "zz", strings.Repeat("00", 16), id[:len(id)-2], id + "00", "x"} {
			add("POST", fmt.Sprintf("/api/device/testruns/%d/%s", proto, i))
			for _, ru := range s.insts[0].runs[proto] {
				add("DELETE", fmt.Sprintf("/api/device/testruns/%d/%s/%s", proto, i, ru.uuid))
			}
		}
		for _, ru := range []string{"x", strings.Repeat("0", 36), id} {
			add("DELETE", fmt.Sprintf("/api/device/testruns/%d/%s/%s", proto, id, ru))
			add("DELETE", fmt.Sprintf("/api/device/testruns/0/%s/%s", id, ru))
		}
		// a run of another instance or protocol
		for _, ru := range s.insts[0].runs[proto] {
			add("DELETE", fmt.Sprintf("/api/device/testruns/%d/%s/%s", 3-proto, id, ru.uuid))
			add("DELETE", fmt.Sprintf("/api/device/testruns/0/%s/%s", id, ru.uuid))
			if other != s.insts[0] {
				add("DELETE", fmt.Sprintf("/api/device/testruns/%d/%s/%s", proto, other.id, ru.uuid))
			}
			add("DELETE", fmt.Sprintf("/api/device/testruns/%d/%s/%s", proto, id, strings.ToUpper(ru.uuid)))
			add("DELETE", fmt.Sprintf("/api/device/testruns/%d/%s/%s", proto, id, ru.uuid[:35]))
		}
	}
	for _, q := range reqs {
		if r := s.api.Call(q[0], q[1], nil); r.Panic != nil {
			s.x.Fail("crash", "%s %s crashed: %v", q[0], q[1], r.Panic)
		}
	}
}

// attempt is one attempt of a device; mid may act between its messages.
func (s *sys) attempt(d *fdo.Device, proto int, mid func()) {
	x := s.x
	model := func() *dutm.Model {
		if c := s.target[d].cur[proto]; c != nil {
			return c.m
		}
		return nil
	}
	begun := map[*dutm.Model]bool{}
	first, sure := model(), true
	dut := &fdo.Dut{W: s.w, D: d, Suite: s.suite, Kex: s.kex, On: func(msg int, r fdo.Resp, err error) bool {
		m := model()
		if m != nil && !begun[m] {
			begun[m] = true
			m.Begin()
		}
		if r.Panic != nil {
			x.Fail("crash", "message %d crashed the server: %v", msg, r.Panic)
		}
		sure = sure && m == first
		if m == nil || m.Finished {
			if err != nil && sure {
				x.Fail(fmt.Sprintf("disturbed:%d", msg), "message %d was answered wrongly without a run: %v", msg, err)
			}
		} else {
			before := m.Pending
			if m.Answer(msg, r, err) || m.Pending == before && !sure && err != nil {
				return false
			}
			if m.Finished {
				s.target[d].cur[proto] = nil
			}
		}
		if mid != nil && msg != dut70(proto) {
			mid()
		}
		return err == nil
	}}
	dut.Attempt(proto)
}

func dut70(proto int) int {
	l := fdo.DutMsgs(proto)
	return l[len(l)-1]
}

func (s *sys) restart() {
	s.x.Step("server restart")
	nw := fdo.NewWorld(fdo.Config{DB: s.w.DB})
	s.x.Cleanup(nw.Close)
	s.w, s.api.W = nw, nw
}

func (s *sys) key() string {
	var b strings.Builder
	for n, in := range s.insts {
		fmt.Fprintf(&b, "%d:%v", n, s.target[in.dev] == in)
		for p := 1; p <= 2; p++ {
			for _, ru := range in.runs[p] {
				fmt.Fprintf(&b, " %d(%v %d %d %v %d)", p, ru == in.cur[p], ru.m.Cmd, ru.m.Idx, ru.m.Judged, len(ru.m.Out))
			}
		}
	}
	return b.String()
}

type conf struct {
	same   bool // the second upload is the same voucher
	protos []int
	depth  int
}

func world(x *hx.X, same bool) *sys {
	w := fdo.NewWorld(fdo.Config{})
	x.Cleanup(w.Close)
	s := &sys{x: x, w: w, api: fdo.NewApi(w), target: map[*fdo.Device]*inst{}, kex: "ECDH256", suite: 1}
	a := fdo.NewDevice(fdo.ES256, fdo.ES256, "a", 1)
	b := a
	if !same {
		b = fdo.NewDevice(fdo.ES256, fdo.ES256, "b", 1)
	}
	s.upload(a)
	s.upload(b)
	s.check("upload")
	return s
}

func histories(r *hx.Run) {
	confs := []conf{{true, []int{1}, 5}, {false, []int{1}, 5}, {true, []int{1, 2}, 3}, {false, []int{2}, 3}}
	if r.Thorough {
		confs = []conf{{true, []int{1}, 7}, {false, []int{1}, 7}, {true, []int{1, 2}, 5}, {false, []int{2}, 5}, {false, []int{1, 2}, 4}}
	}
	r.Explore(&hx.Space{Name: "histories", Body: func(x *hx.X) {
		ci := x.Choose("configuration", len(confs))
		c := confs[ci]
		s := world(x, c.same)
		type op struct {
			name string
			f    func()
		}
		for depth := 0; depth < c.depth; depth++ {
			x.Seen(fmt.Sprintf("%d %s", ci, s.key()), c.depth-depth)
			x.State(fmt.Sprintf("%d %s", ci, s.key()))
			ops := []op{{"bad requests", s.bad}, {"restart", s.restart}}
			for n, in := range s.insts {
				for _, proto := range c.protos {
					ops = append(ops, op{fmt.Sprintf("start %d TO%d", n, proto), func() { s.start(n, proto) }})
					for k := range in.runs[proto] {
						ops = append(ops, op{fmt.Sprintf("delete %d TO%d %d", n, proto, k), func() { s.del(n, proto, k) }})
					}
					if s.target[in.dev] != in {
						continue
					}
					ops = append(ops, op{fmt.Sprintf("attempt %d TO%d", n, proto), func() { x.Step("attempt"); s.attempt(in.dev, proto, nil) }})
					if in.cur[proto] != nil {
						ops = append(ops, op{fmt.Sprintf("finish %d TO%d", n, proto), func() {
							x.Step("finish the run")
							for i := 0; in.cur[proto] != nil; i++ {
								if i > 60 {
									x.Fail("endless", "the run does not finish")
								}
								s.attempt(in.dev, proto, nil)
							}
						}})
					}
				}
			}
			if len(s.insts) < 3 {
				ops = append(ops, op{"upload again", func() { x.Step("upload again"); s.upload(s.insts[0].dev) }})
			}
			o := ops[x.Choose("operation", len(ops))]
			o.f()
			s.check(o.name)
		}
		x.Outcome("end")
	}})
}

// mids: runs started, deleted and replaced between the messages of an attempt.
func mids(r *hx.Run) {
	dev := 2
	if r.Thorough {
		dev = 3
	}
	r.Explore(&hx.Space{Name: "between messages", MaxDev: dev, Body: func(x *hx.X) {
		proto := 1 + x.Choose("protocol", 2)
		same := x.Choose("same voucher", 2) == 1
		s := world(x, same)
		in := s.target[s.insts[0].dev]
		n := 0
		if same {
			n = 1
		}
		// The first attempts of the run may already be over.
		if x.Choose("started", 2) == 1 {
			s.start(n, proto)
			skip := []int{0, 1, len(fdo.DutTests[fdo.DutMsgs(proto)[0]])}[x.Choose("attempts before", 3)]
			for i := 0; i < skip; i++ {
				s.attempt(in.dev, proto, nil)
			}
		}
		mid := func() {
			switch x.Dev("between messages", 5) {
			case 1:
				s.start(n, proto)
			case 2:
				if k := len(in.runs[proto]); k > 0 {
					s.del(n, proto, k-1)
				} else {
					s.start(n, 3-proto)
				}
			case 3:
				if k := len(in.runs[proto]); k > 1 {
					s.del(n, proto, 0)
				} else {
					s.start(1-n, proto)
				}
			case 4:
				x.Step("another attempt in between")
				s.attempt(in.dev, 3-proto, nil)
			}
			s.check("between messages")
		}
		for i := 0; i < 3; i++ {
			x.Step("attempt")
			s.attempt(in.dev, proto, mid)
			s.check("after the attempt")
		}
		for i := 0; in.cur[proto] != nil; i++ {
			if i > 60 {
				x.Fail("endless", "the run does not finish")
			}
			s.attempt(in.dev, proto, nil)
		}
		s.check("after the run")
		x.Outcome(fmt.Sprintf("%d runs", len(in.runs[proto])))
	}})
}

// long: many uploads and runs of one instance, deleted in different orders.
func long(r *hx.Run) {
	ups, starts := 12, 40
	if r.Thorough {
		ups, starts = 40, 150
	}
	r.Explore(&hx.Space{Name: "long histories", Body: func(x *hx.X) {
		proto := 1 + x.Choose("protocol", 2)
		order := x.Choose("deletions", 5)
		s := world(x, x.Choose("same voucher", 2) == 1)
		for len(s.insts) < ups {
			if d := s.insts[len(s.insts)/2].dev; len(s.insts)%3 == 2 {
				s.upload(d)
			} else {
				s.upload(fdo.NewDevice(fdo.ES256, fdo.ES256, fmt.Sprintf("more %d", len(s.insts)), 1))
			}
			s.check("upload")
		}
		for _, n := range []int{0, ups - 1} {
			s.start(n, proto)
		}
		n := 1
		if s.target[s.insts[1].dev] != s.insts[1] {
			n = ups / 2
			for s.target[s.insts[n].dev] != s.insts[n] {
				n++
			}
		}
		in := s.insts[n]
		for k := 0; k < starts; k++ {
			s.start(n, proto)
			s.check("start")
			if k%7 == 3 {
				s.attempt(in.dev, proto, nil)
				s.attempt(in.dev, proto, nil)
				s.check("attempt")
			}
			if k == starts/2 {
				for i := 0; in.cur[proto] != nil; i++ {
					if i > 60 {
						x.Fail("endless", "the run does not finish")
					}
					s.attempt(in.dev, proto, nil)
				}
				s.restart()
				s.check("finished")
			}
		}
		for len(in.runs[proto]) > 0 {
			l := len(in.runs[proto])
			s.del(n, proto, []int{0, l - 1, l / 2, (l * 7919) % l, (l - 1) &^ 1}[order])
			s.check("delete")
			if l == 3 {
				s.attempt(in.dev, proto, nil)
				s.start(n, 3-proto)
				s.check("attempt")
			}
		}
		x.Outcome("end")
	}})
}

func main() {
	hx.Main("P15", "every listing after every operation was compared with the reference list of runs", func(r *hx.Run) {
		histories(r)
		mids(r)
		long(r)
	})
}
