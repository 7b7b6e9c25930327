// P14: verdicts of device conformance runs match the behaviour of the device.
package main

import (
	"fmt"

	"verif/mc/dutm"
	"verif/mc/fdo"
	"verif/mc/hx"
)

type conf struct {
	dev, owner, entries, suite int
	kex                        string
	proto                      int
}

func (c conf) String() string {
	return fmt.Sprintf("TO%d %s/%s %d entries suite %d %s", c.proto, fdo.AlgName(c.dev), fdo.AlgName(c.owner), c.entries, c.suite, c.kex)
}

const (
	es, rs = "ECDH256", "DHKEXid14"
	pos    = "FIDO_LISTENER_POSITIVE"
)

// clean runs a session that must not be touched by any test.
func clean(x *hx.X, w *fdo.World, d *fdo.Device, c conf, proto int, what string) {
	dut := &fdo.Dut{W: w, D: d, Suite: c.suite, Kex: c.kex, On: func(msg int, r fdo.Resp, err error) bool {
		if err != nil {
			x.Fail(fmt.Sprintf("disturbed:%s:%d", what, msg), "%s: message %d was answered wrongly: %v", what, msg, err)
		}
		return true
	}}
	if !dut.Attempt(proto) {
		x.Fail("disturbed:"+what, "%s did not finish", what)
	}
}

func body(x *hx.X, c conf, devs bool, extra int) {
	w := fdo.NewWorld(fdo.Config{})
	x.Cleanup(w.Close)
	api := fdo.NewApi(w)
	a, b := fdo.NewDevice(c.dev, c.owner, "a", c.entries), fdo.NewDevice(c.dev, c.owner, "b", c.entries)
	for i, d := range []*fdo.Device{b, a} {
		if r := api.CreateDevice(fmt.Sprint("d", i), d); !r.ApiOK() {
			x.Fail("create", "the device test was not created: %s", r)
		}
	}
	it := api.DeviceOf(a)
	if it == nil {
		x.Fail("create", "the created device test is not listed")
	}
	if r := api.StartDevice(it.ID, fmt.Sprint(c.proto)); !r.ApiOK() {
		x.Fail("start", "the run was not started: %s", r)
	}
	m := dutm.New(x, c.proto)
	dut := &fdo.Dut{W: w, D: a, Suite: c.suite, Kex: c.kex}
	other := func(what int) {
		switch what {
		case 1:
			x.Step("another device without a run")
			clean(x, dut.W, b, c, c.proto, "another device")
		case 2:
			x.Step("the other protocol without a run")
			clean(x, dut.W, a, c, 3-c.proto, "the other protocol")
		case 3:
			x.Step("server restart")
			nw := fdo.NewWorld(fdo.Config{DB: w.DB})
			x.Cleanup(nw.Close)
			dut.W, api.W = nw, nw
		}
	}
	dut.Again = func() bool { return x.Dev("68 again", 2) == 1 }
	dut.On = func(msg int, r fdo.Resp, err error) bool {
		was := m.Pending
		broken := m.Answer(msg, r, err)
		x.State(fmt.Sprintf("%d %d %s %v %d", m.Cmd, m.Idx, m.Pending, m.Judged, len(m.Out)))
		if broken {
			x.Step("%d broken by %s: %v", msg, m.Pending, err)
		} else if m.Pending != was {
			x.Step("%d good (%s)", msg, m.Pending)
		}
		if !devs {
			return err == nil
		}
		if broken {
			if m.Pending == "FIDO_LISTENER_DEVICE_60_MISSING_AUTHZ_HEADER" || msg == m.Msgs[len(m.Msgs)-1] {
				return false
			}
			if msg == 32 {
				return false
			}
			if x.Dev(fmt.Sprintf("%d: ignore", msg), 2) == 1 {
				x.Step("the device ignores it")
				return true
			}
			return false
		}
		if extra > 0 && m.Testing() {
			// only where a test was just answered, to keep the number of places small
			k := x.DevN("then", 5, extra)
			if k == 1 {
				x.Step("the device gives up")
				return false
			}
			if k > 1 {
				other(k - 1)
			}
		}
		return true
	}
	limit := 0
	for _, n := range m.Msgs {
		limit += len(fdo.DutTests[n])
	}
	for limit += 4; !m.Finished && m.Attempt < limit; {
		m.Begin()
		x.Step("attempt %d", m.Attempt)
		done := dut.Attempt(c.proto)
		if done && !m.Finished {
			x.Fail("early", "an attempt came to its end although tests are left")
		}
		it := api.DeviceOf(a)
		if it == nil || len(it.Runs(c.proto)) != 1 || len(it.Runs(3-c.proto)) != 0 {
			x.Fail("listing", "the run is not listed as the only one: %+v", it)
		}
		m.Compare(&it.Runs(c.proto)[0], fmt.Sprintf("attempt %d", m.Attempt))
		if devs && extra > 0 && !m.Finished {
			if k := x.DevN("between attempts", 4, extra); k > 0 {
				other(k)
			}
		}
	}
	if !m.Finished {
		x.Fail("endless", "the run did not finish in %d attempts", m.Attempt)
	}
	clean(x, dut.W, a, c, c.proto, "the device after its run")
	clean(x, dut.W, b, c, c.proto, "another device")
	it = api.DeviceOf(a)
	if len(it.Runs(c.proto)) != 1 {
		x.Fail("listing", "the completed run is listed %d times", len(it.Runs(c.proto)))
	}
	m.Compare(&it.Runs(c.proto)[0], "after the run")
	if o := api.DeviceOf(b); o == nil || len(o.To1)+len(o.To2) != 0 {
		x.Fail("listing", "a run is listed for another device: %+v", o)
	}
	n := 0
	for _, v := range m.Out {
		if !v.Pass {
			n++
		}
	}
	x.Outcome(fmt.Sprintf("%d failed of %d", n, len(m.Out)))
}

// again starts the run anew at any point and expects every run to be judged by itself.
func again(x *hx.X, c conf, runs int, every bool) {
	w := fdo.NewWorld(fdo.Config{})
	x.Cleanup(w.Close)
	api := fdo.NewApi(w)
	a := fdo.NewDevice(c.dev, c.owner, "a", c.entries)
	if r := api.CreateDevice("d", a); !r.ApiOK() {
		x.Fail("create", "the device test was not created: %s", r)
	}
	it := api.DeviceOf(a)
	models := map[string]*dutm.Model{}
	var m *dutm.Model
	started := 0
	compare := func(when string) *fdo.DevItem {
		it := api.DeviceOf(a)
		if it == nil || len(it.Runs(c.proto)) != started || len(it.Runs(3-c.proto)) != 0 {
			x.Fail("listing", "%s: %d runs were started, listed are %+v", when, started, it)
		}
		for i := range it.Runs(c.proto) {
			run := &it.Runs(c.proto)[i]
			if models[run.Uuid] == nil {
				x.Fail("listing", "%s: run %s is listed, which is none of those started", when, run.Uuid)
			}
			models[run.Uuid].Compare(run, when)
		}
		return it
	}
	start := func() {
		x.Step("run %d is started", started)
		if r := api.StartDevice(it.ID, fmt.Sprint(c.proto)); !r.ApiOK() {
			x.Fail("start", "the run was not started: %s", r)
		}
		m = dutm.New(x, c.proto)
		started++
		for _, run := range api.DeviceOf(a).Runs(c.proto) {
			if models[run.Uuid] == nil {
				models[run.Uuid] = m
				compare("after the start")
				return
			}
		}
		x.Fail("listing", "the started run is not listed")
	}
	dut := &fdo.Dut{W: w, D: a, Suite: c.suite, Kex: c.kex}
	mid := false
	dut.On = func(msg int, r fdo.Resp, err error) bool {
		if mid {
			if err != nil {
				x.Fail(fmt.Sprintf("disturbed:start:%d", msg), "message %d of a session from before the run was started is answered wrongly: %v", msg, err)
			}
			return true
		}
		broken := m.Answer(msg, r, err)
		x.Step("%d broken %v (%s)", msg, broken, m.Pending)
		x.State(fmt.Sprintf("%d: %d %d %s %v %d", started, m.Cmd, m.Idx, m.Pending, m.Judged, len(m.Out)))
		if started < runs && (every || m.Testing()) {
			n := 3
			if broken {
				n = 2
			}
			switch x.Dev("start again", n) {
			case 1:
				start()
				return false
			case 2:
				mid = true
				start()
				return true
			}
		}
		return !broken && err == nil
	}
	for k := 0; k < runs; k++ {
		if started <= k {
			start()
		}
		limit := 0
		for _, n := range m.Msgs {
			limit += len(fdo.DutTests[n])
		}
		for n := 0; !m.Finished; n++ {
			if n > (limit+4)*runs {
				x.Fail("endless", "the run does not finish")
			}
			mid = false
			m.Begin()
			if done := dut.Attempt(c.proto); done && !m.Finished && !mid {
				x.Fail("early", "an attempt came to its end although tests are left")
			}
			compare(fmt.Sprintf("run %d attempt %d", started, m.Attempt))
		}
		if started > k+1 {
			k = started - 1
		}
	}
	clean(x, w, a, c, c.proto, "the device after its runs")
	compare("after the runs")
	x.Outcome(fmt.Sprintf("%d runs", started))
}

func main() {
	hx.Main("P14", "every verdict of every device run was compared with what the device had done", func(r *hx.Run) {
		confs := []conf{
			{fdo.ES256, fdo.ES256, 1, 1, es, 1}, {fdo.ES384, fdo.ES384, 2, 3, "ECDH384", 1},
			{fdo.ES256, fdo.ES256, 1, 1, es, 2}, {fdo.ES384, fdo.ES384, 3, 3, "ECDH384", 2}, {fdo.ES256, fdo.RS256, 2, 32, rs, 2},
		}
		r.Explore(&hx.Space{Name: "a conformant device", Body: func(x *hx.X) {
			c := confs[x.Choose("configuration", len(confs))]
			body(x, c, false, 0)
		}})
		r.Explore(&hx.Space{Name: "several runs", MaxDev: 1, Body: func(x *hx.X) {
			c := confs[[]int{0, 2, 3}[x.Choose("configuration", 3)]]
			again(x, c, 2, c.proto == 1 || x.Run().Thorough)
		}})
		r.Explore(&hx.Space{Name: "three rendezvous runs", MaxDev: 2, Body: func(x *hx.X) {
			again(x, confs[x.Choose("configuration", 2)], 3, true)
		}})
		first, second := 2, 2
		if r.Thorough {
			first, second = 3, 3
		}
		r.Explore(&hx.Space{Name: "ignoring broken answers", MaxDev: first, Body: func(x *hx.X) {
			l := []int{0, 1, 2, 3}
			body(x, confs[l[x.Choose("configuration", len(l))]], true, 0)
		}})
		r.Explore(&hx.Space{Name: "ignoring, giving up, restarts and others", MaxDev: second, Body: func(x *hx.X) {
			l := []int{0, 2, 3}
			n := 2
			if x.Run().Thorough {
				n = 1
			}
			body(x, confs[l[x.Choose("configuration", len(l))]], true, n)
		}})
	})
}
