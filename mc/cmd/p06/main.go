// P06: protocol sessions and registrations always expire on time.
package main

import (
	"encoding/hex"
	"fmt"
	"time"

	"verif/mc/fdo"
	"verif/mc/hx"
)

const limit = 600

type run struct {
	x     *hx.X
	w     *fdo.World
	d     *fdo.Device
	seen  map[string]int64 // record -> latest time its session can have begun
	base  map[string]bool
	regs  map[string][2]int64
	t0    *fdo.To0
	t1    *fdo.To1
	t2    *fdo.To2
	hist  string
	grant int64
}

// check reads every stored expiry. fresh is set when the message just sent may
// open a session; reg when it may store a registration.
func (r *run) check(fresh, reg bool, before int64) {
	now := time.Now().Unix()
	for k, v := range fdo.Records(r.w.DB) {
		if r.base[k] {
			continue
		}
		b, known := r.seen[k]
		rg, isReg := r.regs[k]
		if reg && (isReg || !known) {
			r.regs[k] = [2]int64{before + r.grant, now + r.grant}
			rg, isReg = r.regs[k], true
		} else if !known && !isReg {
			if !fresh {
				r.x.Fail("unexpected-record", "%s: a record appeared", r.hist)
			}
			b = now
			r.seen[k] = b
		}
		if isReg {
			if int64(v.Exp) < rg[0] || int64(v.Exp) > rg[1] {
				r.x.Fail("registration-lifetime", "%s: registration lives until %d, want %d..%d", r.hist, v.Exp, rg[0], rg[1])
			}
			continue
		}
		if v.Exp == 0 {
			r.x.Fail("session-permanent", "%s: a session record never expires", r.hist)
		}
		if int64(v.Exp) > b+limit {
			r.x.Fail("session-too-long", "%s: a session begun by %d is kept until %d, %d s too long", r.hist, b, v.Exp, int64(v.Exp)-b-limit)
		}
	}
}

func (r *run) to0(wait int64) []func() fdo.Resp {
	r.t0 = &fdo.To0{W: r.w}
	return []func() fdo.Resp{
		func() fdo.Resp { return r.t0.Hello() },
		func() fdo.Resp {
			r.grant = wait
			if wait > 30*86400 {
				r.grant = 30 * 86400
			}
			rp, _ := r.t0.Register(r.d, int(wait), "o.verif.test")
			return rp
		},
	}
}

func only(rp fdo.Resp, _ error) fdo.Resp { return rp }

func (r *run) to1() []func() fdo.Resp {
	r.t1 = &fdo.To1{W: r.w}
	return []func() fdo.Resp{
		func() fdo.Resp { return r.t1.Hello(r.d.GUID, r.d.Alg) },
		func() fdo.Resp { return r.t1.Prove(r.d) },
	}
}

func (r *run) to2() []func() fdo.Resp {
	r.t2 = fdo.NewTo2(r.w, r.d, 1, "ECDH256")
	return []func() fdo.Resp{
		func() fdo.Resp { return only(r.t2.Hello()) },
		func() fdo.Resp { return only(r.t2.Entry(0)) },
		func() fdo.Resp { return only(r.t2.Prove()) },
		func() fdo.Resp { return only(r.t2.Ready(nil)) },
		func() fdo.Resp { rp, _, _ := r.t2.Info(true, fdo.Mandatory()); return rp },
		func() fdo.Resp { rp, _, _ := r.t2.Info(false, nil); return rp },
		func() fdo.Resp { rp, _, _ := r.t2.Info(false, nil); return rp },
		func() fdo.Resp { return only(r.t2.Done()) },
	}
}

func newRun(x *hx.X) *run {
	d := fdo.NewDevice(fdo.ES256, fdo.ES256, "a", 1)
	w := fdo.NewWorld(fdo.Config{NoAPI: true, Interop: true, SimMap: fmt.Sprintf(`[["%s","tok"]]`, hex.EncodeToString(d.GUID))})
	x.Cleanup(w.Close)
	d.Install(w)
	r := &run{x: x, w: w, d: d, seen: map[string]int64{}, base: map[string]bool{}, regs: map[string][2]int64{}}
	for k := range fdo.Records(w.DB) {
		r.base[k] = true
	}
	return r
}

var nums = map[string][]int{"to0": {20, 22}, "to1": {30, 32}, "to2": {60, 62, 64, 66, 68, 68, 68, 70}}

func (r *run) steps(kind string) []func() fdo.Resp {
	switch kind {
	case "to0":
		return r.to0(5000)
	case "to1":
		return r.to1()
	}
	return r.to2()
}

func (r *run) token(kind string) string {
	switch kind {
	case "to0":
		return r.t0.Token
	case "to1":
		return r.t1.Token
	}
	return r.t2.Token
}

// do sends one correct step and checks the stored expiries.
func (r *run) do(kind string, i int, f func() fdo.Resp) fdo.Resp {
	before := time.Now().Unix()
	rp := f()
	n := nums[kind][i]
	r.hist += fmt.Sprintf("%d ", n)
	r.x.Step("%d -> %s", n, rp)
	r.check(i == 0, n == 22 && rp.OK(23), before)
	return rp
}

func main() {
	hx.Main("P06", "every run of the three protocols with up to N refused or repeated messages inserted anywhere, the stored expiry of every record read after each message; every message sent after the session or registration expired at every stage", func(r *hx.Run) {
		bad := []int{20, 22, 30, 32, 60, 62, 64, 66, 68, 70}
		dev := 2
		if r.Thorough {
			dev = 3
		}
		r.Explore(&hx.Space{Name: "history", MaxDev: dev, Body: func(x *hx.X) {
			kind := []string{"to0", "to1", "to2"}[x.Choose("protocol", 3)]
			g := newRun(x)
			if kind == "to1" {
				for i, f := range g.steps("to0") {
					g.do("to0", i, f)
				}
			}
			st := g.steps(kind)
			aged := 0
			if kind == "to2" {
				aged = x.Choose("aged-after", len(st)) // the session is 8 minutes old from this step on
			}
			for i := 0; i <= len(st); i++ {
				if i > 0 && i == aged {
					for k, b := range g.seen {
						fdo.SetExpiry(g.w.DB, k, fdo.Records(g.w.DB)[k].Exp-480)
						g.seen[k] = b - 480
					}
					g.hist += "(8 minutes later) "
				}
				if i > 0 {
					for {
						k := x.Dev("insert", 1+len(bad)+2)
						if k == 0 {
							break
						}
						before := time.Now().Unix()
						switch {
						case k <= len(bad):
							n := bad[k-1]
							body := fdo.Encode(fdo.A("x"))
							if n == 62 {
								body = fdo.Encode(fdo.A(0)) // a repeated question is fine at its place
							}
							rp := g.w.Send(n, g.token(kind), body)
							g.hist += fmt.Sprintf("!%d(%s) ", n, rp.Class())
							x.Step("inserted %d -> %s", n, rp)
							g.check(n == 20 || n == 30 || n == 60, false, before)
						case k == len(bad)+1: // repeat the previous step's message kind
							g.hist += "again:"
							if i-1 > 0 {
								g.do(kind, i-1, st[i-1])
							}
						default: // a second session of the same kind
							sv0, sv1, sv2 := g.t0, g.t1, g.t2
							g.do(kind, 0, g.steps(kind)[0])
							g.t0, g.t1, g.t2 = sv0, sv1, sv2
						}
					}
				}
				if i < len(st) {
					g.do(kind, i, st[i])
				}
			}
			x.State(kind + g.hist)
			x.Outcome(kind)
		}})
		r.Explore(&hx.Space{Name: "nearly expired", Body: func(x *hx.X) {
			ages := []int64{300, 420, 481, 541, 561, 581, 591}
			g := newRun(x)
			st := g.steps("to2")
			at := 1 + x.Choose("aged after", len(st)-1)
			age := ages[x.Choose("age", len(ages))]
			again := x.Choose("aged again", 2) == 1
			for i := range st {
				if i == at {
					for k, b := range g.seen {
						fdo.SetExpiry(g.w.DB, k, fdo.Records(g.w.DB)[k].Exp-uint64(age))
						g.seen[k] = b - age
					}
					g.hist += fmt.Sprintf("(%d s later) ", age)
				}
				t := time.Now().Unix()
				if rp := g.do("to2", i, st[i]); rp.Status != 200 {
					for _, b := range g.seen {
						if t+2 >= b+limit { // this took too long
							x.Prune("expired")
						}
					}
					x.Fail("live-refused", "%s: a live session is refused: %s", g.hist, rp)
				}
				if again && i >= at && age > 5 { // and a second passes with every message
					for k, b := range g.seen {
						fdo.SetExpiry(g.w.DB, k, fdo.Records(g.w.DB)[k].Exp-1)
						g.seen[k] = b - 1
					}
				}
			}
			x.State(g.hist)
			x.Outcome("ended")
		}})
		r.Explore(&hx.Space{Name: "reregister", Body: func(x *hx.X) {
			g := newRun(x)
			waits := []int64{5, 100, 86400, 40 * 86400}
			n := 2 + x.Choose("n", 2)
			for i := 0; i < n; i++ {
				w := waits[x.Choose("wait", len(waits))]
				for j, f := range g.to0(w) {
					if rp := g.do("to0", j, f); rp.Status != 200 {
						x.Fail("refused", "%s: %s", g.hist, rp)
					}
				}
				g.hist += fmt.Sprintf("(%d) ", w)
			}
			x.State(g.hist)
		}})
		r.Explore(&hx.Space{Name: "expired", Body: func(x *hx.X) {
			kind := []string{"to0", "to1", "to2"}[x.Choose("protocol", 3)]
			g := newRun(x)
			if kind == "to1" {
				for i, f := range g.steps("to0") {
					g.do("to0", i, f)
				}
				g.seen = map[string]int64{}
			}
			st := g.steps(kind)
			stage := 1 + x.Choose("stage", len(st))
			for i := 0; i < stage; i++ {
				if rp := g.do(kind, i, st[i]); rp.Status != 200 {
					x.Fail("refused", "%s: %s", g.hist, rp)
				}
			}
			what := "session"
			if kind == "to1" && stage == 1 && x.Choose("what", 2) == 1 {
				what = "registration"
			}
			m := g.seen
			if what == "session" {
				for k := range m {
					fdo.Expire(g.w.DB, k)
				}
				if len(m) == 0 {
					x.Fail("no-session-record", "no session record found for %s", kind)
				}
			} else {
				for k := range g.regs {
					fdo.Expire(g.w.DB, k)
				}
			}
			before := fdo.Records(g.w.DB)
			names := append([]int{}, nums[kind][1:]...)
			var rp fdo.Resp
			n := 0
			if k := x.Choose("message", len(names)+6); k < len(names) {
				n = names[k]
				rp = st[k+1]()
			} else {
				n = []int{22, 32, 62, 64, 66, 70}[k-len(names)]
				rp = g.w.Send(n, g.token(kind), fdo.Encode(fdo.A(0)))
			}
			g.hist += fmt.Sprintf("expire-%s %d", what, n)
			x.Step("%s -> %s", g.hist, rp)
			x.State(kind + g.hist)
			x.Outcome(what + rp.Class())
			if rp.Dropped() {
				x.Fail(fmt.Sprintf("drop:%d:%s", n, rp.Frame), "%s: dropped: %s", g.hist, rp)
			}
			if rp.Status == 200 {
				x.Fail(fmt.Sprintf("expired-%s-used:%s:%d", what, kind, n), "%s: answered %s", g.hist, rp)
			}
			if rp.Header != nil && rp.Status != 0 && !rp.IsErr() {
				x.Fail(fmt.Sprintf("expired-noerr:%s:%d", kind, n), "%s: refused without a protocol error: %s", g.hist, rp)
			}
			for k := range fdo.Records(g.w.DB) {
				if _, ok := before[k]; !ok {
					x.Fail(fmt.Sprintf("resurrected:%s:%d", kind, n), "%s: a record (re)appeared", g.hist)
				}
			}
			if what == "registration" {
				if rp := (&fdo.To1{W: g.w}).Hello(g.d.GUID, g.d.Alg); !rp.IsErr() {
					x.Fail("expired-registration-hello", "30 for an expired registration: %s", rp)
				}
			}
		}})
	})
}
