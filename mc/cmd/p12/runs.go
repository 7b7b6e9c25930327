package main

import (
	"bytes"
	"fmt"
	"sync"

	"verif/mc/dutm"
	"verif/mc/fdo"
	"verif/mc/hx"
)

// place is a point of a device conformance run: the test that message n is due for.
type place struct {
	n, idx int
	plain  bool // the plaintext of an encrypted message
}

func places() (o []place) {
	for _, n := range []int{30, 32, 60, 62, 64, 66, 68, 70} {
		l := len(fdo.DutTests[n])
		at := []int{0, l - 1}
		if l > 2 {
			at = []int{0, 1, l - 1}
		}
		for _, i := range at {
			o = append(o, place{n, i, false})
			if n >= 66 {
				o = append(o, place{n, i, true})
			}
		}
	}
	return
}

// prepared is a stored run that has come to a place, and the message that is due there.
type prepared struct {
	once sync.Once
	recs map[string]fdo.Rec
	d    *fdo.Device
	muts int
}

func (p place) proto() int {
	if p.n < 40 {
		return 1
	}
	return 2
}

func dutOf(w *fdo.World, d *fdo.Device) *fdo.Dut {
	return &fdo.Dut{W: w, D: d, Suite: 1, Kex: "ECDH256"}
}

func (p place) prepare() *prepared {
	r := &prepared{}
	hx.Detached(func(x *hx.X) {
		w := fdo.NewWorld(fdo.Config{})
		x.Cleanup(w.Close)
		api := fdo.NewApi(w)
		d := fdo.NewDevice(fdo.ES256, fdo.ES256, "a", 1)
		if !api.CreateDevice("d", d).ApiOK() {
			return
		}
		it := api.DeviceOf(d)
		if it == nil || !api.StartDevice(it.ID, fmt.Sprint(p.proto())).ApiOK() {
			return
		}
		m := dutm.New(x, p.proto())
		dut := dutOf(w, d)
		dut.On = func(msg int, a fdo.Resp, err error) bool {
			m.Answer(msg, a, err)
			return err == nil
		}
		for i := 0; i < 200 && !m.Finished; i++ {
			cur := m.Msgs[m.Cmd]
			if cur == p.n && m.Idx == p.idx || p.idx == 0 && m.Idx == len(fdo.DutTests[cur])-1 && m.Cmd+1 < len(m.Msgs) && m.Msgs[m.Cmd+1] == p.n {
				r.d, r.recs = d, fdo.Records(w.DB)
				w.Rewrite = func(msg int, plain bool, b []byte) []byte {
					if msg == p.n && plain == p.plain && r.muts == 0 {
						v, _ := fdo.Decode(b)
						r.muts = len(fdo.Mutants(v))
					}
					return b
				}
				dut.Attempt(p.proto())
				return
			}
			m.Begin()
			dut.Attempt(p.proto())
		}
	})
	return r
}

// runs sends malformed messages in the middle of device conformance runs.
func runs(r *hx.Run) {
	ps := places()
	prep := make([]*prepared, len(ps))
	for i := range prep {
		prep[i] = &prepared{}
	}
	r.Explore(&hx.Space{Name: "test runs", Body: func(x *hx.X) {
		i := x.Choose("place", len(ps))
		p, e := ps[i], prep[i]
		e.once.Do(func() {
			g := p.prepare()
			e.recs, e.d, e.muts = g.recs, g.d, g.muts
		})
		if e.muts == 0 {
			x.Prune("the run does not come here")
		}
		k := x.Choose("malformed", e.muts+len(garbage))
		db := fdo.Load(e.recs)
		x.Cleanup(func() { db.Close() })
		w := fdo.NewWorld(fdo.Config{DB: db})
		x.Cleanup(w.Close)
		what, kind, may := "", "", false
		sent := false
		w.Rewrite = func(msg int, plain bool, b []byte) []byte {
			if msg != p.n || plain != p.plain || sent {
				return b
			}
			sent = true
			if k >= e.muts {
				g := garbage[k-e.muts]
				what, kind, may = g.name, "garbage:"+g.name, true
				return g.b
			}
			v, _ := fdo.Decode(b)
			ms := fdo.Mutants(v)
			if k >= len(ms) {
				x.Prune("fewer mutants")
			}
			c := fdo.Encode(ms[k].V)
			if bytes.Equal(c, b) {
				x.Prune("identical")
			}
			l := layer{n: p.n, name: "message"}
			if p.plain {
				l.name = "plaintext"
			} else if p.n >= 66 {
				l.name = "ciphertext"
			}
			what, kind, may = ms[k].Path+" "+ms[k].Kind, l.name+":"+ms[k].Path+":"+ms[k].Kind, tolerated(p.n, l.name, ms[k]) || passes(l, ms[k])
			if p.n == 68 && ms[k].Path == "/1" {
				may = true // the device has more to say, so the number of items is free
			}
			return c
		}
		last := p.idx == len(fdo.DutTests[p.n])-1
		dut := dutOf(w, e.d)
		dut.On = func(msg int, a fdo.Resp, err error) bool {
			if sent && msg == p.n {
				x.State(fmt.Sprint(p, what))
				at := fmt.Sprintf("%d with %s for test %d of a device run", msg, what, p.idx)
				if a.Dropped() {
					x.Fail(fmt.Sprintf("drop:%d:%s", msg, a.Frame), "%s: connection dropped: %s", at, a)
				}
				if last {
					judge(x, msg, a, may, "test run:"+kind, at)
				} else {
					x.Step("%s -> %s", at, a)
					x.Outcome(fmt.Sprintf("%d in a test:%s", msg, a.Class()))
				}
				return false
			}
			return err == nil
		}
		dut.Attempt(p.proto())
		if !sent {
			x.Prune("the run does not come here")
		}
		// the run and its device are still there
		w.Rewrite = nil
		dut.On = func(msg int, a fdo.Resp, err error) bool {
			if a.Dropped() {
				x.Fail(fmt.Sprintf("drop-later:%d:%s", msg, a.Frame), "after %d with %s for test %d of a device run, the next %d: connection dropped: %s", p.n, what, p.idx, msg, a)
			}
			return err == nil
		}
		dut.Attempt(p.proto())
		it := fdo.NewApi(w).DeviceOf(e.d)
		if it == nil || len(it.Runs(p.proto())) != 1 {
			x.Fail("run-lost", "after %d with %s for test %d of a device run, the run is no longer listed: %+v", p.n, what, p.idx, it)
		}
	}})
}
