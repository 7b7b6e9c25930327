// P02: owner service info reaches the device completely, once and in order.
package main

import (
	"encoding/hex"
	"fmt"
	"strings"

	"verif/mc/fdo"
	"verif/mc/hx"
)

type dev struct {
	d     *fdo.Device
	t     *fdo.To2
	name  string
	want  []fdo.SI
	items []fdo.SI // what the device still has to send
	bad   bool     // the device's service info is deficient
	got   []fdo.SI
	ph    string // send, recv, done, end
	more  int
	msgs  int
	limit int // messages after which the owner counts as endless
	log   string
}

func same(a, b fdo.SI) bool { return a.K == b.K && string(a.V) == string(b.V) }

func show(l []fdo.SI) string {
	o := []string{}
	for _, e := range l {
		o = append(o, fmt.Sprintf("%s=%x", e.K, e.V))
	}
	return "[" + strings.Join(o, " ") + "]"
}

// send sends one 68 and checks the answer against the reference queue.
func (v *dev) send(x *hx.X, more bool, l []fdo.SI) {
	r, inf, err := v.t.Info(more, l)
	x.Step("%s: 68 more=%v %d items -> %s %+v %v", v.name, more, len(l), r, inf, err)
	v.msgs++
	if r.Dropped() {
		x.Fail("drop:"+r.Frame, "68 dropped the connection: %s", r)
	}
	if v.ph == "done" {
		if r.Status == 200 {
			x.Fail("after-done-accepted", "service info after the done flag was answered: %s", r)
		}
		if !r.IsErr() {
			x.Fail("after-done-noerr", "service info after the done flag was refused without a protocol error: %s", r)
		}
		return
	}
	if !more && v.bad && v.ph == "send" {
		if r.Status == 200 {
			x.Fail("deficient-accepted:"+v.log, "a device with deficient service info (%s) was answered: %s", v.log, r)
		}
		if !r.IsErr() {
			x.Fail("deficient-noerr", "deficient service info refused without a protocol error: %s", r)
		}
		v.ph = "end"
		x.Outcome("deficient refused")
		return
	}
	if err != nil {
		x.Fail("refused:"+v.ph, "correct service info refused: %v", err)
	}
	if more {
		if inf.Done {
			x.Fail("done-on-more", "done flag set although the device has more to send")
		}
		if len(inf.SI) > 0 && v.ph == "send" {
			x.Fail("item-on-more", "owner items sent while the device still sends: %s", show(inf.SI))
		}
	} else {
		v.ph = "recv"
	}
	for _, e := range inf.SI {
		if len(v.got) >= len(v.want) {
			x.Fail("extra-item", "item %s was not configured or already delivered (configured %s)", show([]fdo.SI{e}), show(v.want))
		}
		if !same(e, v.want[len(v.got)]) {
			x.Fail("wrong-item", "item %s delivered where %s was configured", show([]fdo.SI{e}), show(v.want[len(v.got):]))
		}
		v.got = append(v.got, e)
	}
	if inf.Done != (len(v.got) == len(v.want) && v.ph == "recv" && !more) {
		x.Fail(fmt.Sprintf("done-flag:%v", inf.Done), "done flag is %v after %d of %d items", inf.Done, len(v.got), len(v.want))
	}
	if inf.Done {
		v.ph = "done"
	}
	if v.msgs > 12 && v.msgs > v.limit {
		x.Fail("endless", "owner never finishes: %s", show(v.got))
	}
}

func onboard(x *hx.X, w *fdo.World, v *dev) {
	v.t = fdo.NewTo2(w, v.d, 1, "ECDH256")
	v.ph, v.got, v.msgs, v.more = "send", nil, 0, 0
	if err := v.t.Reach(66); err != nil {
		x.Fail("setup", "correct session refused before service info: %v", err)
	}
}

func main() {
	hx.Main("P02", "every way to split the device's service info over up to 4 messages, with every omitted or undecodable mandatory item, against every owner configuration, for one session, two consecutive sessions and two interleaved sessions", func(r *hx.Run) {
		configs := []string{"none", "a", "b", "both"}
		setup := func(x *hx.X, cfg string) (*fdo.World, []*dev) {
			a := &dev{d: fdo.NewDevice(fdo.ES256, fdo.ES256, "a", 1), name: "a"}
			b := &dev{d: fdo.NewDevice(fdo.ES256, fdo.ES256, "b", 1), name: "b"}
			var m []string
			add := func(v *dev, tok string) {
				m = append(m, fmt.Sprintf(`["%s","%s"]`, hex.EncodeToString(v.d.GUID), tok))
				v.want = []fdo.SI{{K: "fido_alliance:active", V: fdo.Encode(true)}, {K: "fido_alliance:dev_conformance", V: []byte(tok)}}
			}
			if cfg == "a" || cfg == "both" {
				add(a, "token-of-a")
			}
			if cfg == "b" || cfg == "both" {
				add(b, "another-token-of-b")
			}
			w := fdo.NewWorld(fdo.Config{NoAPI: true, Interop: true, SimMap: "[" + strings.Join(m, ",") + "]"})
			x.Cleanup(w.Close)
			a.d.Install(w)
			b.d.Install(w)
			return w, []*dev{a, b}
		}
		// step sends the device's next message, chosen among all splits.
		step := func(x *hx.X, v *dev, maxMore int) {
			switch v.ph {
			case "send":
				opts := []int{-1}
				if v.more < maxMore {
					opts = append(opts, 0, 1)
					if len(v.items) > 4 {
						opts = append(opts, 4)
					}
					if len(v.items) > 1 {
						opts = append(opts, len(v.items))
					}
				}
				k := opts[x.Choose("split", len(opts))]
				if k < 0 {
					v.send(x, false, v.items)
					v.items = nil
					return
				}
				if k > len(v.items) {
					x.Prune("nothing left")
				}
				l := v.items[:k]
				v.items = v.items[k:]
				v.more++
				v.send(x, true, l)
			case "recv":
				if v.more < maxMore && x.Choose("recv-more", 2) == 1 {
					v.more++
					v.send(x, true, nil)
					return
				}
				v.send(x, false, nil)
			case "done":
				if v.more >= 0 {
					v.send(x, x.Choose("after-done", 2) == 1, fdo.Mandatory())
				}
				rp, err := v.t.Done()
				x.Step("%s: 70 -> %s %v", v.name, rp, err)
				if err != nil {
					x.Fail("done-refused", "correct 70 refused: %v", err)
				}
				v.ph = "end"
				x.Outcome(fmt.Sprintf("delivered %d", len(v.got)))
				x.Run().Traces.Add(1)
			}
		}
		badVals := [][]byte{{}, {0xff}, fdo.Encode(fdo.Map{}), {0x19, 0x01}}
		mm := 3
		if r.Thorough {
			mm = 4
		}
		r.Explore(&hx.Space{Name: "split", MaxDev: 1, Body: func(x *hx.X) {
			cfg := configs[x.Choose("config", len(configs))]
			w, ds := setup(x, cfg)
			v := ds[0]
			v.items = fdo.Mandatory()
			n := len(v.items)
			k := x.Dev("deficiency", 1+n+n*len(badVals)+n)
			switch {
			case k == 0:
			case k <= n:
				v.log = "without " + v.items[k-1].K
				v.items = append(append([]fdo.SI{}, v.items[:k-1]...), v.items[k:]...)
				v.bad = true
			case k <= n+n*len(badVals):
				i, b := (k-1-n)%n, (k-1-n)/n
				v.log = "bad " + v.items[i].K
				v.items[i].V = badVals[b]
				v.bad = true
			default:
				i := k - 1 - n - n*len(badVals)
				// the bad item is an extra copy, after the good one
				v.log = "bad extra " + v.items[i].K
				v.items = append(v.items, fdo.SI{K: v.items[i].K, V: []byte{0xff}})
				v.bad = true
			}
			x.State(cfg + v.log)
			onboard(x, w, v)
			m := mm
			if k > 0 {
				m = 2
			}
			for v.ph != "end" {
				step(x, v, m)
			}
		}})
		r.Explore(&hx.Space{Name: "twice", Body: func(x *hx.X) {
			cfg := configs[x.Choose("config", len(configs))]
			w, ds := setup(x, cfg)
			v := ds[0]
			for i := 0; i < 2; i++ {
				v.items = fdo.Mandatory()
				onboard(x, w, v)
				stop := x.Choose("stop-after", 4) // an abandoned first session must not matter
				for n := 0; v.ph != "end" && (i == 1 || stop == 0 || n < stop); n++ {
					step(x, v, 1)
				}
			}
		}})
		r.Explore(&hx.Space{Name: "interleaved", Body: func(x *hx.X) {
			cfg := configs[x.Choose("config", len(configs))]
			sameDev := x.Choose("same-device", 2) == 1
			w, ds := setup(x, cfg)
			if sameDev {
				ds[1] = &dev{d: ds[0].d, name: "a2", want: ds[0].want}
			}
			for _, v := range ds {
				v.items = fdo.Mandatory()
				onboard(x, w, v)
			}
			for ds[0].ph != "end" || ds[1].ph != "end" {
				i := 0
				if ds[0].ph == "end" {
					i = 1
				} else if ds[1].ph != "end" {
					i = x.Choose("who", 2)
				}
				step(x, ds[i], 1)
			}
		}})
		n := 300
		if r.Thorough {
			n = 3000
		}
		r.Explore(&hx.Space{Name: "many messages", Body: func(x *hx.X) {
			cfg := configs[x.Choose("config", len(configs))]
			w, ds := setup(x, cfg)
			v := ds[0]
			v.limit = 3*n + 20
			onboard(x, w, v)
			l := fdo.Mandatory()
			// where the items are among the messages
			at := map[int][]fdo.SI{}
			switch x.Choose("items", 6) {
			case 0:
				at[n] = l
			case 1:
				at[0] = l
			case 2:
				at[n/2] = l
			case 3:
				for i, e := range l {
					at[i*n/len(l)] = append(at[i*n/len(l)], e)
				}
			case 5: // something in every message, and the rest at the end
				for i := 0; i < n; i++ {
					at[i] = []fdo.SI{{K: "devmod:modules", V: fdo.Encode(fdo.A(i, 1, fmt.Sprintf("m%d", i)))}}
				}
				at[n] = l
			case 4: // one is missing
				k := x.Choose("missing", len(l))
				v.bad, v.log = true, "without "+l[k].K
				for i, e := range l {
					if i != k {
						at[n-i] = append(at[n-i], e)
					}
				}
			}
			for i := 0; i < n; i++ {
				v.send(x, true, at[i])
			}
			v.send(x, false, at[n])
			if v.ph == "end" {
				return
			}
			if x.Choose("again", 2) == 1 {
				for i := 0; i < n && v.ph == "recv"; i++ {
					v.send(x, true, nil)
				}
			}
			for v.ph == "recv" {
				v.send(x, false, nil)
			}
			for v.ph != "end" {
				step(x, v, -1)
			}
		}})
	})
}
