// P01: the owner service answers a TO2 message with its protocol reply only at
// its place in the session and only to the proven device.
package main

import (
	"encoding/hex"
	"fmt"
	"strings"

	"verif/mc/fdo"
	"verif/mc/hx"
)

type combo struct {
	dev, owner, suite int
	kex               string
	sims              bool
}

func (c combo) String() string {
	return fmt.Sprintf("%s/%s/%s/%s/sims=%v", fdo.AlgName(c.dev), fdo.AlgName(c.owner), fdo.SuiteByID(c.suite).Name, c.kex, c.sims)
}

// st is the reference model of one session.
type st struct {
	ph     string // 61 63 65 67 69 69d 71
	got    [2]bool
	sent   int  // owner items delivered
	collec bool // mandatory items already sent
}

func (s st) String() string { return fmt.Sprintf("%s%v%d%v", s.ph, s.got, s.sent, s.collec) }

const entries = 2

type verdict int

const (
	reject verdict = iota
	accept
	dontCare
)

type msg struct {
	name string
	num  int
	// want says what the model demands in a state and which state follows.
	want func(s st, c combo) (verdict, st)
	send func(s *sess) (fdo.Resp, error)
}

type sess struct {
	w     *fdo.World
	d     *fdo.Device
	other *fdo.Device
	t     *fdo.To2
	c     combo
	rnd   fdo.SessKey
}

func never(s st, c combo) (verdict, st) { return reject, s }

func (s *sess) key() fdo.SessKey {
	if s.t.HaveKey {
		return s.t.Key
	}
	return s.rnd
}

// enc sends an encrypted message under a key of choice.
func (s *sess) enc(num int, k fdo.SessKey, tree any) (fdo.Resp, error) {
	return s.w.Send(num, s.t.Token, fdo.Encrypt(s.t.Suite, k, fdo.Encode(tree))), nil
}

func si(l []fdo.SI) []any {
	o := []any{}
	for _, e := range l {
		o = append(o, fdo.A(e.K, e.V))
	}
	return o
}

func ownerItems(c combo) int {
	if c.sims {
		return 2
	}
	return 0
}

// advance of a final 68.
func final68(s st, c combo) (verdict, st) {
	if s.ph != "67" && s.ph != "69" {
		return reject, s
	}
	n := s
	n.collec = true
	n.ph = "69"
	if s.sent < ownerItems(c) {
		n.sent++
	}
	if n.sent >= ownerItems(c) {
		n.ph = "69d"
	}
	return accept, n
}

func prove(name string, f func(s *sess) any) msg {
	return msg{name, 64, never, func(s *sess) (fdo.Resp, error) {
		if s.t.StartKex() != nil {
			return fdo.Resp{}, nil
		}
		body := f(s)
		if body == nil {
			return fdo.Resp{}, nil
		}
		return s.w.Send(64, s.t.Token, fdo.Encode(body)), nil
	}}
}

func flip(b []byte, i int) []byte {
	if len(b) != 16 {
		return fdo.RandBytes(16)
	}
	c := append([]byte{}, b...)
	c[i] ^= 1
	return c
}

func alphabet() []msg {
	ms := []msg{}
	for i := 0; i < entries; i++ {
		i := i
		ms = append(ms, msg{fmt.Sprintf("62[%d]", i), 62, func(s st, c combo) (verdict, st) {
			if s.ph != "61" && s.ph != "63" {
				return reject, s
			}
			n := s
			n.ph = "63"
			n.got[i] = true
			return accept, n
		}, func(s *sess) (fdo.Resp, error) { return s.t.Entry(i) }})
	}
	ms = append(ms,
		msg{"64", 64, func(s st, c combo) (verdict, st) {
			if s.ph != "63" {
				return reject, s
			}
			if s.got != [2]bool{true, true} {
				return dontCare, s
			}
			n := s
			n.ph = "65"
			return accept, n
		}, func(s *sess) (fdo.Resp, error) {
			// a refused repetition must not disturb the reference's own keys
			save := *s.t
			r, err := s.t.Prove()
			if !r.OK(65) || err != nil {
				*s.t = save
			}
			return r, err
		}},
		msg{"66", 66, func(s st, c combo) (verdict, st) {
			if s.ph != "65" {
				return reject, s
			}
			n := s
			n.ph = "67"
			return accept, n
		}, func(s *sess) (fdo.Resp, error) {
			if !s.t.HaveKey {
				return s.enc(66, s.rnd, fdo.A(nil, nil))
			}
			return s.t.Ready(nil)
		}},
		msg{"68more", 68, func(s st, c combo) (verdict, st) {
			if s.ph == "69d" || s.ph != "67" && s.ph != "69" {
				return reject, s
			}
			if s.sent > 0 {
				return dontCare, s
			}
			n := s
			n.ph = "69"
			return accept, n
		}, func(s *sess) (fdo.Resp, error) {
			if !s.t.HaveKey {
				return s.enc(68, s.rnd, fdo.A(true, fdo.A()))
			}
			r, _, err := s.t.Info(true, nil)
			return r, err
		}},
		msg{"68final", 68, final68, func(s *sess) (fdo.Resp, error) {
			if !s.t.HaveKey {
				return s.enc(68, s.rnd, fdo.A(false, si(fdo.Mandatory())))
			}
			r, _, err := s.t.Info(false, fdo.Mandatory())
			return r, err
		}},
		msg{"70", 70, func(s st, c combo) (verdict, st) {
			switch s.ph {
			case "69d":
				n := s
				n.ph = "71"
				return accept, n
			}
			return reject, s
		}, func(s *sess) (fdo.Resp, error) {
			if !s.t.HaveKey {
				return s.enc(70, s.rnd, fdo.A(s.t.NProveDv))
			}
			return s.t.Done()
		}},
		// a second hello opens another session and leaves this one alone
		msg{"60again", 60, func(s st, c combo) (verdict, st) { return accept, s }, func(s *sess) (fdo.Resp, error) {
			t := fdo.NewTo2(s.w, s.d, s.c.suite, s.c.kex)
			return t.Hello()
		}},
		msg{"60unknown", 60, never, func(s *sess) (fdo.Resp, error) {
			t := fdo.NewTo2(s.w, s.other, s.c.suite, s.c.kex)
			return t.Hello()
		}},
		msg{"62[num]", 62, never, func(s *sess) (fdo.Resp, error) { return s.w.Send(62, s.t.Token, fdo.Encode(fdo.A(entries))), nil }},
		msg{"62[255]", 62, never, func(s *sess) (fdo.Resp, error) { return s.w.Send(62, s.t.Token, fdo.Encode(fdo.A(255))), nil }},
		msg{"62bad", 62, never, func(s *sess) (fdo.Resp, error) { return s.w.Send(62, s.t.Token, fdo.Encode(fdo.A("x"))), nil }},
		msg{"62notoken", 62, never, func(s *sess) (fdo.Resp, error) { return s.w.Send(62, "", fdo.Encode(fdo.A(0))), nil }},
		msg{"62unknowntoken", 62, never, func(s *sess) (fdo.Resp, error) {
			return s.w.Send(62, "Bearer 00000000-0000-4000-8000-000000000000", fdo.Encode(fdo.A(0))), nil
		}},
		prove("64otherdevice", func(s *sess) any { return s.t.ProveItem(s.other.Key, s.t.NProveDv, s.d.GUID, s.t.XB(), s.setup()) }),
		prove("64noncezero", func(s *sess) any { return s.t.ProveItem(s.d.Key, make([]byte, 16), s.d.GUID, s.t.XB(), s.setup()) }),
		prove("64nonceproveov", func(s *sess) any { return s.t.ProveItem(s.d.Key, s.t.NProveOV, s.d.GUID, s.t.XB(), s.setup()) }),
		prove("64nonceother", func(s *sess) any {
			o := fdo.NewTo2(s.w, s.d, s.c.suite, s.c.kex)
			if _, err := o.Hello(); err != nil {
				panic(err)
			}
			return s.t.ProveItem(s.d.Key, o.NProveDv, s.d.GUID, s.t.XB(), s.setup())
		}),
		prove("64cakey", func(s *sess) any {
			return s.t.ProveItem(fdo.PoolKey(fdo.ES256, "ca-inter-"+fmt.Sprint(s.d.Alg, "/a")), s.t.NProveDv, s.d.GUID, s.t.XB(), s.setup())
		}),
		prove("64nosetup", func(s *sess) any { return s.t.ProveItem(s.d.Key, s.t.NProveDv, s.d.GUID, s.t.XB(), nil) }),
		prove("64badsig", func(s *sess) any {
			m := s.t.ProveItem(s.d.Key, s.t.NProveDv, s.d.GUID, s.t.XB(), s.setup())
			a := m.V.([]any)
			g := append([]byte{}, a[3].([]byte)...)
			g[len(g)-1] ^= 1
			return fdo.Tag{N: m.N, V: fdo.A(a[0], a[1], a[2], g)}
		}),
		prove("64nosig", func(s *sess) any {
			m := s.t.ProveItem(s.d.Key, s.t.NProveDv, s.d.GUID, s.t.XB(), s.setup())
			a := m.V.([]any)
			return fdo.Tag{N: m.N, V: fdo.A(a[0], a[1], a[2], []byte{})}
		}),
		prove("64badpayload", func(s *sess) any {
			m := s.t.ProveItem(s.other.Key, make([]byte, 16), s.d.GUID, s.t.XB(), s.setup())
			a := m.V.([]any)
			return fdo.Tag{N: m.N, V: fdo.A(a[0], a[1], fdo.Encode(fdo.EatPayload(s.t.NProveDv, s.d.GUID, s.t.XB())), a[3])}
		}),
		prove("64badkex", func(s *sess) any {
			if strings.HasPrefix(s.c.kex, "DH") {
				return nil // any short value is a group element
			}
			return s.t.ProveItem(s.d.Key, s.t.NProveDv, s.d.GUID, []byte{1, 2, 3}, s.setup())
		}),
	)
	for _, i := range []int{0, 7, 15} {
		i := i
		ms = append(ms,
			prove(fmt.Sprintf("64nonceflip%d", i), func(s *sess) any {
				return s.t.ProveItem(s.d.Key, flip(s.t.NProveDv, i), s.d.GUID, s.t.XB(), s.setup())
			}),
			msg{fmt.Sprintf("70nonceflip%d", i), 70, never, func(s *sess) (fdo.Resp, error) {
				return s.enc(70, s.key(), fdo.A(flip(s.t.NProveDv, i)))
			}})
	}
	if true {
		// owner key instead of device key: only meaningful for algorithms the header can carry
		ms = append(ms, prove("64ownerkey", func(s *sess) any {
			return s.t.ProveItem(s.d.V.Owner(), s.t.NProveDv, s.d.GUID, s.t.XB(), s.setup())
		}))
	}
	trees := map[int]any{66: fdo.A(nil, nil), 68: fdo.A(false, si(fdo.Mandatory()))}
	for _, n := range []int{66, 68, 70} {
		n := n
		tree := func(s *sess) any {
			if n == 70 {
				return fdo.A(s.t.NProveDv)
			}
			return trees[n]
		}
		ms = append(ms,
			msg{fmt.Sprintf("%dplain", n), n, never, func(s *sess) (fdo.Resp, error) {
				return s.w.Send(n, s.t.Token, fdo.Encode(tree(s))), nil
			}},
			msg{fmt.Sprintf("%dotherkey", n), n, never, func(s *sess) (fdo.Resp, error) { return s.enc(n, s.rnd, tree(s)) }},
			msg{fmt.Sprintf("%dzerokey", n), n, never, func(s *sess) (fdo.Resp, error) {
				return s.enc(n, fdo.SessKey{}, tree(s)) // what a session without a key would derive
			}},
			msg{fmt.Sprintf("%dtampered", n), n, never, func(s *sess) (fdo.Resp, error) {
				b := fdo.Encrypt(s.t.Suite, s.key(), fdo.Encode(tree(s)))
				b[len(b)-1] ^= 1
				return s.w.Send(n, s.t.Token, b), nil
			}},
			msg{fmt.Sprintf("%dnotoken", n), n, never, func(s *sess) (fdo.Resp, error) {
				return s.w.Send(n, "", fdo.Encrypt(s.t.Suite, s.key(), fdo.Encode(tree(s)))), nil
			}},
			msg{fmt.Sprintf("%dbad", n), n, never, func(s *sess) (fdo.Resp, error) { return s.enc(n, s.key(), fdo.A("x")) }},
		)
	}
	ms = append(ms,
		msg{"70nonceother", 70, never, func(s *sess) (fdo.Resp, error) { return s.enc(70, s.key(), fdo.A(fdo.RandBytes(16))) }},
		msg{"70noncesetup", 70, never, func(s *sess) (fdo.Resp, error) {
			n := s.t.NSetupDv
			if n == nil {
				n = fdo.RandBytes(16)
			}
			return s.enc(70, s.key(), fdo.A(n))
		}},
		msg{"70nonceproveov", 70, never, func(s *sess) (fdo.Resp, error) { return s.enc(70, s.key(), fdo.A(s.t.NProveOV)) }},
	)
	return ms
}

func (s *sess) setup() []byte { return fdo.RandBytes(16) }

// next is the message a correct device sends.
func next(s st) string {
	switch s.ph {
	case "61":
		return "62[0]"
	case "63":
		for i, g := range s.got {
			if !g {
				return fmt.Sprintf("62[%d]", i)
			}
		}
		return "64"
	case "65":
		return "66"
	case "67":
		return "68final"
	case "69":
		return "68final"
	case "69d":
		return "70"
	}
	return ""
}

func main() {
	hx.Main("P01", "every sequence of TO2 messages that departs from the correct run at most N times (each departure any message of the alphabet at any point), replayed on the real handlers against the reference session model", func(r *hx.Run) {
		alpha := alphabet()
		byName := map[string]msg{}
		for _, m := range alpha {
			byName[m.name] = m
		}
		main := combo{fdo.ES256, fdo.ES256, 1, "ECDH256", false}
		combos := []combo{
			main,
			{fdo.ES384, fdo.ES384, 3, "ECDH384", true},
			{fdo.ES256, fdo.RS256, 30, "DHKEXid14", false},
			{fdo.ES256, fdo.RS256, 32, "ASYMKEX2048", true},
			{fdo.ES384, fdo.RS384, 33, "ASYMKEX3072", false},
			{fdo.ES384, fdo.ES256, -17760704, "DHKEXid15", false},
		}
		run := func(name string, cs []combo, dev int) {
			r.Explore(&hx.Space{Name: name, MaxDev: dev, Body: func(x *hx.X) {
				c := cs[x.Choose("combo", len(cs))]
				x.Logf("%s", c)
				d := fdo.NewDevice(c.dev, c.owner, "a", entries)
				sims := ""
				if c.sims {
					sims = fmt.Sprintf(`[["%s","%s"]]`, hex.EncodeToString(d.GUID), "dG9rZW4=")
				}
				w := fdo.NewWorld(fdo.Config{NoAPI: true, Interop: c.sims, SimMap: sims})
				defer w.Close()
				d.Install(w)
				o := fdo.NewDevice(c.dev, c.owner, "b", entries)
				s := &sess{w: w, d: d, other: o, c: c, t: fdo.NewTo2(w, d, c.suite, c.kex)}
				s.rnd = fdo.SessKey{ShSe: fdo.RandBytes(32)}
				rp, err := s.t.Hello()
				x.Step("60 -> %s %v", rp, err)
				if err != nil {
					x.Fail("correct-refused:60", "%s: hello: %v", c, err)
				}
				cur := st{ph: "61"}
				for depth := 0; depth < 24; depth++ {
					x.State(fmt.Sprint(c, cur))
					nm := next(cur)
					k := x.Dev("msg", len(alpha)+1)
					if k == 0 && nm == "" {
						x.Outcome("onboarded")
						r.Traces.Add(1)
						return
					}
					m := byName[nm]
					if k > 0 {
						m = alpha[k-1]
						if m.name == nm {
							x.Prune("same as the correct step")
						}
					}
					want, nxt := m.want(cur, c)
					rp, err := m.send(s)
					x.Step("%s in %s -> %s %v", m.name, cur.ph, rp, err)
					if rp.Header == nil {
						x.Prune("message cannot be built for this combination")
					}
					if rp.Dropped() {
						x.Fail("drop:"+m.name+":"+rp.Frame, "%s: %s in phase %s dropped the connection: %s", c, m.name, cur.ph, rp)
					}
					x.Outcome(m.name + "@" + cur.ph + ":" + rp.Class())
					switch want {
					case dontCare:
						return
					case accept:
						if err != nil || !rp.OK(m.num+1) {
							kind := "correct-refused:"
							if k > 0 {
								kind = "allowed-refused:"
							}
							x.Fail(kind+m.name+"@"+cur.ph, "%s: %s in phase %s must be answered with %d but got %s (%v)", c, m.name, cur.ph, m.num+1, rp, err)
						}
						cur = nxt
					case reject:
						if rp.Status == 200 {
							x.Fail("wrongly-accepted:"+m.name+"@"+cur.ph, "%s: %s in phase %s must be refused but was answered %s", c, m.name, cur.ph, rp)
						}
						if !rp.IsErr() {
							x.Fail("no-protocol-error:"+m.name+"@"+cur.ph, "%s: %s in phase %s was refused without a protocol error: %s", c, m.name, cur.ph, rp)
						}
					}
				}
			}})
		}
		run("all-combos", combos, 1)
		if r.Thorough {
			run("deep", combos[:2], 3)
		} else {
			run("deep", combos[:1], 2)
		}
		// The other claims of the device's proof neither name another device nor another key
		r.Explore(&hx.Space{Name: "proof claims", Body: func(x *hx.X) {
			c := combos[x.Choose("combo", len(combos))]
			d, o := fdo.NewDevice(c.dev, c.owner, "a", entries), fdo.NewDevice(c.dev, c.owner, "b", 1)
			w := fdo.NewWorld(fdo.Config{NoAPI: true, Interop: true, SimMap: fmt.Sprintf(`[["%s","dG9rZW4="]]`, hex.EncodeToString(o.GUID))})
			defer w.Close()
			d.Install(w)
			if x.Choose("other installed", 2) == 0 {
				o.Install(w)
			}
			t := fdo.NewTo2(w, d, c.suite, c.kex)
			if err := t.Reach(62); err != nil {
				x.Fail("correct-refused:62", "%v", err)
			}
			if t.StartKex() != nil {
				x.Prune("message cannot be built for this combination")
			}
			ueid := fdo.Ueid(o.GUID)
			switch x.Choose("ueid", 6) {
			case 1:
				ueid = o.GUID
			case 2:
				ueid = fdo.Ueid(o.GUID[:15])
			case 3:
				ueid = []byte{}
			case 4:
				ueid = append(fdo.Ueid(d.GUID), o.GUID...)
			case 5:
				ueid = fdo.Ueid(d.GUID)
			}
			pl := fdo.EatPayload(t.NProveDv, d.GUID, t.XB())
			for i := range pl {
				if k, _ := fdo.ToInt(pl[i].K); k == 256 {
					pl[i].V = ueid
				}
			}
			t.NSetupDv = fdo.RandBytes(16)
			un := fdo.Map{{-259, t.NSetupDv}}
			switch x.Choose("unprotected", 3) {
			case 1: // the keys of another owner
				un = append(un, fdo.KV{K: 257, V: o.V.Owner().Pub()})
			case 2: // another nonce
				un = append(un, fdo.KV{K: 256, V: fdo.RandBytes(16)})
			}
			rp := w.Send(64, t.Token, fdo.Encode(d.Key.Sign1(un, fdo.Encode(pl))))
			x.State(fmt.Sprint(c, ueid, un))
			x.Step("64 -> %s", rp)
			x.Outcome("claims:" + rp.Class())
			if rp.Dropped() {
				x.Fail("drop:64:"+rp.Frame, "64 with UEID %x: %s", ueid, rp)
			}
			if !rp.OK(65) { // may be refused, and then changes nothing
				if !rp.IsErr() {
					x.Fail("no-protocol-error:64ueid", "%s", rp)
				}
				if _, err := t.Prove(); err != nil {
					x.Fail("correct-refused:64", "after a refused 64 the correct one fails: %v", err)
				}
			} else if err := t.Take65(rp.Body); err != nil {
				x.Fail("wrong-65", "64 with UEID %x is answered for something else than the session's device: %v", ueid, err)
			}
			if _, err := t.Ready(nil); err != nil {
				x.Fail("correct-refused:66", "%v", err)
			}
			for i, l := 0, fdo.Mandatory(); i < 4; i++ {
				rp, in, err := t.Info(false, l)
				if err != nil || len(in.SI) > 0 {
					x.Fail("wrong-69", "%s %v %v", rp, in, err)
				}
				if l = nil; in.Done {
					break
				}
			}
			if _, err := t.Done(); err != nil {
				x.Fail("correct-refused:70", "%v", err)
			}
		}})
	})
}
