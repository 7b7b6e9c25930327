// P05: protocol sessions do not influence each other.
package main

import (
	"bytes"
	"encoding/hex"
	"fmt"

	"verif/mc/fdo"
	"verif/mc/hx"
)

// script is one session driven step by step; every step checks its answer.
type script struct {
	kind  string // to0 to1 to2
	d     *fdo.Device
	w     *fdo.World
	g     *group
	pos   int
	t0    *fdo.To0
	t1    *fdo.To1
	t2    *fdo.To2
	want  []fdo.SI
	got   []fdo.SI
	steps int
}

// group is what sessions legitimately share: the registrations.
type group struct{ stored map[string][]byte }

var suites = []int{1, 30}
var kexs = []string{"ECDH256", "DHKEXid14"}

func mk(kind string, d *fdo.Device, w *fdo.World, g *group, i int, sims []fdo.SI) *script {
	s := &script{kind: kind, d: d, w: w, g: g, want: sims}
	switch kind {
	case "to0":
		s.t0, s.steps = &fdo.To0{W: w}, 2
	case "to1":
		s.t1, s.steps = &fdo.To1{W: w}, 2
	default:
		s.t2 = fdo.NewTo2(w, d, suites[i], kexs[i])
		s.steps = 5 + len(d.V.Entries)
		if n := len(sims); n > 1 {
			s.steps += n - 1
		}
	}
	return s
}

func (s *script) token() string {
	switch s.kind {
	case "to0":
		return s.t0.Token
	case "to1":
		return s.t1.Token
	}
	return s.t2.Token
}

func (s *script) step() error {
	p := s.pos
	s.pos++
	switch s.kind {
	case "to0":
		if p == 0 {
			if r := s.t0.Hello(); !r.OK(21) {
				return fmt.Errorf("20: %s", r)
			}
			return nil
		}
		r, b := s.t0.Register(s.d, 1000, fmt.Sprintf("p%d.verif.test", len(s.g.stored)))
		if !r.OK(23) {
			return fmt.Errorf("22: %s", r)
		}
		s.g.stored[string(s.d.GUID)] = b
		return nil
	case "to1":
		if p == 0 {
			if r := s.t1.Hello(s.d.GUID, s.d.Alg); !r.OK(31) {
				return fmt.Errorf("30: %s", r)
			}
			return nil
		}
		r := s.t1.Prove(s.d)
		if !r.OK(33) {
			return fmt.Errorf("32: %s", r)
		}
		if !bytes.Equal(r.Body, s.g.stored[string(s.d.GUID)]) {
			return fmt.Errorf("32: released blob is not this device's latest registration")
		}
		return nil
	}
	n := len(s.d.V.Entries)
	var err error
	switch {
	case p == 0:
		_, err = s.t2.Hello()
	case p <= n:
		_, err = s.t2.Entry(p - 1)
	case p == n+1:
		_, err = s.t2.Prove()
	case p == n+2:
		_, err = s.t2.Ready(nil)
	case p == s.steps-1:
		_, err = s.t2.Done()
	default:
		l := []fdo.SI(nil)
		if p == n+3 {
			l = fdo.Mandatory()
		}
		var inf fdo.Info69
		_, inf, err = s.t2.Info(false, l)
		s.got = append(s.got, inf.SI...)
		if err == nil && inf.Done != (p == s.steps-2) {
			err = fmt.Errorf("done flag %v at the wrong message", inf.Done)
		}
		if err == nil && inf.Done && fmt.Sprint(s.got) != fmt.Sprint(s.want) {
			err = fmt.Errorf("owner items %v, want %v", s.got, s.want)
		}
	}
	return err
}

var kinds = []string{"to0", "to1", "to2"}

type world struct {
	w  *fdo.World
	g  *group
	ss []*script
}

func build(x *hx.X, ka, kb string, same bool, entries int) *world {
	a, b := fdo.NewDevice(fdo.ES256, fdo.ES256, "a", entries), fdo.NewDevice(fdo.ES256, fdo.RS256, "b", entries)
	items := func(tok string) []fdo.SI {
		return []fdo.SI{{K: "fido_alliance:active", V: fdo.Encode(true)}, {K: "fido_alliance:dev_conformance", V: []byte(tok)}}
	}
	w := fdo.NewWorld(fdo.Config{NoAPI: true, Interop: true, SimMap: fmt.Sprintf(`[["%s","tok-a"]]`, hex.EncodeToString(a.GUID))})
	x.Cleanup(w.Close)
	g := &group{map[string][]byte{}}
	for _, d := range []*fdo.Device{a, b} {
		d.Install(w)
		s := mk("to0", d, w, g, 0, nil)
		for i := 0; i < 2; i++ {
			if err := s.step(); err != nil {
				x.Fail("setup", "%v", err)
			}
		}
	}
	db, itb := b, []fdo.SI(nil)
	if same {
		db, itb = a, items("tok-a")
	}
	return &world{w, g, []*script{mk(ka, a, w, g, 0, items("tok-a")), mk(kb, db, w, g, 1, itb)}}
}

// message builds session s's message n with everything s knows (or random stand-ins).
func (s *script) message(n int) []byte {
	rnd := func(b []byte) []byte {
		if b == nil {
			return fdo.RandBytes(16)
		}
		return b
	}
	var nonce []byte
	switch s.kind {
	case "to0":
		nonce = s.t0.Nonce
	case "to1":
		nonce = s.t1.Nonce
	default:
		nonce = s.t2.NProveDv
	}
	nonce = rnd(nonce)
	t2 := s.t2
	if t2 == nil {
		t2 = fdo.NewTo2(s.w, s.d, 1, "ECDH256")
	}
	key := t2.Key
	if !t2.HaveKey {
		key = fdo.SessKey{ShSe: fdo.RandBytes(32)}
	}
	switch n {
	case 20:
		return fdo.Encode(fdo.A())
	case 22:
		tree, _ := fdo.OwnerSign(s.d.V.Tree(), nonce, 1000, fdo.A(fdo.RvAddr("x.verif.test", 1)), s.d.V.Owner(), -16)
		return fdo.Encode(tree)
	case 30:
		return fdo.Encode(fdo.A(s.d.GUID, fdo.A(s.d.Alg, []byte{})))
	case 32:
		return fdo.Encode(s.d.Key.Sign1(nil, fdo.Encode(fdo.EatPayload(nonce, s.d.GUID, nil))))
	case 60:
		return fdo.Encode(fdo.NewTo2(s.w, s.d, 1, "ECDH256").HelloBody())
	case 62:
		return fdo.Encode(fdo.A(0))
	case 64:
		k := fdo.NewTo2(s.w, s.d, t2.Suite.ID, t2.KexName)
		if err := k.StartKex(); err != nil {
			panic(err)
		}
		return fdo.Encode(s.d.Key.Sign1(fdo.Map{{K: -259, V: fdo.RandBytes(16)}}, fdo.Encode(fdo.EatPayload(nonce, s.d.GUID, k.XB()))))
	case 66:
		return fdo.Encrypt(t2.Suite, key, fdo.Encode(fdo.A(nil, nil)))
	case 68:
		l := []any{}
		for _, e := range fdo.Mandatory() {
			l = append(l, fdo.A(e.K, e.V))
		}
		return fdo.Encrypt(t2.Suite, key, fdo.Encode(fdo.A(false, l)))
	}
	return fdo.Encrypt(t2.Suite, key, fdo.Encode(fdo.A(nonce)))
}

func main() {
	hx.Main("P05", "every interleaving of two sessions over all protocol pairs and same/different devices; every message of one session under the other's token at every pair of stages, then both sessions completed", func(r *hx.Run) {
		entries := 1
		if r.Thorough {
			entries = 2
		}
		r.Explore(&hx.Space{Name: "interleave", Body: func(x *hx.X) {
			ka, kb := kinds[x.Choose("first", 3)], kinds[x.Choose("second", 3)]
			same := x.Choose("same-device", 2) == 1
			wd := build(x, ka, kb, same, entries)
			order := ""
			for {
				var who []int
				for i, s := range wd.ss {
					if s.pos < s.steps {
						who = append(who, i)
					}
				}
				if len(who) == 0 {
					break
				}
				i := who[x.Choose("who", len(who))]
				s := wd.ss[i]
				order += string(rune('A' + i))
				err := s.step()
				x.Step("%s step %d: %v", s.kind, s.pos, err)
				if err != nil {
					x.Fail(fmt.Sprintf("disturbed:%s/%s/same=%v:step%d", ka, kb, same, s.pos), "%s with %s (same device %v), order %s: %v", ka, kb, same, order, err)
				}
			}
			x.State(ka + kb + fmt.Sprint(same) + order)
			x.Outcome("both completed")
			r.Traces.Add(1)
		}})
		r.Explore(&hx.Space{Name: "three-way", Body: func(x *hx.X) {
			// a registration, a rendezvous and an onboarding of one device at the same time
			wd := build(x, "to2", "to1", true, 1)
			wd.ss = append(wd.ss, mk("to0", wd.ss[0].d, wd.w, wd.g, 0, nil))
			order := ""
			for {
				var who []int
				for i, s := range wd.ss {
					if s.pos < s.steps {
						who = append(who, i)
					}
				}
				if len(who) == 0 {
					break
				}
				i := who[x.Choose("who", len(who))]
				order += string(rune('A' + i))
				if err := wd.ss[i].step(); err != nil {
					x.Fail(fmt.Sprintf("disturbed3:%s:step%d", wd.ss[i].kind, wd.ss[i].pos), "order %s: %v", order, err)
				}
				x.Step("%s", order)
			}
			x.State(order)
		}})
		many := 12
		if r.Thorough {
			many = 48
		}
		r.Explore(&hx.Space{Name: "many sessions", Body: func(x *hx.X) {
			wd := build(x, "to2", "to2", x.Choose("same device", 2) == 1, 1)
			for i := 2; i < many; i++ {
				var sims []fdo.SI
				d := wd.ss[i%2].d
				if d == wd.ss[0].d {
					sims = wd.ss[0].want
				}
				wd.ss = append(wd.ss, mk(kinds[i%3], d, wd.w, wd.g, i%2, sims))
			}
			n := len(wd.ss)
			order := x.Choose("order", 6)
			stop := x.Choose("opened before", 3) // messages of every session before any is completed
			one := func(i int) {
				s := wd.ss[i]
				if s.pos >= s.steps {
					return
				}
				if err := s.step(); err != nil {
					x.Fail(fmt.Sprintf("disturbed-many:%s:step%d", s.kind, s.pos), "session %d (%s) of %d, order %d: %v", i, s.kind, n, order, err)
				}
			}
			at := func(k int) int { return []int{k, n - 1 - k, (k * 5) % n, k, n - 1 - k, k ^ 1}[order] }
			for k := 0; k < stop*n; k++ {
				one(at(k % n))
			}
			for k := 0; k < 12*n; k++ {
				if order < 3 {
					one(at(k % n)) // all advance together
				} else {
					one(at(k / 12)) // one after the other
				}
			}
			for i, s := range wd.ss {
				if s.pos < s.steps {
					panic(fmt.Sprint("session ", i, " is not completed"))
				}
			}
			x.State(fmt.Sprint(order, stop))
			x.Outcome("all completed")
		}})
		msgs := []int{20, 22, 30, 32, 60, 62, 64, 66, 68, 70}
		r.Explore(&hx.Space{Name: "foreign-token", Body: func(x *hx.X) {
			ka, kb := kinds[x.Choose("sender", 3)], kinds[x.Choose("holder", 3)]
			same := x.Choose("same-device", 2) == 1
			wd := build(x, ka, kb, same, 1)
			a, b := wd.ss[0], wd.ss[1]
			sa := x.Choose("sender-stage", a.steps+1)
			sb := 1 + x.Choose("holder-stage", b.steps)
			n := msgs[x.Choose("msg", len(msgs))]
			run := func(s *script, to int, when string) {
				for s.pos < to {
					if err := s.step(); err != nil {
						x.Fail(fmt.Sprintf("%s:%s:msg%d:step%d", when, s.kind, n, s.pos), "%s session after message %d of %s (stage %d) under token of %s (stage %d), same device %v: %v", s.kind, n, ka, sa, kb, sb, same, err)
					}
				}
			}
			run(a, sa, "setup")
			run(b, sb, "setup")
			rp := wd.w.Send(n, b.token(), a.message(n))
			what := fmt.Sprintf("message %d of %s (stage %d) under the token of %s (stage %d), same device %v", n, ka, sa, kb, sb, same)
			x.Step("%s -> %s", what, rp)
			x.State(what)
			x.Outcome(fmt.Sprintf("%d:%s", n, rp.Class()))
			if rp.Dropped() {
				x.Fail(fmt.Sprintf("drop:%d:%s", n, rp.Frame), "%s: dropped: %s", what, rp)
			}
			ok := false
			switch n {
			case 20, 30, 60: // opens a session of its own whatever the token
				ok = rp.OK(n+1) && rp.Token() != b.token()
				if rp.Status == 200 && !ok {
					x.Fail(fmt.Sprintf("hijack:%d", n), "%s: %s token %q", what, rp, rp.Token())
				}
				if !ok && !rp.IsErr() {
					x.Fail(fmt.Sprintf("noerr:%d", n), "%s: %s", what, rp)
				}
			case 62: // entries are public: anyone may ask in an onboarding session at its place
				ok = kb == "to2" && (sb == 1 || sb == 2)
				fallthrough
			default:
				if rp.Status == 200 && !ok {
					x.Fail(fmt.Sprintf("accepted:%d:%s->%s", n, ka, kb), "%s was accepted: %s", what, rp)
				}
				if rp.Status != 200 && !rp.IsErr() {
					x.Fail(fmt.Sprintf("noerr:%d:%s", n, kb), "%s: refused without a protocol error: %s", what, rp)
				}
			}
			run(b, b.steps, "holder-disturbed")
			run(a, a.steps, "sender-disturbed")
		}})
	})
}
