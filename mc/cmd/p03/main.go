// P03: the rendezvous service stores a redirect blob exactly for valid owner claims.
package main

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"github.com/dgraph-io/badger/v4"

	"verif/mc/fdo"
	"verif/mc/hx"
)

const month = 30 * 24 * 3600

// released asks the rendezvous service for the device's blob as the device would.
func released(x *hx.X, w *fdo.World, d *fdo.Device) []byte {
	t := &fdo.To1{W: w}
	r := t.Hello(d.GUID, d.Alg)
	if !r.OK(31) {
		if !r.IsErr() {
			x.Fail("probe-noerr", "30 refused without a protocol error: %s", r)
		}
		return nil
	}
	p := t.Prove(d)
	if !p.OK(33) {
		x.Fail("probe-refused", "the device's own proof was refused: %s", p)
	}
	return p.Body
}

// expiry finds the stored record holding the blob and returns its expiry.
func expiry(w *fdo.World, blob []byte) (exp uint64, found bool) {
	w.DB.View(func(t *badger.Txn) error {
		it := t.NewIterator(badger.DefaultIteratorOptions)
		defer it.Close()
		for it.Rewind(); it.Valid(); it.Next() {
			v, _ := it.Item().ValueCopy(nil)
			if bytes.Contains(v, blob) {
				exp, found = it.Item().ExpiresAt(), true
			}
		}
		return nil
	})
	return
}

type rig struct {
	w    *fdo.World
	d    *fdo.Device
	t    *fdo.To0
	blob []byte // what is stored for the device
}

func newRig(x *hx.X, alg, entries int, prior bool) *rig {
	g := &rig{w: fdo.NewWorld(fdo.Config{NoAPI: true}), d: fdo.NewDevice(fdo.ES256, alg, "a", entries)}
	x.Cleanup(g.w.Close)
	if prior {
		t := &fdo.To0{W: g.w}
		t.Hello()
		r, b := t.Register(g.d, 1000, "prior.verif.test")
		if !r.OK(23) {
			x.Fail("prior-refused", "valid registration refused: %s", r)
		}
		g.blob = b
	}
	g.t = &fdo.To0{W: g.w}
	if r := g.t.Hello(); !r.OK(21) {
		x.Fail("hello-refused", "20 refused: %s", r)
	}
	return g
}

type want int

const (
	yes want = iota
	no
	either
)

// send posts a registration and checks the verdict and what is stored afterwards.
func (g *rig) send(x *hx.X, body, newBlob []byte, w want, wait int64, key, what string) {
	before := time.Now().Unix()
	r := g.w.Send(22, g.t.Token, body)
	after := time.Now().Unix()
	x.Step("%s -> %s", what, r)
	if r.Dropped() {
		x.Fail("drop:"+r.Frame, "%s: dropped: %s", what, r)
	}
	x.Outcome(strings.SplitN(key, ":", 2)[0] + ":" + r.Class())
	if r.Status == 200 {
		if w == no {
			x.Fail("accepted:"+key, "%s: an invalid registration was accepted: %s", what, r)
		}
		if !r.OK(23) {
			x.Fail("bad-23:"+key, "%s: answered 200 but not with 23: %s", what, r)
		}
		if w == either {
			return
		}
		granted := wait
		if granted > month {
			granted = month
		}
		v, err := fdo.Decode(r.Body)
		a, _ := v.([]any)
		if err != nil || len(a) != 1 {
			x.Fail("bad-23:shape", "%s: 23 body %x", what, r.Body)
		}
		if n, ok := fdo.ToInt(a[0]); !ok || n != granted {
			x.Fail("granted", "%s: granted %v seconds, want %d", what, a[0], granted)
		}
		if granted > 0 {
			exp, ok := expiry(g.w, newBlob)
			if !ok {
				x.Fail("not-stored", "%s: accepted but not stored verbatim", what)
			}
			if exp < uint64(before+granted) || exp > uint64(after+granted) {
				x.Fail("lifetime", "%s: stored until %d, want %d..%d", what, exp, before+granted, after+granted)
			}
			if granted < 2 {
				return
			}
			if b := released(x, g.w, g.d); !bytes.Equal(b, newBlob) {
				x.Fail("not-released", "%s: accepted registration is not what is released (%d bytes)", what, len(b))
			}
		} else if exp, ok := expiry(g.w, newBlob); ok && (exp == 0 || exp > uint64(after)) {
			x.Fail("lifetime", "%s: zero seconds granted but stored until %d", what, exp)
		}
		return
	}
	if w == yes {
		x.Fail("refused:"+key, "%s: a valid registration was refused: %s", what, r)
	}
	if !r.IsErr() {
		x.Fail("noerr:"+strings.SplitN(key, ":", 2)[0], "%s: refused without a protocol error: %s", what, r)
	}
	if b := released(x, g.w, g.d); !bytes.Equal(b, g.blob) {
		x.Fail("disturbed:"+key, "%s: refused, but what is released changed (%d bytes, had %d)", what, len(b), len(g.blob))
	}
}

// resign builds a registration whose parts are all consistent except for what the caller changed.
func resign(voucher, nonce, wait any, addrs any, hash func([]byte) any, by *fdo.Key) (msg, blob []byte) {
	to0d := fdo.Encode(fdo.A(voucher, wait, nonce))
	s := by.Sign1(nil, fdo.Encode(fdo.A(addrs, hash(to0d))))
	return fdo.Encode(fdo.A(to0d, s)), fdo.Encode(s)
}

func flip(b []byte, i int) []byte {
	c := append([]byte{}, b...)
	c[i] ^= 1
	return c
}

// many is a list of addresses.
func many(n int) (l []any) {
	for i := 0; i < n; i++ {
		l = append(l, fdo.A([]byte{192, 0, 2, byte(i)}, fmt.Sprintf("n%d.verif.test", i), i+1, 1+i%6))
	}
	return
}

var algs = []int{fdo.ES256, fdo.ES384, fdo.RS256, fdo.RS384}

func main() {
	hx.Main("P03", "every single-node mutation of the registration for every owner key type; every wrongly made but correctly signed registration; lifetimes at all boundaries; every history of registrations over two sessions, nonces and devices", func(r *hx.Run) {
		for _, alg := range algs {
			alg := alg
			// the shape of the mutant list is the same in every execution
			d0 := fdo.NewDevice(fdo.ES256, alg, "a", 1)
			t0, _ := fdo.OwnerSign(d0.V.Tree(), make([]byte, 16), 3600, fdo.A(fdo.RvAddr("owner.verif.test", 8043)), d0.V.Owner(), -16)
			n := len(fdo.Mutants(t0))
			r.Explore(&hx.Space{Name: "mutate-" + fdo.AlgName(alg), Body: func(x *hx.X) {
				k := x.Choose("mutant", n)
				g := newRig(x, alg, 1, k%2 == 0)
				tree, _ := fdo.OwnerSign(g.d.V.Tree(), g.t.Nonce, 3600, fdo.A(fdo.RvAddr("owner.verif.test", 8043)), g.d.V.Owner(), -16)
				ms := fdo.Mutants(tree)
				if k >= len(ms) {
					x.Prune("fewer mutants this time")
				}
				m := ms[k]
				if bytes.Equal(fdo.Encode(m.V), fdo.Encode(tree)) {
					x.Prune("identical")
				}
				w := no
				switch {
				case strings.HasPrefix(m.Path, "/1#/1"): // unprotected header of the blob
					w = either
				case !strings.Contains(m.Path, "<") && (m.Kind == "type:tag" || m.Path == "/1" && (m.Kind == "untag" || m.Kind == "retag")):
					w = either
				}
				x.State(m.Path + m.Kind)
				g.send(x, fdo.Encode(m.V), nil, w, 0, "mutant:"+m.Path+":"+m.Kind, fmt.Sprintf("%s: node %s %s", fdo.AlgName(alg), m.Path, m.Kind))
			}})
		}
		r.Explore(&hx.Space{Name: "claims", Body: func(x *hx.X) {
			alg := algs[x.Choose("alg", 4)]
			n := 1 + x.Choose("entries", 3)
			g := newRig(x, alg, n, x.Choose("prior", 2) == 1)
			v := g.d.V
			voucher := any(v.Tree())
			nonce, wait := any(g.t.Nonce), any(3600)
			addrs := any(fdo.A(fdo.RvAddr("new.verif.test", 8043)))
			hash := func(b []byte) any { return fdo.Hash(-16, b) }
			by := v.Owner()
			w := no
			other := fdo.NewDevice(fdo.ES256, alg, "b", n)
			second := &fdo.To0{W: g.w}
			second.Hello()
			setv := func(i int, e any) {
				c := append([]any{}, v.Tree()...)
				c[i] = e
				voucher = c
			}
			ip4, ip6 := []byte{192, 0, 2, 1}, bytes.Repeat([]byte{0x20}, 16)
			type edit struct {
				name string
				f    func()
			}
			edits := []edit{
				{"valid", func() { w = yes }},
				{"hash384", func() { hash = func(b []byte) any { return fdo.Hash(-43, b) }; w = yes }},
				{"addr-ip4", func() { addrs = fdo.A(fdo.A(ip4, nil, 80, 3)); w = yes }},
				{"addr-ip6", func() { addrs = fdo.A(fdo.A(ip6, nil, 80, 3)); w = yes }},
				{"addr-both", func() { addrs = fdo.A(fdo.A(ip4, "x.verif.test", 80, 3)); w = yes }},
				{"addr-several", func() {
					addrs = fdo.A(fdo.A(ip4, "x.verif.test", 80, 3), fdo.RvAddr("y.verif.test", 1), fdo.A(ip6, nil, 65535, 5))
					w = yes
				}},
				{"addr-neither", func() { addrs = fdo.A(fdo.A(nil, nil, 80, 3)) }},
				{"addr-neither-last", func() { addrs = fdo.A(fdo.RvAddr("y.verif.test", 1), fdo.A(nil, nil, 80, 3)) }},
				{"addr-neither-first", func() { addrs = fdo.A(fdo.A(nil, nil, 80, 3), fdo.RvAddr("y.verif.test", 1)) }},
				{"addr-neither-middle", func() {
					addrs = fdo.A(fdo.RvAddr("y.verif.test", 1), fdo.A(nil, nil, 80, 3), fdo.A(ip4, nil, 80, 3))
				}},
				{"addr-not-a-list", func() { addrs = "x" }},
				{"addr-many", func() { addrs = many(200); w = yes }},
				{"addr-many-neither-last", func() { addrs = append(many(40), fdo.A(nil, nil, 80, 3)) }},
				{"addr-many-neither-among", func() { l := many(40); l[23] = fdo.A(nil, nil, 80, 3); addrs = l }},
				{"addr-dns-long", func() { addrs = fdo.A(fdo.RvAddr(strings.Repeat("long.", 300)+"test", 1)); w = yes }},
				{"addr-dns-utf8", func() { addrs = fdo.A(fdo.RvAddr("\u00fc\u4e16.verif.test", 1)); w = yes }},
				{"addr-port-0", func() { addrs = fdo.A(fdo.A(ip4, nil, 0, 3)); w = either }},
				{"addr-port-65535", func() { addrs = fdo.A(fdo.A(nil, "x.verif.test", 65535, 1)); w = yes }},
				{"addr-port-65536", func() { addrs = fdo.A(fdo.A(nil, "x.verif.test", 65536, 1)); w = either }},
				{"addr-protocols", func() {
					l := fdo.A()
					for p := 1; p <= 6; p++ {
						l = append(l, fdo.A(ip4, "x.verif.test", 80, p))
					}
					addrs, w = l, yes
				}},
				{"addr-short", func() { addrs = fdo.A(fdo.A(ip4, nil)) }},
				{"nonce-other-session", func() { nonce = second.Nonce }},
				{"nonce-zero", func() { nonce = make([]byte, 16) }},
				{"nonce-first-byte", func() { nonce = flip(g.t.Nonce, 0) }},
				{"nonce-last-byte", func() { nonce = flip(g.t.Nonce, 15) }},
				{"nonce-empty", func() { nonce = []byte{} }},
				{"nonce-null", func() { nonce = nil }},
				{"token-other-session", func() { g.t.Token = second.Token }},
				{"token-unknown", func() { g.t.Token = "Bearer 00000000-0000-4000-8000-000000000000" }},
				{"token-to1", func() {
					t := &fdo.To0{W: g.w}
					t.Hello()
					t.Register(other, 1000, "o.verif.test")
					t1 := &fdo.To1{W: g.w}
					t1.Hello(other.GUID, other.Alg)
					g.t.Token, nonce = t1.Token, t1.Nonce
				}},
				{"signer-stranger", func() { by = fdo.PoolKey(alg, "stranger") }},
				{"signer-maker", func() { by = v.Spec.Mfg }},
				{"signer-device", func() { by = g.d.Key }},
				{"signer-other-owner", func() { by = other.V.Owner() }},
				{"hash-first-byte", func() {
					hash = func(b []byte) any { return fdo.A(-16, flip(fdo.RawHash(-16, b), 0)) }
				}},
				{"hash-last-byte", func() {
					hash = func(b []byte) any { return fdo.A(-16, flip(fdo.RawHash(-16, b), 31)) }
				}},
				{"hash-empty", func() { hash = func(b []byte) any { return fdo.A(-16, []byte{}) } }},
				{"hash-cut", func() { hash = func(b []byte) any { return fdo.A(-16, fdo.RawHash(-16, b)[:16]) } }},
				{"hash-type-unknown", func() { hash = func(b []byte) any { return fdo.A(42, fdo.RawHash(-16, b)) } }},
				{"hash-null", func() { hash = func(b []byte) any { return nil } }},
				{"hash-of-voucher", func() { hash = func(b []byte) any { return fdo.Hash(-16, fdo.Encode(voucher)) } }},
				{"voucher-other-device", func() { voucher = other.V.Tree() }},
				{"voucher-header-of-other", func() { setv(1, other.V.Header) }},
				{"voucher-hmac-of-other", func() { setv(2, other.V.Hmac) }},
				{"voucher-chain-of-other", func() { setv(3, any(other.V.Spec.Dev.ChainAny())) }},
				{"voucher-entries-of-other", func() { setv(4, other.V.Tree()[4]) }},
				{"voucher-no-entries", func() { setv(4, fdo.A()); by = v.Spec.Mfg }},
				{"voucher-null", func() { voucher = nil }},
				{"voucher-self-made-entry", func() {
					thief := fdo.PoolKey(alg, "stranger")
					x := *v
					x.Spec.Owners = append(append([]*fdo.Key{}, v.Spec.Owners...), thief)
					e := append([]fdo.Tag{}, v.Entries...)
					x.Entries = e
					x.Entries = append(e, thief.Sign1(nil, fdo.Encode(x.EntryPayload(len(e)))))
					voucher, by = x.Tree(), thief
				}},
				{"voucher-extended-by-owner", func() {
					next := fdo.PoolKey(alg, "next-owner")
					x := *v
					x.Spec.Owners = append(append([]*fdo.Key{}, v.Spec.Owners...), next)
					e := append([]fdo.Tag{}, v.Entries...)
					x.Entries = e
					x.Entries = append(e, v.Owner().Sign1(nil, fdo.Encode(x.EntryPayload(len(e)))))
					voucher, by = x.Tree(), next
					w = yes
				}},
				{"wait-null", func() { wait = nil; w = either }},
				{"wait-negative", func() { wait = -1 }},
				{"wait-2^32", func() { wait = int64(1) << 32 }},
				{"wait-text", func() { wait = "60" }},
			}
			if n > 1 {
				edits = append(edits,
					edit{"signer-previous-owner", func() { by = v.Spec.Owners[n-2] }},
					edit{"voucher-cut", func() { setv(4, v.Tree()[4].([]any)[:n-1]) }},
					edit{"voucher-cut-by-that-owner", func() { setv(4, v.Tree()[4].([]any)[:n-1]); by = v.Spec.Owners[n-2]; w = yes }},
					edit{"voucher-swapped", func() {
						e := append([]any{}, v.Tree()[4].([]any)...)
						e[0], e[1] = e[1], e[0]
						setv(4, e)
					}},
					edit{"voucher-doubled", func() { e := v.Tree()[4].([]any); setv(4, append(append([]any{}, e...), e[n-1])) }},
				)
			}
			e := edits[x.Choose("edit", len(edits))]
			e.f()
			x.State(fmt.Sprint(alg, n, e.name))
			msg, blob := resign(voucher, nonce, wait, addrs, hash, by)
			g.send(x, msg, blob, w, 3600, "claim:"+e.name, fmt.Sprintf("%s, %d entries: %s", fdo.AlgName(alg), n, e.name))
		}})
		r.Explore(&hx.Space{Name: "lifetime", Body: func(x *hx.X) {
			alg := algs[x.Choose("alg", 4)]
			waits := []int64{0, 1, 2, 59, 60, 3600, 86400, month - 1, month, month + 1, 2 * month, 1<<31 - 1, 1 << 31, 1<<32 - 1}
			wt := waits[x.Choose("wait", len(waits))]
			g := newRig(x, alg, 1, x.Choose("prior", 2) == 1)
			msg, blob := resign(g.d.V.Tree(), g.t.Nonce, wt, fdo.A(fdo.RvAddr("new.verif.test", 8043)), func(b []byte) any { return fdo.Hash(-16, b) }, g.d.V.Owner())
			x.State(fmt.Sprint(alg, wt))
			g.send(x, msg, blob, yes, wt, fmt.Sprintf("wait:%d", wt), fmt.Sprintf("%s: wait %d", fdo.AlgName(alg), wt))
		}})
		total := 30
		if r.Thorough {
			total = 120
		}
		r.Explore(&hx.Space{Name: "many devices", Body: func(x *hx.X) {
			// sessions are opened first and used in some order
			alg := algs[x.Choose("alg", 4)]
			order := x.Choose("order", 4)
			twice := x.Choose("each registers twice", 2) == 1
			w := fdo.NewWorld(fdo.Config{NoAPI: true})
			x.Cleanup(w.Close)
			var devs []*fdo.Device
			var slots []*fdo.To0
			for i := 0; i < total; i++ {
				devs = append(devs, fdo.NewDevice(fdo.ES256, alg, fmt.Sprintf("many %d", i%4), 1+i%3))
				s := &fdo.To0{W: w}
				s.Hello()
				slots = append(slots, s)
			}
			stored := make([][]byte, total)
			turn := func(round int) {
				for k := 0; k < total; k++ {
					i := []int{k, total - 1 - k, (k * 7) % total, k ^ 1}[order]
					msg, blob := resign(devs[i].V.Tree(), slots[i].Nonce, 1000+i, many(1+(i*round*5)%17), func(b []byte) any { return fdo.Hash(-16, b) }, devs[i].V.Owner())
					if rp := w.Send(22, slots[i].Token, msg); !rp.OK(23) {
						x.Fail("many-refused", "the valid registration of device %d of %d was refused: %s", i, total, rp)
					}
					stored[i] = blob
				}
			}
			turn(1)
			if twice {
				for _, s := range slots {
					s.Hello()
				}
				turn(2)
			}
			for i, d := range devs {
				if b := released(x, w, d); !bytes.Equal(b, stored[i]) {
					x.Fail("many-stored", "device %d of %d gets %d bytes, its last accepted registration has %d", i, total, len(b), len(stored[i]))
				}
			}
			x.State(fmt.Sprint(alg, order, twice))
			x.Outcome("end")
		}})
		depth := 4
		if r.Thorough {
			depth = 5
		}
		r.Explore(&hx.Space{Name: "history", Body: func(x *hx.X) {
			w := fdo.NewWorld(fdo.Config{NoAPI: true})
			x.Cleanup(w.Close)
			devs := []*fdo.Device{fdo.NewDevice(fdo.ES256, fdo.ES256, "a", 1), fdo.NewDevice(fdo.ES256, fdo.ES256, "b", 2)}
			slots := []*fdo.To0{{W: w}, {W: w}}
			for _, s := range slots {
				s.Hello()
			}
			var stored [2][]byte
			var used [2]bool
			hist := ""
			for i := 0; i < depth; i++ {
				k := x.Choose("op", 12)
				switch {
				case k < 2:
					slots[k].Hello()
					used[k] = false
					hist += fmt.Sprintf("H%d ", k)
				case k < 10:
					s, d, nz := (k-2)&1, (k-2)>>1&1, (k-2)>>2&1
					msg, blob := resign(devs[d].V.Tree(), slots[s^nz].Nonce, 1000, fdo.A(fdo.RvAddr(fmt.Sprintf("n%d.verif.test", i), 8043)),
						func(b []byte) any { return fdo.Hash(-16, b) }, devs[d].V.Owner())
					rp := w.Send(22, slots[s].Token, msg)
					hist += fmt.Sprintf("R(slot%d,dev%d,nonce%d)=%s ", s, d, s^nz, rp.Class())
					x.Step("register slot %d device %d nonce of %d -> %s", s, d, s^nz, rp)
					ok := rp.OK(23)
					if nz == 1 && ok {
						x.Fail("history-foreign-nonce", "%s: registration with the other session's nonce accepted", hist)
					}
					if nz == 0 && !ok && !used[s] {
						x.Fail("history-refused", "%s: valid registration refused: %s", hist, rp)
					}
					if !ok && !rp.IsErr() {
						x.Fail("history-noerr", "%s: %s", hist, rp)
					}
					if ok {
						stored[d], used[s] = blob, true
					}
				default: // signed by the wrong owner
					d := k - 10
					msg, _ := resign(devs[d].V.Tree(), slots[0].Nonce, 1000, fdo.A(fdo.RvAddr("evil.verif.test", 8043)),
						func(b []byte) any { return fdo.Hash(-16, b) }, devs[1-d].V.Owner())
					rp := w.Send(22, slots[0].Token, msg)
					hist += fmt.Sprintf("X%d=%s ", d, rp.Class())
					if !rp.IsErr() {
						x.Fail("history-wrong-owner", "%s: registration by the other owner: %s", hist, rp)
					}
				}
			}
			x.State(hist)
			for d, v := range devs {
				if b := released(x, w, v); !bytes.Equal(b, stored[d]) {
					x.Fail("history-stored", "%s: device %d gets %d bytes, last accepted has %d", hist, d, len(b), len(stored[d]))
				}
			}
		}})
	})
}
