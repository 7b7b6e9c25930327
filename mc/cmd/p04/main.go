// P04: the redirect blob goes only to the proven device.
package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/dgraph-io/badger/v4"

	"verif/mc/fdo"
	"verif/mc/hx"
)

// forget removes the stored registration holding the blob, as its expiry would.
func forget(w *fdo.World, blob []byte) {
	var key []byte
	w.DB.View(func(t *badger.Txn) error {
		it := t.NewIterator(badger.DefaultIteratorOptions)
		defer it.Close()
		for it.Rewind(); it.Valid(); it.Next() {
			if v, _ := it.Item().ValueCopy(nil); bytes.Contains(v, blob) {
				key = it.Item().KeyCopy(nil)
			}
		}
		return nil
	})
	if key == nil {
		panic("accepted registration is not in the store")
	}
	if err := w.DB.Update(func(t *badger.Txn) error { return t.Delete(key) }); err != nil {
		panic(err)
	}
}

func register(x *hx.X, w *fdo.World, d *fdo.Device, dns string) []byte {
	t := &fdo.To0{W: w}
	t.Hello()
	r, b := t.Register(d, 1000, dns)
	if !r.OK(23) {
		x.Fail("register-refused", "valid registration refused: %s", r)
	}
	return b
}

// leaks reports whether any part of a blob shows in an answer.
func leaks(r fdo.Resp, blobs ...[]byte) bool {
	for _, b := range blobs {
		if b == nil {
			continue
		}
		sig := b[len(b)-32:]
		if bytes.Contains(r.Body, sig) || bytes.Contains(r.Body, []byte("verif.test")) {
			return true
		}
	}
	return false
}

var devAlgs = []int{fdo.ES256, fdo.ES384}

func refuse(x *hx.X, r fdo.Resp, key, what string, blobs ...[]byte) {
	x.Step("%s -> %s", what, r)
	x.Outcome(strings.SplitN(key, ":", 2)[0] + ":" + r.Class())
	switch {
	case r.Dropped():
		x.Fail("drop:"+r.Frame, "%s: dropped: %s", what, r)
	case r.Status == 200:
		x.Fail("released:"+key, "%s: answered %s", what, r)
	case !r.IsErr():
		x.Fail("noerr:"+key, "%s: refused without a protocol error: %s", what, r)
	case leaks(r, blobs...):
		x.Fail("leak:"+key, "%s: the refusal carries the blob", what)
	}
}

func main() {
	hx.Main("P04", "every single-node mutation of the proof (as sent, and re-signed by the device); every wrong signer, nonce, session and claimed algorithm; every history of registrations, expiries, hellos and proofs over two devices and two sessions", func(r *hx.Run) {
		for _, alg := range devAlgs {
			alg := alg
			d0 := fdo.NewDevice(alg, fdo.ES256, "a", 1)
			count := len(fdo.Mutants(d0.Key.Sign1(nil, fdo.Encode(fdo.EatPayload(make([]byte, 16), d0.GUID, nil)))))
			pcount := len(fdo.Mutants(fdo.EatPayload(make([]byte, 16), d0.GUID, nil)))
			start := func(x *hx.X) (*fdo.World, *fdo.Device, *fdo.To1, []byte) {
				w := fdo.NewWorld(fdo.Config{NoAPI: true})
				x.Cleanup(w.Close)
				d := fdo.NewDevice(alg, fdo.ES256, "a", 1)
				b := register(x, w, d, "a.verif.test")
				t := &fdo.To1{W: w}
				if h := t.Hello(d.GUID, alg); !h.OK(31) {
					x.Fail("hello-refused", "30 refused: %s", h)
				}
				return w, d, t, b
			}
			r.Explore(&hx.Space{Name: "mutate-" + fdo.AlgName(alg), Body: func(x *hx.X) {
				k := x.Choose("mutant", count)
				w, d, t, blob := start(x)
				proof := d.Key.Sign1(nil, fdo.Encode(fdo.EatPayload(t.Nonce, d.GUID, nil)))
				ms := fdo.Mutants(proof)
				if k >= len(ms) {
					x.Prune("fewer mutants")
				}
				m := ms[k]
				if bytes.Equal(fdo.Encode(m.V), fdo.Encode(proof)) {
					x.Prune("identical")
				}
				x.State(m.Path + m.Kind)
				what := fmt.Sprintf("%s proof, node %s %s", fdo.AlgName(alg), m.Path, m.Kind)
				rp := w.Send(32, t.Token, fdo.Encode(m.V))
				soft := strings.HasPrefix(m.Path, "#/1") || !strings.Contains(m.Path, "<") && m.Kind == "type:tag" || m.Path == "" && (m.Kind == "untag" || m.Kind == "retag")
				if soft && rp.OK(33) && bytes.Equal(rp.Body, blob) {
					x.Outcome("unprotected node")
					return
				}
				refuse(x, rp, "mutant:"+m.Path+":"+m.Kind, what, blob)
				// the session and the registration are still good
				if p := t.Prove(d); !p.OK(33) || !bytes.Equal(p.Body, blob) {
					x.Fail("disturbed:"+m.Path+":"+m.Kind, "after %s the correct proof gets %s", what, p)
				}
			}})
			r.Explore(&hx.Space{Name: "payload-" + fdo.AlgName(alg), Body: func(x *hx.X) {
				k := x.Choose("mutant", pcount)
				w, d, t, blob := start(x)
				ms := fdo.Mutants(fdo.EatPayload(t.Nonce, d.GUID, nil))
				if k >= len(ms) {
					x.Prune("fewer mutants")
				}
				m := ms[k]
				what := fmt.Sprintf("%s correctly signed proof with node %s %s", fdo.AlgName(alg), m.Path, m.Kind)
				rp := w.Send(32, t.Token, fdo.Encode(d.Key.Sign1(nil, fdo.Encode(m.V))))
				if m.Path == "" && (m.Kind == "type:tag" || m.Kind == "mdel[256]" || m.Kind == "mdel[-257]") || strings.HasPrefix(m.Path, "{256}") || strings.HasPrefix(m.Path, "{-257}") ||
					m.Path == "{10}" && (m.Kind == "type:tag" || m.Kind == "ext1") {
					// not what ties the proof to the session: either answer, but only ever the right blob
					if rp.OK(33) && !bytes.Equal(rp.Body, blob) {
						x.Fail("wrong-blob:"+m.Path+":"+m.Kind, "%s got another blob", what)
					}
					if !rp.OK(33) {
						refuse(x, rp, "payload:"+m.Path+":"+m.Kind, what, blob)
					}
					return
				}
				x.State(m.Path + m.Kind)
				refuse(x, rp, "payload:"+m.Path+":"+m.Kind, what, blob)
			}})
		}
		r.Explore(&hx.Space{Name: "claims", Body: func(x *hx.X) {
			alg := devAlgs[x.Choose("dev", 2)]
			own := []int{fdo.ES256, fdo.ES384, fdo.RS256, fdo.RS384}[x.Choose("owner", 4)]
			w := fdo.NewWorld(fdo.Config{NoAPI: true})
			x.Cleanup(w.Close)
			d, o := fdo.NewDevice(alg, own, "a", 2), fdo.NewDevice(alg, own, "b", 1)
			blob, oblob := register(x, w, d, "a.verif.test"), register(x, w, o, "b.verif.test")
			t, t2, to := &fdo.To1{W: w}, &fdo.To1{W: w}, &fdo.To1{W: w}
			t.Hello(d.GUID, alg)
			t2.Hello(d.GUID, alg)
			to.Hello(o.GUID, alg)
			t0 := &fdo.To0{W: w}
			t0.Hello()
			d.Install(w)
			td := fdo.NewTo2(w, d, 1, "ECDH256")
			if _, err := td.Hello(); err != nil {
				x.Fail("to2-hello", "%v", err)
			}
			key, nonce, guid, token := d.Key, t.Nonce, d.GUID, t.Token
			var tree any
			edits := []struct {
				name string
				f    func()
			}{
				{"other-device-key", func() { key = o.Key }},
				{"other-device-everything-but-session", func() { key, guid = o.Key, o.GUID }},
				{"owner-key", func() { key = d.V.Owner() }},
				{"maker-key", func() { key = d.V.Spec.Mfg }},
				{"ca-key", func() { key = fdo.PoolKey(fdo.ES256, fmt.Sprintf("ca-root-%d/a", alg)) }},
				{"intermediate-key", func() { key = fdo.PoolKey(fdo.ES256, fmt.Sprintf("ca-inter-%d/a", alg)) }},
				{"stranger-key", func() { key = fdo.PoolKey(alg, "stranger") }},
				{"other-session-nonce", func() { nonce = t2.Nonce }},
				{"other-device-nonce", func() { nonce = to.Nonce }},
				{"to0-nonce", func() { nonce = t0.Nonce }},
				{"zero-nonce", func() { nonce = make([]byte, 16) }},
				{"other-session-token", func() { token = t2.Token }},
				{"other-device-token", func() { token = to.Token }},
				{"other-device-session", func() { token, nonce = to.Token, to.Nonce }},
				{"to0-token", func() { token = t0.Token }},
				{"to0-session", func() { token, nonce = t0.Token, t0.Nonce }},
				{"to0-session-zero-nonce", func() { token, nonce = t0.Token, make([]byte, 16) }},
				{"to2-token", func() { token = td.Token }},
				{"to2-session", func() { token, nonce = td.Token, td.NProveDv }},
				{"to2-session-zero-nonce", func() { token, nonce = td.Token, make([]byte, 16) }},
				{"unknown-token", func() { token = "Bearer 00000000-0000-4000-8000-000000000000" }},
				{"other-ueid", func() { guid = o.GUID }},
				{"unregistered-ueid", func() { guid = fdo.RandBytes(16) }},
				{"empty-token", func() { token = "" }},
				{"bare-token", func() { token = strings.TrimPrefix(t.Token, "Bearer ") + "x" }},
				{"replayed-voucher-entry", func() { tree = d.V.Entries[0] }},
				{"replayed-registration", func() { tree = fdo.MustDecode(blob) }},
				{"no-signature", func() {
					s := d.Key.Sign1(nil, fdo.Encode(fdo.EatPayload(nonce, guid, nil))).V.([]any)
					tree = fdo.Tag{N: 18, V: fdo.A(s[0], s[1], s[2], []byte{})}
				}},
				{"zero-signature", func() {
					s := d.Key.Sign1(nil, fdo.Encode(fdo.EatPayload(nonce, guid, nil))).V.([]any)
					tree = fdo.Tag{N: 18, V: fdo.A(s[0], s[1], s[2], make([]byte, len(s[3].([]byte))))}
				}},
			}
			e := edits[x.Choose("edit", len(edits))]
			e.f()
			if tree == nil {
				tree = key.Sign1(nil, fdo.Encode(fdo.EatPayload(nonce, guid, nil)))
			}
			x.State(fmt.Sprint(alg, own, e.name))
			if strings.HasSuffix(e.name, "-ueid") { // may be tolerated, but the device only receives its own redirect
				r := w.Send(32, token, fdo.Encode(tree))
				x.Step("%s -> %s", e.name, r)
				x.Outcome("claim:" + r.Class())
				if !r.OK(33) {
					refuse(x, r, "claim:"+e.name, e.name, blob, oblob)
				} else if !bytes.Equal(r.Body, blob) {
					x.Fail("released:claim:"+e.name, "the device is answered with another redirect than its own: %s", r)
				}
				return
			}
			refuse(x, w.Send(32, token, fdo.Encode(tree)), "claim:"+e.name, fmt.Sprintf("dev %s owner %s: %s", fdo.AlgName(alg), fdo.AlgName(own), e.name), blob, oblob)
			if p := t.Prove(d); !p.OK(33) || !bytes.Equal(p.Body, blob) {
				x.Fail("disturbed:"+e.name, "after %s the correct proof gets %s", e.name, p)
			}
		}})
		r.Explore(&hx.Space{Name: "hello", Body: func(x *hx.X) {
			// every claimed algorithm, for registered, unregistered and expired devices
			alg := devAlgs[x.Choose("dev", 2)]
			claim := []int{fdo.ES256, fdo.ES384, fdo.RS256, fdo.RS384, 90, 91, 0, 5}[x.Choose("claim", 8)]
			st := x.Choose("state", 3)
			w := fdo.NewWorld(fdo.Config{NoAPI: true})
			x.Cleanup(w.Close)
			d := fdo.NewDevice(alg, fdo.ES256, "a", 1)
			var blob []byte
			if st > 0 {
				blob = register(x, w, d, "a.verif.test")
			}
			if st == 2 {
				forget(w, blob)
			}
			t := &fdo.To1{W: w}
			h := t.Hello(d.GUID, claim)
			x.State(fmt.Sprint(alg, claim, st))
			if st != 1 {
				refuse(x, h, fmt.Sprintf("hello-unregistered:%d", st), fmt.Sprintf("hello state %d claim %d", st, claim), blob)
				return
			}
			if !h.OK(31) {
				if claim == alg {
					x.Fail("hello-refused", "30 refused: %s", h)
				}
				refuse(x, h, "hello-claim", fmt.Sprintf("hello claiming %d", claim), blob)
				return
			}
			p := t.Prove(d)
			if p.OK(33) {
				if !bytes.Equal(p.Body, blob) {
					x.Fail("wrong-blob", "device gets another blob")
				}
				return
			}
			if claim == alg {
				x.Fail("prove-refused", "32 refused: %s", p)
			}
			refuse(x, p, "prove-claim", fmt.Sprintf("device %d proving after claiming %d", alg, claim), blob)
		}})
		depth := 5
		if r.Thorough {
			depth = 7
		}
		r.Explore(&hx.Space{Name: "history", Body: func(x *hx.X) {
			w := fdo.NewWorld(fdo.Config{NoAPI: true})
			x.Cleanup(w.Close)
			devs := []*fdo.Device{fdo.NewDevice(fdo.ES256, fdo.ES256, "a", 1), fdo.NewDevice(fdo.ES256, fdo.ES256, "b", 1)}
			slots := []*fdo.To1{{W: w}, {W: w}}
			who := []int{-1, -1}
			proved := []bool{false, false}
			stored := [][]byte{nil, nil}
			hist := ""
			for i := 0; i < depth; i++ {
				var ops []int
				for k := 0; k < 16; k++ {
					switch {
					case k < 2: // register
						ops = append(ops, k)
					case k < 4: // expire
						if stored[k-2] != nil {
							ops = append(ops, k)
						}
					case k < 8: // hello slot, device
						ops = append(ops, k)
					default: // prove slot, key, nonce
						s, nz := (k-8)&1, (k-8)>>2&1
						if who[s] >= 0 && (nz == 0 || who[1-s] >= 0) {
							ops = append(ops, k)
						}
					}
				}
				k := ops[x.Choose("op", len(ops))]
				switch {
				case k < 2:
					stored[k] = register(x, w, devs[k], fmt.Sprintf("r%d.verif.test", i))
					hist += fmt.Sprintf("R%d ", k)
				case k < 4:
					forget(w, stored[k-2])
					stored[k-2] = nil
					hist += fmt.Sprintf("X%d ", k-2)
				case k < 8:
					s, d := (k-4)&1, (k-4)>>1
					t := &fdo.To1{W: w}
					h := t.Hello(devs[d].GUID, fdo.ES256)
					hist += fmt.Sprintf("H%d(%d)=%s ", s, d, h.Class())
					if stored[d] == nil {
						refuse(x, h, "history-hello-unregistered", hist)
						continue
					}
					if !h.OK(31) {
						x.Fail("history-hello-refused", "%s: %s", hist, h)
					}
					slots[s], who[s], proved[s] = t, d, false
				default:
					s, kd, nz := (k-8)&1, (k-8)>>1&1, (k-8)>>2&1
					d := who[s]
					n := slots[s].Nonce
					if nz == 1 {
						n = slots[1-s].Nonce
					}
					p := w.Send(32, slots[s].Token, fdo.Encode(devs[kd].Key.Sign1(nil, fdo.Encode(fdo.EatPayload(n, devs[kd].GUID, nil)))))
					hist += fmt.Sprintf("P%d(key%d,nonce%d)=%s ", s, kd, nz, p.Class())
					good := nz == 0 && kd == d && stored[d] != nil
					if !good {
						refuse(x, p, "history-prove", hist, stored...)
						continue
					}
					x.Step("%s", hist)
					if !p.OK(33) && proved[s] && p.IsErr() {
						continue // a second proof in one session may be refused
					}
					if !p.OK(33) {
						x.Fail("history-prove-refused", "%s: %s", hist, p)
					}
					if !bytes.Equal(p.Body, stored[d]) {
						x.Fail("history-stale", "%s: released blob is not the latest registration", hist)
					}
					proved[s] = true
				}
			}
			x.State(hist)
			r.Traces.Add(1)
		}})
	})
}
