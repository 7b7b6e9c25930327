// P10: session encryption round trips and every tampering is refused.
package main

import (
	"bytes"
	"fmt"
	"strings"

	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"

	"verif/mc/fdo"
	"verif/mc/hx"
)

func payload(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + n)
	}
	return b
}

// keys of every shape a key exchange can hand over.
var keys = []fdo.SessKey{
	{ShSe: payload(48), Ctx: []byte{}},
	{ShSe: payload(96), Ctx: []byte{}},
	{ShSe: append([]byte{0, 0, 0}, payload(253)...), Ctx: payload(32)},
	{ShSe: payload(32), Ctx: payload(32)},
	{ShSe: payload(96), Ctx: payload(96)},
	{ShSe: []byte{1}, Ctx: []byte{0}},
}

func info(k fdo.SessKey) fdoshared.SessionKeyInfo {
	return fdoshared.SessionKeyInfo{ShSe: append([]byte{}, k.ShSe...), ContextRand: append([]byte{}, k.Ctx...)}
}

func seal(x *hx.X, s fdo.Suite, k fdo.SessKey, pt []byte, key string) []byte {
	var c []byte
	var err error
	if p, fr := hx.Guard(func() { c, err = fdoshared.AddEncryptionWrapping(pt, info(k), fdoshared.CipherSuiteName(s.ID)) }); p != nil {
		x.Fail("seal-panic:"+fr, "%s: encrypting %d bytes panics: %v", s.Name, len(pt), p)
	}
	if err != nil {
		if s.Unimplemented || key == "may" {
			return nil
		}
		x.Fail("seal-refused:"+s.Name, "%s: encrypting %d bytes failed: %v", s.Name, len(pt), err)
	}
	return c
}

func open(x *hx.X, s fdo.Suite, k fdo.SessKey, c []byte, what string) ([]byte, error) {
	var pt []byte
	var err error
	if p, fr := hx.Guard(func() {
		pt, err = fdoshared.RemoveEncryptionWrapping(c, info(k), fdoshared.CipherSuiteName(s.ID))
	}); p != nil {
		x.Fail("open-panic:"+fr, "%s: decrypting %s panics: %v", s.Name, what, p)
	}
	return pt, err
}

// refused demands that c is not taken for a message under k.
func refused(x *hx.X, s fdo.Suite, k fdo.SessKey, c, orig []byte, may bool, key, what string) {
	pt, err := open(x, s, k, c, what)
	x.Run().Transitions.Add(1)
	if err != nil {
		return
	}
	if !bytes.Equal(pt, orig) {
		x.Fail("altered:"+s.Kind+":"+key, "%s: %s decrypts without error to altered plaintext %x (original %x)", s.Name, what, pt, orig)
	}
	if !may {
		x.Fail("accepted:"+s.Kind+":"+key, "%s: %s is accepted", s.Name, what)
	}
}

// lenient are mutations whose acceptance (with the original plaintext) is a
// matter of decoder leniency or touches nothing the suite authenticates.
func lenient(s fdo.Suite, m fdo.Mutant) bool {
	switch {
	case m.Kind == "untag" || m.Kind == "retag" || m.Kind == "type:tag":
		return true
	case strings.Contains(m.Path, "/0<") && (m.Kind == "append" || strings.HasPrefix(m.Kind, "dup") || m.Kind == "ext1" || m.Kind == "text+"):
		return false
	}
	return s.ETM && m.Path == "/1"
}

func main() {
	hx.Main("P10", "all suites x key shapes x payload lengths in both directions; every bit flip, truncation, extension and structural mutation of messages; every single-bit change of key and context; all suite pairs; all short byte strings and generic garbage", func(r *hx.Run) {
		lens := []int{}
		for i := 0; i <= 48; i++ {
			lens = append(lens, i)
		}
		lens = append(lens, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 1299, 1300, 65534, 65535, 65536, 65537)
		if r.Thorough {
			for i := 49; i < 1100; i++ {
				lens = append(lens, i)
			}
			lens = append(lens, 1<<20)
		}
		r.Explore(&hx.Space{Name: "roundtrip", Body: func(x *hx.X) {
			s := fdo.Suites[x.Choose("suite", len(fdo.Suites))]
			ki := x.Choose("key", len(keys))
			n := lens[x.Choose("len", len(lens))]
			k := keys[ki]
			x.State(fmt.Sprint(s.Name, ki, n))
			pt := payload(n)
			keep := append([]byte{}, pt...)
			may := ""
			if s.Nonce == 13 && n > 65535 {
				may = "may"
			}
			c := seal(x, s, k, pt, may)
			if !bytes.Equal(pt, keep) {
				x.Fail("plaintext-clobbered:"+s.Kind, "%s: encrypting changes the caller's plaintext", s.Name)
			}
			if c == nil {
				x.Outcome("refused:" + s.Name)
				if s.Unimplemented {
					// a message made by the reference must be refused too
					refused(x, s, k, fdo.Encrypt(s, k, pt), nil, n == 0, "unimplemented", "a message of an unimplemented suite")
				}
				return
			}
			if may != "" {
				x.Outcome("oversize accepted")
			}
			in := append([]byte{}, c...)
			got, err := open(x, s, k, c, "own message")
			if err != nil || !bytes.Equal(got, pt) {
				x.Fail("roundtrip:"+s.Name, "%s key %d: %d bytes do not survive the round trip: err=%v", s.Name, ki, n, err)
			}
			if !bytes.Equal(c, in) {
				x.Fail("ciphertext-clobbered:"+s.Kind, "%s: decrypting changes the message", s.Name)
			}
			if s.Unimplemented {
				x.Fail("unimplemented-works:"+s.Name, "%s: half-implemented suite encrypts", s.Name)
			}
			got, err = fdo.Decrypt(s, k, c)
			if err != nil || !bytes.Equal(got, pt) {
				x.Fail("interop-seal:"+s.Name, "%s key %d: reference cannot decrypt %d bytes: err=%v", s.Name, ki, n, err)
			}
			got, err = open(x, s, k, fdo.Encrypt(s, k, pt), "reference message")
			if err != nil || !bytes.Equal(got, pt) {
				x.Fail("interop-open:"+s.Name, "%s key %d: reference message of %d bytes is not decrypted: err=%v", s.Name, ki, n, err)
			}
			if c2 := seal(x, s, k, pt, ""); n < 65536 && bytes.Equal(c, c2) {
				x.Fail("nonce-reuse:"+s.Kind, "%s: two encryptions are identical", s.Name)
			}
			x.Outcome("ok:" + s.Name)
		}})
		var impl []fdo.Suite
		for _, s := range fdo.Suites {
			if !s.Unimplemented {
				impl = append(impl, s)
			}
		}
		tlens := []int{0, 1, 15, 16, 17, 33, 100}
		if r.Thorough {
			for i := 2; i < 70; i++ {
				tlens = append(tlens, i)
			}
		}
		r.Explore(&hx.Space{Name: "tamper", Body: func(x *hx.X) {
			s := impl[x.Choose("suite", len(impl))]
			ki := x.Choose("key", len(keys))
			n := tlens[x.Choose("len", len(tlens))]
			k, pt := keys[ki], payload(n)
			c := seal(x, s, k, pt, "")
			switch x.Choose("kind", 4) {
			case 0: // every bit of the encoded message
				for i := range c {
					for b := 0; b < 8; b++ {
						m := append([]byte{}, c...)
						m[i] ^= 1 << b
						x.State(fmt.Sprint("bit", s.Name, ki, n, i, b))
						// A flip in the outer tag, in the algorithm-free parts or in
						// an encoding form may leave the message the same.
						refused(x, s, k, m, pt, same(c, m, s), "bit", fmt.Sprintf("%d byte message with bit %d.%d flipped", n, i, b))
					}
				}
			case 1: // every truncation and a few extensions
				for i := 0; i < len(c); i++ {
					refused(x, s, k, c[:i], pt, false, "truncated", fmt.Sprintf("%d byte message cut to %d", n, i))
				}
				for _, e := range [][]byte{{0}, {0xf6}, {0xff}, c} {
					refused(x, s, k, append(append([]byte{}, c...), e...), pt, false, "trailing", "message with trailing bytes")
				}
			case 2: // structure
				for _, m := range fdo.Mutants(fdo.MustDecode(c)) {
					b := fdo.Encode(m.V)
					if bytes.Equal(b, c) {
						continue
					}
					x.State(fmt.Sprint("mut", s.Name, ki, n, m.Path, m.Kind))
					refused(x, s, k, b, pt, lenient(s, m) || same(c, b, s), m.Path+":"+m.Kind, fmt.Sprintf("%d byte message with node %s %s", n, m.Path, m.Kind))
				}
			case 3: // any other key, context or suite
				for i := range k.ShSe {
					for b := 0; b < 8; b++ {
						o := fdo.SessKey{ShSe: append([]byte{}, k.ShSe...), Ctx: k.Ctx}
						o.ShSe[i] ^= 1 << b
						refused(x, s, o, c, pt, false, "secret", fmt.Sprintf("message under a secret differing in bit %d.%d", i, b))
					}
				}
				for i := range k.Ctx {
					for b := 0; b < 8; b++ {
						o := fdo.SessKey{ShSe: k.ShSe, Ctx: append([]byte{}, k.Ctx...)}
						o.Ctx[i] ^= 1 << b
						refused(x, s, o, c, pt, false, "context", fmt.Sprintf("message under a context differing in bit %d.%d", i, b))
					}
				}
				for _, o := range fdo.Suites {
					if o.ID != s.ID {
						refused(x, o, k, c, pt, false, "suite:"+s.Name, fmt.Sprintf("message of suite %s", s.Name))
						// relabelled as the other suite
						refused(x, o, k, bytes.Replace(c, fdo.Encode(fdo.Map{{K: 1, V: s.ID}}), fdo.Encode(fdo.Map{{K: 1, V: o.ID}}), 1), pt, false, "suite:"+s.Name, "relabelled message")
					}
				}
				for _, id := range []int{0, 2, 4, 29, 34, -17760707, -17760702, 1 << 30} {
					refused(x, fdo.Suite{ID: id, Name: fmt.Sprint("suite ", id), Kind: "unknown"}, k, c, pt, false, "suite:unknown", "message under an unknown suite")
				}
			}
		}})
		// The peer holds the key, but names another algorithm or uses another one.
		r.Explore(&hx.Space{Name: "headers", Body: func(x *hx.X) {
			s := impl[x.Choose("suite", len(impl))]
			k := keys[x.Choose("key", len(keys))]
			n := []int{0, 1, 33}[x.Choose("len", 3)]
			pt := payload(n)
			good := fdo.Map{{K: 1, V: s.ID}}
			heads := []fdo.Map{good, {}, {{K: 1, V: nil}}, {{K: 1, V: "A"}}, {{K: 2, V: s.ID}}, {{K: 1, V: -s.ID}}, {{K: 1, V: int64(s.ID) + 1<<32}}}
			for _, o := range []int{0, 1, 2, 3, 4, 5, 6, 7, 10, 30, 31, 32, 33, 34, -17760701, -17760702, -17760703, -17760704, -17760705, -17760706} {
				if o != s.ID {
					heads = append(heads, fdo.Map{{K: 1, V: o}})
				}
			}
			type mac struct {
				typ int
				m   fdo.Map
			}
			macs := []mac{{s.Mac, fdo.Map{{K: 1, V: s.Mac}}}}
			if s.ETM {
				for _, t := range []int{5, 6} {
					for _, h := range []fdo.Map{{{K: 1, V: 5}}, {{K: 1, V: 6}}, {{K: 1, V: 7}}, {{K: 1, V: s.ID}}, {{K: 1, V: 0}}, {}, {{K: 1, V: nil}}} {
						if t != s.Mac || string(fdo.Encode(h)) != string(fdo.Encode(macs[0].m)) {
							macs = append(macs, mac{t, h})
						}
					}
				}
			}
			hi, mi := x.Choose("header", len(heads)), x.Choose("mac", len(macs))
			h, m := heads[hi], macs[mi]
			c := fdo.Encode(fdo.EncryptNamed(s, k, pt, h, m.typ, m.m))
			x.State(fmt.Sprint(s.Name, n, hi, mi))
			what := fmt.Sprintf("message with header %x, made with MAC %d under header %x", fdo.Encode(h), m.typ, fdo.Encode(m.m))
			if hi == 0 && mi == 0 {
				got, err := open(x, s, k, c, what)
				if err != nil || !bytes.Equal(got, pt) {
					x.Fail("refused:"+s.Name, "%s: %s is refused: %v", s.Name, what, err)
				}
				return
			}
			// what the authenticated outer header says beside the MAC that was made is not looked at
			refused(x, s, k, c, pt, hi == 0 && m.typ == s.Mac, "header", what)
			x.Outcome("refused")
		}})
		msgs := 3000
		if r.Thorough {
			msgs = 60000
		}
		r.Explore(&hx.Space{Name: "initialization vectors", Body: func(x *hx.X) {
			s := impl[x.Choose("suite", len(impl))]
			seen := map[string]int{}
			for i := 0; i < msgs; i++ {
				c := seal(x, s, keys[i/2%2], payload(i%3*7), "")
				v := fdo.MustDecode(c)
				if t, ok := v.(fdo.Tag); ok {
					v = t.V
				}
				if s.ETM {
					v = fdo.MustDecode(v.([]any)[2].([]byte))
					if t, ok := v.(fdo.Tag); ok {
						v = t.V
					}
				}
				iv, _ := v.([]any)[1].(fdo.Map).Get(5)
				b, _ := iv.([]byte)
				if len(b) != s.Nonce {
					x.Fail("iv:"+s.Name, "%s: message %d has an initialization vector of %d bytes", s.Name, i, len(b))
				}
				if j, ok := seen[string(b)]; ok {
					x.Fail("iv-again:"+s.Name, "%s: messages %d and %d have the same initialization vector %x", s.Name, j, i, b)
				}
				seen[string(b)] = i
			}
			x.Outcome("all different")
		}})
		r.Explore(&hx.Space{Name: "garbage", Body: func(x *hx.X) {
			s := fdo.Suites[x.Choose("suite", len(fdo.Suites))]
			a := x.Choose("first", 256)
			k := keys[0]
			refused(x, s, k, []byte{byte(a)}, nil, false, "garbage", fmt.Sprintf("%02x", a))
			for b := 0; b < 256; b++ {
				refused(x, s, k, []byte{byte(a), byte(b)}, nil, false, "garbage", fmt.Sprintf("%02x%02x", a, b))
				x.State(fmt.Sprint(s.Name, a, b))
				// as each part of an otherwise well shaped message
				for i := 0; i < 4; i++ {
					parts := []any{fdo.Encode(fdo.Map{{K: 1, V: s.ID}}), fdo.Map{{K: 5, V: make([]byte, s.Nonce)}}, make([]byte, 20), make([]byte, 32)}
					if !s.ETM {
						parts = parts[:3]
					}
					if i >= len(parts) {
						break
					}
					parts[i] = fdo.Raw{byte(a), byte(b)}
					refused(x, s, k, fdo.Encode(fdo.Tag{N: 16, V: parts}), nil, false, "garbage-part", fmt.Sprintf("part %d is %02x%02x", i, a, b))
					refused(x, s, k, fdo.Encode(parts), nil, false, "garbage-part", fmt.Sprintf("part %d is %02x%02x", i, a, b))
				}
			}
		}})
	})
}

// same says whether two encodings carry the same authenticated content: the
// protected header, the nonce, the ciphertext and the tag. The ETM suites
// authenticate the decoded outer header.
func same(a, b []byte, s fdo.Suite) bool {
	ca, ok := content(a, s)
	cb, ok2 := content(b, s)
	return ok && ok2 && ca == cb
}

func content(m []byte, s fdo.Suite) (string, bool) {
	v, err := fdo.Decode(m)
	if err != nil {
		return "", false
	}
	return contentOf(v, s, s.ETM)
}

func contentOf(v any, s fdo.Suite, outer bool) (string, bool) {
	for {
		t, ok := v.(fdo.Tag)
		if !ok {
			break
		}
		v = t.V
	}
	l, ok := v.([]any)
	n := 3
	if outer {
		n = 4
	}
	if !ok || len(l) != n {
		return "", false
	}
	p, ok := l[0].([]byte)
	if !ok {
		return "", false
	}
	un, ok := l[1].(fdo.Map)
	if !ok {
		return "", false
	}
	ct, ok := l[2].([]byte)
	if !ok {
		return "", false
	}
	if outer {
		mac, ok := l[3].([]byte)
		if !ok {
			return "", false
		}
		h, err := fdo.Decode(p)
		if err != nil {
			return "", false
		}
		hm, _ := h.(fdo.Map)
		alg, _ := hm.Get(1)
		return fmt.Sprintf("%v|%x|%x", alg, ct, mac), true
	}
	iv, _ := un.Get(5)
	return fmt.Sprintf("%x|%v|%x", p, iv, ct), true
}
