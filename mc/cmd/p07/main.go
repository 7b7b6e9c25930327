// P07: voucher validation accepts exactly the unbroken ownership chains.
package main

import (
	"bytes"
	"fmt"
	"strings"

	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"

	"verif/mc/fdo"
	"verif/mc/hx"
)

// judge runs the code's decoder and validator on an encoded voucher.
func judge(b []byte) (ok bool, owner []byte, why string, pan any, frame string) {
	pan, frame = hx.Guard(func() {
		var ov fdoshared.OwnershipVoucher
		if err := fdoshared.CborCust.Unmarshal(b, &ov); err != nil {
			why = "decode: " + err.Error()
			return
		}
		if err := ov.Validate(); err != nil {
			why = err.Error()
			return
		}
		ok = true
		k, err := ov.GetFinalOwnerPublicKey()
		if err != nil {
			why = err.Error()
			return
		}
		owner, _ = k.PkBody.([]byte)
	})
	return
}

type want int

const (
	yes want = iota
	no
	either
)

func check(x *hx.X, tree any, w want, owner *fdo.Key, key, what string) {
	ok, own, why, pan, frame := judge(fdo.Encode(tree))
	x.Step("%s: accepted=%v %s", what, ok, why)
	if pan != nil {
		x.Fail("crash:"+frame, "%s: validation crashed in %s: %v", what, frame, pan)
	}
	switch {
	case w == no && ok:
		x.Fail("accepted:"+key, "%s: a broken voucher passed validation", what)
	case w == yes && !ok:
		x.Fail("refused:"+key, "%s: a correct voucher was refused: %s", what, why)
	case w == yes && owner != nil && !bytes.Equal(own, owner.SPKI):
		x.Fail("final-owner:"+key, "%s: the final owner key reported is not that of the last entry (%s)", what, why)
	}
	x.Outcome(fmt.Sprintf("%s ok=%v", strings.SplitN(key, ":", 2)[0], ok))
}

// rebuild makes a voucher whose entry i departs from the rules as edit says and
// whose later entries are made correctly on top of it.
func rebuild(s fdo.VoucherSpec, at int, pay func(p []any) []any, signer *fdo.Key, unprot fdo.Map) []any {
	v := fdo.BuildVoucher(s)
	es := v.Entries
	v.Entries = nil
	for i := range es {
		p := v.EntryPayload(i)
		by := v.Signer(i)
		var un fdo.Map
		if i == at {
			if pay != nil {
				p = pay(p)
			}
			if signer != nil {
				by = signer
			}
			un = unprot
		}
		v.Entries = append(v.Entries, by.Sign1(un, fdo.Encode(p)))
	}
	return v.Tree()
}

var algs = []int{fdo.ES256, fdo.ES384, fdo.RS256, fdo.RS384}

func spec(dev, mfg int, owners []int, name string) fdo.VoucherSpec {
	s := fdo.VoucherSpec{Dev: fdo.PoolChain(dev, name), Mfg: fdo.PoolKey(mfg, "mfg-"+name)}
	for i, a := range owners {
		s.Owners = append(s.Owners, fdo.PoolKey(a, fmt.Sprintf("own-%s-%d", name, i)))
	}
	s.GUID = bytes.Repeat([]byte{name[0]}, 16)
	s.DevInfo = "device " + name
	s.HmacKey = bytes.Repeat([]byte{7}, 32)
	return s
}

func flip(b []byte, i int) []byte {
	c := append([]byte{}, b...)
	c[i] ^= 1
	return c
}

// flipHash breaks one byte of an encoded hash [type, bytes].
func flipHash(h any, i int) any {
	a := h.([]any)
	b := a[1].([]byte)
	if i < 0 {
		i = len(b) - 1
	}
	return fdo.A(a[0], flip(b, i))
}

func main() {
	hx.Main("P07", "every valid key mix; every single-node mutation of every voucher; every entry sequence over 3 entries; every part-wise splice of two vouchers; every correctly signed entry with one wrong field; every wrong signer", func(r *hx.Run) {
		maxN := 2
		if r.Thorough {
			maxN = 3
		}
		r.Explore(&hx.Space{Name: "valid", Body: func(x *hx.X) {
			dev := algs[:2][x.Choose("dev", 2)]
			mfg := algs[x.Choose("mfg", 4)]
			n := 1 + x.Choose("n", maxN+1)
			var ow []int
			for i := 0; i < n; i++ {
				if i >= maxN {
					ow = append(ow, ow[i-1]) // longer vouchers repeat the last type
					continue
				}
				ow = append(ow, algs[x.Choose("own", 4)])
			}
			s := spec(dev, mfg, ow, "v")
			s.HashType = []int{-16, -43}[x.Choose("hash", 2)]
			v := fdo.BuildVoucher(s)
			what := fmt.Sprintf("dev=%s mfg=%s owners=%v hash=%d", fdo.AlgName(dev), fdo.AlgName(mfg), ow, s.HashType)
			x.State(what)
			check(x, v.Tree(), yes, v.Owner(), "valid", what)
		}})
		r.Explore(&hx.Space{Name: "long", Body: func(x *hx.X) {
			a := algs[x.Choose("alg", 4)]
			n := []int{5, 6, 10, 17, 33, 64, 255}[x.Choose("n", 7)]
			var ow []int
			for i := 0; i < n; i++ {
				ow = append(ow, a)
			}
			s := spec(fdo.ES256, a, nil, "v")
			for i := range ow {
				s.Owners = append(s.Owners, fdo.PoolKey(a, fmt.Sprintf("own-v-%d", i%3)))
			}
			v := fdo.BuildVoucher(s)
			check(x, v.Tree(), yes, v.Owner(), "long", fmt.Sprintf("%d entries of %s", n, fdo.AlgName(a)))
		}})
		// one wrong entry anywhere in a long chain
		lens := []int{9, 17, 33}
		if r.Thorough {
			lens = []int{9, 17, 33, 65, 255}
		}
		r.Explore(&hx.Space{Name: "long-broken", Body: func(x *hx.X) {
			a := algs[x.Choose("alg", 4)]
			n := lens[x.Choose("n", len(lens))]
			at := x.Choose("at", n)
			s := spec(fdo.ES256, a, nil, "v")
			for i := 0; i < n; i++ {
				s.Owners = append(s.Owners, fdo.PoolKey(a, fmt.Sprintf("own-v-%d", i%3)))
			}
			stranger := fdo.PoolKey(a, "stranger")
			kinds := []string{"signer", "prev-hash", "header-info", "replaced", "doubled", "left-out", "swapped"}
			k := x.Choose("kind", len(kinds))
			var t []any
			switch k {
			case 0:
				t = rebuild(s, at, nil, stranger, nil)
			case 1, 2:
				t = rebuild(s, at, func(p []any) []any { p[k-1] = flipHash(p[k-1], -1); return p }, nil, nil)
			case 3: // another owner's key in the entry, the following signed by the old one
				if at == n-1 {
					return
				}
				t = rebuild(s, at, func(p []any) []any { p[3] = stranger.Pub(); return p }, nil, nil)
			default:
				t = fdo.BuildVoucher(s).Tree()
				e := append([]any{}, t[4].([]any)...)
				switch {
				case k == 4:
					e = append(e[:at+1], append([]any{e[at]}, e[at+1:]...)...)
				case k == 5 && at == n-1:
					return // a shorter chain is a chain
				case k == 5:
					e = append(e[:at], e[at+1:]...)
				case at == 0:
					return
				default:
					e[at-1], e[at] = e[at], e[at-1]
				}
				t[4] = e
			}
			what := fmt.Sprintf("%s: entry %d of %d: %s", fdo.AlgName(a), at, n, kinds[k])
			x.State(what)
			check(x, t, no, nil, "long:"+kinds[k], what)
		}})
		r.Explore(&hx.Space{Name: "long-certificate-chain", Body: func(x *hx.X) {
			n := x.Choose("intermediates", 9)
			s := spec(fdo.ES256, fdo.ES256, []int{fdo.ES256}, "v")
			s.Dev = fdo.NewChainN(fdo.PoolKey(fdo.ES256, "dev-v"), fmt.Sprint("chain ", n), n)
			t := fdo.BuildVoucher(s).Tree()
			check(x, t, yes, nil, "certificates", fmt.Sprintf("%d intermediates", n))
			for i := range s.Dev.Certs {
				for _, k := range []string{"flipped", "left out", "doubled", "replaced"} {
					l := s.Dev.ChainAny()
					switch k {
					case "flipped":
						l[i] = flip(s.Dev.Certs[i], len(s.Dev.Certs[i])-1)
					case "left out":
						l = append(l[:i], l[i+1:]...)
					case "doubled":
						l = append(l[:i+1], append([]any{l[i]}, l[i+1:]...)...)
					case "replaced":
						l[i] = fdo.PoolChain(fdo.ES256, "w").Certs[min(i, 2)]
					}
					t[3] = l
					x.State(fmt.Sprint("certificate", n, i, k))
					check(x, t, no, nil, "certificate:"+k, fmt.Sprintf("%d intermediates, certificate %d %s", n, i, k))
				}
			}
		}})
		// every single-node mutation of a whole voucher
		for _, mix := range [][]int{{fdo.ES256, fdo.ES256, fdo.ES256}, {fdo.ES384, fdo.ES384}, {fdo.RS256, fdo.RS256}, {fdo.RS384, fdo.ES256, fdo.RS384}} {
			mix := mix
			s := spec(fdo.ES256, mix[0], mix[1:], "v")
			v := fdo.BuildVoucher(s)
			orig := fdo.Encode(v.Tree())
			ms := fdo.Mutants(v.Tree())
			last := len(v.Entries) - 1
			r.Explore(&hx.Space{Name: fmt.Sprintf("mutate-%v", mix), Body: func(x *hx.X) {
				m := ms[x.Choose("mutant", len(ms))]
				if bytes.Equal(fdo.Encode(m.V), orig) {
					x.Prune("identical")
				}
				x.State(m.Path + m.Kind)
				w := no
				if soft(m, last) {
					w = either
				}
				if m.Path == "/4" && m.Kind == fmt.Sprintf("del[%d]", last) && last > 0 {
					w = yes // the voucher of the previous owner
				}
				check(x, m.V, w, nil, "mutant:"+m.Path+":"+m.Kind, fmt.Sprintf("keys %v, node %s %s", mix, m.Path, m.Kind))
			}})
		}
		// every byte of the encoding changed
		{
			s := spec(fdo.ES256, fdo.ES256, []int{fdo.ES256, fdo.ES256}, "v")
			v := fdo.BuildVoucher(s)
			orig := fdo.Encode(v.Tree())
			masks := []byte{0x01, 0x80}
			if r.Thorough {
				masks = []byte{1, 2, 4, 8, 16, 32, 64, 128, 255}
			}
			r.Explore(&hx.Space{Name: "byteflip", Body: func(x *hx.X) {
				i := x.Choose("byte", len(orig))
				mk := masks[x.Choose("mask", len(masks))]
				b := append([]byte{}, orig...)
				b[i] ^= mk
				ok, _, why, pan, frame := judge(b)
				x.Step("byte %d ^%x: accepted=%v %s", i, mk, ok, why)
				if pan != nil {
					x.Fail("crash:"+frame, "byte %d ^%x: validation crashed: %v", i, mk, pan)
				}
				if ok {
					// re-encoding must be an original part set: only unprotected parts may differ
					t, err := fdo.Decode(b)
					if err != nil || !sameProtected(t, fdo.MustDecode(orig)) {
						x.Fail("accepted:byte", "byte %d ^%x of a voucher changed and it still passed validation", i, mk)
					}
				}
				x.Outcome(fmt.Sprint(ok))
			}})
			r.Explore(&hx.Space{Name: "truncate", Body: func(x *hx.X) {
				i := x.Choose("len", len(orig))
				ok, _, _, pan, frame := judge(orig[:i])
				x.Step("len %d accepted=%v", i, ok)
				if pan != nil {
					x.Fail("crash:"+frame, "truncated to %d: %v", i, pan)
				}
				if ok {
					x.Fail("accepted:truncated", "voucher truncated to %d bytes accepted", i)
				}
			}})
		}
		// entry order, omission, duplication
		for _, kind := range []string{"distinct owners", "same owner", "owner is maker"} {
			kind := kind
			s := spec(fdo.ES256, fdo.ES256, []int{fdo.ES256, fdo.ES256, fdo.ES256}, "v")
			if kind == "same owner" {
				s.Owners[1], s.Owners[2] = s.Owners[0], s.Owners[0]
			}
			if kind == "owner is maker" {
				s.Owners[0], s.Owners[1], s.Owners[2] = s.Mfg, s.Mfg, s.Mfg
			}
			v := fdo.BuildVoucher(s)
			r.Explore(&hx.Space{Name: "sequence-" + kind, Body: func(x *hx.X) {
				n := x.Choose("len", 5)
				var es []any
				var idx []int
				good := true
				for i := 0; i < n; i++ {
					j := x.Choose("entry", 3)
					idx = append(idx, j)
					es = append(es, v.Entries[j])
					good = good && i == j
				}
				t := v.Tree()
				if es == nil {
					es = []any{}
				}
				t[4] = es
				w := no
				var own *fdo.Key
				if good {
					w = yes
					if n > 0 {
						own = s.Owners[n-1]
					} else {
						w = either
					}
				}
				x.State(fmt.Sprint(idx))
				check(x, t, w, own, fmt.Sprintf("sequence:%v", idx), fmt.Sprintf("%s: entries %v", kind, idx))
			}})
		}
		// splices of two vouchers
		for _, kind := range []string{"everything differs", "same keys and certificates", "same guid", "same header parts, other hmac", "same but for the owners"} {
			kind := kind
			a := spec(fdo.ES256, fdo.ES256, []int{fdo.ES256, fdo.ES256}, "v")
			b := spec(fdo.ES256, fdo.ES256, []int{fdo.ES256, fdo.ES256}, "w")
			switch kind {
			case "same keys and certificates":
				b.Dev, b.Mfg, b.Owners = a.Dev, a.Mfg, a.Owners
			case "same guid":
				b.Dev, b.Mfg, b.Owners, b.GUID = a.Dev, a.Mfg, a.Owners, a.GUID
			case "same header parts, other hmac":
				hk := b.HmacKey
				b = a
				b.HmacKey = append([]byte{9}, hk[1:]...)
			case "same but for the owners":
				ow := b.Owners
				b = a
				b.Owners = ow
			}
			va, vb := fdo.BuildVoucher(a), fdo.BuildVoucher(b)
			if kind == "same but for the owners" {
				vb.Hmac = va.Hmac
			}
			ta, tb := va.Tree(), vb.Tree()
			r.Explore(&hx.Space{Name: "splice-" + kind, Body: func(x *hx.X) {
				t := []any{101, nil, nil, nil, nil}
				mix := ""
				pick := func(p, q any) any {
					if x.Choose("from", 2) == 0 {
						mix += "a"
						return p
					}
					mix += "b"
					return q
				}
				for i := 1; i < 4; i++ {
					t[i] = pick(ta[i], tb[i])
				}
				ea, eb := ta[4].([]any), tb[4].([]any)
				n := 1 + x.Choose("n", 2)
				var es []any
				for i := 0; i < n; i++ {
					es = append(es, pick(ea[i], eb[i]))
				}
				t[4] = es
				pre := func(full []any, e []any) []byte {
					c := append([]any{}, full...)
					c[4] = e[:n]
					return fdo.Encode(c)
				}
				w := no
				if g := fdo.Encode(t); bytes.Equal(g, pre(ta, ea)) || bytes.Equal(g, pre(tb, eb)) {
					w = yes
				}
				// the signature of an entry made twice over the same content is equally good
				if w == no && kind != "everything differs" && consistent(t, a, b) {
					w = either
				}
				x.State(kind + mix)
				check(x, t, w, nil, "splice:"+kind+":"+mix, fmt.Sprintf("%s: header,hmac,chain,entries from %s", kind, mix))
			}})
		}
		// correctly signed entries with one wrong field, and wrong signers
		r.Explore(&hx.Space{Name: "wrong-entry", Body: func(x *hx.X) {
			alg := algs[x.Choose("alg", 4)]
			n := 1 + x.Choose("n", 3)
			at := x.Choose("at", n)
			var ow []int
			for i := 0; i < n; i++ {
				ow = append(ow, alg)
			}
			s := spec(fdo.ES256, alg, ow, "v")
			stranger := fdo.PoolKey(alg, "stranger")
			type ed struct {
				name string
				w    want
				f    func(p []any) []any
				by   *fdo.Key
			}
			set := func(i int, f func(any) any) func(p []any) []any {
				return func(p []any) []any {
					c := append([]any{}, p...)
					c[i] = f(p[i])
					return c
				}
			}
			keyW := no
			if at == n-1 {
				keyW = yes // simply another final owner
			}
			edits := []ed{
				{"prev-hash-first-byte", no, set(0, func(h any) any { return flipHash(h, 0) }), nil},
				{"prev-hash-last-byte", no, set(0, func(h any) any { return flipHash(h, -1) }), nil},
				{"prev-hash-empty", no, set(0, func(h any) any { return fdo.A(h.([]any)[0], []byte{}) }), nil},
				{"prev-hash-cut", no, set(0, func(h any) any { return fdo.A(h.([]any)[0], h.([]any)[1].([]byte)[:31]) }), nil},
				{"prev-hash-type-unknown", no, set(0, func(h any) any { return fdo.A(99, h.([]any)[1]) }), nil},
				{"prev-hash-type-other", no, set(0, func(h any) any { return fdo.A(-43, h.([]any)[1]) }), nil},
				{"prev-hash-of-nothing", no, set(0, func(h any) any { return fdo.Hash(-16, nil) }), nil},
				{"prev-hash-null", no, set(0, func(h any) any { return nil }), nil},
				{"hdr-hash-first-byte", no, set(1, func(h any) any { return flipHash(h, 0) }), nil},
				{"hdr-hash-last-byte", no, set(1, func(h any) any { return flipHash(h, -1) }), nil},
				{"hdr-hash-empty", no, set(1, func(h any) any { return fdo.A(h.([]any)[0], []byte{}) }), nil},
				{"hdr-hash-type-unknown", no, set(1, func(h any) any { return fdo.A(99, h.([]any)[1]) }), nil},
				{"hdr-hash-guid-only", no, set(1, func(h any) any { return fdo.Hash(-16, s.GUID) }), nil},
				{"hdr-hash-info-only", no, set(1, func(h any) any { return fdo.Hash(-16, []byte(s.DevInfo)) }), nil},
				{"hdr-hash-other-guid", no, set(1, func(h any) any {
					return fdo.Hash(-16, append(flip(s.GUID, 3), s.DevInfo...))
				}), nil},
				{"hashes-swapped", no, func(p []any) []any { return fdo.A(p[1], p[0], p[2], p[3]) }, nil},
				{"key-stranger", keyW, set(3, func(any) any { return stranger.Pub() }), nil},
				{"key-null", no, set(3, func(any) any { return nil }), nil},
				{"short", no, func(p []any) []any { return p[:3] }, nil},
				{"by-stranger", no, nil, stranger},
				{"by-itself", no, nil, s.Owners[at]},
				{"by-device", no, nil, fdo.PoolKey(fdo.ES256, "dev-v")},
			}
			if at > 0 {
				edits = append(edits, ed{"by-maker", no, nil, s.Mfg})
			}
			if at > 1 {
				edits = append(edits, ed{"by-earlier-owner", no, nil, s.Owners[at-2]})
			}
			// a key type stated differently from the key itself
			e := edits[x.Choose("edit", len(edits))]
			if e.name == "key-null" && at == n-1 {
				e.w = either
			}
			t := rebuild(s, at, e.f, e.by, nil)
			what := fmt.Sprintf("%s: entry %d of %d: %s", fdo.AlgName(alg), at, n, e.name)
			x.State(what)
			check(x, t, e.w, nil, "entry:"+e.name, what)
		}})
		// header variants with consistent hashes
		r.Explore(&hx.Space{Name: "wrong-header", Body: func(x *hx.X) {
			alg := algs[x.Choose("alg", 4)]
			s := spec(fdo.ES256, alg, []int{alg, alg}, "v")
			v := fdo.BuildVoucher(s)
			h := v.Spec.HeaderTree()
			chain := any(s.Dev.ChainAny())
			var certs [][]byte = s.Dev.Certs
			other := fdo.PoolChain(fdo.ES256, "w")
			join := func(cs [][]byte) []byte {
				var o []byte
				for _, c := range cs {
					o = append(o, c...)
				}
				return o
			}
			ver := any(101)
			w := no
			edits := []struct {
				name string
				f    func()
			}{
				{"version", func() { h[0] = 100 }},
				{"outer-version", func() { ver = 100 }},
				{"maker-key-stranger", func() { h[4] = fdo.PoolKey(alg, "stranger").Pub() }},
				{"maker-key-null", func() { h[4] = nil }},
				{"chain-hash-flipped", func() { h[5] = flipHash(h[5], 0) }},
				{"chain-hash-flipped-last", func() { h[5] = flipHash(h[5], -1) }},
				{"chain-hash-null", func() { h[5] = nil; w = no }},
				{"chain-hash-leaf-only", func() { h[5] = fdo.Hash(-16, certs[0]) }},
				{"chain-hash-unknown-type", func() { h[5] = fdo.A(98, h[5].([]any)[1]) }},
				{"chain-hash-empty", func() { h[5] = fdo.A(-16, []byte{}) }},
				{"chain-other-device", func() { chain = other.ChainAny() }},
				{"chain-leaf-other-device", func() { chain = fdo.A(other.Certs[0], certs[1], certs[2]) }},
				{"chain-reversed", func() { chain = fdo.A(certs[2], certs[1], certs[0]) }},
				{"chain-cut", func() { chain = fdo.A(certs[0], certs[1]) }},
				{"chain-extended", func() { chain = fdo.A(certs[0], certs[1], certs[2], certs[2]) }},
				{"chain-empty", func() { chain = fdo.A() }},
				{"chain-null", func() { chain = nil }},
				{"consistent", func() { w = yes }},
				{"chain-hash-384", func() { h[5] = fdo.Hash(-43, join(certs)); w = yes }},
			}
			e := edits[x.Choose("edit", len(edits))]
			e.f()
			// rebuild the entries over the edited header with all hashes and signatures right
			v.Header = fdo.Encode(h)
			v.Hmac = fdo.A(v.HmacTyp, fdo.RawHmac(v.HmacTyp, s.HmacKey, v.Header))
			v.Entries = nil
			for i := range s.Owners {
				v.Entries = append(v.Entries, v.Signer(i).Sign1(nil, fdo.Encode(v.EntryPayload(i))))
			}
			t := v.Tree()
			t[0], t[3] = ver, chain
			what := fmt.Sprintf("%s: header %s", fdo.AlgName(alg), e.name)
			x.State(what)
			check(x, t, w, nil, "header:"+e.name, what)
		}})
		r.Explore(&hx.Space{Name: "unsigned", Body: func(x *hx.X) {
			alg := algs[x.Choose("alg", 4)]
			at := x.Choose("at", 2)
			s := spec(fdo.ES256, alg, []int{alg, alg}, "v")
			v := fdo.BuildVoucher(s)
			t := v.Tree()
			es := append([]any{}, t[4].([]any)...)
			c := append([]any{}, v.Entries[at].V.([]any)...)
			sig := c[3].([]byte)
			o := v.Entries[1-at].V.([]any)[3].([]byte)
			alts := [][]byte{{}, make([]byte, len(sig)), o, sig[:len(sig)-1], append(append([]byte{}, sig...), 0), sig[:len(sig)/2], flip(sig, 0), flip(sig, len(sig)/2), flip(sig, len(sig)-1)}
			i := x.Choose("sig", len(alts))
			c[3] = alts[i]
			es[at] = fdo.Tag{N: 18, V: c}
			t[4] = es
			check(x, t, no, nil, fmt.Sprintf("signature:%d", i), fmt.Sprintf("%s: entry %d with signature variant %d", fdo.AlgName(alg), at, i))
		}})
	})
}

// soft marks mutations of nodes that nothing in a voucher protects: the
// unprotected header and outermost tag of the last entry.
func soft(m fdo.Mutant, last int) bool {
	p := fmt.Sprintf("/4/%d", last)
	switch {
	case m.Kind == "type:tag" && !strings.Contains(m.Path, "<"):
		return true // an unknown tag around an unsigned node changes nothing once decoded
	case m.Path == "/3" && m.Kind == "append":
		return true // an empty certificate
	case m.Path == "/4" && (m.Kind == "type:null" || m.Kind == "type:array0" || m.Kind == "del[0]" && last == 0):
		return true // no entries at all
	case strings.HasPrefix(m.Path, p+"#/1"):
		return true
	case m.Path == p && (m.Kind == "untag" || m.Kind == "retag" || m.Kind == "type:tag"):
		return true
	case strings.Contains(m.Path, "/4") && strings.HasSuffix(m.Path, "#/1") || strings.Contains(m.Path, "#/1{"):
		// covered by the next entry's hash only through re-encoding
		return m.Kind == "type:null" || m.Kind == "type:map0"
	}
	return m.Path == "" && m.Kind == "type:tag"
}

// sameProtected compares two vouchers apart from unprotected headers.
func sameProtected(a, b any) bool {
	strip := func(v any) []byte {
		t, ok := fdo.Clone(v).([]any)
		if !ok || len(t) != 5 {
			return fdo.Encode(v)
		}
		es, ok := t[4].([]any)
		if !ok || len(es) == 0 {
			return fdo.Encode(v)
		}
		if tg, ok := es[len(es)-1].(fdo.Tag); ok {
			if c, ok := tg.V.([]any); ok && len(c) == 4 {
				c[1] = nil
				es[len(es)-1] = c
			}
		}
		return fdo.Encode(t)
	}
	return bytes.Equal(strip(a), strip(b))
}

// consistent recomputes every hash and signature of a spliced voucher.
func consistent(t []any, a, b fdo.VoucherSpec) bool {
	hb := t[1].([]byte)
	hd := fdo.MustDecode(hb).([]any)
	var all []byte
	for _, c := range t[3].([]any) {
		all = append(all, c.([]byte)...)
	}
	ch := hd[5].([]any)
	ty, _ := fdo.ToInt(ch[0])
	if !bytes.Equal(fdo.RawHash(int(ty), all), ch[1].([]byte)) {
		return false
	}
	signer := hd[4].([]any)[2].([]byte)
	prev := append(append([]byte{}, hb...), fdo.Encode(t[2])...)
	info := append(append([]byte{}, hd[1].([]byte)...), hd[3].(string)...)
	for _, e := range t[4].([]any) {
		s, err := fdo.ParseSign1(e)
		if err != nil {
			return false
		}
		p := fdo.MustDecode(s.Payload).([]any)
		for i, d := range [][]byte{prev, info} {
			h := p[i].([]any)
			ty, _ := fdo.ToInt(h[0])
			if !bytes.Equal(fdo.RawHash(int(ty), d), h[1].([]byte)) {
				return false
			}
		}
		if !s.Verify(fdo.ParseSPKI(signer), fdo.ES256) {
			return false
		}
		signer = p[3].([]any)[2].([]byte)
		prev = fdo.Encode(e)
	}
	return true
}
