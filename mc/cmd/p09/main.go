// P09: signatures, hashes and MACs verify exactly what was made.
package main

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"fmt"
	"math/big"
	"reflect"

	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"

	"verif/mc/fdo"
	"verif/mc/hx"
)

var algs = []int{fdo.ES256, fdo.ES384, fdo.RS256, fdo.RS384}

func payload(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*5 + n)
	}
	return b
}

func pubOf(k *fdo.Key) fdoshared.FdoPublicKey {
	return fdoshared.FdoPublicKey{PkType: fdoshared.FdoPkType(k.PkType), PkEnc: fdoshared.X509, PkBody: append([]byte{}, k.SPKI...)}
}

func chainOf(c *fdo.Chain) (o []fdoshared.X509CertificateBytes) {
	for _, b := range c.Certs {
		o = append(o, b)
	}
	return
}

// sign is the system's signer.
func sign(x *hx.X, k *fdo.Key, alg int, pl []byte, un fdoshared.UnprotectedHeader) (*fdoshared.CoseSignature, error) {
	var s *fdoshared.CoseSignature
	var err error
	if p, fr := hx.Guard(func() {
		s, err = fdoshared.GenerateCoseSignature(pl, fdoshared.ProtectedHeader{}, un, k.Priv, fdoshared.SgType(alg))
	}); p != nil {
		x.Fail("sign-panic:"+fr, "signing with %s as %d panics: %v", fdo.AlgName(k.Alg), alg, p)
	}
	return s, err
}

// verify is the system's verifier.
func verify(x *hx.X, s fdoshared.CoseSignature, p fdoshared.FdoPublicKey, what string) error {
	var err error
	if pn, fr := hx.Guard(func() { err = fdoshared.VerifyCoseSignature(s, p) }); pn != nil {
		x.Fail("verify-panic:"+fr, "verifying %s panics: %v", what, pn)
	}
	x.Run().Transitions.Add(1)
	return err
}

// fromRef turns a reference signature into the system's type through the wire.
func fromRef(x *hx.X, t fdo.Tag) fdoshared.CoseSignature {
	var s fdoshared.CoseSignature
	if err := fdoshared.CborCust.Unmarshal(fdo.Encode(t), &s); err != nil {
		x.Fail("decode", "reference signature does not decode: %v", err)
	}
	return s
}

func refOK(s fdoshared.CoseSignature, k *fdo.Key) bool {
	return bytes.Equal(s.Protected, fdo.Encode(fdo.Map{{K: 1, V: k.Alg}})) &&
		fdo.VerifyRaw(k.Priv.Public(), k.Alg, fdo.SigStructure(s.Protected, s.Payload), s.Signature)
}

func clone(s fdoshared.CoseSignature) fdoshared.CoseSignature {
	s.Protected = append([]byte{}, s.Protected...)
	s.Payload = append([]byte{}, s.Payload...)
	s.Signature = append([]byte{}, s.Signature...)
	return s
}

func sameKey(a, b any) bool {
	e, ok := a.(interface{ Equal(crypto.PublicKey) bool })
	return ok && e.Equal(b)
}

func main() {
	hx.Main("P09", "all algorithms x keys x payload lengths x key encodings in both directions; every bit flip, length change and truncation of payload, protected header and signature; every other key, declared key type and encoding; every byte of the public key and of the private key changed; short signature coefficients; hashes and MACs likewise", func(r *hx.Run) {
		lens := []int{0, 1, 2, 23, 24, 31, 32, 33, 47, 48, 49, 55, 63, 64, 65, 111, 127, 128, 255, 256, 257, 1300, 65535, 65536}
		if r.Thorough {
			for i := 0; i < 600; i++ {
				lens = append(lens, i)
			}
		}
		nonce := fdoshared.FdoNonce{1, 2, 3}
		r.Explore(&hx.Space{Name: "agree", Body: func(x *hx.X) {
			alg := algs[x.Choose("alg", len(algs))]
			name := []string{"a", "b"}[x.Choose("key", 2)]
			n := lens[x.Choose("len", len(lens))]
			k := fdo.PoolKey(alg, name)
			ch := fdo.PoolChain(alg, "sig-"+name)
			pl := payload(n)
			x.State(fmt.Sprint(alg, name, n))
			for _, un := range []fdoshared.UnprotectedHeader{{}, {CUPHNonce: &nonce}} {
				s, err := sign(x, k, alg, append([]byte{}, pl...), un)
				if err != nil {
					x.Fail("sign:"+fdo.AlgName(alg), "%s: signing %d bytes failed: %v", fdo.AlgName(alg), n, err)
				}
				if !bytes.Equal(s.Payload, pl) || !reflect.DeepEqual(s.Unprotected, un) {
					x.Fail("sign-content:"+fdo.AlgName(alg), "%s: signature does not carry the payload or header", fdo.AlgName(alg))
				}
				if !refOK(*s, k) {
					x.Fail("interop-sign:"+fdo.AlgName(alg), "%s: reference rejects a signature over %d bytes", fdo.AlgName(alg), n)
				}
				if err := verify(x, *s, pubOf(k), "own signature"); err != nil {
					x.Fail("roundtrip:"+fdo.AlgName(alg), "%s: own signature over %d bytes rejected: %v", fdo.AlgName(alg), n, err)
				}
				b, err := fdoshared.CborCust.Marshal(*s)
				if err != nil {
					x.Fail("encode", "signature does not encode: %v", err)
				}
				p, err := fdo.ParseSign1(fdo.MustDecode(b))
				if err != nil || !p.Verify(k.Priv.Public(), alg) || !bytes.Equal(p.Payload, pl) {
					x.Fail("wire:"+fdo.AlgName(alg), "%s: encoded signature is not a valid COSE_Sign1: %v", fdo.AlgName(alg), err)
				}
				var back fdoshared.CoseSignature
				if err := fdoshared.CborCust.Unmarshal(b, &back); err != nil || verify(x, back, pubOf(k), "decoded signature") != nil {
					x.Fail("wire-back:"+fdo.AlgName(alg), "%s: signature does not survive encoding: %v", fdo.AlgName(alg), err)
				}
			}
			if err := verify(x, fromRef(x, k.Sign1(nil, pl)), pubOf(k), "reference signature"); err != nil {
				x.Fail("interop-verify:"+fdo.AlgName(alg), "%s: valid reference signature over %d bytes rejected: %v", fdo.AlgName(alg), n, err)
			}
			// by certificate chain
			s := fromRef(x, ch.Leaf.Sign1(nil, pl))
			var err error
			if pn, fr := hx.Guard(func() {
				err = fdoshared.VerifyCoseSignatureWithCertificate(s, fdoshared.FdoPkType(ch.Leaf.PkType), chainOf(ch))
			}); pn != nil {
				x.Fail("verify-panic:"+fr, "verifying with a chain panics: %v", pn)
			}
			if err != nil {
				x.Fail("chain:"+fdo.AlgName(alg), "%s: valid signature by a certified key rejected: %v", fdo.AlgName(alg), err)
			}
			if fdoshared.VerifyCoseSignatureWithCertificate(s, fdoshared.FdoPkType(ch.Leaf.PkType), chainOf(fdo.PoolChain(alg, "sig-other"))) == nil {
				x.Fail("chain-other:"+fdo.AlgName(alg), "%s: signature accepted with another device's certificate", fdo.AlgName(alg))
			}
			x.Outcome("ok:" + fdo.AlgName(alg))
		}})
		short := 2
		if r.Thorough {
			short = 6
		}
		r.Explore(&hx.Space{Name: "short-coefficients", Body: func(x *hx.X) {
			alg := algs[x.Choose("alg", 2)]
			dir := x.Choose("direction", 2)
			k := fdo.PoolKey(alg, "a")
			seen := [2]int{}
			pl := payload(20)
			for i := 0; i < 40000 && (seen[0] < short || seen[1] < short); i++ {
				var s fdoshared.CoseSignature
				if dir == 0 {
					p, err := sign(x, k, alg, pl, fdoshared.UnprotectedHeader{})
					if err != nil {
						x.Fail("sign:"+fdo.AlgName(alg), "%s: signature %d failed: %v", fdo.AlgName(alg), i, err)
					}
					s = *p
				} else {
					s = fromRef(x, k.Sign1(nil, pl))
				}
				n := map[int]int{fdo.ES256: 64, fdo.ES384: 96}[alg]
				if len(s.Signature) != n {
					x.Fail("sig-length:"+fdo.AlgName(alg), "%s: signature of %d bytes", fdo.AlgName(alg), len(s.Signature))
				}
				sh := false
				for j := 0; j < 2; j++ {
					if s.Signature[j*n/2] == 0 {
						seen[j]++
						sh = true
					}
				}
				if sh {
					x.State(fmt.Sprint(alg, dir, seen))
					if !refOK(s, k) || verify(x, s, pubOf(k), "short signature") != nil {
						x.Fail("short:"+fdo.AlgName(alg), "%s: signature with a short coefficient is not accepted", fdo.AlgName(alg))
					}
				}
			}
			x.Outcome(fmt.Sprint("short ", fdo.AlgName(alg), dir, seen[0] >= short, seen[1] >= short))
			if dir == 0 && !refOKSearch(seen, short) {
				x.Fail("search", "no short coefficients found: %v", seen)
			}
		}})
		certificateChains(r)
		crafted(r)
		veryShort(r)
		rl := []int{0, 33}
		if r.Thorough {
			rl = []int{0, 1, 2, 33, 64, 100}
		}
		r.Explore(&hx.Space{Name: "reject", Body: func(x *hx.X) {
			alg := algs[x.Choose("alg", len(algs))]
			n := rl[x.Choose("len", len(rl))]
			src := x.Choose("source", 2)
			k := fdo.PoolKey(alg, "a")
			var s fdoshared.CoseSignature
			if src == 0 {
				p, err := sign(x, k, alg, payload(n), fdoshared.UnprotectedHeader{})
				if err != nil {
					x.Fail("sign:"+fdo.AlgName(alg), "%v", err)
				}
				s = *p
			} else {
				s = fromRef(x, k.Sign1(nil, payload(n)))
			}
			pub := pubOf(k)
			no := func(m fdoshared.CoseSignature, p fdoshared.FdoPublicKey, key, what string) {
				if verify(x, m, p, what) == nil {
					x.Fail("accepted:"+key+":"+fdo.AlgName(alg), "%s: %s is accepted", fdo.AlgName(alg), what)
				}
			}
			part := func(m *fdoshared.CoseSignature, i int) *[]byte {
				return []*[]byte{&m.Protected, &m.Payload, &m.Signature}[i]
			}
			names := []string{"protected", "payload", "signature"}
			for pi := range names {
				orig := *part(&s, pi)
				for i := range orig {
					for b := 0; b < 8; b++ {
						m := clone(s)
						(*part(&m, pi))[i] ^= 1 << b
						x.State(fmt.Sprint(alg, n, src, pi, i, b))
						no(m, pub, names[pi], fmt.Sprintf("signature with bit %d.%d of the %s flipped", i, b, names[pi]))
					}
				}
				for i := 0; i < len(orig); i++ {
					m := clone(s)
					*part(&m, pi) = append([]byte{}, orig[:i]...)
					no(m, pub, names[pi]+"-cut", fmt.Sprintf("signature with the %s cut to %d", names[pi], i))
					m = clone(s)
					*part(&m, pi) = append([]byte{}, orig[i+1:]...)
					no(m, pub, names[pi]+"-cut", fmt.Sprintf("signature with the first %d bytes of the %s gone", i+1, names[pi]))
				}
				for _, e := range [][]byte{{0}, {1}, {0, 0}, {0xff}, make([]byte, 32), make([]byte, 64)} {
					m := clone(s)
					*part(&m, pi) = append(append([]byte{}, orig...), e...)
					no(m, pub, names[pi]+"-longer", "signature with a longer "+names[pi])
					m = clone(s)
					*part(&m, pi) = append(append([]byte{}, e...), orig...)
					no(m, pub, names[pi]+"-longer", "signature with a prefixed "+names[pi])
				}
			}
			for _, f := range []byte{0, 1, 0xff} {
				for _, l := range []int{0, 1, 32, 63, 64, 65, 70, 71, 72, 95, 96, 97, 128, 256, 384, 512} {
					m := clone(s)
					m.Signature = bytes.Repeat([]byte{f}, l)
					no(m, pub, "constant", fmt.Sprintf("constant signature of %d bytes", l))
				}
			}
			if alg == fdo.ES256 || alg == fdo.ES384 {
				h := len(s.Signature) / 2
				m := clone(s)
				m.Signature = append(append([]byte{}, s.Signature[h:]...), s.Signature[:h]...)
				no(m, pub, "swapped", "signature with r and s swapped")
				N := k.Priv.Public().(*ecdsa.PublicKey).Curve.Params().N
				for j := 0; j < 2; j++ {
					for _, v := range []*big.Int{big.NewInt(0), N, new(big.Int).Add(N, big.NewInt(1))} {
						m := clone(s)
						v.FillBytes(m.Signature[j*h : (j+1)*h])
						no(m, pub, "range", "signature with an out of range coefficient")
					}
				}
				// ASN.1 form of the same signature
				d := k.Priv.(*ecdsa.PrivateKey)
				hh := fdo.HashFor(alg)()
				hh.Write(fdo.SigStructure(s.Protected, s.Payload))
				der, err := ecdsa.SignASN1(rand.Reader, d, hh.Sum(nil))
				if err != nil {
					panic(err)
				}
				m = clone(s)
				m.Signature = der
				no(m, pub, "asn1", "ASN.1 signature")
			}
			// unprotected header is not signed
			m := clone(s)
			m.Unprotected.CUPHNonce = &nonce
			if verify(x, m, pub, "x") != nil {
				x.Fail("unprotected", "%s: unprotected header influences verification", fdo.AlgName(alg))
			}
			// other keys
			for _, a2 := range algs {
				for _, nm := range []string{"a", "b"} {
					o := fdo.PoolKey(a2, nm)
					if o == k {
						continue
					}
					no(s, pubOf(o), "other-key", "signature under another key")
					p := pubOf(o)
					p.PkType = pub.PkType
					no(s, p, "other-key", "signature under another key declared as this type")
					// signed by the other key, checked with ours
					no(fromRef(x, o.Sign1(nil, payload(n))), pub, "other-signer", "signature by another key")
				}
			}
			// declared type and encoding
			rsaAny := alg == fdo.RS256 || alg == fdo.RS384
			for i := 0; i < 256; i++ {
				if i != int(pub.PkType) {
					p := pub
					p.PkType = fdoshared.FdoPkType(i)
					if rsaAny && (i == 1 || i == 5) {
						verify(x, s, p, "signature under the other RSA type")
						continue
					}
					no(s, p, "pktype", fmt.Sprintf("signature with the key declared as type %d", i))
				}
				if i != 1 {
					p := pub
					p.PkEnc = fdoshared.FdoPkEnc(i)
					no(s, p, "pkenc", fmt.Sprintf("signature with the key declared as encoding %d", i))
				}
			}
			// every byte of the key
			for i := range k.SPKI {
				for _, f := range []byte{1, 2, 4, 8, 16, 32, 64, 128, 255} {
					p := pubOf(k)
					b := append([]byte{}, k.SPKI...)
					b[i] ^= f
					p.PkBody = b
					x.State(fmt.Sprint("spki", alg, i, f))
					if verify(x, s, p, fmt.Sprintf("signature with byte %d of the key changed", i)) == nil {
						if o, err := x509.ParsePKIXPublicKey(b); err != nil || !sameKey(o, k.Priv.Public()) {
							x.Fail("accepted:spki:"+fdo.AlgName(alg), "%s: signature verifies under a different key (byte %d ^ %x)", fdo.AlgName(alg), i, f)
						}
					}
				}
				p := pubOf(k)
				p.PkBody = k.SPKI[:i]
				no(s, p, "spki-cut", "signature with the key cut")
			}
			// every structural mutation of the encoded key
			for _, mu := range fdo.Mutants(k.Pub()) {
				b := fdo.Encode(mu.V)
				if bytes.Equal(b, fdo.Encode(k.Pub())) {
					continue
				}
				var p fdoshared.FdoPublicKey
				if pn, fr := hx.Guard(func() {
					if fdoshared.CborCust.Unmarshal(b, &p) != nil {
						p.PkBody = nil
					}
				}); pn != nil {
					x.Fail("key-panic:"+fr, "decoding key %s panics", mu.Path)
				}
				if bd, ok := p.PkBody.([]byte); ok && bytes.Equal(bd, k.SPKI) && int(p.PkEnc) == 1 && (int(p.PkType) == k.PkType || rsaAny && (p.PkType == 1 || p.PkType == 5)) {
					continue
				}
				if verify(x, s, p, "mutated key "+mu.Path+" "+mu.Kind) == nil {
					x.Fail("accepted:key:"+fdo.AlgName(alg), "%s: signature accepted with key node %s %s", fdo.AlgName(alg), mu.Path, mu.Kind)
				}
			}
			for _, body := range []any{nil, 1, "x", true, []any{}, []any{k.SPKI}, map[any]any{}, map[any]any{1: 2}, []byte{}, []byte{0x30}, [32]byte{}, &[]byte{1}, chainOf(fdo.PoolChain(alg, "sig-b")),
				[]fdoshared.X509CertificateBytes{}, []fdoshared.X509CertificateBytes{nil, nil}, fdoshared.CosePublicKey{}} {
				for e := 0; e < 4; e++ {
					p := pub
					p.PkEnc, p.PkBody = fdoshared.FdoPkEnc(e), body
					no(s, p, "pkbody", fmt.Sprintf("signature with key body %T as encoding %d", body, e))
				}
			}
			x.Outcome("rejected:" + fdo.AlgName(alg))
		}})
		r.Explore(&hx.Space{Name: "mismatched-signer", Body: func(x *hx.X) {
			a := algs[x.Choose("key", len(algs))]
			sgs := []int{fdo.ES256, fdo.ES384, fdo.RS256, fdo.RS384, 90, 91, 0, -1, -36, -259, 1 << 20}
			b := sgs[x.Choose("alg", len(sgs))]
			k := fdo.PoolKey(a, "a")
			x.State(fmt.Sprint(a, b))
			s, err := sign(x, k, b, payload(10), fdoshared.UnprotectedHeader{})
			rs := func(v int) bool { return v == fdo.RS256 || v == fdo.RS384 }
			if err == nil && a != b && !(rs(a) && rs(b)) {
				x.Fail("mismatched-signer", "key %s signs as %d: %x", fdo.AlgName(a), b, s.Signature)
			}
			x.Outcome(fmt.Sprint(a, b, err == nil))
			for _, pk := range []any{nil, 1, []byte{1}, "x", k.Priv.Public(), (*ecdsa.PrivateKey)(nil)} {
				if pk == any((*ecdsa.PrivateKey)(nil)) {
					continue
				}
				if pn, fr := hx.Guard(func() {
					_, err = fdoshared.GenerateCoseSignature(payload(3), fdoshared.ProtectedHeader{}, fdoshared.UnprotectedHeader{}, pk, fdoshared.SgType(b))
				}); pn != nil || err == nil {
					x.Fail("bad-private:"+fr, "signing with a %T as key: %v %v", pk, pn, err)
				}
			}
		}})
		r.Explore(&hx.Space{Name: "private-keys", Body: func(x *hx.X) {
			alg := algs[x.Choose("alg", len(algs))]
			form := x.Choose("form", 2)
			k := fdo.PoolKey(alg, "a")
			der := k.PKCS8
			if form == 1 {
				if p, ok := k.Priv.(*ecdsa.PrivateKey); ok {
					der, _ = x509.MarshalECPrivateKey(p)
				} else {
					der = x509.MarshalPKCS1PrivateKey(k.Priv.(*rsa.PrivateKey))
				}
			}
			get := func(b []byte) (v any, err error) {
				if p, fr := hx.Guard(func() { v, err = fdoshared.ExtractPrivateKey(b) }); p != nil {
					x.Fail("extract-panic:"+fr, "extracting a private key panics: %v", p)
				}
				x.Run().Transitions.Add(1)
				return
			}
			v, err := get(der)
			if err != nil || !sameKey(v.(crypto.Signer).Public(), k.Priv.Public()) {
				x.Fail("extract:"+fdo.AlgName(alg), "%s form %d: private key is not read back: %v", fdo.AlgName(alg), form, err)
			}
			for i := range der {
				if v, err := get(der[:i]); err == nil {
					x.Fail("extract-cut:"+fdo.AlgName(alg), "private key cut to %d is accepted: %T", i, v)
				}
				for _, f := range []byte{1, 0x80, 0xff} {
					b := append([]byte{}, der...)
					b[i] ^= f
					x.State(fmt.Sprint(alg, form, i, f))
					if v, err := get(b); err == nil {
						if _, ok := v.(crypto.Signer); !ok {
							x.Fail("extract-type", "private key extraction yields %T", v)
						}
					}
				}
			}
			_, ed, _ := ed25519.GenerateKey(rand.Reader)
			eb, _ := x509.MarshalPKCS8PrivateKey(ed)
			if _, err := get(eb); err == nil {
				x.Fail("extract-ed", "an unsupported key type is accepted")
			}
			p521, _ := ecdsa.GenerateKey(elliptic.P521(), rand.Reader)
			_ = p521
		}})
		r.Explore(&hx.Space{Name: "cose-keys", Body: func(x *hx.X) {
			alg := algs[x.Choose("alg", len(algs))]
			k := fdo.PoolKey(alg, "a")
			s := fromRef(x, k.Sign1(nil, payload(9)))
			pub := func(ck any) fdoshared.FdoPublicKey {
				return fdoshared.FdoPublicKey{PkType: fdoshared.FdoPkType(k.PkType), PkEnc: fdoshared.COSEKEY, PkBody: ck}
			}
			var good fdoshared.CosePublicKey
			crvs := []any{nil, 1, uint64(1), "x", []byte{1}, fdoshared.CoseAlg(0), fdoshared.CoseAlg(3), fdoshared.CoseAlg(-7), true}
			if p, ok := k.Priv.Public().(*ecdsa.PublicKey); ok {
				n := (p.Params().BitSize + 7) / 8
				good = fdoshared.CosePublicKey{Kty: fdoshared.CoseEC2, CrvOrN: map[int]fdoshared.CoseAlg{fdo.ES256: 1, fdo.ES384: 2}[alg], XorE: p.X.FillBytes(make([]byte, n)), Y: p.Y.FillBytes(make([]byte, n))}
				if err := verify(x, s, pub(good), "COSE key"); err != nil {
					x.Fail("cosekey:"+fdo.AlgName(alg), "%s: valid signature under the COSE form of its key rejected: %v", fdo.AlgName(alg), err)
				}
			} else {
				p := k.Priv.Public().(*rsa.PublicKey)
				good = fdoshared.CosePublicKey{Kty: fdoshared.CoseRSA, Alg: fdoshared.CoseAlg(alg), CrvOrN: p.N.Bytes(), XorE: []byte{1, 0, 1}}
				verify(x, s, pub(good), "COSE RSA key") // larger moduli are refused
			}
			no := func(c fdoshared.CosePublicKey, what string) {
				x.State(fmt.Sprint(alg, what))
				if verify(x, s, pub(c), "COSE key with "+what) == nil {
					x.Fail("cosekey-accepted:"+fdo.AlgName(alg), "%s: signature accepted under a COSE key with %s", fdo.AlgName(alg), what)
				}
			}
			for _, c := range crvs {
				b := good
				b.CrvOrN = c
				no(b, fmt.Sprintf("curve or modulus %T %v", c, c))
			}
			for t := -30; t < 30; t++ {
				b := good
				b.Kty = fdoshared.CoseConsts(t)
				if b.Kty != good.Kty {
					no(b, fmt.Sprint("type ", t))
				}
			}
			if good.Kty == fdoshared.CoseEC2 {
				for i := range good.XorE {
					for _, f := range []byte{1, 0x80, 0xff} {
						b := good
						b.XorE = append([]byte{}, good.XorE...)
						b.XorE[i] ^= f
						no(b, fmt.Sprint("x byte ", i, f))
						b = good
						b.Y = append([]byte{}, good.Y...)
						b.Y[i] ^= f
						no(b, fmt.Sprint("y byte ", i, f))
					}
					b := good
					b.XorE = good.XorE[:i]
					no(b, "cut x")
					b = good
					b.Y = good.Y[:i]
					no(b, "cut y")
				}
			} else {
				n := good.CrvOrN.([]byte)
				for _, e := range [][]byte{nil, {}, {0}, {1}, {3}, {0x11}, {1, 0}, {1, 0, 0}, {1, 0, 3}, {1, 1}, {1, 0, 1, 0}, {1, 0, 1, 0, 1}, {0, 0, 1}} {
					b := good
					b.XorE = e
					no(b, fmt.Sprintf("exponent %x", e))
				}
				for _, f := range []byte{1, 5, 0x80, 0xff} {
					b := good
					b.CrvOrN = append([]byte{f}, n...)
					no(b, fmt.Sprintf("modulus after %x", f))
				}
				for i := range n {
					b := good
					c := append([]byte{}, n...)
					c[i] ^= 0x10
					b.CrvOrN = c
					no(b, fmt.Sprint("modulus byte ", i))
				}
			}
		}})
		r.Explore(&hx.Space{Name: "hash-hmac", Body: func(x *hx.X) {
			typ := []int{-16, -43, 5, 6}[x.Choose("type", 4)]
			n := []int{0, 1, 55, 56, 64, 111, 112, 128, 300}[x.Choose("len", 9)]
			d := payload(n)
			mac := typ > 0
			key := payload(32)
			gen := func(d []byte) fdoshared.HashOrHmac {
				var h fdoshared.HashOrHmac
				var err error
				if mac {
					h, err = fdoshared.GenerateFdoHmac(d, fdoshared.HashType(typ), key)
				} else {
					h, err = fdoshared.GenerateFdoHash(d, fdoshared.HashType(typ))
				}
				if err != nil {
					x.Fail("hash", "type %d refused: %v", typ, err)
				}
				return h
			}
			ver := func(d []byte, h fdoshared.HashOrHmac, key []byte) (err error) {
				if p, fr := hx.Guard(func() {
					if mac {
						err = fdoshared.VerifyHMac(d, h, key)
					} else {
						err = fdoshared.VerifyHash(d, h)
					}
				}); p != nil {
					x.Fail("hash-panic:"+fr, "hash verification panics: %v", p)
				}
				x.Run().Transitions.Add(1)
				return
			}
			h := gen(d)
			want := fdo.RawHmac
			var ref []byte
			if mac {
				ref = want(typ, key, d)
			} else {
				ref = fdo.RawHash(typ, d)
			}
			if int(h.Type) != typ || !bytes.Equal(h.Hash, ref) || ver(d, h, key) != nil {
				x.Fail(fmt.Sprint("hash-wrong:", typ), "type %d over %d bytes is wrong or does not verify", typ, n)
			}
			bad := func(d []byte, h fdoshared.HashOrHmac, key []byte, what string) {
				x.State(fmt.Sprint(typ, n, what))
				if ver(d, h, key) == nil {
					x.Fail(fmt.Sprint("hash-accepted:", typ, ":", what), "type %d: %s is accepted", typ, what)
				}
			}
			for i := range h.Hash {
				for b := 0; b < 8; b++ {
					m := h
					m.Hash = append([]byte{}, h.Hash...)
					m.Hash[i] ^= 1 << b
					bad(d, m, key, "flipped digest")
				}
				m := h
				m.Hash = h.Hash[:i]
				bad(d, m, key, "cut digest")
				m.Hash = append(append([]byte{}, h.Hash...), h.Hash[:i+1]...)
				bad(d, m, key, "longer digest")
			}
			for i := range d {
				m := append([]byte{}, d...)
				m[i] ^= 1
				bad(m, h, key, "changed data")
				bad(d[:i], h, key, "cut data")
			}
			bad(append(append([]byte{}, d...), 0), h, key, "longer data")
			for t := -300; t < 300; t++ {
				if t != typ {
					m := h
					m.Type = fdoshared.HashType(t)
					bad(d, m, key, "relabelled digest")
				}
			}
			if mac {
				for i := range key {
					k2 := append([]byte{}, key...)
					k2[i] ^= 1
					bad(d, h, k2, "other key")
				}
				bad(d, h, nil, "no key")
			}
		}})
	})
}

func refOKSearch(seen [2]int, n int) bool { return seen[0] >= n && seen[1] >= n }
