package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"fmt"
	"math/big"
	"sync"
	"time"

	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"

	"verif/mc/fdo"
	"verif/mc/hx"
)

// cert is a certificate of the small PKI of the chain space.
type cert struct {
	name string
	der  []byte
	x    *x509.Certificate
	bad  bool // outside its validity, or not allowed to issue
}

var pki = sync.OnceValue(func() map[string]*cert {
	m := map[string]*cert{}
	// Names that differ only by a prime have the same subject but another key.
	mk := func(name, cn, key, issuer, issuerKey string, alg int, ca bool, from, to time.Duration) {
		t := &x509.Certificate{SerialNumber: big.NewInt(int64(len(m) + 1)), Subject: pkix.Name{CommonName: cn}, NotBefore: time.Now().Add(from), NotAfter: time.Now().Add(to),
			BasicConstraintsValid: true, IsCA: ca, KeyUsage: x509.KeyUsageDigitalSignature}
		if ca {
			t.KeyUsage |= x509.KeyUsageCertSign
		}
		iss := t
		if issuer != name {
			iss = m[issuer].x
		}
		der, err := x509.CreateCertificate(rand.Reader, t, iss, fdo.PoolKey(alg, key).Priv.Public(), fdo.PoolKey(fdo.ES256, issuerKey).Priv)
		if issuer == name {
			der, err = x509.CreateCertificate(rand.Reader, t, iss, fdo.PoolKey(fdo.ES256, issuerKey).Priv.Public(), fdo.PoolKey(fdo.ES256, issuerKey).Priv)
		}
		if err != nil {
			panic(err)
		}
		c, err := x509.ParseCertificate(der)
		if err != nil {
			panic(err)
		}
		m[name] = &cert{name, der, c, from > 0 || to < 0}
	}
	const h = time.Hour
	mk("R", "root", "", "R", "c-root", fdo.ES256, true, -h, 1000*h)
	mk("R'", "root", "", "R'", "c-root2", fdo.ES256, true, -h, 1000*h)
	mk("I", "inter", "c-inter", "R", "c-root", fdo.ES256, true, -h, 1000*h)
	mk("I'", "inter", "c-inter2", "R'", "c-root2", fdo.ES256, true, -h, 1000*h)
	mk("J", "inter 2", "c-inter3", "I", "c-inter", fdo.ES256, true, -h, 1000*h)
	mk("N", "inter", "c-inter", "R", "c-root", fdo.ES256, false, -h, 1000*h) // may not issue
	mk("X", "inter", "c-inter", "R", "c-root", fdo.ES256, true, -2*h, -h)    // expired
	mk("L", "leaf", "a", "I", "c-inter", fdo.ES256, false, -h, 1000*h)
	mk("L'", "leaf", "b", "I'", "c-inter2", fdo.ES256, false, -h, 1000*h)
	mk("K", "leaf", "a", "J", "c-inter3", fdo.ES256, false, -h, 1000*h)
	mk("D", "leaf", "a", "R", "c-root", fdo.ES256, false, -h, 1000*h)
	mk("E", "leaf", "a", "I", "c-inter", fdo.ES256, false, -2*h, -h) // expired
	mk("S", "leaf", "", "S", "a", fdo.ES256, false, -h, 1000*h)      // self-signed
	return m
})

// issued tells whether a certificate is signed by another one's key under its name.
func issued(c, by *cert) bool {
	if !bytes.Equal(c.x.RawIssuer, by.x.RawSubject) {
		return false
	}
	return by.x.CheckSignature(c.x.SignatureAlgorithm, c.x.RawTBSCertificate, c.x.Signature) == nil
}

func certificateChains(r *hx.Run) {
	names := []string{"L", "L'", "K", "D", "E", "S", "I", "I'", "J", "N", "X", "R", "R'"}
	depth := 4
	if r.Thorough {
		depth = 5
	}
	r.Explore(&hx.Space{Name: "certificate-chains", Body: func(x *hx.X) {
		p := pki()
		n := 1 + x.Choose("length", depth)
		var l []*cert
		var ders []fdoshared.X509CertificateBytes
		desc := ""
		for i := 0; i < n; i++ {
			c := p[names[x.Choose("certificate", len(names))]]
			l = append(l, c)
			ders = append(ders, c.der)
			desc += " " + c.name
		}
		x.State(desc)
		// is there a path from the leaf to the last certificate over some of those between?
		ok, exact := false, n >= 2
		for i := 0; i+1 < n; i++ {
			exact = exact && issued(l[i], l[i+1]) && l[i+1].x.IsCA && !l[i].bad
		}
		exact = exact && !l[n-1].bad && issued(l[n-1], l[n-1])
		var walk func(c *cert, left []*cert) bool
		walk = func(c *cert, left []*cert) bool {
			if c == l[n-1] || issued(c, l[n-1]) && l[n-1].x.IsCA {
				return true
			}
			for i, o := range left {
				if o.x.IsCA && issued(c, o) && walk(o, append(append([]*cert{}, left[:i]...), left[i+1:]...)) {
					return true
				}
			}
			return false
		}
		mids := []*cert{}
		if n > 2 {
			mids = l[1 : n-1]
		}
		ok = walk(l[0], mids)
		var key *fdo.Key
		switch l[0].name {
		case "I", "N", "X":
			key = fdo.PoolKey(fdo.ES256, "c-inter")
		case "I'":
			key = fdo.PoolKey(fdo.ES256, "c-inter2")
		case "J":
			key = fdo.PoolKey(fdo.ES256, "c-inter3")
		case "R":
			key = fdo.PoolKey(fdo.ES256, "c-root")
		case "R'":
			key = fdo.PoolKey(fdo.ES256, "c-root2")
		case "L'":
			key = fdo.PoolKey(fdo.ES256, "b")
		default:
			key = fdo.PoolKey(fdo.ES256, "a")
		}
		for _, by := range []*fdo.Key{key, fdo.PoolKey(fdo.ES256, "stranger")} {
			s := fromRef(x, by.Sign1(nil, payload(40)))
			var err error
			if pn, fr := hx.Guard(func() {
				err = fdoshared.VerifyCoseSignatureWithCertificate(s, fdoshared.FdoPkType(key.PkType), ders)
			}); pn != nil {
				x.Fail("verify-panic:"+fr, "verifying with the chain%s panics: %v", desc, pn)
			}
			switch {
			case err == nil && by != key:
				x.Fail("chain-stranger", "with the chain%s a signature by another key is accepted", desc)
			case err == nil && !ok:
				x.Fail("chain-accepted", "the chain%s does not lead from the first to the last certificate, but a signature is accepted by it", desc)
			case err != nil && exact && by == key:
				x.Fail("chain-refused", "the chain%s is unbroken, but a signature of its first certificate's key is refused: %v", desc, err)
			}
			x.Outcome(fmt.Sprintf("chain of %d: leads %v, exact %v, accepted %v", n, ok, exact, err == nil))
		}
	}})
}

// crafted verifies signatures whose coefficients have every possible length.
func crafted(r *hx.Run) {
	type curve struct {
		alg, size int
		c         elliptic.Curve
		ks        []int64 // r of 32, 31 and 30 bytes (and so on)
	}
	find := func(alg, size int, c elliptic.Curve, want int) curve {
		v := curve{alg: alg, size: size, c: c}
		have := 0
		for k := int64(1); have < want; k++ {
			rx, _ := c.ScalarBaseMult(big.NewInt(k).Bytes())
			if rx.Cmp(c.Params().N) < 0 && (rx.BitLen()+7)/8 == size-have {
				v.ks = append(v.ks, k)
				have++
			}
		}
		return v
	}
	want := 2
	if r.Thorough {
		want = 3
	}
	cs := []func() curve{
		sync.OnceValue(func() curve { return find(fdo.ES256, 32, elliptic.P256(), 3) }),
		sync.OnceValue(func() curve { return find(fdo.ES384, 48, elliptic.P384(), want) }),
	}
	r.Explore(&hx.Space{Name: "crafted-coefficients", Body: func(x *hx.X) {
		v := cs[x.Choose("curve", 2)]()
		k := v.ks[x.Choose("r", len(v.ks))]
		j := x.Choose("bytes of s", v.size) + 1
		top := x.Choose("top", 3)
		n := v.c.Params().N
		s := new(big.Int).Lsh(big.NewInt([]int64{1, 0x7f, 0xff}[top]), uint(8*(j-1)))
		if s.Cmp(n) >= 0 {
			x.Prune("too large")
		}
		rx, _ := v.c.ScalarBaseMult(big.NewInt(k).Bytes())
		prot := fdo.Encode(fdo.Map{{K: 1, V: v.alg}})
		pl := payload(33)
		h := fdo.HashFor(v.alg)()
		h.Write(fdo.SigStructure(prot, pl))
		e := new(big.Int).SetBytes(h.Sum(nil))
		// d = (s k - e) / r
		d := new(big.Int).Mul(s, big.NewInt(k))
		d.Sub(d, e)
		d.Mul(d, new(big.Int).ModInverse(rx, n))
		d.Mod(d, n)
		px, py := v.c.ScalarBaseMult(d.Bytes())
		pub := &ecdsa.PublicKey{Curve: v.c, X: px, Y: py}
		sig := make([]byte, 2*v.size)
		rx.FillBytes(sig[:v.size])
		s.FillBytes(sig[v.size:])
		if !fdo.VerifyRaw(pub, v.alg, fdo.SigStructure(prot, pl), sig) {
			panic("crafted signature")
		}
		spki, err := x509.MarshalPKIXPublicKey(pub)
		if err != nil {
			panic(err)
		}
		cose := fromRef(x, fdo.Tag{N: 18, V: fdo.A(prot, fdo.Map{}, pl, sig)})
		pk := fdoshared.FdoPublicKey{PkType: fdoshared.FdoPkType(fdo.PoolKey(v.alg, "a").PkType), PkEnc: fdoshared.X509, PkBody: spki}
		x.State(fmt.Sprint(v.alg, k, j, top))
		if err := verify(x, cose, pk, "crafted signature"); err != nil {
			x.Fail("crafted:"+fdo.AlgName(v.alg), "%s: a valid signature with r of %d and s of %d bytes is refused: %v", fdo.AlgName(v.alg), (rx.BitLen()+7)/8, j, err)
		}
		for _, i := range []int{0, v.size - 1, v.size, 2*v.size - 1} {
			m := clone(cose)
			m.Signature[i] ^= 1
			if verify(x, m, pk, "crafted signature with a bit changed") == nil {
				x.Fail("crafted-accepted:"+fdo.AlgName(v.alg), "%s: a crafted signature with byte %d changed is accepted", fdo.AlgName(v.alg), i)
			}
		}
		x.Outcome("crafted")
	}})
}

// veryShort signs until coefficients lack two bytes.
func veryShort(r *hx.Run) {
	n := 40000
	if r.Thorough {
		n = 400000
	}
	r.Explore(&hx.Space{Name: "very-short-coefficients", Body: func(x *hx.X) {
		x.Choose("part", 8)
		k := fdo.PoolKey(fdo.ES256, "a")
		pl := payload(20)
		short := 0
		for i := 0; i < n; i++ {
			s, err := sign(x, k, fdo.ES256, pl, fdoshared.UnprotectedHeader{})
			if err != nil || len(s.Signature) != 64 {
				x.Fail("sig-length:ES256", "signature %d: %d bytes, %v", i, len(s.Signature), err)
			}
			if s.Signature[0] == 0 && s.Signature[1] == 0 || s.Signature[32] == 0 && s.Signature[33] == 0 {
				short++
				if !refOK(*s, k) || verify(x, *s, pubOf(k), "short signature") != nil {
					x.Fail("short:ES256", "signature with a coefficient lacking two bytes is not accepted: %x", s.Signature)
				}
			}
		}
		x.Outcome("signed")
	}})
}
