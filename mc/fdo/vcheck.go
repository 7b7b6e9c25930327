package fdo

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/rsa"
	"crypto/x509"
	"fmt"

	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
)

// VoucherInfo is the reference reading of an encoded voucher: what it says and
// every defect found in it.
type VoucherInfo struct {
	Header           []byte
	GUID             []byte
	RvInfo           any
	DevInfo          string
	MfgPub, FinalPub any // decoded keys
	MfgRaw           []byte
	HmacType         int
	Hmac             []byte
	Certs            [][]byte
	Entries          int
	Defects          map[string]bool // part:index -> broken
}

func (i *VoucherInfo) bad(f string, a ...any) { i.Defects[fmt.Sprintf(f, a...)] = true }

// ReadPub reads [type, enc, body] with an X509 body into a key and the COSE algorithm it signs with.
func ReadPub(v any) (pub any, alg int, ok bool) {
	a, isA := v.([]any)
	if !isA || len(a) != 3 {
		return nil, 0, false
	}
	t, ok1 := ToInt(a[0])
	e, ok2 := ToInt(a[1])
	b, ok3 := a[2].([]byte)
	if !ok1 || !ok2 || !ok3 || e != 1 {
		return nil, 0, false
	}
	pub, err := x509.ParsePKIXPublicKey(b)
	if err != nil {
		return nil, 0, false
	}
	switch k := pub.(type) {
	case *ecdsa.PublicKey:
		switch {
		case t == 10 && k.Curve.Params().BitSize == 256:
			return pub, ES256, true
		case t == 11 && k.Curve.Params().BitSize == 384:
			return pub, ES384, true
		}
	case *rsa.PublicKey:
		switch {
		case (t == 1 || t == 5) && k.N.BitLen() == 2048:
			return pub, RS256, true
		case t == 5 && k.N.BitLen() == 3072:
			return pub, RS384, true
		}
	}
	return nil, 0, false
}

func readHash(v any) (typ int, h []byte, ok bool) {
	a, isA := v.([]any)
	if !isA || len(a) != 2 {
		return
	}
	t, ok1 := ToInt(a[0])
	h, ok2 := a[1].([]byte)
	return int(t), h, ok1 && ok2
}

func hashIs(v any, data []byte) bool {
	t, h, ok := readHash(v)
	return ok && (t == -16 || t == -43) && bytes.Equal(h, RawHash(t, data))
}

// CheckVoucher reads an encoded voucher and lists its defects.
func CheckVoucher(b []byte) *VoucherInfo {
	i := &VoucherInfo{Defects: map[string]bool{}}
	v, err := Decode(b)
	a, ok := v.([]any)
	if err != nil || !ok || len(a) != 5 {
		i.bad("shape")
		return i
	}
	if p, _ := ToInt(a[0]); p != 101 {
		i.bad("version")
	}
	i.Header, _ = a[1].([]byte)
	var chainHash any
	if hv, err := Decode(i.Header); err != nil {
		i.bad("header")
	} else if h, ok := hv.([]any); !ok || len(h) != 6 {
		i.bad("header")
	} else {
		if p, _ := ToInt(h[0]); p != 101 {
			i.bad("header-version")
		}
		i.GUID, _ = h[1].([]byte)
		if len(i.GUID) != 16 {
			i.bad("guid")
		}
		i.RvInfo = h[2]
		if l, ok := h[2].([]any); !ok || len(l) == 0 {
			i.bad("rvinfo")
		}
		i.DevInfo, _ = h[3].(string)
		if i.DevInfo == "" {
			i.bad("devinfo")
		}
		i.MfgRaw = Encode(h[4])
		var ok bool
		if i.MfgPub, _, ok = ReadPub(h[4]); !ok {
			i.bad("mfg-key")
		}
		chainHash = h[5]
	}
	if t, h, ok := readHash(a[2]); ok {
		i.HmacType, i.Hmac = t, h
		if !(t == 5 && len(h) == 32 || t == 6 && len(h) == 48) {
			i.bad("hmac")
		}
	} else {
		i.bad("hmac")
	}
	var all []byte
	var prev *x509.Certificate
	if l, ok := a[3].([]any); ok && len(l) > 0 {
		for n, c := range l {
			cb, _ := c.([]byte)
			i.Certs = append(i.Certs, cb)
			all = append(all, cb...)
			cert, err := x509.ParseCertificate(cb)
			if err != nil || prev != nil && prev.CheckSignatureFrom(cert) != nil {
				i.bad("cert:%d", n)
			}
			if err == nil {
				prev = cert
			}
		}
		if !hashIs(chainHash, all) {
			i.bad("chain-hash")
		}
	} else {
		i.bad("chain")
	}
	es, ok := a[4].([]any)
	if !ok {
		i.bad("entries")
	}
	i.Entries = len(es)
	signer, alg := i.MfgPub, algOf(i.MfgPub)
	before := append(append([]byte{}, i.Header...), Encode(a[2])...)
	for n, e := range es {
		s, err := ParseSign1(e)
		if err != nil {
			i.bad("entry:%d", n)
			return i
		}
		hv, _ := Decode(s.Protected)
		hm, _ := hv.(Map)
		av, _ := hm.Get(1)
		if al, ok := ToInt(av); !ok || int(al) != alg {
			i.bad("entry-alg:%d", n)
		}
		if signer == nil || !s.Verify(signer, alg) {
			i.bad("signature:%d", n)
		}
		pv, _ := Decode(s.Payload)
		p, ok := pv.([]any)
		if !ok || len(p) != 4 {
			i.bad("payload:%d", n)
			return i
		}
		if !hashIs(p[0], before) {
			i.bad("prev-hash:%d", n)
		}
		if !hashIs(p[1], append(append([]byte{}, i.GUID...), i.DevInfo...)) {
			i.bad("hdr-hash:%d", n)
		}
		pub, al, ok := ReadPub(p[3])
		if !ok {
			i.bad("entry-key:%d", n)
			pub = nil
		}
		signer, alg = pub, al
		i.FinalPub = pub
		before = Encode(e)
	}
	return i
}

func algOf(pub any) int {
	switch k := pub.(type) {
	case *ecdsa.PublicKey:
		if k.Curve.Params().BitSize == 384 {
			return ES384
		}
		return ES256
	case *rsa.PublicKey:
		if k.N.BitLen() == 3072 {
			return RS384
		}
		return RS256
	}
	return 0
}

// CertKey is the leaf key of a certificate chain and its signature algorithm.
func CertKey(certs [][]byte) (pub any, alg int, err error) {
	if len(certs) == 0 {
		return nil, 0, fmt.Errorf("no certificates")
	}
	c, err := x509.ParseCertificate(certs[0])
	if err != nil {
		return nil, 0, err
	}
	return c.PublicKey, algOf(c.PublicKey), nil
}

// CredOf is the tool's own credential structure for a device built here.
func (d *Device) CredOf() fdoshared.WawDeviceCredential {
	hm := d.V.HmacTyp
	c := fdoshared.WawDeviceCredential{DCProtVer: fdoshared.ProtVer101, DCHashAlg: fdoshared.HashType(HashType(d.Alg)), DCHmacSecret: d.V.Spec.HmacKey,
		DCHmacAlg: fdoshared.HashType(hm), DCDeviceInfo: d.V.Spec.DevInfo, DCGuid: d.Guid(), DCPrivateKeyDer: d.Key.PKCS8,
		DCSigInfo: fdoshared.SigInfo{SgType: fdoshared.SgType(d.Alg), Info: []byte{}}}
	for _, b := range d.V.Spec.Dev.Certs {
		c.DCCertificateChain = append(c.DCCertificateChain, b)
	}
	return c
}
