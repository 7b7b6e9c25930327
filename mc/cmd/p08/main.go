// P08: generated test vouchers are valid, or broken exactly as labelled.
package main

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/rsa"
	"crypto/x509"
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/common"
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"

	"verif/mc/fdo"
	"verif/mc/hx"
	"verif/mc/rnd"
)

// what each negative voucher must have wrong, at least
var labels = map[testcom.FDOTestID]string{
	testcom.FIDO_TEST_VOUCHER_HEADER_BAD_PROT_VERSION:     "header-version",
	testcom.FIDO_TEST_VOUCHER_HEADER_BAD_RVINFO_EMPTY:     "rvinfo",
	testcom.FIDO_TEST_VOUCHER_HEADER_BAD_DEVICEINFO_EMPTY: "devinfo",
	testcom.FIDO_TEST_VOUCHER_HEADER_BAD_PUBKEY:           "mfg-key",
	testcom.FIDO_TEST_VOUCHER_HEADER_BAD_CERTCHAIN_HASH:   "chain-hash",
	testcom.FIDO_TEST_VOUCHER_BAD_HEADER_BYTES:            "header",
	testcom.FIDO_TEST_VOUCHER_BAD_HDR_HMAC:                "hmac-value",
	testcom.FIDO_TEST_VOUCHER_BAD_PROT_VERSION:            "version",
	testcom.FIDO_TEST_VOUCHER_BAD_CHAIN:                   "chain-hash",
	testcom.FIDO_TEST_VOUCHER_ENTRY_BAD_PREV_HASH:         "prev-hash",
	testcom.FIDO_TEST_VOUCHER_ENTRY_BAD_SIGNATURE:         "signature",
	testcom.FIDO_TEST_VOUCHER_ENTRY_BAD_PUBKEY:            "entry-key",
}

func all() (l []testcom.FDOTestID) {
	l = append(l, testcom.NULL_TEST)
	for _, s := range [][]testcom.FDOTestID{testcom.FIDO_TEST_LIST_RVT_20, testcom.FIDO_TEST_LIST_RVT_22, testcom.FIDO_TEST_LIST_DEVT_30, testcom.FIDO_TEST_LIST_DEVT_32, testcom.FIDO_TEST_LIST_DOT_60, testcom.FIDO_TEST_LIST_DOT_62,
		testcom.FIDO_TEST_LIST_DOT_64, testcom.FIDO_TEST_LIST_DOT_66, testcom.FIDO_TEST_LIST_DOT_68, testcom.FIDO_TEST_LIST_DOT_70} {
		l = append(l, s...)
	}
	return
}

type sg = fdoshared.SgType

var (
	devSgs   = []sg{fdoshared.StSECP256R1, fdoshared.StSECP384R1}
	ecSgs    = devSgs
	allSgs   = []sg{fdoshared.StSECP256R1, fdoshared.StSECP384R1, fdoshared.StRSA2048, fdoshared.StRSA3072}
	algOf    = map[sg]int{fdoshared.StSECP256R1: fdo.ES256, fdoshared.StSECP384R1: fdo.ES384, fdoshared.StRSA2048: fdo.RS256, fdoshared.StRSA3072: fdo.RS384}
	credMu   sync.Mutex
	creds    = map[sg]fdoshared.WawDeviceCredential{}
	rvLists  = [][]string{{"https://localhost:8043"}, {"http://rv.example"}, {"https://10.0.0.1:1", "http://[2001:db8::1]:8080", "https://rv.example"}}
	withKeys = []bool{false, true}
)

// credential is a copy of a device credential, as read from the store.
func credential(x *hx.X, s sg) fdoshared.WawDeviceCredential {
	credMu.Lock()
	defer credMu.Unlock()
	if _, ok := creds[s]; !ok {
		c, err := fdoshared.NewWawDeviceCredential(s)
		if err != nil {
			x.Fail("credential", "no device credential for type %d: %v", s, err)
		}
		creds[s] = *c
	}
	b, _ := fdoshared.CborCust.Marshal(creds[s])
	var c fdoshared.WawDeviceCredential
	if err := fdoshared.CborCust.Unmarshal(b, &c); err != nil {
		x.Fail("credential-store", "a device credential does not survive encoding: %v", err)
	}
	return c
}

func pubEq(a, b any) bool {
	switch k := a.(type) {
	case *ecdsa.PublicKey:
		return k.Equal(b)
	case *rsa.PublicKey:
		return k.Equal(b)
	}
	return false
}

func privPub(der []byte) any {
	k, err := x509.ParsePKCS8PrivateKey(der)
	if err != nil {
		return nil
	}
	if s, ok := k.(crypto.Signer); ok {
		return s.Public()
	}
	return nil
}

// generate makes a voucher for a test and returns its encoding.
func generate(x *hx.X, dev, own sg, keys bool, rv int, id testcom.FDOTestID, depth int) (*fdoshared.DeviceCredAndVoucher, []byte, *fdo.Key, string) {
	ri, err := fdoshared.UrlsToRendezvousInfo(rvLists[rv])
	if err != nil {
		x.Fail("rvinfo", "%v", err)
	}
	cred := credential(x, dev)
	var ok *fdo.Key
	var out *fdoshared.DeviceCredAndVoucher
	var picked []string
	what := fmt.Sprintf("voucher for %q device %d owner %d keys=%v", id, dev, own, keys)
	// the choices are made by the generator itself: a prune must not be taken for its panic
	f := func() {
		if keys {
			ok = fdo.PoolKey(algOf[own], "p08-owner")
			pk := &fdoshared.FdoPublicKey{PkType: fdoshared.FdoPkType(ok.PkType), PkEnc: fdoshared.X509, PkBody: ok.SPKI}
			out, err = device.NewVirtualDeviceAndVoucherWithKeys(cred, ok.Priv, pk, own, ri, id)
		} else {
			out, err = device.NewVirtualDeviceAndVoucher(cred, own, ri, id)
		}
	}
	picked = rnd.Script(x, 8, depth, f)
	x.Step("%s: choices %v", what, picked)
	if err != nil || out == nil {
		x.Fail("generate:"+string(id), "%s: %v", what, err)
	}
	b, err := fdoshared.CborCust.Marshal(out.VoucherDBEntry.Voucher)
	if err != nil {
		x.Fail("encode:"+string(id), "%s: %v", what, err)
	}
	x.Run().Transitions.Add(1)
	return out, b, ok, fmt.Sprintf("%s with choices %v", what, picked)
}

// accepts is the code's own verdict on an encoded voucher.
func accepts(x *hx.X, b []byte, what string) (ok bool, why error) {
	if p, fr := hx.Guard(func() {
		var v fdoshared.OwnershipVoucher
		if why = fdoshared.CborCust.Unmarshal(b, &v); why == nil {
			why = v.Validate()
		}
		ok = why == nil
	}); p != nil {
		x.Fail("crash:"+fr, "%s: validation crashes: %v", what, p)
	}
	return
}

// badHashTypes compares the hash types with those the two keys call for.
func badHashTypes(i *fdo.VoucherInfo, dev, own sg) string {
	hash, mac := -16, 5
	if dev == fdoshared.StSECP384R1 || own == fdoshared.StSECP384R1 {
		hash, mac = -43, 6
	}
	if i.HmacType != mac {
		return fmt.Sprintf("HMAC %d, want %d", i.HmacType, mac)
	}
	h, _ := fdo.MustDecode(i.Header).([]any)
	if t, ok := fdo.ToInt(h[len(h)-1].([]any)[0]); !ok || int(t) != hash {
		return fmt.Sprintf("certificate chain hash %v, want %d", t, hash)
	}
	return ""
}

// created are the vouchers of tests made through the API.
func created(r *hx.Run) {
	more := 2
	if r.Thorough {
		more = 3
	}
	r.Explore(&hx.Space{Name: "created tests", Body: func(x *hx.X) {
		own := allSgs[x.Choose("owner", 4)]
		w := fdo.NewWorld(fdo.Config{})
		x.Cleanup(w.Close)
		w.Seed(24)
		a := fdo.NewApi(w)
		before := x.Choose("tests before", more)
		for n := 0; n <= before; n++ {
			o := own
			if n < before {
				o = allSgs[x.Choose("other owner", 4)]
			}
			k := fdo.PoolKey(algOf[o], fmt.Sprint("p08-api-", n))
			if resp := a.CreateDot("http://do.example", k); !resp.ApiOK() {
				x.Fail("create", "a test with an owner key of type %d is refused: %s", o, resp)
			}
			l, resp := a.Servers("dot")
			if !resp.ApiOK() || len(l) != n+1 {
				x.Fail("list", "%d tests are listed: %s", len(l), resp)
			}
			b, priv, err := a.Download(l[n].ID)
			if err != nil {
				x.Fail("download", "the vouchers do not download: %v", err)
			}
			i := fdo.CheckVoucher(b)
			what := fmt.Sprintf("voucher of a test with an owner key of type %d", o)
			x.Step("%s: %d entries, defects %s", what, i.Entries, defects(i))
			if len(i.Defects) > 0 {
				x.Fail("invalid:"+defects(i), "%s: defects %s", what, defects(i))
			}
			if !pubEq(i.FinalPub, k.Priv.Public()) || !pubEq(priv.Priv.Public(), i.FinalPub) {
				x.Fail("mismatch:given-owner", "%s: is not owned by the given key", what)
			}
			leaf, err := x509.ParseCertificate(i.Certs[0])
			if err != nil {
				x.Fail("mismatch:device-key", "%s: %v", what, err)
			}
			dev := fdoshared.StSECP256R1
			if e, ok := leaf.PublicKey.(*ecdsa.PublicKey); ok && e.Curve.Params().BitSize == 384 {
				dev = fdoshared.StSECP384R1
			}
			if want := map[sg]sg{fdoshared.StSECP256R1: fdoshared.StSECP256R1, fdoshared.StRSA2048: fdoshared.StSECP256R1, fdoshared.StSECP384R1: fdoshared.StSECP384R1, fdoshared.StRSA3072: fdoshared.StSECP384R1}[o]; dev != want {
				x.Fail("mismatch:device-type", "%s: is for a device key of type %d, want %d", what, dev, want)
			}
			if bad := badHashTypes(i, dev, o); bad != "" {
				x.Fail("mismatch:hash-types", "%s: %s", what, bad)
			}
			if ok, why := accepts(x, b, what); !ok {
				x.Fail("refused", "%s: validation refuses it: %v", what, why)
			}
			x.State(fmt.Sprint("created", o, n, i.Entries))
		}
		x.Outcome("created")
	}})
}

func positive(x *hx.X, dev, own sg, keys bool, rv int, id testcom.FDOTestID, depth int) {
	out, b, okey, what := generate(x, dev, own, keys, rv, id, depth)
	i := fdo.CheckVoucher(b)
	x.State(fmt.Sprint(dev, own, keys, rv, id, i.Entries))
	x.Outcome(fmt.Sprint("positive entries ", i.Entries))
	if len(i.Defects) > 0 {
		x.Fail("invalid:"+defects(i), "%s: defects %s", what, defects(i))
	}
	if ok, why := accepts(x, b, what); !ok {
		x.Fail("refused", "%s: valid, yet validation refuses it: %v", what, why)
	}
	c := out.WawDeviceCredential
	if i.Entries < 1 {
		x.Fail("entries", "%s: no entries", what)
	}
	ri, _ := fdoshared.UrlsToRendezvousInfo(rvLists[rv])
	rb, _ := fdoshared.CborCust.Marshal(ri)
	fails := map[string]bool{
		"guid":        !bytes.Equal(i.GUID, c.DCGuid[:]),
		"device-info": i.DevInfo != c.DCDeviceInfo,
		"rvinfo":      !bytes.Equal(fdo.Encode(i.RvInfo), rb),
		"hmac":        i.HmacType != int(c.DCHmacAlg) || !bytes.Equal(i.Hmac, fdo.RawHmac(i.HmacType, c.DCHmacSecret, i.Header)),
		"mfg-hash":    !bytes.Equal(c.DCPubKeyHash.Hash, fdo.RawHash(int(c.DCPubKeyHash.Type), i.MfgRaw)),
		"sig-info":    c.DCSigInfo.SgType != dev,
		"hash-types":  badHashTypes(i, dev, own) != "",
	}
	leaf, err := x509.ParseCertificate(i.Certs[0])
	fails["device-key"] = err != nil || !pubEq(privPub(c.DCPrivateKeyDer), leaf.PublicKey)
	fails["chain"] = len(c.DCCertificateChain) != len(i.Certs)
	for n := range i.Certs {
		fails["chain"] = fails["chain"] || !bytes.Equal(i.Certs[n], c.DCCertificateChain[n])
	}
	fails["owner-key"] = !pubEq(i.FinalPub, privPub(out.VoucherDBEntry.PrivateKeyX509))
	if okey != nil {
		fails["given-owner"] = !pubEq(i.FinalPub, okey.Priv.Public())
	}
	for k, bad := range fails {
		if bad {
			x.Fail("mismatch:"+k, "%s: %s does not match between device credential and voucher", what, k)
		}
	}
	// text form
	text, err := device.MarshalVoucherAndPrivateKey(out.VoucherDBEntry)
	if err != nil {
		x.Fail("export", "%s: %v", what, err)
	}
	imported(x, text, b, out.VoucherDBEntry.PrivateKeyX509, what)
	for _, alt := range []string{"\n" + string(text), string(text) + "\n\n", strings.ReplaceAll(string(text), "\n", "\r\n"), "a note\n" + string(text)} {
		imported(x, []byte(alt), b, out.VoucherDBEntry.PrivateKeyX509, what)
	}
}

func imported(x *hx.X, text, b, key []byte, what string) {
	e, err := common.DecodePemVoucherAndKey(string(text))
	if err != nil {
		x.Fail("import", "%s: its text form is refused: %v", what, err)
	}
	again, _ := fdoshared.CborCust.Marshal(e.Voucher)
	if !bytes.Equal(again, b) {
		x.Fail("import-changed", "%s: the voucher changed through its text form", what)
	}
	if !bytes.Equal(e.PrivateKeyX509, key) {
		x.Fail("import-key", "%s: the key changed through its text form", what)
	}
}

func defects(i *fdo.VoucherInfo) string {
	var l []string
	for d := range i.Defects {
		l = append(l, d)
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func main() {
	hx.Main("P08", "every voucher test id x device and owner key types x rendezvous lists x all small random choices of the generator (scripted random source), against a reference validator that lists every defect; text export and import, cut anywhere", func(r *hx.Run) {
		ids := all()
		r.Explore(&hx.Space{Name: "positive-ec", Body: func(x *hx.X) {
			dev, own := devSgs[x.Choose("device", 2)], ecSgs[x.Choose("owner", 2)]
			keys := withKeys[x.Choose("keys", 2)]
			positive(x, dev, own, keys, x.Choose("rv", len(rvLists)), testcom.NULL_TEST, 8)
		}})
		r.Explore(&hx.Space{Name: "positive-rsa", Body: func(x *hx.X) {
			dev, own := devSgs[x.Choose("device", 2)], allSgs[2+x.Choose("owner", 2)]
			keys := withKeys[x.Choose("keys", 2)]
			depth := 1
			if r.Thorough {
				depth = 8
			}
			positive(x, dev, own, keys, 0, testcom.NULL_TEST, depth)
		}})
		r.Explore(&hx.Space{Name: "other-ids", Body: func(x *hx.X) {
			// test ids of other protocol steps leave the voucher valid
			id := ids[x.Choose("id", len(ids))]
			positive(x, devSgs[x.Choose("device", 2)], ecSgs[x.Choose("owner", 2)], withKeys[x.Choose("keys", 2)], 0, id, 1)
		}})
		r.Explore(&hx.Space{Name: "negative", Body: func(x *hx.X) {
			id := testcom.FIDO_TEST_LIST_VOUCHER[x.Choose("id", len(testcom.FIDO_TEST_LIST_VOUCHER))]
			pair := x.Choose("types", 4)
			dev, own := devSgs[pair%2], ecSgs[pair/2]
			keys := withKeys[x.Choose("keys", 2)]
			depth := 4
			if r.Thorough {
				depth = 6
			}
			out, b, _, what := generate(x, dev, own, keys, 0, id, depth)
			i := fdo.CheckVoucher(b)
			if out != nil && i.Header != nil {
				c := out.WawDeviceCredential
				if i.HmacType != int(c.DCHmacAlg) || !bytes.Equal(i.Hmac, fdo.RawHmac(int(c.DCHmacAlg), c.DCHmacSecret, i.Header)) {
					i.Defects["hmac-value"] = true
				}
			}
			x.State(fmt.Sprint(id, pair, keys, defects(i), i.Entries))
			x.Outcome(string(id))
			if ok, _ := accepts(x, b, what); ok {
				x.Fail("accepted:"+string(id), "%s: passes validation (defects %s)", what, defects(i))
			}
			want, known := labels[id]
			hit := false
			for d := range i.Defects {
				hit = hit || strings.SplitN(d, ":", 2)[0] == want
			}
			if known && !hit {
				x.Fail("label:"+string(id), "%s: not broken as labelled; defects %s", what, defects(i))
			}
		}})
		created(r)
		var text, vb, kb []byte
		var once sync.Once
		r.Explore(&hx.Space{Name: "cut-text", Body: func(x *hx.X) {
			once.Do(func() {
				ri, _ := fdoshared.UrlsToRendezvousInfo(rvLists[0])
				out, err := device.NewVirtualDeviceAndVoucher(credential(x, devSgs[0]), ecSgs[0], ri, testcom.NULL_TEST)
				if err == nil {
					text, _ = device.MarshalVoucherAndPrivateKey(out.VoucherDBEntry)
					vb, _ = fdoshared.CborCust.Marshal(out.VoucherDBEntry.Voucher)
					kb = out.VoucherDBEntry.PrivateKeyX509
				}
			})
			part := x.Choose("part", 64)
			lo, hi := len(text)*part/64, len(text)*(part+1)/64
			try := func(t []byte, what string) {
				x.Run().Transitions.Add(1)
				var e *fdoshared.VoucherDBEntry
				var err error
				if p, fr := hx.Guard(func() { e, err = common.DecodePemVoucherAndKey(string(t)) }); p != nil {
					x.Fail("crash:"+fr, "importing %s crashes: %v", what, p)
				}
				if err != nil {
					return
				}
				again, _ := fdoshared.CborCust.Marshal(e.Voucher)
				if !bytes.Equal(again, vb) {
					x.Fail("import-other", "%s imports as another voucher", what)
				}
				if what[:3] == "cut" && !bytes.Equal(e.PrivateKeyX509, kb) {
					x.Fail("import-cut", "%s imports with another key", what)
				}
			}
			for i := lo; i < hi; i++ {
				try(text[:i], fmt.Sprintf("cut at %d", i))
				m := append([]byte{}, text...)
				m[i] ^= 1
				try(m, fmt.Sprintf("text with byte %d changed", i))
				try(append(append([]byte{}, text[:i]...), text[i+1:]...), fmt.Sprintf("text without byte %d", i))
				x.State(fmt.Sprint("cut", i))
			}
		}})
	})
}
