// P24: negative tests send something broken in the way they name, positive tests something valid.
package main

import (
	"bytes"
	"crypto"
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"

	"verif/mc/fdo"
	"verif/mc/hx"
	"verif/mc/rnd"
	"verif/mc/srv"
)

// picker makes the tool's random choices: the first value, unless a retry loop
// wants another one, and up to the allowed number of others.
func picker(x *hx.X, places int) func(max int64) (int64, bool) {
	var prev int64
	n, asked := int64(0), 0
	return func(max int64) (int64, bool) {
		if max > 1<<31 {
			return 0, false
		}
		if max == prev {
			n++
		} else {
			prev, n = max, 0
		}
		base := (n / 3) % max
		vs := []int64{base}
		for _, v := range rnd.Few(max, 8) {
			if v != base {
				vs = append(vs, v)
			}
		}
		asked++
		if len(vs) < 2 || asked > places {
			return base, true
		}
		k := x.Dev(fmt.Sprintf("random<%d", max), len(vs))
		if k > 0 {
			x.Step("choice %d of %d is %d", asked, max, vs[k])
		}
		return vs[k], true
	}
}

// voucherDefects: which defects make a voucher broken in the way the test names.
var voucherDefects = map[testcom.FDOTestID]string{
	testcom.FIDO_TEST_VOUCHER_HEADER_BAD_PROT_VERSION:     `^header-version$`,
	testcom.FIDO_TEST_VOUCHER_HEADER_BAD_RVINFO_EMPTY:     `^rvinfo$`,
	testcom.FIDO_TEST_VOUCHER_HEADER_BAD_DEVICEINFO_EMPTY: `^devinfo$`,
	testcom.FIDO_TEST_VOUCHER_HEADER_BAD_PUBKEY:           `^mfg-key$`,
	testcom.FIDO_TEST_VOUCHER_HEADER_BAD_CERTCHAIN_HASH:   `^chain-hash$`,
	testcom.FIDO_TEST_VOUCHER_BAD_HEADER_BYTES:            `^header$`,
	testcom.FIDO_TEST_VOUCHER_BAD_HDR_HMAC:                `^(hmac|prev-hash:0)$`,
	testcom.FIDO_TEST_VOUCHER_BAD_PROT_VERSION:            `^version$`,
	testcom.FIDO_TEST_VOUCHER_BAD_CHAIN:                   `^cert:\d+$`,
	testcom.FIDO_TEST_VOUCHER_ENTRY_BAD_PREV_HASH:         `^prev-hash:\d+$`,
	testcom.FIDO_TEST_VOUCHER_ENTRY_BAD_SIGNATURE:         `^signature:\d+$`,
	testcom.FIDO_TEST_VOUCHER_ENTRY_BAD_PUBKEY:            `^entry-key:\d+$`,
}

func names(m map[string]bool) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}

func vouchers(r *hx.Run) {
	owners := []int{fdo.ES256, fdo.ES384, fdo.RS256, fdo.RS384}
	ids := append([]testcom.FDOTestID{testcom.NULL_TEST}, testcom.FIDO_TEST_LIST_VOUCHER...)
	dev := 1
	if r.Thorough {
		dev = 2
	}
	r.Explore(&hx.Space{Name: "test vouchers", MaxDev: dev, Body: func(x *hx.X) {
		dalg := []int{fdo.ES256, fdo.ES384}[x.Choose("device key", 2)]
		oalg := owners[x.Choose("owner key", len(owners))]
		withKeys := x.Choose("given owner key", 2) == 1
		id := ids[x.Choose("test", len(ids))]
		x.Step("%s device, %s owner, given key %v, test %s", fdo.AlgName(dalg), fdo.AlgName(oalg), withKeys, id)
		cred, err := fdoshared.NewWawDeviceCredential(fdoshared.SgType(dalg))
		if err != nil {
			x.Fail("credential", "no credential: %v", err)
		}
		places := 60
		if oalg == fdo.RS256 || oalg == fdo.RS384 {
			if !r.Thorough {
				places = 2
			}
		}
		rvi, err := fdoshared.UrlsToRendezvousInfo([]string{"http://rv.verif.test:8041"})
		if err != nil {
			x.Fail("rvinfo", "%v", err)
		}
		own := fdo.PoolKey(oalg, "given")
		var v *fdoshared.DeviceCredAndVoucher
		p, frame := hx.Guard(func() {
			rnd.With(picker(x, places), func() {
				if withKeys {
					v, err = device.NewVirtualDeviceAndVoucherWithKeys(*cred, own.Priv, &fdoshared.FdoPublicKey{PkType: fdoshared.FdoPkType(own.PkType), PkEnc: 1, PkBody: own.SPKI}, fdoshared.SgType(oalg), rvi, id)
				} else {
					v, err = device.NewVirtualDeviceAndVoucher(*cred, fdoshared.SgType(oalg), rvi, id)
				}
			}, nil)
		})
		if p != nil {
			x.Fail("crash:"+frame, "making the voucher crashed: %v", p)
		}
		if err != nil {
			x.Fail("error:"+string(id), "no voucher for %s: %v", id, err)
		}
		b, err := fdoshared.CborCust.Marshal(v.VoucherDBEntry.Voucher)
		if err != nil {
			x.Fail("encode", "voucher does not encode: %v", err)
		}
		inf := fdo.CheckVoucher(b)
		c := v.WawDeviceCredential
		if inf.Hmac != nil && !bytes.Equal(inf.Hmac, fdo.RawHmac(inf.HmacType, c.DCHmacSecret, inf.Header)) {
			inf.Defects["hmac"] = true
		}
		x.Logf("defects: %v", names(inf.Defects))
		if id == testcom.NULL_TEST {
			if len(inf.Defects) > 0 {
				x.Fail("positive", "a voucher for positive tests has defects %v", names(inf.Defects))
			}
			if k, err := fdoshared.ExtractPrivateKey(v.VoucherDBEntry.PrivateKeyX509); err != nil {
				x.Fail("owner-key", "the owner's private key does not decode: %v", err)
			} else if w := fdo.WrapKey(oalg, own.PkType, k.(crypto.Signer)); !bytes.Equal(w.SPKI, spki(inf.FinalPub)) {
				x.Fail("owner-key", "the owner's private key is not that of the last entry")
			} else if withKeys && !bytes.Equal(w.SPKI, own.SPKI) {
				x.Fail("owner-key", "the last entry is not for the given owner key")
			}
			x.Outcome("valid")
			return
		}
		re := regexp.MustCompile(voucherDefects[id])
		for d := range inf.Defects {
			if re.MatchString(d) {
				x.Outcome(d)
				return
			}
		}
		x.Fail("not-broken:"+string(id), "the voucher for %s (%s owner) is not broken in that way: defects %v", id, fdo.AlgName(oalg), names(inf.Defects))
	}})
}

// notDecoded: the message was refused before its contents were judged.
const notDecoded = `(?i)decrypt|cipher:|authentication|MAC|IV|CBOR|EOF|decode|tag|trailing|header|encrypted|array|bytes`

// clientReasons: why the reference server must have refused the test's message.
var clientReasons = map[testcom.FDOTestID]string{
	testcom.FIDO_RVT_22_BAD_SIGNATURE:         `^to1d signature`,
	testcom.FIDO_RVT_22_BAD_TO0D_HASH:         `^to0d hash`,
	testcom.FIDO_RVT_22_BAD_TO0SIGN_NONCE:     `^TO0Sign nonce`,
	testcom.FIDO_RVT_22_BAD_RENDEVOUZ_BLOB:    `^(no )?address`,
	testcom.FIDO_DEVT_30_BAD_UNKNOWN_GUID:     `^unknown GUID`,
	testcom.FIDO_DEVT_30_BAD_SIGINFO:          `^signature type`,
	testcom.FIDO_DEVT_32_BAD_SIGNATURE:        `^device signature`,
	testcom.FIDO_DEVT_32_BAD_TO1PROOF_NONCE:   `^EAT nonce`,
	testcom.FIDO_DOT_62_GETOVNEXT_BAD_INDEX:   `^entry number`,
	testcom.FIDO_DOT_64_BAD_SIGNATURE:         `^device signature`,
	testcom.FIDO_DOT_64_BAD_NONCE_PROVEDV61:   `^EAT nonce`,
	testcom.FIDO_DOT_66_BAD_ENCRYPTION:        notDecoded,
	testcom.FIDO_DOT_68_BAD_ENCRYPTION:        notDecoded,
	testcom.FIDO_DOT_70_BAD_ENCRYPTION:        notDecoded,
	testcom.FIDO_DOT_68_BAD_COMPLETION_LOGIC:  `^(device service info after the last|all owner service info was sent)`,
	testcom.FIDO_DOT_70_BAD_NONCE_PROVE_DV_61: `^ProveDv nonce`,
}

var msgRe = regexp.MustCompile(`_(\d\d)_`)

func clients(r *hx.Run) {
	confs := []srv.Conf{{Proto: 0}, {Proto: 1},
		{Proto: 2, Dev: fdo.ES256, Owner: fdo.ES256, Entries: 2, OwnerSI: 2}, {Proto: 2, Dev: fdo.ES384, Owner: fdo.ES384, Entries: 1},
		{Proto: 2, Dev: fdo.ES256, Owner: fdo.RS256, Entries: 3, OwnerSI: 1}}
	if r.Thorough {
		confs = append(confs, srv.Conf{Proto: 2, Dev: fdo.ES384, Owner: fdo.RS384, Entries: 2, OwnerSI: 1}, srv.Conf{Proto: 2, Dev: fdo.ES256, Owner: fdo.ES384, Entries: 5, OwnerSI: 3})
	}
	r.Explore(&hx.Space{Name: "messages of the client tests", MaxDev: 1, Body: func(x *hx.X) {
		c := confs[x.Choose("configuration", len(confs))]
		places := 300
		if c.Proto == 0 && !r.Thorough {
			places = 120
		}
		o := srv.Run(c, picker(x, places), nil)
		if o.Panic != nil {
			x.Fail("crash:"+o.Frame, "the run crashed: %v", o.Panic)
		}
		sent := map[string]bool{}
		for i, t := range o.Turns {
			if !t.Last {
				if t.Bad && t.Test != "" {
					x.Fail("early:"+t.Test, "%s: an earlier message %d (turn %d) of test %s was broken: %s", c, t.Msg, i, t.Test, t.Why)
				}
				continue
			}
			if t.Test == "" {
				continue
			}
			x.Step("%s: %d %s", t.Test, t.Msg, t.Why)
			sent[t.Test] = true
			id := testcom.FDOTestID(t.Test)
			positive := strings.Contains(t.Test, "POSITIVE") || strings.Contains(t.Test, "CHECK_RESP") || !strings.Contains(t.Test, "BAD")
			if positive {
				if t.Bad {
					x.Fail("positive:"+t.Test, "%s: message %d of the positive test %s was broken: %s", c, t.Msg, t.Test, t.Why)
				}
				continue
			}
			if !t.Bad {
				x.Fail("not-broken:"+t.Test, "%s: message %d of test %s is valid", c, t.Msg, t.Test)
			}
			want, ok := clientReasons[id]
			if v, isV := voucherDefects[id]; isV {
				want, ok = "voucher:", true
				hit := false
				for _, d := range strings.FieldsFunc(t.Why, func(r rune) bool { return strings.ContainsRune(" []", r) }) {
					hit = hit || regexp.MustCompile(v).MatchString(strings.TrimSuffix(d, ":true"))
				}
				if !hit {
					x.Fail("way:"+t.Test, "%s: the voucher of test %s is broken in another way: %s", c, t.Test, t.Why)
				}
			}
			if ok && !regexp.MustCompile(want).MatchString(t.Why) {
				x.Fail("way:"+t.Test, "%s: message %d of test %s is broken in another way: %s", c, t.Msg, t.Test, t.Why)
			}
			if m := msgRe.FindStringSubmatch(t.Test); m != nil && m[1] != fmt.Sprint(t.Msg) {
				x.Fail("message:"+t.Test, "%s: test %s broke message %d", c, t.Test, t.Msg)
			}
			x.Outcome(t.Test + ": " + strings.SplitN(t.Why, ":", 2)[0])
		}
		for _, id := range srv.Listed(c.Proto) {
			if !sent[id] {
				x.Fail("not-sent:"+id, "%s: nothing was sent for test %s", c, id)
			}
		}
	}})
}

// serverReasons: what the reference device must find wrong in the answer.
var serverReasons = map[testcom.FDOTestID]string{
	testcom.FIDO_LISTENER_DEVICE_30_BAD_ENCODING:                   `^31|trailing|CBOR|EOF|decode|cbor`,
	testcom.FIDO_LISTENER_DEVICE_60_BAD_OVHDR_OVHEADER:             `^61: voucher header`,
	testcom.FIDO_LISTENER_DEVICE_60_BAD_NONCE_TO2PROVEOV:           `^61: ProveOV nonce`,
	testcom.FIDO_LISTENER_DEVICE_60_BAD_EBSIGNINFO:                 `^61: signature info`,
	testcom.FIDO_LISTENER_DEVICE_60_BAD_HELLODEVICEHASH:            `^61: hello hash`,
	testcom.FIDO_LISTENER_DEVICE_60_BAD_COSE_SIGNATURE:             `^61: (signature does not verify|no ProveDv nonce|owner public key)`,
	testcom.FIDO_LISTENER_DEVICE_60_MISSING_AUTHZ_HEADER:           `^no Authorization`,
	testcom.FIDO_LISTENER_DEVICE_62_BAD_OVENTRYNUM:                 `^63: entry number`,
	testcom.FIDO_LISTENER_DEVICE_62_BAD_OVENTRY_COSE_SIGNATURE:     `^63: entry \d+ differs`,
	testcom.FIDO_LISTENER_DEVICE_64_BAD_NONCE_TO2SETUPDV:           `^65: SetupDv nonce`,
	testcom.FIDO_LISTENER_DEVICE_64_BAD_SETUPDEVICE_COSE_SIGNATURE: `^65: signature`,
	testcom.FIDO_LISTENER_DEVICE_64_BAD_ENC_WRAPPING:               `^65: decrypt`,
	testcom.FIDO_LISTENER_DEVICE_64_BAD_SETUPDEVICE_ENCODING:       `^65: decrypt`,
	testcom.FIDO_LISTENER_DEVICE_66_BAD_ENC_WRAPPING:               `^66: answer does not decrypt`,
	testcom.FIDO_LISTENER_DEVICE_68_BAD_ENC_WRAPPING:               `^68: answer does not decrypt`,
	testcom.FIDO_LISTENER_DEVICE_70_BAD_ENC_WRAPPING:               `^70: answer does not decrypt`,
	testcom.FIDO_LISTENER_DEVICE_70_BAD_NONCE_TO2SETUPDV64:         `^71: SetupDv nonce`,
}

func servers(r *hx.Run) {
	type conf struct {
		proto, dev, owner, entries, suite int
		kex                               string
	}
	confs := []conf{{1, fdo.ES256, fdo.ES256, 1, 1, "ECDH256"}, {1, fdo.ES384, fdo.RS256, 2, 1, "DHKEXid14"},
		{2, fdo.ES256, fdo.ES256, 2, 1, "ECDH256"}, {2, fdo.ES384, fdo.ES384, 1, 33, "ECDH384"}, {2, fdo.ES256, fdo.RS256, 1, 3, "ASYMKEX2048"}}
	if r.Thorough {
		for i, s := range []int{1, 3, 30, 31, 32, 33} {
			confs = append(confs, conf{2, fdo.ES384, []int{fdo.ES256, fdo.ES384}[i%2], i, s, []string{"ECDH256", "ECDH384"}[i%2]})
		}
	}
	r.Explore(&hx.Space{Name: "answers of the device tests", MaxDev: 1, Body: func(x *hx.X) {
		c := confs[x.Choose("configuration", len(confs))]
		if c.entries == 0 {
			c.entries = 7
		}
		w := fdo.NewWorld(fdo.Config{})
		x.Cleanup(w.Close)
		api := fdo.NewApi(w)
		d := fdo.NewDevice(c.dev, c.owner, "dut", c.entries)
		if r := api.CreateDevice("d", d); !r.ApiOK() {
			x.Fail("create", "the device test was not created: %s", r)
		}
		if it := api.DeviceOf(d); it == nil || !api.StartDevice(it.ID, fmt.Sprint(c.proto)).ApiOK() {
			x.Fail("start", "the run was not started")
		}
		msgs := fdo.DutMsgs(c.proto)
		cmd, idx := 0, 0
		seen := map[string]bool{}
		dut := &fdo.Dut{W: w, D: d, Suite: c.suite, Kex: c.kex}
		dut.On = func(msg int, r fdo.Resp, err error) bool {
			if cmd >= len(msgs) || msg != msgs[cmd] {
				if err != nil {
					x.Report(fmt.Sprintf("positive:%d", msg), "%+v: message %d has no test left but was answered wrongly: %v", c, msg, err)
				}
				return err == nil
			}
			l := fdo.DutTests[msg]
			id := l[idx]
			seen[id] = true
			x.Step("%s: %v", id, err)
			if idx++; idx == len(l) {
				cmd, idx = cmd+1, 0
				if err != nil {
					x.Report(fmt.Sprintf("positive:%d", msg), "%+v: the answer of the positive test of message %d is broken: %v", c, msg, err)
				}
				return err == nil
			}
			if err == nil {
				x.Report("not-broken:"+id, "%+v: the answer of test %s is valid", c, id)
				return false
			}
			if r.Panic != nil || r.Status != 200 || r.IsErr() {
				x.Report("refused:"+id, "%+v: the answer of test %s is an error: %s", c, id, r)
			}
			if re, ok := serverReasons[testcom.FDOTestID(id)]; ok && !regexp.MustCompile(re).MatchString(err.Error()) {
				x.Report("way:"+id, "%+v: the answer of test %s is broken in another way: %v", c, id, err)
			}
			x.Outcome(id + ": " + err.Error())
			return false
		}
		p, frame := hx.Guard(func() {
			rnd.With(picker(x, 400), func() {
				for i := 0; i < 60 && cmd < len(msgs); i++ {
					dut.Attempt(c.proto)
				}
			}, nil)
		})
		if p != nil {
			if frame == "harness" {
				panic(p)
			}
			x.Fail("crash:"+frame, "%v", p)
		}
		if cmd < len(msgs) {
			x.Fail("endless", "the run did not finish")
		}
		for _, m := range msgs {
			for _, id := range fdo.DutTests[m] {
				if !seen[id] {
					x.Fail("not-sent:"+id, "test %s was never reached", id)
				}
			}
		}
	}})
}

func spki(pub any) []byte { return fdo.SPKI(pub) }

func main() {
	hx.Main("P24", "every message and answer of every negative and positive test was judged by a strict independent peer", func(r *hx.Run) {
		vouchers(r)
		clients(r)
		servers(r)
	})
}
