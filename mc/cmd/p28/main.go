// P28: every advertised combination of device key, owner key, cipher suite and
// key exchange onboards end to end.
package main

import (
	"fmt"
	"strings"

	"verif/mc/fdo"
	"verif/mc/hx"
)

func main() {
	hx.Main("P28", "full product of device key x owner key x cipher suite x key exchange x voucher length, each driven through TO0, TO1 and TO2 by a reference device", func(r *hx.Run) {
		devs := []int{fdo.ES256, fdo.ES384}
		owners := []int{fdo.ES256, fdo.ES384, fdo.RS256, fdo.RS384}
		lens := []int{1, 3}
		if r.Thorough {
			lens = []int{1, 2, 3, 6}
		}
		r.Explore(&hx.Space{Name: "onboard", Body: func(x *hx.X) {
			da := devs[x.Choose("dev", len(devs))]
			oa := owners[x.Choose("owner", len(owners))]
			su := fdo.Suites[x.Choose("suite", len(fdo.Suites))]
			kx := fdo.KexSuites[x.Choose("kex", len(fdo.KexSuites))]
			n := lens[x.Choose("entries", len(lens))]
			combo := fmt.Sprintf("dev=%s owner=%s cipher=%s kex=%s", fdo.AlgName(da), fdo.AlgName(oa), su.Name, kx)
			x.Logf("%s entries=%d", combo, n)
			x.State(combo + fmt.Sprint(n))
			ecOwner := oa == fdo.ES256 || oa == fdo.ES384
			asym := strings.HasPrefix(kx, "ASYM")
			supported := !su.Unimplemented && !(asym && ecOwner)
			d := fdo.NewDevice(da, oa, "a", n)
			onboard(x, d, da, oa, su, kx, n, combo, supported)
		}})
		total := []int{8, 16, 17, 33, 64, 100}
		if r.Thorough {
			total = []int{8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255}
		}
		r.Explore(&hx.Space{Name: "long vouchers", Body: func(x *hx.X) {
			// many owners, long certificate chains, long texts
			da := devs[x.Choose("dev", len(devs))]
			oa := owners[x.Choose("owner", len(owners))]
			n := total[x.Choose("entries", len(total))]
			inter := []int{0, 1, 4, 8}[x.Choose("intermediates", 4)]
			su, kx := fdo.Suites[0], "ECDH256"
			for _, s := range fdo.Suites {
				if s.ID == 1 {
					su = s
				}
			}
			ch := fdo.NewChainN(fdo.PoolKey(da, "dev-a"), "long", inter)
			var ow []*fdo.Key
			for i := 0; i < n; i++ {
				ow = append(ow, fdo.PoolKey(oa, fmt.Sprintf("own-a-%d", i%3)))
			}
			v := fdo.BuildVoucher(fdo.VoucherSpec{Dev: ch, Mfg: fdo.PoolKey(oa, "mfg-a"), Owners: ow, DevInfo: strings.Repeat("i", 5*n)})
			d := &fdo.Device{V: v, Key: ch.Leaf, GUID: v.Spec.GUID, Alg: da}
			combo := fmt.Sprintf("dev=%s owner=%s %d entries %d intermediates", fdo.AlgName(da), fdo.AlgName(oa), n, inter)
			x.State(combo)
			onboard(x, d, da, oa, su, kx, n, combo, true)
		}})
	})
}

// onboard drives a device through all protocols.
func onboard(x *hx.X, d *fdo.Device, da, oa int, su fdo.Suite, kx string, n int, combo string, supported bool) {
	ecOwner := oa == fdo.ES256 || oa == fdo.ES384
	asym := strings.HasPrefix(kx, "ASYM")
	w := fdo.NewWorld(fdo.Config{NoAPI: true})
	defer w.Close()
	d.Install(w)
	t0 := &fdo.To0{W: w}
	x.Step("20 -> %s", t0.Hello())
	rr, blob := t0.Register(d, 3600, "owner.verif.test")
	x.Step("22 -> %s", rr)
	if !rr.OK(23) {
		x.Fail("register-refused:owner="+fdo.AlgName(oa), "%s: valid registration refused: %s", combo, rr)
	}
	t1 := &fdo.To1{W: w}
	x.Step("30 -> %s", t1.Hello(d.GUID, da))
	p := t1.Prove(d)
	x.Step("32 -> %s", p)
	if !p.OK(33) || string(p.Body) != string(blob) {
		x.Fail("rendezvous-failed:dev="+fdo.AlgName(da), "%s: device did not get the registered blob: %s", combo, p)
	}
	t2 := fdo.NewTo2(w, d, su.ID, kx)
	key := func(stage string) string {
		return fmt.Sprintf("to2-%s:%s/%s/%s/%s", stage, fdo.AlgName(da), fdo.AlgName(oa), su.Name, kx)
	}
	step := func(stage string, rp fdo.Resp, err error) bool {
		x.Step("%s -> %s %v", stage, rp, err)
		if rp.Dropped() {
			x.Fail("drop:"+stage+":"+rp.Frame, "%s: server dropped the connection: %s", combo, rp)
		}
		if err == nil {
			return true
		}
		if supported {
			x.Fail(key(stage), "%s: %v", combo, err)
		}
		if rp.Status == 200 {
			x.Fail(key(stage)+":bogus", "%s: server answered 200 but wrongly: %v", combo, err)
		}
		if !rp.IsErr() {
			x.Fail(key(stage)+":noerr", "%s: refusal is not a protocol error: %s", combo, rp)
		}
		x.Outcome("refused:" + stage)
		return false
	}
	rp, err := t2.Hello()
	if !step("60", rp, err) {
		return
	}
	for i := 0; i < n; i++ {
		rp, err = t2.Entry(i)
		if !step("62", rp, err) {
			return
		}
	}
	if asym && ecOwner {
		// The reference device cannot make the message; send garbage and expect a refusal.
		rp = w.Send(64, t2.Token, fdo.Encode(t2.ProveItem(d.Key, t2.NProveDv, d.GUID, fdo.RandBytes(256), fdo.RandBytes(16))))
		step("64", rp, fmt.Errorf("asymmetric exchange with an EC owner"))
		return
	}
	if su.Unimplemented {
		t2.StartKex()
		rp = w.Send(64, t2.Token, fdo.Encode(t2.ProveItem(d.Key, t2.NProveDv, d.GUID, t2.XB(), fdo.RandBytes(16))))
		if rp.OK(65) {
			return // implemented after all: nothing to say about it here
		}
		step("64", rp, fmt.Errorf("cipher suite not implemented"))
		return
	}
	rp, err = t2.Prove()
	if !step("64", rp, err) {
		return
	}
	rp, err = t2.Ready(nil)
	if !step("66", rp, err) {
		return
	}
	rp, inf, err := t2.Info(false, fdo.Mandatory())
	if !step("68", rp, err) {
		return
	}
	if !inf.Done {
		x.Fail("sim-not-done", "%s: owner with nothing to send is not done", combo)
	}
	rp, err = t2.Done()
	if !step("70", rp, err) {
		return
	}
	x.Outcome("onboarded")
	x.Run().Traces.Add(1)
}
