// P23: the command line does what it reports.
package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/dgraph-io/badger/v4"

	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"

	"verif/mc/fdo"
	"verif/mc/hx"
	"verif/mc/rnd"
	"verif/mc/tool"
)

// child is the command line itself, with its random choices scripted.
func child(args []string) {
	http.DefaultTransport = &http.Transport{DisableKeepAlives: true}
	if len(args) == 1 && args[0] == "settings" {
		ctx := tool.Settings()
		o := map[string]any{}
		for _, k := range settings {
			o[string(k)] = ctx.Value(k)
		}
		json.NewEncoder(os.Stdout).Encode(o)
		return
	}
	var script []int64
	json.Unmarshal([]byte(os.Getenv("VERIF_SCRIPT")), &script)
	os.Args = append([]string{"tool"}, args...)
	rnd.With(func(max int64) (int64, bool) {
		if max > 1<<31 || len(script) == 0 {
			return 0, false
		}
		v := script[0] % max
		script = script[1:]
		return v, true
	}, tool.Main, nil)
}

var settings = []fdoshared.CONFIG_ENTRY{fdoshared.CFG_ENV_PORT, fdoshared.CFG_DEV_ENV, fdoshared.CFG_ENV_FDO_SERVICE_URL, fdoshared.CFG_ENV_INTEROP_ENABLED,
	fdoshared.CFG_ENV_INTEROP_DASHBOARD_URL, fdoshared.CFG_ENV_INTEROP_DASHBOARD_RV_AUTHZ, fdoshared.CFG_ENV_INTEROP_DASHBOARD_DO_AUTHZ, fdoshared.CFG_ENV_INTEROP_DO_TOKEN_MAPPING}

// res is how a command ended.
type res struct {
	code   int
	out    string // both streams
	stdout string
}

func (r res) ok() bool { return r.code == 0 }

// cmd runs one command in dir.
func cmd(x *hx.X, dir string, env []string, args ...string) res {
	return cmdWithin(x, 60*time.Second, dir, env, args...)
}

func cmdWithin(x *hx.X, limit time.Duration, dir string, env []string, args ...string) res {
	ctx, stop := context.WithTimeout(context.Background(), limit)
	defer stop()
	self, _ := os.Executable()
	c := exec.CommandContext(ctx, self, append([]string{"child"}, args...)...)
	c.Dir = dir
	c.Env = append([]string{"PATH=" + os.Getenv("PATH"), "HOME=" + dir, "GOMAXPROCS=2"}, env...)
	var so, all bytes.Buffer
	var mu sync.Mutex
	c.Stdout = lockW{&mu, io.MultiWriter(&so, &all)}
	c.Stderr = lockW{&mu, &all}
	err := c.Run()
	r := res{c.ProcessState.ExitCode(), all.String(), so.String()}
	x.Step("%s -> %d %s", strings.Join(args, " "), r.code, last(r.out))
	if ctx.Err() != nil {
		x.Fail("hangs:"+args[0], "%v does not end", args)
	}
	if err != nil && r.code < 0 {
		x.Fail("killed:"+args[0], "%v: %v", args, err)
	}
	if strings.Contains(r.out, "goroutine 1 [running]") || strings.Contains(r.out, "fatal error:") {
		x.Fail("crash:"+strings.Join(args[:min(2, len(args))], " "), "%v crashes: %s", args, crashLine(r.out))
	}
	x.State(strings.Join(args[:min(2, len(args))], " ") + fmt.Sprint(r.code))
	return r
}

func crashLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
			return l
		}
	}
	return "?"
}

type lockW struct {
	mu *sync.Mutex
	w  io.Writer
}

func (l lockW) Write(b []byte) (int, error) { l.mu.Lock(); defer l.mu.Unlock(); return l.w.Write(b) }

func last(s string) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	return l[len(l)-1]
}

// scratch makes a directory for one execution.
func scratch(x *hx.X) string {
	d, err := os.MkdirTemp("", "verif-p23-")
	if err != nil {
		panic(err)
	}
	x.Cleanup(func() { os.RemoveAll(d) })
	for _, s := range []string{"_dis", "_vouchers"} {
		os.Mkdir(filepath.Join(d, s), 0o755)
	}
	return d
}

// serve gives a handler a real address.
func serve(x *hx.X, h http.Handler) string {
	s := httptest.NewUnstartedServer(h)
	s.Config.ErrorLog = log.New(io.Discard, "", 0)
	s.Start()
	x.Cleanup(s.Close)
	return s.URL
}

const dbDir = "badger.local.db"

func openDB(dir string) *badger.DB {
	o := badger.DefaultOptions(filepath.Join(dir, dbDir)).WithLogger(nil).WithMemTableSize(8 << 20).WithNumMemtables(2).WithValueLogFileSize(16 << 20).
		WithBlockCacheSize(1 << 20).WithNumCompactors(2).WithValueThreshold(512 << 10).WithMetricsEnabled(false).WithBypassLockGuard(true) // a fork of another worker may hold the lock for a moment
	db, err := badger.Open(o)
	if err != nil {
		panic(err)
	}
	return db
}

func store(dir string, recs map[string]fdo.Rec) {
	db := openDB(dir)
	defer db.Close()
	if err := db.Update(func(t *badger.Txn) error {
		for k, r := range recs {
			e := badger.NewEntry([]byte(k), r.Val)
			e.ExpiresAt = r.Exp
			if err := t.SetEntry(e); err != nil {
				return err
			}
		}
		return nil
	}); err != nil {
		panic(err)
	}
}

func stored(dir string) map[string]fdo.Rec {
	db := openDB(dir)
	defer db.Close()
	return fdo.Records(db)
}

func diff(a, b map[string]fdo.Rec) (o []string) {
	for k, r := range a {
		if s, ok := b[k]; !ok {
			o = append(o, fmt.Sprintf("%q gone", k))
		} else if !bytes.Equal(r.Val, s.Val) || r.Exp != s.Exp {
			o = append(o, fmt.Sprintf("%q changed", k))
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			o = append(o, fmt.Sprintf("%q added", k))
		}
	}
	sort.Strings(o)
	return
}

func guidText(g []byte) string {
	h := hex.EncodeToString(g)
	return h[:8] + "-" + h[8:12] + "-" + h[12:16] + "-" + h[16:20] + "-" + h[20:]
}

func diPem(d *fdo.Device) []byte {
	b, err := fdoshared.CborCust.Marshal(d.CredOf())
	if err != nil {
		panic(err)
	}
	return pem.EncodeToMemory(&pem.Block{Type: "WAW FDO DEVICE CREDENTIAL", Bytes: b})
}

func write(dir, name string, b []byte) string {
	p := filepath.Join(dir, name)
	if err := os.WriteFile(p, b, 0o644); err != nil {
		panic(err)
	}
	return p
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "child" {
		child(os.Args[2:])
		return
	}
	hx.Main("P23", "the command line itself run as a process over enumerated databases, voucher folders, generated devices, broken files and misbehaving peers", func(r *hx.Run) {
		r.Explore(&hx.Space{Name: "reset", Body: reset})
		r.Explore(&hx.Space{Name: "load", Body: func(x *hx.X) { load(x, r.Thorough) }})
		r.Explore(&hx.Space{Name: "push", Body: push})
		r.Explore(&hx.Space{Name: "many files", Body: func(x *hx.X) { many(x, r.Thorough) }})
		r.Explore(&hx.Space{Name: "whole life", Body: func(x *hx.X) { life(x, r.Thorough) }})
		r.Explore(&hx.Space{Name: "rendezvous", Body: to1})
		r.Explore(&hx.Space{Name: "onboarding", Body: to2})
		r.Explore(&hx.Space{Name: "onboarding that never ends", Body: endless})
		r.Explore(&hx.Space{Name: "onboarding reports", Body: reports})
		r.Explore(&hx.Space{Name: "files", Body: func(x *hx.X) { files(x, r.Thorough) }})
		if tool.HasSettings {
			r.Explore(&hx.Space{Name: "settings", Body: env})
		}
	})
}

// reset removes exactly the users or the device tests.
func reset(x *hx.X) {
	dir := scratch(x)
	users, devs, other := x.Choose("users", 4), x.Choose("device tests", 3), x.Choose("others", 2) == 1
	recs := map[string]fdo.Rec{}
	mem := fdo.NewWorld(fdo.Config{})
	api := fdo.NewApi(mem)
	var ds []*fdo.Device
	for i := 0; i < devs; i++ {
		d := fdo.NewDevice(fdo.ES256, fdo.ES256, fmt.Sprint("d", i), 1)
		ds = append(ds, d)
		if r := api.CreateDevice("d", d); !r.ApiOK() {
			x.Fail("create", "%s", r)
		}
		if i == 0 {
			api.StartDevice(api.DeviceOf(d).ID, "1")
			api.StartDevice(api.DeviceOf(d).ID, "2")
		}
	}
	if other {
		mem.Seed(1)
		api.CreateRvt("http://rv.verif.test")
		fdo.NewDevice(fdo.ES256, fdo.ES256, "o", 1).Install(mem)
	}
	for k, v := range fdo.Records(mem.DB) {
		switch {
		case strings.HasPrefix(k, "usere-"):
			for i := 0; i < users; i++ {
				recs[k+strings.Repeat("x", i)] = v
			}
		default:
			recs[k] = v
		}
	}
	mem.Close()
	for _, k := range []string{"lstda-x", "lstdc-x", "userd-x", "userf-x", "", "zz"} {
		if other && k != "" {
			recs[k] = fdo.Rec{Val: []byte("other")}
		}
	}
	what := []string{"users", "listenerdb"}[x.Choose("what", 2)]
	prefix := map[string]string{"users": "usere-", "listenerdb": "lstdb-"}[what]
	store(dir, recs)
	want := map[string]fdo.Rec{}
	for k, v := range stored(dir) {
		if !strings.HasPrefix(k, prefix) {
			want[k] = v
		}
	}
	x.Logf("%d records, %d to keep", len(recs), len(want))
	for n := 0; n < 2; n++ {
		r := cmd(x, dir, nil, "reset", what)
		if !r.ok() {
			x.Fail("reset-fails:"+what, "reset %s fails: %s", what, last(r.out))
		}
		if d := diff(want, stored(dir)); len(d) > 0 {
			x.Fail("reset:"+what, "with %d users and %d device tests, after run %d of reset %s: %v", users, devs, n+1, what, d)
		}
	}
	// the server goes on with what is left
	db := openDB(dir)
	w := fdo.NewWorld(fdo.Config{DB: db})
	x.Cleanup(func() { w.Close(); db.Close() })
	a := fdo.NewApi(w)
	if l, r := a.Devices(); !r.ApiOK() || len(l) > 0 && what == "listenerdb" {
		x.Fail("after-reset", "after reset %s the devices are listed as %s", what, r)
	}
	if _, r := a.Servers("rvt"); !r.ApiOK() {
		x.Fail("after-reset", "after reset %s the servers are listed as %s", what, r)
	}
	for _, d := range ds {
		if r := a.CreateDevice("again", d); !r.ApiOK() {
			x.Fail("after-reset", "after reset %s a device cannot be added: %s", what, r)
		}
		it := a.DeviceOf(d)
		if it == nil {
			x.Fail("after-reset", "after reset %s an added device is not listed", what)
		}
		if r := a.StartDevice(it.ID, "1"); !r.ApiOK() {
			x.Fail("after-reset", "after reset %s a run cannot be started: %s", what, r)
		}
	}
	x.Outcome("reset " + what)
}

// vfile is a file for the voucher folder.
type vfile struct {
	name   string
	body   func(dir string, d *fdo.Device)
	valid  bool
	ignore bool
}

var kinds = []vfile{
	{"good.pem", func(p string, d *fdo.Device) { os.WriteFile(p, []byte(d.Pem()), 0o644) }, true, false},
	{"note.txt", func(p string, d *fdo.Device) { os.WriteFile(p, []byte(d.Pem()), 0o644) }, false, true},
	{"dir.pem", func(p string, d *fdo.Device) { os.Mkdir(p, 0o755) }, false, true},
	{"garbage.pem", func(p string, d *fdo.Device) { os.WriteFile(p, []byte("garbage"), 0o644) }, false, false},
	{"empty.pem", func(p string, d *fdo.Device) { os.WriteFile(p, nil, 0o644) }, false, false},
	{"nokey.pem", func(p string, d *fdo.Device) {
		os.WriteFile(p, pem.EncodeToMemory(&pem.Block{Type: "OWNERSHIP VOUCHER", Bytes: fdo.Encode(d.V.Tree())}), 0o644)
	}, false, false},
	{"forged.pem", func(p string, d *fdo.Device) {
		e := d.V.Entries[len(d.V.Entries)-1]
		l := fdo.Clone(e.V).([]any)
		s := append([]byte{}, l[3].([]byte)...)
		s[5] ^= 1
		l[3] = s
		d.V.Entries[len(d.V.Entries)-1] = fdo.Tag{N: e.N, V: l}
		os.WriteFile(p, []byte(d.Pem()), 0o644)
	}, false, false},
	{"truncated.pem", func(p string, d *fdo.Device) {
		t := fdo.Encode(d.V.Tree())
		b := pem.EncodeToMemory(&pem.Block{Type: "OWNERSHIP VOUCHER", Bytes: t[:len(t)-3]})
		os.WriteFile(p, append(b, pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: d.V.Owner().PKCS8})...), 0o644)
	}, false, false},
	{"swapped.pem", func(p string, d *fdo.Device) {
		b := pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: d.V.Owner().PKCS8})
		os.WriteFile(p, append(b, pem.EncodeToMemory(&pem.Block{Type: "OWNERSHIP VOUCHER", Bytes: fdo.Encode(d.V.Tree())})...), 0o644)
	}, false, false},
}

// load adds the vouchers of a folder to the owner's store.
func load(x *hx.X, thorough bool) {
	dir := scratch(x)
	folder := filepath.Join(dir, "in")
	os.Mkdir(folder, 0o755)
	before := fdo.NewDevice(fdo.ES256, fdo.ES256, "before", 1)
	w := fdo.NewWorld(fdo.Config{NoAPI: true})
	before.Install(w)
	recs := fdo.Records(w.DB)
	w.Close()
	store(dir, recs)
	n := 2
	if thorough {
		n = 3
	}
	owners := []int{fdo.ES256, fdo.ES384, fdo.RS256, fdo.RS384}
	allGood, some := true, false
	var good []*fdo.Device
	var names []string
	for i := 0; i < n; i++ {
		k := x.Choose("file", len(kinds)+1)
		if k == 0 {
			continue
		}
		some = true
		f := kinds[k-1]
		d := fdo.NewDevice([]int{fdo.ES256, fdo.ES384}[i%2], owners[(k+i)%4], fmt.Sprint("l", i), 1+i)
		f.body(filepath.Join(folder, fmt.Sprintf("%d-%s", i, f.name)), d)
		names = append(names, f.name)
		if f.valid {
			good = append(good, d)
		} else if !f.ignore {
			allGood = false
		}
	}
	x.Logf("%v", names)
	r := cmd(x, dir, nil, "iop", "do_load_vouchers", folder)
	want := allGood && some
	if r.ok() != want {
		x.Fail("load-status", "loading %v ends with status %d: %s", names, r.code, last(r.out))
	}
	db := openDB(dir)
	w = fdo.NewWorld(fdo.Config{NoAPI: true, DB: db})
	defer db.Close()
	defer w.Close()
	now := fdo.Records(db)
	extra := len(now) - len(recs)
	for k, v := range recs {
		if !bytes.Equal(now[k].Val, v.Val) {
			x.Fail("load-lost", "loading %v changed record %q", names, k)
		}
	}
	found := 0
	for _, d := range good {
		t := fdo.NewTo2(w, d, 1, "ECDH256")
		err := t.Reach(66)
		if err == nil {
			if _, _, err = t.Info(false, fdo.Mandatory()); err == nil {
				_, err = t.Done()
			}
		}
		if err == nil {
			found++
		} else if want {
			x.Fail("load-missing", "after loading %v the device of a valid voucher cannot be onboarded: %v", names, err)
		}
	}
	if now := len(fdo.Records(db)); now < extra || extra > len(good) || extra < found {
		x.Fail("load-extra", "loading %v added %d records for %d valid vouchers", names, extra, len(good))
	}
	x.Outcome(fmt.Sprintf("load ok=%v", want))
}

// push registers every stored voucher with a rendezvous service.
func push(x *hx.X) {
	dir := scratch(x)
	urls := []struct {
		url  string
		addr []any
	}{
		{"http://owner.verif.test:8043", fdo.A(nil, "owner.verif.test", 8043, 3)},
		{"https://10.1.2.3/x", fdo.A([]byte{10, 1, 2, 3}, nil, 443, 5)},
		{"", fdo.A(nil, "localhost", 8080, 3)},
	}
	u := urls[x.Choose("service url", len(urls))]
	n := x.Choose("vouchers", 4)
	w := fdo.NewWorld(fdo.Config{NoAPI: true})
	ref := fdo.NewRef()
	var ds []*fdo.Device
	for i := 0; i < n; i++ {
		d := fdo.NewDevice([]int{fdo.ES256, fdo.ES384}[i%2], []int{fdo.RS256, fdo.ES256, fdo.ES384}[i], fmt.Sprint("p", i), i+1)
		d.Install(w)
		ds = append(ds, d)
	}
	recs := fdo.Records(w.DB)
	w.Close()
	recs["wouchers-x"] = fdo.Rec{Val: []byte("x")}
	recs["voucheq-x"] = fdo.Rec{Val: []byte("x")}
	store(dir, recs)
	turn, at, how := 0, -1, 0
	if n > 0 {
		if f := x.Choose("fault", 2*n*4+1); f > 0 {
			at, how = (f-1)/4, (f-1)%4
		}
	}
	ref.Tap = func(t *fdo.Turn) {
		if turn == at {
			switch how {
			case 0:
				t.Ans.Drop = true
			case 1:
				t.Ans.Wrap, t.Ans.Status = func([]byte) []byte { return fdo.ErrBody(100, t.Msg, "no") }, 400
			case 2:
				t.Ans.Wrap, t.Ans.Status = func([]byte) []byte { return []byte("oops") }, 500
			case 3:
				t.Ans.Wrap = func(b []byte) []byte { return b[:len(b)-1] }
			}
		} else if t.Why != nil {
			x.Report("push-refused", "the reference refuses message %d: %v", t.Msg, t.Why)
		}
		turn++
	}
	var e []string
	if u.url != "" {
		e = []string{"FDO_SERVICE_URL=" + u.url}
	}
	r := cmd(x, dir, e, "iop", "rv_push_vouchers", serve(x, ref))
	if r.ok() != (at < 0) {
		x.Fail("push-status", "pushing %d vouchers with the answer to message %d broken (%d) ends with status %d: %s", n, at, how, r.code, last(r.out))
	}
	for i, d := range ds {
		blob := ref.Registered(d.GUID)
		if at < 0 && blob == nil {
			x.Fail("push-missing", "voucher %d of %d is not registered", i, n)
		}
		said := false
		for _, l := range strings.Split(r.out, "\n") {
			said = said || strings.Contains(l, "Success") && strings.Contains(l, guidText(d.GUID))
		}
		if said && blob == nil || at < 0 && !said {
			x.Fail("push-report", "voucher %d: registered %v, reported %v", i, blob != nil, said)
		}
		if blob != nil {
			p, err := fdo.ParseSign1(fdo.MustDecode(blob))
			if err != nil {
				x.Fail("push-blob", "%v", err)
			}
			l := fdo.MustDecode(p.Payload).([]any)[0]
			if got, want := fmt.Sprintf("%x", fdo.Encode(l)), fmt.Sprintf("%x", fdo.Encode(fdo.A(u.addr))); got != want {
				x.Fail("push-address", "the service at %q is registered as %s instead of %s", u.url, got, want)
			}
		}
	}
	if d := diff(recs, stored(dir)); len(d) > 0 {
		x.Fail("push-changes", "pushing changes the store: %v", d)
	}
	x.Outcome(fmt.Sprintf("push ok=%v", r.ok()))
}

// many loads, registers and onboards the vouchers of many files.
func many(x *hx.X, thorough bool) {
	dir := scratch(x)
	folder := filepath.Join(dir, "in")
	os.Mkdir(folder, 0o755)
	n := []int{1, 12, 40}[x.Choose("files", 3)]
	style := x.Choose("names", 4)
	long := x.Choose("long vouchers", 2) == 1
	bad := x.Choose("bad file", 4) // none, first, middle, last
	var ds []*fdo.Device
	for i := 0; i < n; i++ {
		var ow []*fdo.Key
		for e := 0; e < 1+i%3+30*map[bool]int{true: 1}[long]; e++ {
			ow = append(ow, fdo.PoolKey([]int{fdo.ES256, fdo.RS256}[i%2], fmt.Sprintf("own-many-%d", e%3)))
		}
		c := fdo.PoolChain(fdo.ES256, fmt.Sprint("many-", i%4))
		v := fdo.BuildVoucher(fdo.VoucherSpec{Dev: c, Mfg: fdo.PoolKey(fdo.ES256, "mfg-many"), Owners: ow})
		d := &fdo.Device{V: v, Key: c.Leaf, GUID: v.Spec.GUID, Alg: fdo.ES256}
		ds = append(ds, d)
		name := []string{fmt.Sprintf("%03d.pem", i), fmt.Sprintf("%03d %s.pem", i, strings.Repeat("long ", 44)), fmt.Sprintf("\u00fc%d.\u4e16.pem", i), fmt.Sprintf("a.b.%d.txt.pem", i)}[style]
		os.WriteFile(filepath.Join(folder, name), []byte(d.Pem()), 0o644)
		if bad > 0 && i == []int{0, n / 2, n - 1}[bad-1] {
			os.WriteFile(filepath.Join(folder, name), []byte("garbage"), 0o644)
		}
	}
	r := cmd(x, dir, nil, "iop", "do_load_vouchers", folder)
	if r.ok() != (bad == 0) {
		x.Fail("many-load-status", "loading %d files with the bad one at %d ends with status %d: %s", n, bad, r.code, last(r.out))
	}
	if bad > 0 {
		x.Outcome("bad among many")
		return
	}
	ref := fdo.NewRef()
	r = cmd(x, dir, []string{"FDO_SERVICE_URL=http://owner.verif.test:8043"}, "iop", "rv_push_vouchers", serve(x, ref))
	if !r.ok() {
		x.Fail("many-push-status", "pushing %d vouchers ends with status %d: %s", n, r.code, last(r.out))
	}
	db := openDB(dir)
	defer db.Close()
	w := fdo.NewWorld(fdo.Config{NoAPI: true, DB: db})
	defer w.Close()
	for i, d := range ds {
		if ref.Registered(d.GUID) == nil {
			x.Fail("many-push-missing", "voucher %d of %d is not registered", i, n)
		}
		t := fdo.NewTo2(w, d, 1, "ECDH256")
		err := t.Reach(66)
		if err == nil {
			if _, _, err = t.Info(false, fdo.Mandatory()); err == nil {
				_, err = t.Done()
			}
		}
		if err != nil {
			x.Fail("many-load-missing", "after loading %d vouchers device %d cannot be onboarded: %v", n, i, err)
		}
	}
	x.Outcome("many")
}

// life generates a device, hands its voucher to a service and onboards it.
func life(x *hx.X, thorough bool) {
	dir := scratch(x)
	script := []int64{int64(x.Choose("device key", 2)), int64(x.Choose("owner key", 4)), int64(x.Choose("owners", 4)), 0}
	js, _ := json.Marshal(script)
	r := cmd(x, dir, []string{"VERIF_SCRIPT=" + string(js)}, "iop", "generate")
	if !r.ok() {
		x.Fail("generate", "generation fails: %s", last(r.out))
	}
	vs, _ := filepath.Glob(filepath.Join(dir, "_vouchers", "*"))
	is, _ := filepath.Glob(filepath.Join(dir, "_dis", "*"))
	if len(vs) != 1 || len(is) != 1 || !strings.HasSuffix(vs[0], ".pem") || !strings.HasSuffix(is[0], ".pem") {
		x.Fail("generate-files", "generation leaves %v and %v", vs, is)
	}
	for _, p := range []string{vs[0], is[0]} {
		if !strings.Contains(r.out, filepath.Base(p)) {
			x.Fail("generate-says", "generation does not name %s", p)
		}
	}
	// the voucher is a valid one with the key of its last owner
	vb, _ := os.ReadFile(vs[0])
	vp, rest := pem.Decode(vb)
	kp, _ := pem.Decode(rest)
	if vp == nil || kp == nil || vp.Type != "OWNERSHIP VOUCHER" {
		x.Fail("generate-pem", "%s", vb)
	}
	inf := fdo.CheckVoucher(vp.Bytes)
	if len(inf.Defects) > 0 || inf.Entries == 0 {
		x.Fail("generate-voucher", "the generated voucher is broken: %v, %d entries", inf.Defects, inf.Entries)
	}
	k, err := fdo.ParseKey(kp.Bytes)
	if err != nil {
		x.Fail("generate-key", "%v", err)
	}
	if !bytes.Equal(fdo.SPKI(k.Priv.Public()), fdo.SPKI(inf.FinalPub)) {
		x.Fail("generate-key", "the generated key is not the last owner's")
	}
	x.State(fmt.Sprintf("%s/%d", fdo.AlgName(k.Alg), inf.Entries))
	// what it says when asked
	rd := cmd(x, dir, nil, "decode_voucher", vs[0])
	if !rd.ok() || !strings.Contains(rd.out, guidText(inf.GUID)) {
		x.Fail("decode", "decoding a voucher of %s: %s", guidText(inf.GUID), rd.out)
	}
	// owner
	if r := cmd(x, dir, nil, "iop", "do_load_vouchers", filepath.Join(dir, "_vouchers")); !r.ok() {
		x.Fail("life-load", "%s", last(r.out))
	}
	// rendezvous
	rvw := fdo.NewWorld(fdo.Config{NoAPI: true})
	defer rvw.Close()
	rv := serve(x, rvw.Mux)
	if r := cmd(x, dir, []string{"FDO_SERVICE_URL=http://owner.verif.test:8043"}, "iop", "rv_push_vouchers", rv); !r.ok() {
		x.Fail("life-push", "%s", last(r.out))
	}
	if r := cmd(x, dir, nil, "iop", "to1", rv, is[0]); !r.ok() || !said(r, "Success") || !strings.Contains(last(r.out), "owner.verif.test") || !strings.Contains(last(r.out), "8043") {
		x.Fail("life-to1", "%s", r.out)
	}
	// onboarding, with a dashboard or without
	db := openDB(dir)
	iop := x.Choose("interop", 3)
	var events []string
	dash := serve(x, http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		b, _ := io.ReadAll(q.Body)
		events = append(events, fmt.Sprintf("%s %s %x", q.URL.Path, q.Header.Get("Authorization"), b))
	}))
	conf := fdo.Config{NoAPI: true, DB: db}
	var e []string
	if iop > 0 {
		conf.Interop = true
		conf.SimMap = "[]"
		if iop == 2 {
			conf.SimMap = fmt.Sprintf(`[["%x","Bearer DEVICE-tok"]]`, inf.GUID)
		}
		e = []string{"FDO_SERVICE_URL=http://owner.verif.test", "INTEROP_DASHBOARD_URL=" + dash, "INTEROP_DASHBOARD_RV_AUTHZ=r", "INTEROP_DASHBOARD_DO_AUTHZ=d", "INTEROP_DO_TOKEN_MAPPING=[]"}
	}
	w := fdo.NewWorld(conf)
	srv := serve(x, w.Mux)
	r2 := cmd(x, dir+"", e, "iop", "to2", srv, is[0])
	w.Close()
	db.Close()
	if !r2.ok() || !said(r2, "Success To2") {
		x.Fail("life-to2", "%s", r2.out)
	}
	x.Logf("events %v", events)
	if want := map[bool]int{true: 1}[iop == 2]; len(events) != want || want == 1 && !strings.HasPrefix(events[0], "/logger/101/msg Bearer DEVICE-tok 8350"+hex.EncodeToString(inf.GUID)+"0250") {
		x.Fail("life-event", "interop %d: the device reports %v", iop, events)
	}
	// a stranger with the same GUID is not onboarded
	if thorough || script[2] == 0 && iop == 0 {
		db = openDB(dir)
		conf.DB = db
		w = fdo.NewWorld(conf)
		srv = serve(x, w.Mux)
		d := fdo.NewDevice(fdo.ES256, fdo.ES256, "stranger", 1)
		c := d.CredOf()
		copy(c.DCGuid[:], inf.GUID)
		b, _ := fdoshared.CborCust.Marshal(c)
		p := write(dir, "s.pem", pem.EncodeToMemory(&pem.Block{Type: "WAW FDO DEVICE CREDENTIAL", Bytes: b}))
		r3 := cmd(x, dir, nil, "iop", "to2", srv, p)
		w.Close()
		db.Close()
		if r3.ok() || said(r3, "Success") {
			x.Fail("life-stranger", "a device with other keys is onboarded: %s", r3.out)
		}
	}
	x.Outcome("life")
}

func said(r res, s string) bool { return strings.Contains(r.out, s) }

// to1 reports the owner's address exactly when the rendezvous works.
func to1(x *hx.X) {
	dir := scratch(x)
	alg := []int{fdo.ES256, fdo.ES384}[x.Choose("device", 2)]
	d := fdo.NewDevice(alg, fdo.ES256, "t1", 2)
	ref := fdo.NewRef()
	addrs := [][]any{
		fdo.A(fdo.A(nil, "o.verif.test", 8043, 3)),
		fdo.A(fdo.A([]byte{10, 9, 8, 7}, nil, 1, 5)),
		fdo.A(fdo.A([]byte{10, 9, 8, 7}, "both.verif.test", 65535, 3)),
		fdo.A(fdo.A(append([]byte{0x20, 1}, make([]byte, 14)...), nil, 443, 5)),
		fdo.A(fdo.A(nil, "a.verif.test", 1, 3), fdo.A(nil, "b.verif.test", 2, 3)),
		fdo.A(),
		fdo.A(fdo.A(nil, nil, 80, 3)),
		fdo.A(fdo.A(nil, "o", 80)),
		fdo.A(nil),
		nil,
		fdo.A(fdo.A([]byte{1, 2, 3}, nil, 80, 3)),
	}
	ai := x.Choose("addresses", len(addrs))
	var l any = addrs[ai]
	if addrs[ai] == nil {
		l = nil
	}
	blob := d.V.Owner().Sign1(nil, fdo.Encode(fdo.A(l, fdo.Hash(-16, []byte("to0d")))))
	ref.SetBlob(d.GUID, blob, d.V.Spec.Dev.Certs)
	fault := x.Choose("fault", 2*4+1)
	n := 0
	ref.Tap = func(t *fdo.Turn) {
		if t.Why != nil {
			x.Report("to1-refused", "the reference refuses %d: %v", t.Msg, t.Why)
		}
		if fault > 0 && n == (fault-1)/4 {
			broken(t, (fault-1)%4)
		}
		n++
	}
	r := cmd(x, dir, nil, "iop", "to1", serve(x, ref), write(dir, "d.pem", diPem(d)))
	good := fault == 0 && ai < 5
	unsure := ai == 6 || ai == 10 || ai == 8 // an address without a place in it
	if fault > 0 || !unsure {
		if r.ok() != good || said(r, "Success") != good {
			x.Fail("to1-report", "addresses %d, fault %d: status %d: %s", ai, fault, r.code, last(r.out))
		}
	}
	if good {
		for _, s := range [][]string{{"o.verif.test", "8043"}, {"10.9.8.7", "1"}, {"10.9.8.7", "both.verif.test", "65535"}, {"2001::", "443"}, {"a.verif.test", "1"}}[ai] {
			if !strings.Contains(last(r.out), s) {
				x.Fail("to1-address", "the address is reported as %s", last(r.out))
			}
		}
	}
	x.Outcome(fmt.Sprintf("to1 ok=%v", r.ok()))
}

func broken(t *fdo.Turn, how int) {
	switch how {
	case 0:
		t.Ans.Drop = true
	case 1:
		t.Ans.Wrap, t.Ans.Status = func([]byte) []byte { return fdo.ErrBody(100, t.Msg, "no") }, 400
	case 2:
		t.Ans.Wrap, t.Ans.Status = func([]byte) []byte { return []byte("oops") }, 500
	case 3:
		t.Ans.Wrap = func(b []byte) []byte { return b[:len(b)-1] }
	}
}

// to2 succeeds exactly when the service proves the whole chain of owners and every answer is right.
func to2(x *hx.X) {
	dir := scratch(x)
	n := 1 + x.Choose("entries", 3)
	d := fdo.NewDevice(fdo.ES256, []int{fdo.ES256, fdo.RS256, fdo.ES384}[n-1], "t2", n)
	other := fdo.NewDevice(fdo.ES256, []int{fdo.ES256, fdo.RS256, fdo.ES384}[n-1], "t2o", n)
	ref := fdo.NewRef()
	ref.AddVoucher(d.V.Tree(), d.V.Owner())
	if x.Choose("owner items", 2) == 1 {
		ref.OwnerSI = []fdo.SI{{K: "fido_alliance:active", V: fdo.Encode(true)}, {K: "fido_alliance:dev_conformance", V: []byte("tok")}}
	}
	kind := x.Choose("fault", 3)
	var what string
	var fix func(i int, t *fdo.Turn)
	crashOnly := false
	switch kind {
	case 1: // any answer broken
		at, how := x.Choose("turn", 40), x.Choose("how", 4)
		what = fmt.Sprintf("answer %d broken (%d)", at, how)
		fix = func(i int, t *fdo.Turn) {
			if i == at {
				broken(t, how)
			}
		}
	case 2:
		f := x.Choose("lie", 9)
		i0 := x.Choose("entry", n)
		item := func(t *fdo.Turn, msg int, g func(a []any)) {
			if t.Msg == msg && t.Why == nil {
				a := fdo.Clone(t.Ans.Tree).([]any)
				g(a)
				t.Ans.Tree = a
			}
		}
		entry := 0
		fix = func(_ int, t *fdo.Turn) {
			switch f {
			case 0, 1, 2, 3:
				item(t, 60, func(a []any) { a[1] = []int{0, n - 1, n + 1, 255}[f] })
			case 4, 5, 6, 7:
				if t.Msg == 62 {
					e := entry
					entry++
					if e != i0 {
						return
					}
				}
				item(t, 62, func(a []any) {
					switch f {
					case 4:
						a[0] = n + 1
					case 5:
						a[1] = other.V.Entries[i0]
					case 6:
						a[1] = d.V.Entries[(i0+1)%n]
					case 7: // the entry passes to a stranger
						e := d.V.Entries[i0]
						l := fdo.Clone(e.V).([]any)
						p := fdo.MustDecode(l[2].([]byte)).([]any)
						p[3] = fdo.PoolKey(d.V.Owner().Alg, "mallory").Pub()
						l[2] = fdo.Encode(p)
						a[1] = fdo.Tag{N: e.N, V: l}
					}
				})
			case 8: // another owner signs
				if t.Msg == 60 && t.Why == nil {
					k := fdo.PoolKey(d.V.Owner().Alg, "mallory")
					t.Ans.Signer = k
					un := fdo.Clone(t.Ans.Unprot).(fdo.Map)
					for i := range un {
						if v, ok := fdo.ToInt(un[i].K); ok && v == 257 {
							un[i].V = k.Pub()
						}
					}
					t.Ans.Unprot = un
				}
			}
		}
		if f == 6 && n == 1 || f < 4 && i0 > 0 || f == 8 && i0 > 0 {
			x.Prune("same")
		}
		if f == 0 || f == 1 && n == 1 {
			crashOnly = true // the manufacturer as owner
		}
		what = fmt.Sprintf("lie %d about entry %d of %d", f, i0, n)
	}
	turns := 0
	ref.Tap = func(t *fdo.Turn) {
		if kind == 0 && t.Why != nil {
			x.Report("to2-refused", "the reference refuses %d: %v", t.Msg, t.Why)
		}
		if fix != nil {
			fix(turns, t)
		}
		turns++
	}
	r := cmd(x, dir, nil, "iop", "to2", serve(x, ref), write(dir, "d.pem", diPem(d)))
	if kind == 1 {
		var at int
		fmt.Sscanf(what, "answer %d", &at)
		if at >= turns {
			kind = 0
		}
	}
	good := kind == 0
	if !crashOnly && (r.ok() != good || said(r, "Success To2") != good) {
		x.Fail("to2-report", "%d entries, %s: status %d: %s", n, what, r.code, last(r.out))
	}
	x.Outcome(fmt.Sprintf("to2 ok=%v", r.ok()))
}

// endless: an owner that is never done does not keep the command for ever.
func endless(x *hx.X) {
	dir := scratch(x)
	d := fdo.NewDevice(fdo.ES256, fdo.ES256, "t2", 1)
	ref := fdo.NewRef()
	ref.AddVoucher(d.V.Tree(), d.V.Owner())
	l := []any{}
	if x.Choose("items", 2) == 1 {
		l = append(l, fdo.A("m:k", []byte{1}))
	}
	ref.Undone = fdo.A(x.Choose("more", 2) == 1, false, l)
	n := 0
	ref.Tap = func(t *fdo.Turn) {
		if t.Why != nil {
			x.Report("to2-refused", "the reference refuses %d: %v", t.Msg, t.Why)
		}
		if t.Msg == 68 {
			n++
		}
	}
	r := cmdWithin(x, 25*time.Second, dir, nil, "iop", "to2", serve(x, ref), write(dir, "d.pem", diPem(d)))
	if r.ok() || said(r, "Success To2") {
		x.Fail("to2-report", "an owner that is never done: status %d: %s", r.code, last(r.out))
	}
	if n < 40 {
		x.Report("to2-early", "the command gives up after %d answers: %s", n, last(r.out))
	}
	x.Outcome("ends")
}

// reports: a device that has been onboarded tells the dashboard so, with the token its owner gave to it.
func reports(x *hx.X) {
	dir := scratch(x)
	d := fdo.NewDevice(fdo.ES256, fdo.ES256, "t2", 1)
	ref := fdo.NewRef()
	ref.AddVoucher(d.V.Tree(), d.V.Owner())
	active, tok, alien := fdo.SI{K: "fido_alliance:active", V: fdo.Encode(true)}, fdo.SI{K: "fido_alliance:dev_conformance", V: []byte("Bearer T/+=1")}, fdo.SI{K: "m:k", V: []byte{1}}
	lists := [][]fdo.SI{nil, {active}, {active, tok}, {tok}, {alien, active, tok, alien}}
	li := x.Choose("owner items", len(lists))
	ref.OwnerSI = lists[li]
	base := []string{"", "/", "/a/b"}[x.Choose("base", 3)]
	iop := x.Choose("dashboard", 2) == 1
	mode := 0
	if iop {
		mode = x.Choose("it answers", 3)
	}
	fault := x.Choose("fault", 1+2*4)
	if fault > 0 && (base != "" || mode > 0) {
		x.Prune("same")
	}
	var mu sync.Mutex
	var got []string
	dash := serve(x, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		mu.Lock()
		got = append(got, fmt.Sprintf("%s %s %q %q %x", r.Method, r.URL.Path, r.Header.Get("Authorization"), r.Header.Get("Content-Type"), b))
		mu.Unlock()
		switch mode {
		case 1:
			w.WriteHeader(500)
		case 2:
			panic(http.ErrAbortHandler)
		}
	}))
	var nonce []byte
	ref.Tap = func(t *fdo.Turn) {
		if t.Why != nil {
			x.Report("to2-refused", "the reference refuses %d: %v", t.Msg, t.Why)
			return
		}
		if t.Msg == 64 {
			if sg, err := fdo.ParseSign1(fdo.MustDecode(t.Req)); err == nil {
				for _, e := range sg.Unprot {
					if v, ok := fdo.ToInt(e.K); ok && v == -259 {
						nonce, _ = e.V.([]byte)
					}
				}
			}
		}
		if fault > 0 && t.Msg == []int{68, 70}[(fault-1)/4] {
			broken(t, (fault-1)%4)
		}
	}
	env := []string{"FDO_SERVICE_URL=http://o.verif.test", "INTEROP_DASHBOARD_RV_AUTHZ=rv", "INTEROP_DASHBOARD_DO_AUTHZ=do", "INTEROP_DO_TOKEN_MAPPING=[]"}
	if iop {
		env = append(env, "INTEROP_DASHBOARD_URL="+dash+base)
	}
	r := cmd(x, dir, env, "iop", "to2", serve(x, ref), write(dir, "d.pem", diPem(d)))
	if good := fault == 0; r.ok() != good || said(r, "Success To2") != good {
		x.Fail("to2-report", "with a dashboard (%d), fault %d: status %d: %s", mode, fault, r.code, last(r.out))
	}
	var want []string
	if iop && fault == 0 && li > 1 {
		want = []string{fmt.Sprintf("POST %s/logger/101/msg %q %q %x", strings.TrimSuffix(base, "/"), "Bearer T/+=1", "application/cbor", fdo.Encode(fdo.A(d.GUID, 2, nonce)))}
	}
	mu.Lock()
	defer mu.Unlock()
	if fmt.Sprint(got) != fmt.Sprint(want) {
		x.Fail("to2-event", "owner items %d, fault %d: the dashboard got %v instead of %v", li, fault, got, want)
	}
	x.Outcome(fmt.Sprintf("%d reports", len(got)))
}

// files that are broken are refused, and conversions keep every byte.
func files(x *hx.X, thorough bool) {
	dir := scratch(x)
	d := fdo.NewDevice(fdo.ES256, fdo.ES256, "f", 1)
	switch x.Choose("what", 4) {
	case 0: // cbor to pem
		b := [][]byte{{}, {0}, fdo.Encode(d.V.Tree()), bytes.Repeat([]byte{0xff, 0x0a, 0x2d}, 500), []byte("-----BEGIN X-----\n")}[x.Choose("bytes", 5)]
		r := cmd(x, dir, nil, "from_cbor_to_pem_voucher", write(dir, "v.cbor", b))
		p, rest := pem.Decode([]byte(r.stdout))
		if !r.ok() || p == nil || p.Type != "OWNERSHIP VOUCHER" || !bytes.Equal(p.Bytes, b) || len(bytes.TrimSpace(rest)) > 0 {
			x.Fail("convert", "%x becomes %q (status %d)", b, r.stdout, r.code)
		}
	case 1: // credential files
		cred := fdo.MustDecode(func() []byte { p, _ := pem.Decode(diPem(d)); return p.Bytes }())
		ms := fdo.Mutants(cred)
		k := x.Choose("mutant", len(ms)+6)
		var f []byte
		must := true
		switch {
		case k < len(ms):
			f = pem.EncodeToMemory(&pem.Block{Type: "WAW FDO DEVICE CREDENTIAL", Bytes: fdo.Encode(ms[k].V)})
			must = false
		default:
			p, _ := pem.Decode(diPem(d))
			f = [][]byte{nil, []byte("x"), pem.EncodeToMemory(&pem.Block{Type: "OWNERSHIP VOUCHER", Bytes: p.Bytes}), pem.EncodeToMemory(&pem.Block{Type: "WAW FDO DEVICE CREDENTIAL"}),
				pem.EncodeToMemory(&pem.Block{Type: "WAW FDO DEVICE CREDENTIAL", Bytes: p.Bytes[:len(p.Bytes)-1]}), pem.EncodeToMemory(&pem.Block{Type: "WAW FDO DEVICE CREDENTIAL", Bytes: append(p.Bytes, 0)})}[k-len(ms)]
		}
		cmdName := []string{"to1", "to2"}[x.Choose("command", 2)]
		ref := fdo.NewRef()
		ref.AddVoucher(d.V.Tree(), d.V.Owner())
		ref.SetBlob(d.GUID, d.V.Owner().Sign1(nil, fdo.Encode(fdo.A(fdo.A(fdo.A(nil, "o", 1, 3)), fdo.Hash(-16, nil)))), d.V.Spec.Dev.Certs)
		served := 0
		ref.Tap = func(t *fdo.Turn) { served++ }
		r := cmd(x, dir, nil, "iop", cmdName, serve(x, ref), write(dir, "d.pem", f))
		if must && (r.ok() || served > 0) {
			x.Fail("credential", "a broken credential file is used by %s: %s", cmdName, last(r.out))
		}
		if r.ok() != said(r, "Success") {
			x.Fail("credential-report", "%s with a changed credential: status %d: %s", cmdName, r.code, last(r.out))
		}
	case 2: // missing files and arguments
		args := [][]string{{"iop", "to1", "http://127.0.0.1:1", "nofile"}, {"iop", "to2", "http://127.0.0.1:1", "nofile"}, {"iop", "do_load_vouchers", "nodir"}, {"iop", "do_load_vouchers"},
			{"decode_voucher", "nofile"}, {"from_cbor_to_pem_voucher", "nofile"}, {"from_cbor_to_pem_voucher"}, {"iop", "rv_push_vouchers"}, {"reset", "users", "x"},
			{"iop", "to1", "http://127.0.0.1:1", "d.pem"}, {"iop", "to2", "http://127.0.0.1:1", "d.pem"}, {"iop", "to1", "::", "d.pem"}, {"iop", "to2", "", "d.pem"},
			{"decode_voucher"}, {"iop", "to1"}, {"iop", "to1", "http://127.0.0.1:1"}, {"iop", "to2"}, {"iop", "to2", "http://127.0.0.1:1"}, {"iop", "generate"}}
		k := x.Choose("command", len(args))
		write(dir, "d.pem", diPem(d))
		if k == len(args)-1 {
			os.RemoveAll(filepath.Join(dir, "_dis"))
		}
		r := cmdMay(x, k == len(args)-1, dir, args[k]...)
		if r.ok() && k != 8 {
			x.Fail("silent:"+strings.Join(args[k], " "), "%v cannot work but ends well: %s", args[k], last(r.out))
		}
	case 3: // voucher files
		ms := fdo.Mutants(d.V.Tree())
		step := 7
		if thorough {
			step = 1
		}
		k := x.Choose("mutant", len(ms)/step) * step
		b := fdo.Encode(ms[k].V)
		f := append(pem.EncodeToMemory(&pem.Block{Type: "OWNERSHIP VOUCHER", Bytes: b}), pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: d.V.Owner().PKCS8})...)
		p := write(dir, "v.pem", f)
		r := cmd(x, dir, nil, "decode_voucher", p)
		if !r.ok() && said(r, "GUID:") {
			x.Fail("decode-both", "%s", r.out)
		}
	}
	x.Outcome("files")
}

// cmdMay runs a command that may end with an explicit panic.
func cmdMay(x *hx.X, may bool, dir string, args ...string) res {
	if !may {
		return cmd(x, dir, nil, args...)
	}
	self, _ := os.Executable()
	c := exec.Command(self, append([]string{"child"}, args...)...)
	c.Dir = dir
	b, _ := c.CombinedOutput()
	return res{c.ProcessState.ExitCode(), string(b), ""}
}

// env: the settings are what the documentation says.
func env(x *hx.X) {
	dir := scratch(x)
	ports := []string{"", "9000", "0", "x"}
	pi := x.Choose("PORT", len(ports))
	vals := map[string]string{"PORT": ports[pi], "DEV": []string{"", "dev"}[x.Choose("DEV", 2)], "FDO_SERVICE_URL": []string{"", "https://owner.verif.test"}[x.Choose("FDO_SERVICE_URL", 2)],
		"INTEROP_DASHBOARD_URL": []string{"", "http://dash.verif.test"}[x.Choose("INTEROP_DASHBOARD_URL", 2)]}
	req := []string{"INTEROP_DASHBOARD_RV_AUTHZ", "INTEROP_DASHBOARD_DO_AUTHZ", "INTEROP_DO_TOKEN_MAPPING"}
	m := x.Choose("tokens", 8)
	for i, k := range req {
		if m>>i&1 == 1 {
			vals[k] = "v-" + k
		}
	}
	var e []string
	for k, v := range vals {
		if v != "" {
			e = append(e, k+"="+v)
		}
	}
	sort.Strings(e)
	iop := vals["INTEROP_DASHBOARD_URL"] != ""
	must := pi != 3 && !(iop && (m != 7 || vals["FDO_SERVICE_URL"] == ""))
	self, _ := os.Executable()
	c := exec.Command(self, "child", "settings")
	c.Dir, c.Env = dir, e
	out, err := c.Output()
	x.Step("%v -> %v %s", e, err, out)
	if (err == nil) != must {
		x.Fail("settings-accepted", "the settings %v are accepted: %v", e, err == nil)
	}
	x.Outcome(fmt.Sprintf("settings ok=%v", must))
	if !must {
		return
	}
	var got map[string]any
	json.Unmarshal(out, &got)
	port := 8080
	if pi == 1 {
		port = 9000
	}
	want := map[string]any{"PORT": float64(port), "DEV": "prod", "FDO_SERVICE_URL": fmt.Sprintf("http://localhost:%d", port), "INTEROP_ENABLED": iop, "INTEROP_DASHBOARD_URL": vals["INTEROP_DASHBOARD_URL"]}
	for _, k := range req {
		want[k] = vals[k]
	}
	if vals["DEV"] != "" {
		want["DEV"] = "dev"
	}
	if v := vals["FDO_SERVICE_URL"]; v != "" {
		want["FDO_SERVICE_URL"] = v
	}
	for k, v := range want {
		if got[k] != v {
			x.Fail("settings", "with %v, %s is %v instead of %v", e, k, got[k], v)
		}
	}
}

var _ = net.IPv4len
