package fdo

import (
	"archive/zip"
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rsa"
	"crypto/x509"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"

	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/dbs"
)

// Api drives the management API with one session cookie.
type Api struct {
	W      *World
	Cookie string
}

// JSON is a request body.
func JSON(body any) (b []byte) {
	switch v := body.(type) {
	case nil:
	case []byte:
		b = v
	case string:
		b = []byte(v)
	default:
		b, _ = json.Marshal(v)
	}
	return
}

// Call sends a JSON request with the session cookie.
func (a *Api) Call(method, path string, body any) Resp {
	h := http.Header{}
	b := JSON(body)
	if method == "POST" {
		h.Set("Content-Type", "application/json")
	}
	if a.Cookie != "" {
		h.Set("Cookie", "session="+a.Cookie)
	}
	return Do(a.W.Mux, method, path, h, b)
}

// ApiOK tells whether the API reported success.
func (r Resp) ApiOK() bool {
	var v struct {
		Status string `json:"status"`
	}
	return r.Panic == nil && r.Status == 200 && json.Unmarshal(r.Body, &v) == nil && v.Status == "ok"
}

// SetCookie is the session cookie the answer sets, if any.
func (r Resp) SetCookie() (string, bool) {
	res := http.Response{Header: r.Header}
	for _, c := range res.Cookies() {
		if c.Name == "session" {
			return c.Value, true
		}
	}
	return "", false
}

// Login opens a session for the on-premises user.
func (a *Api) Login() Resp {
	r := a.Call("POST", "/api/user/login/onprem", map[string]any{})
	if c, ok := r.SetCookie(); ok {
		a.Cookie = c
	}
	return r
}

// NewApi logs in.
func NewApi(w *World) *Api {
	a := &Api{W: w}
	if r := a.Login(); !r.ApiOK() || a.Cookie == "" {
		panic("login failed: " + r.String())
	}
	return a
}

// Pem is the voucher and owner key as uploaded by a user.
func (d *Device) Pem() string {
	k := d.V.Owner()
	v := pem.EncodeToMemory(&pem.Block{Type: "OWNERSHIP VOUCHER", Bytes: Encode(d.V.Tree())})
	return string(v) + string(pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: k.PKCS8}))
}

// TestRec is one recorded verdict.
type TestRec struct {
	ID     string `json:"testId"`
	Passed bool   `json:"passed"`
	Error  string `json:"error"`
}

// RunRec is one listed device run.
type RunRec struct {
	Uuid      string    `json:"uuid"`
	Tests     []TestRec `json:"tests"`
	Protocol  int       `json:"protocol"`
	Completed bool      `json:"completed"`
}

// DevItem is one listed device instance.
type DevItem struct {
	ID   string   `json:"id"`
	Name string   `json:"name"`
	Guid string   `json:"guid"`
	To1  []RunRec `json:"to1"`
	To2  []RunRec `json:"to2"`
}

// Runs are the runs of a protocol.
func (d *DevItem) Runs(proto int) []RunRec {
	if proto == 1 {
		return d.To1
	}
	return d.To2
}

// CreateDevice uploads the device's voucher as a new test.
func (a *Api) CreateDevice(name string, d *Device) Resp {
	return a.Call("POST", "/api/device/create", map[string]any{"name": name, "voucher": d.Pem()})
}

// Devices lists the device instances.
func (a *Api) Devices() ([]DevItem, Resp) {
	r := a.Call("GET", "/api/device/testruns", nil)
	var v struct {
		Entries []DevItem `json:"entries"`
	}
	if r.ApiOK() {
		if err := json.Unmarshal(r.Body, &v); err != nil {
			r.Status = 0
		}
	}
	return v.Entries, r
}

// DeviceOf finds the last listed instance of a device.
func (a *Api) DeviceOf(d *Device) *DevItem {
	l, _ := a.Devices()
	var o *DevItem
	for i := range l {
		if l[i].Guid == hex.EncodeToString(d.GUID) {
			o = &l[i]
		}
	}
	return o
}

// StartDevice starts a run.
func (a *Api) StartDevice(id string, proto string) Resp {
	return a.Call("POST", "/api/device/testruns/"+proto+"/"+id, nil)
}

// DeleteDeviceRun deletes a run.
func (a *Api) DeleteDeviceRun(id string, proto, run string) Resp {
	return a.Call("DELETE", "/api/device/testruns/"+proto+"/"+id+"/"+strings.ReplaceAll(run, "/", "%2F"), nil)
}

// SrvRun is one listed run of a server test.
type SrvRun struct {
	Uuid     string             `json:"uuid"`
	Tests    map[string]TestRec `json:"tests"`
	Protocol int                `json:"protocol"`
}

// SrvInst is one listed server test of one protocol.
type SrvInst struct {
	ID         string   `json:"id"`
	Runs       []SrvRun `json:"runs"`
	InProgress bool     `json:"inprogress"`
	Protocol   int      `json:"protocol"`
	Kind       string   `json:"-"` // rvt or dot
	Item       string   `json:"-"`
	URL        string   `json:"-"`
}

// Seed stores n device credentials of each kind for server tests to draw from.
func (w *World) Seed(n int) {
	ddb := dbs.NewDeviceBaseDB(w.DB)
	ids := fdoshared.FdoSeedIDs{}
	for _, a := range []int{ES256, ES384} {
		c := NewDevice(a, ES256, "seed", 1).CredOf()
		for i := 0; i < n; i++ {
			copy(c.DCGuid[:], RandBytes(16))
			if err := ddb.Save(c); err != nil {
				panic(err)
			}
			ids[fdoshared.SgType(a)] = append(ids[fdoshared.SgType(a)], c.DCGuid)
		}
	}
	if err := dbs.NewConfigDB(w.DB).Save(dbs.MainConfig{SeededGuids: ids}); err != nil {
		panic(err)
	}
}

// CreateRvt creates a test of a rendezvous server.
func (a *Api) CreateRvt(url string) Resp {
	return a.Call("POST", "/api/rvt/create", map[string]any{"url": url})
}

// CreateDot creates a test of an onboarding service.
func (a *Api) CreateDot(url string, k *Key) Resp {
	return a.Call("POST", "/api/dot/create", DotBody(url, k))
}

// DotBody is the request that creates a test of an onboarding service.
func DotBody(url string, k *Key) any {
	p := pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: k.PKCS8})
	return map[string]any{"url": url, "priv_key": string(p)}
}

// Servers lists the server tests of a kind, one entry for each protocol.
func (a *Api) Servers(kind string) (o []SrvInst, r Resp) {
	r = a.Call("GET", "/api/"+kind+"/testruns", nil)
	var v struct {
		Entries []struct {
			ID  string   `json:"id"`
			URL string   `json:"url"`
			To0 *SrvInst `json:"to0"`
			To1 *SrvInst `json:"to1"`
			To2 *SrvInst `json:"to2"`
		} `json:"entries"`
	}
	if r.ApiOK() {
		if err := json.Unmarshal(r.Body, &v); err != nil {
			r.Status = 0
		}
	}
	for _, e := range v.Entries {
		for _, s := range []*SrvInst{e.To0, e.To1, e.To2} {
			if s != nil {
				s.Kind, s.Item, s.URL = kind, e.ID, e.URL
				o = append(o, *s)
			}
		}
	}
	return o, r
}

// Execute runs a server test.
func (a *Api) Execute(kind, id string) Resp {
	return a.Call("POST", "/api/"+kind+"/execute", map[string]any{"id": id})
}

// DeleteRun deletes a run of a server test.
func (a *Api) DeleteRun(kind, id, run string) Resp {
	return a.Call("DELETE", "/api/"+kind+"/testruns/"+id+"/"+run, nil)
}

// Download is the voucher and owner key of an onboarding service test, as a user gets them.
func (a *Api) Download(id string) (voucher []byte, key *Key, err error) {
	r := a.Call("GET", "/api/dot/vouchers/"+id, nil)
	if r.Panic != nil || r.Status != 200 {
		return nil, nil, fmt.Errorf("no vouchers: %s", r)
	}
	z, err := zip.NewReader(bytes.NewReader(r.Body), int64(len(r.Body)))
	if err != nil {
		return nil, nil, err
	}
	if len(z.File) != 1 {
		return nil, nil, fmt.Errorf("%d vouchers", len(z.File))
	}
	f, err := z.File[0].Open()
	if err != nil {
		return nil, nil, err
	}
	b, err := io.ReadAll(f)
	if err != nil {
		return nil, nil, err
	}
	for {
		var p *pem.Block
		if p, b = pem.Decode(b); p == nil {
			break
		}
		if p.Type == "OWNERSHIP VOUCHER" {
			voucher = p.Bytes
			continue
		}
		if key, err = ParseKey(p.Bytes); err != nil {
			return nil, nil, err
		}
	}
	if voucher == nil || key == nil {
		return nil, nil, errors.New("voucher or key missing")
	}
	return voucher, key, nil
}

// ParseKey reads a private key.
func ParseKey(der []byte) (*Key, error) {
	var k any
	k, err := x509.ParsePKCS8PrivateKey(der)
	if err != nil {
		if k, err = x509.ParseECPrivateKey(der); err != nil {
			if k, err = x509.ParsePKCS1PrivateKey(der); err != nil {
				return nil, err
			}
		}
	}
	switch k := k.(type) {
	case *ecdsa.PrivateKey:
		if k.Curve == elliptic.P256() {
			return WrapKey(ES256, 10, k), nil
		}
		return WrapKey(ES384, 11, k), nil
	case *rsa.PrivateKey:
		if k.N.BitLen() == 2048 {
			return WrapKey(RS256, 1, k), nil
		}
		return WrapKey(RS384, 5, k), nil
	}
	return nil, errors.New("unknown key")
}
