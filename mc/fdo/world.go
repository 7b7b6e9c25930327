// Package fdo drives the code under test: it builds closed worlds (database, RV,
// DO and API handlers, in-process transport) and speaks the FDO wire protocol
// with its own encoder, decoder and cryptography.
package fdo

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"unicode/utf8"

	"github.com/dgraph-io/badger/v4"

	"github.com/fido-alliance/iot-fdo-conformance-tools/api"
	do "github.com/fido-alliance/iot-fdo-conformance-tools/core/do"
	rv "github.com/fido-alliance/iot-fdo-conformance-tools/core/rv"
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"

	"verif/mc/hx"
)

// OpenMem opens a small in-memory database.
func OpenMem() *badger.DB {
	o := badger.DefaultOptions("").WithInMemory(true).WithLogger(nil).WithMemTableSize(4 << 20).WithNumMemtables(2).
		WithBlockCacheSize(1 << 20).WithIndexCacheSize(0).WithNumCompactors(2).WithValueThreshold(512 << 10).WithMetricsEnabled(false)
	db, err := badger.Open(o)
	if err != nil {
		panic(err)
	}
	return db
}

// World is one closed system.
type World struct {
	DB   *badger.DB
	Mux  *http.ServeMux
	Ctx  context.Context
	Host string
	// Rewrite, when set, may change a message before it is sent, or, for the encrypted ones, its plaintext too.
	Rewrite func(msg int, plain bool, b []byte) []byte
	own     bool
}

// Config selects the world's environment.
type Config struct {
	Interop  bool
	SimMap   string // CFG_ENV_INTEROP_DO_TOKEN_MAPPING
	NoAPI    bool
	Extra    map[any]any
	DB       *badger.DB
	ServeURL string
}

var (
	setupMu sync.Mutex
	hostSeq atomic.Int64
)

// NewWorld builds a fresh world.
func NewWorld(c Config) *World {
	w := &World{DB: c.DB, Host: fmt.Sprintf("w%d.verif.test", hostSeq.Add(1))}
	if w.DB == nil {
		w.DB = OpenMem()
		w.own = true
	}
	w.Ctx = MakeCtx(c, w.URL())
	setupMu.Lock()
	old := http.DefaultServeMux
	m := http.NewServeMux()
	http.DefaultServeMux = m
	func() {
		defer func() { http.DefaultServeMux = old; setupMu.Unlock() }()
		rv.SetupServer(w.DB, w.Ctx)
		do.SetupServer(w.DB, w.Ctx)
		if !c.NoAPI {
			api.SetupServer(w.DB, w.Ctx)
		}
	}()
	w.Mux = m
	RegisterHost(w.Host, m)
	return w
}

// MakeCtx builds the server context.
func MakeCtx(c Config, u string) context.Context {
	ctx := context.Background()
	ctx = context.WithValue(ctx, fdoshared.CFG_ENV_INTEROP_ENABLED, c.Interop)
	ctx = context.WithValue(ctx, fdoshared.CFG_ENV_FDO_SERVICE_URL, u)
	ctx = context.WithValue(ctx, fdoshared.CFG_DEV_ENV, "prod")
	ctx = context.WithValue(ctx, fdoshared.CFG_ENV_INTEROP_DO_TOKEN_MAPPING, c.SimMap)
	ctx = context.WithValue(ctx, fdoshared.CFG_ENV_INTEROP_DASHBOARD_URL, "http://dashboard.verif.test")
	ctx = context.WithValue(ctx, fdoshared.CFG_ENV_INTEROP_DASHBOARD_RV_AUTHZ, "rv-authz")
	ctx = context.WithValue(ctx, fdoshared.CFG_ENV_INTEROP_DASHBOARD_DO_AUTHZ, "do-authz")
	for k, v := range c.Extra {
		ctx = context.WithValue(ctx, k, v)
	}
	return ctx
}

// URL is the world's base URL.
func (w *World) URL() string { return "http://" + w.Host }

// Srv is the requestor's view of the world.
func (w *World) Srv() fdoshared.SRVEntry { return fdoshared.SRVEntry{SrvURL: w.URL()} }

// Close releases the world.
func (w *World) Close() {
	hosts.Delete(w.Host)
	if w.own {
		w.DB.Close()
	}
}

// Resp is a server answer. Panic means the connection would have been dropped.
type Resp struct {
	Status int
	Header http.Header
	Body   []byte
	Panic  any
	Frame  string
}

// Token is the session token carried by the answer.
func (r Resp) Token() string { return r.Header.Get("Authorization") }

// MsgType is the Message-Type header.
func (r Resp) MsgType() string { return r.Header.Get("Message-Type") }

// Dropped reports a handler panic.
func (r Resp) Dropped() bool { return r.Panic != nil }

// FdoErr decodes the body as [code, prev, str, ts, cid].
func (r Resp) FdoErr() (code, prev int64, ok bool) {
	v, err := Decode(r.Body)
	if err != nil {
		return 0, 0, false
	}
	a, isA := v.([]any)
	if !isA || len(a) != 5 {
		return 0, 0, false
	}
	c, ok1 := ToInt(a[0])
	p, ok2 := ToInt(a[1])
	str, ok3 := a[2].(string)
	// a text string that is not UTF-8 is not well formed
	return c, p, ok1 && ok2 && ok3 && utf8.ValidString(str)
}

// IsErr reports a proper protocol error: non-200 with a decodable error message.
func (r Resp) IsErr() bool {
	if r.Panic != nil || r.Status == 200 {
		return false
	}
	_, _, ok := r.FdoErr()
	return ok
}

// OK reports a 200 answer with the given message type.
func (r Resp) OK(msg int) bool {
	return r.Panic == nil && r.Status == 200 && r.MsgType() == fmt.Sprint(msg)
}

func (r Resp) String() string {
	if r.Panic != nil {
		return fmt.Sprintf("dropped(panic in %s: %v)", r.Frame, r.Panic)
	}
	if c, p, ok := r.FdoErr(); ok && r.Status != 200 {
		return fmt.Sprintf("%d error code=%d prev=%d", r.Status, c, p)
	}
	return fmt.Sprintf("%d type=%s len=%d", r.Status, r.MsgType(), len(r.Body))
}

// Class is a coarse outcome name.
func (r Resp) Class() string {
	switch {
	case r.Panic != nil:
		return "drop"
	case r.Status == 200:
		return "ok" + r.MsgType()
	case r.IsErr():
		return "err"
	default:
		return fmt.Sprintf("http%d", r.Status)
	}
}

// Do sends one request through a handler, recovering panics like net/http does.
func Do(h http.Handler, method, path string, hdr http.Header, body []byte) (out Resp) {
	req := httptest.NewRequest(method, path, bytes.NewReader(body))
	for k, v := range hdr {
		req.Header[k] = v
	}
	rec := httptest.NewRecorder()
	defer func() {
		if e := recover(); e != nil {
			out = Resp{Panic: e, Frame: hx.TopRepoFrame(debug.Stack()), Header: http.Header{}}
		}
	}()
	h.ServeHTTP(rec, req)
	res := rec.Result()
	b, _ := io.ReadAll(res.Body)
	return Resp{Status: res.StatusCode, Header: res.Header, Body: b}
}

// Send posts an FDO message.
func (w *World) Send(msg int, token string, body []byte) Resp {
	h := http.Header{"Content-Type": {"application/cbor"}}
	if token != "" {
		h.Set("Authorization", token)
	}
	if w.Rewrite != nil {
		body = w.Rewrite(msg, false, body)
	}
	return Do(w.Mux, "POST", fmt.Sprintf("/fdo/101/msg/%d", msg), h, body)
}

var hosts sync.Map

// RegisterHost maps a host name onto a handler for outgoing requests.
func RegisterHost(host string, h http.Handler) { hosts.Store(host, h) }

// NewHost registers a handler under a fresh host name and returns its URL and release function.
func NewHost(h http.Handler) (string, func()) {
	host := fmt.Sprintf("h%d.verif.test", hostSeq.Add(1))
	hosts.Store(host, h)
	return "http://" + host, func() { hosts.Delete(host) }
}

type transport struct{}

func (transport) RoundTrip(req *http.Request) (*http.Response, error) {
	v, ok := hosts.Load(strings.ToLower(req.URL.Hostname()))
	if !ok {
		return nil, &url.Error{Op: "dial", URL: req.URL.String(), Err: fmt.Errorf("no such host %q", req.URL.Host)}
	}
	var b []byte
	if req.Body != nil {
		b, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	r := Do(v.(http.Handler), req.Method, req.URL.RequestURI(), req.Header, b)
	if r.Panic != nil {
		return nil, io.ErrUnexpectedEOF
	}
	return &http.Response{StatusCode: r.Status, Status: fmt.Sprint(r.Status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: r.Header, Body: io.NopCloser(bytes.NewReader(r.Body)), ContentLength: int64(len(r.Body)), Request: req}, nil
}

func init() {
	http.DefaultTransport = transport{}
	RegisterHost("dashboard.verif.test", http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(200) }))
}

// Rec is one stored record.
type Rec struct {
	Val []byte
	Exp uint64
}

// Records dumps the live records of a database.
func Records(db *badger.DB) map[string]Rec {
	o := map[string]Rec{}
	db.View(func(t *badger.Txn) error {
		it := t.NewIterator(badger.DefaultIteratorOptions)
		defer it.Close()
		for it.Rewind(); it.Valid(); it.Next() {
			v, _ := it.Item().ValueCopy(nil)
			o[string(it.Item().KeyCopy(nil))] = Rec{v, it.Item().ExpiresAt()}
		}
		return nil
	})
	return o
}

// Expire makes a record's lifetime end in the past.
func Expire(db *badger.DB, key string) { SetExpiry(db, key, 1) }

// SetExpiry rewrites a record with another expiry, as if time had passed since it was written.
func SetExpiry(db *badger.DB, key string, at uint64) {
	err := db.Update(func(t *badger.Txn) error {
		it, err := t.Get([]byte(key))
		if err != nil {
			return err
		}
		v, err := it.ValueCopy(nil)
		if err != nil {
			return err
		}
		e := badger.NewEntry([]byte(key), v)
		e.ExpiresAt = at
		return t.SetEntry(e)
	})
	if err != nil {
		panic(err)
	}
}

// Load opens a database with the given records.
func Load(recs map[string]Rec) *badger.DB {
	db := OpenMem()
	t := db.NewWriteBatch()
	defer t.Cancel()
	for k, r := range recs {
		e := badger.NewEntry([]byte(k), r.Val)
		e.ExpiresAt = r.Exp
		if err := t.SetEntry(e); err != nil {
			panic(err)
		}
	}
	if err := t.Flush(); err != nil {
		panic(err)
	}
	return db
}
