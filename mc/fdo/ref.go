package fdo

import (
	"bytes"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Ref is a strict reference peer: a rendezvous and an owner onboarding service
// written against the protocol alone, with its own encoder and crypto. It
// refuses every message that is not exactly right with a protocol error.
type Ref struct {
	Own map[string]*RefVoucher // vouchers whose owner this is, by GUID

	OwnerSI []SI // service info for every device
	Undone  any  // the answer to all 68 after the device's last, if this owner is never done

	EndOnError bool // a refused message ends its session

	// Tap sees every turn before it is answered and may change the answer.
	Tap func(t *Turn)

	mu    sync.Mutex
	seq   int
	sess  map[string]*refSess
	blobs map[string]refBlob // TO0 registrations by GUID
	Log   []string           // "20 ok", "22 err ..."
}

type refBlob struct {
	raw    []byte
	certs  [][]byte
	expire time.Time
}

// RefVoucher is a voucher with its owner's key.
type RefVoucher struct {
	Tree  []any
	Info  *VoucherInfo
	Owner *Key
}

type refSess struct {
	prev    int
	guid    []byte
	alg     int
	nonce   []byte // of the last challenge
	nProve  []byte
	nSetup  []byte
	v       *RefVoucher
	kex     *Kex
	suite   Suite
	key     SessKey
	have    bool
	fetched map[int]bool
	dev     []SI
	devDone bool
	sent    int
}

// Turn is one message and the answer about to be given.
type Turn struct {
	Msg  int
	Req  []byte
	Why  error // why the message is refused
	Ans  *Answer
	Sess *refSess
}

// Answer is an answer in all its stages.
type Answer struct {
	Msg     int
	Tree    any // plain answer, or payload when signed
	Signer  *Key
	Unprot  Map
	Key     SessKey
	Suite   Suite
	Enc     bool
	Item    func(any) any       // applied to the finished plain item
	Wrap    func([]byte) []byte // applied to the final body
	Status  int
	MsgType string // header; "-" for none
	Token   string
	Drop    bool // close the connection
}

// NewRef makes a reference peer.
func NewRef() *Ref {
	return &Ref{Own: map[string]*RefVoucher{}, sess: map[string]*refSess{}, blobs: map[string]refBlob{}}
}

// AddVoucher adopts a voucher.
func (r *Ref) AddVoucher(tree []any, owner *Key) {
	inf := CheckVoucher(Encode(tree))
	r.mu.Lock()
	r.Own[string(inf.GUID)] = &RefVoucher{Tree: tree, Info: inf, Owner: owner}
	r.mu.Unlock()
}

// Plausible is the positive answer a careless peer would give to any message
// like this one: well formed and, where the session allows, well encrypted.
func (r *Ref) Plausible(t *Turn, last []byte) *Answer {
	a := &Answer{Msg: t.Msg + 1}
	enc := func(v any) {
		a.Tree = v
		if t.Sess != nil && t.Sess.have {
			a.Enc, a.Suite, a.Key = true, t.Sess.suite, t.Sess.key
		}
	}
	switch t.Msg {
	case 20:
		a.Tree = A(RandBytes(16))
	case 22:
		a.Tree = A(1000)
	case 30:
		a.Tree = A(RandBytes(16), A(ES256, []byte{}))
	case 62:
		a.Tree = A(0, A())
		if t.Sess != nil && t.Sess.v != nil {
			a.Tree = A(0, t.Sess.v.Tree[4].([]any)[0])
		}
	case 66:
		enc(A(nil))
	case 68:
		enc(A(false, true, []any{}))
	case 70:
		enc(A([]byte("0123456789abcdef")))
		if t.Sess != nil {
			enc(A(t.Sess.nSetup))
		}
	default:
		if last == nil {
			last = Encode(A([]byte{}, Map{}, []byte{}, []byte{}))
		}
		b := last
		a.Tree, a.Wrap = A(), func([]byte) []byte { return b }
	}
	return a
}

// Body is the bytes an answer goes out as.
func (a *Answer) Body() []byte {
	item := a.Tree
	if a.Signer != nil {
		item = a.Signer.Sign1(a.Unprot, Encode(a.Tree))
	}
	if a.Item != nil {
		item = a.Item(item)
	}
	b := Encode(item)
	if a.Enc {
		b = Encrypt(a.Suite, a.Key, b)
	}
	if a.Wrap != nil {
		b = a.Wrap(b)
	}
	return b
}

// ErrBody is a protocol error.
func ErrBody(code, prev int, msg string) []byte {
	return Encode(A(code, prev, msg, time.Now().Unix(), 1))
}

// ServeHTTP answers protocol messages.
func (r *Ref) ServeHTTP(w http.ResponseWriter, q *http.Request) {
	body, _ := io.ReadAll(q.Body)
	parts := strings.Split(strings.TrimSuffix(q.URL.Path, "/"), "/")
	msg, err := strconv.Atoi(parts[len(parts)-1])
	if err != nil || !strings.HasPrefix(q.URL.Path, "/fdo/101/msg/") {
		w.WriteHeader(404)
		return
	}
	r.mu.Lock()
	t := &Turn{Msg: msg, Req: body}
	if q.Method != "POST" || q.Header.Get("Content-Type") != "application/cbor" {
		t.Why = errors.New("not a CBOR POST")
	} else {
		t.Ans, t.Sess, t.Why = r.handle(msg, q.Header.Get("Authorization"), body)
	}
	if t.Why != nil {
		r.Log = append(r.Log, fmt.Sprintf("%d refused: %v", msg, t.Why))
		if r.EndOnError {
			delete(r.sess, q.Header.Get("Authorization"))
		}
	} else {
		r.Log = append(r.Log, fmt.Sprintf("%d ok", msg))
	}
	tap := r.Tap
	r.mu.Unlock()
	if t.Why != nil && t.Ans == nil {
		t.Ans = &Answer{Msg: 255, Status: 500, Tree: A(100, msg, strings.ToValidUTF8(t.Why.Error(), "?"), time.Now().Unix(), 1)}
	}
	if tap != nil {
		tap(t)
	}
	a := t.Ans
	if a.Drop {
		panic(http.ErrAbortHandler)
	}
	b := a.Body()
	if a.Token != "" {
		w.Header().Set("Authorization", a.Token)
	}
	if a.MsgType == "" {
		a.MsgType = fmt.Sprint(a.Msg)
	}
	if a.MsgType != "-" {
		w.Header().Set("Message-Type", a.MsgType)
	}
	w.Header().Set("Content-Type", "application/cbor")
	if a.Status == 0 {
		a.Status = 200
	}
	w.WriteHeader(a.Status)
	w.Write(b)
}

func bstr(v any, n int) ([]byte, error) {
	b, ok := v.([]byte)
	if !ok || n >= 0 && len(b) != n {
		return nil, fmt.Errorf("want %d bytes", n)
	}
	return b, nil
}

func arr(b []byte, n int) ([]any, error) {
	v, err := Decode(b)
	if err != nil {
		return nil, err
	}
	a, ok := v.([]any)
	if !ok || len(a) != n {
		return nil, fmt.Errorf("want an array of %d", n)
	}
	return a, nil
}

// checkEat verifies a device's EAT.
func checkEat(body, nonce, guid []byte, pub any, alg int) (xb []byte, un Map, err error) {
	v, err := Decode(body)
	if err != nil {
		return nil, nil, err
	}
	s, err := ParseSign1(v)
	if err != nil {
		return nil, nil, err
	}
	if err := protIs(s, alg); err != nil {
		return nil, nil, err
	}
	if !s.Verify(pub, alg) {
		return nil, nil, errors.New("device signature")
	}
	pv, err := Decode(s.Payload)
	if err != nil {
		return nil, nil, err
	}
	m, ok := pv.(Map)
	if !ok {
		return nil, nil, errors.New("EAT is no map")
	}
	for _, kv := range m {
		k, ok := ToInt(kv.K)
		if !ok || k != 10 && k != 256 && k != -257 {
			return nil, nil, fmt.Errorf("unknown EAT claim %v", kv.K)
		}
	}
	n, _ := m.Get(10)
	if b, err := bstr(n, 16); err != nil || !bytes.Equal(b, nonce) {
		return nil, nil, errors.New("EAT nonce")
	}
	u, _ := m.Get(256)
	if b, err := bstr(u, 17); err != nil || !bytes.Equal(b, Ueid(guid)) {
		return nil, nil, errors.New("EAT UEID")
	}
	if f, ok := m.Get(-257); ok {
		fa, ok := f.([]any)
		if !ok || len(fa) != 1 {
			return nil, nil, errors.New("EAT FDO claim")
		}
		xb, _ = fa[0].([]byte)
	}
	return xb, s.Unprot, nil
}

func protIs(s Sign1Parts, alg int) error {
	hv, err := Decode(s.Protected)
	if err != nil {
		return err
	}
	hm, _ := hv.(Map)
	av, _ := hm.Get(1)
	if n, ok := ToInt(av); !ok || int(n) != alg {
		return errors.New("algorithm in the protected header")
	}
	return nil
}

func (r *Ref) token(s *refSess) string {
	r.seq++
	t := fmt.Sprintf("Bearer ref-%d-%x", r.seq, RandBytes(8))
	r.sess[t] = s
	return t
}

func sigInfo(v any) (alg int, err error) {
	a, ok := v.([]any)
	if !ok || len(a) != 2 {
		return 0, errors.New("signature info shape")
	}
	n, ok := ToInt(a[0])
	if !ok || n != ES256 && n != ES384 {
		return 0, errors.New("signature type")
	}
	if _, ok := a[1].([]byte); !ok && a[1] != nil {
		return 0, errors.New("signature info bytes")
	}
	return int(n), nil
}

func (r *Ref) handle(msg int, token string, body []byte) (*Answer, *refSess, error) {
	var s *refSess
	if msg != 20 && msg != 30 && msg != 60 {
		if s = r.sess[token]; s == nil {
			return nil, nil, errors.New("unknown session")
		}
	}
	need := func(p ...int) error {
		for _, x := range p {
			if s.prev == x {
				return nil
			}
		}
		return fmt.Errorf("%d after %d", msg, s.prev)
	}
	open := func() ([]byte, error) {
		if !s.have {
			return nil, errors.New("no session key")
		}
		return Decrypt(s.suite, s.key, body)
	}
	enc := func(m int, tree any) *Answer {
		s.prev = m
		return &Answer{Msg: m, Tree: tree, Enc: true, Suite: s.suite, Key: s.key}
	}
	switch msg {
	case 20:
		if _, err := arr(body, 0); err != nil {
			return nil, nil, err
		}
		s = &refSess{prev: 21, nonce: RandBytes(16)}
		return &Answer{Msg: 21, Tree: A(s.nonce), Token: r.token(s)}, s, nil
	case 22:
		if err := need(21); err != nil {
			return nil, s, err
		}
		wait, err := r.register(s, body)
		if err != nil {
			return nil, s, err
		}
		s.prev = 23
		return &Answer{Msg: 23, Tree: A(wait)}, s, nil
	case 30:
		a, err := arr(body, 2)
		if err != nil {
			return nil, nil, err
		}
		g, err := bstr(a[0], 16)
		if err != nil {
			return nil, nil, err
		}
		alg, err := sigInfo(a[1])
		if err != nil {
			return nil, nil, err
		}
		b, ok := r.blobs[string(g)]
		if !ok || time.Now().After(b.expire) {
			return nil, nil, errors.New("unknown GUID")
		}
		s = &refSess{prev: 31, nonce: RandBytes(16), guid: g, alg: alg}
		return &Answer{Msg: 31, Tree: A(s.nonce, a[1]), Token: r.token(s)}, s, nil
	case 32:
		if err := need(31); err != nil {
			return nil, s, err
		}
		b := r.blobs[string(s.guid)]
		pub, alg, err := CertKey(b.certs)
		if err != nil {
			return nil, s, err
		}
		if alg != s.alg {
			return nil, s, errors.New("signature type is not the device key's")
		}
		if _, _, err := checkEat(body, s.nonce, s.guid, pub, alg); err != nil {
			return nil, s, err
		}
		s.prev = 33
		return &Answer{Msg: 33, Tree: MustDecode(b.raw)}, s, nil
	case 60:
		return r.hello60(body)
	case 62:
		if err := need(61, 63); err != nil {
			return nil, s, err
		}
		a, err := arr(body, 1)
		if err != nil {
			return nil, s, err
		}
		n, ok := ToInt(a[0])
		es := s.v.Tree[4].([]any)
		if !ok || n < 0 || int(n) >= len(es) {
			return nil, s, errors.New("entry number")
		}
		s.prev = 63
		s.fetched[int(n)] = true
		return &Answer{Msg: 63, Tree: A(n, es[n])}, s, nil
	case 64:
		if err := need(63); err != nil {
			return nil, s, err
		}
		if len(s.fetched) != s.v.Info.Entries {
			return nil, s, errors.New("not all entries fetched")
		}
		pub, alg, err := CertKey(s.v.Info.Certs)
		if err != nil {
			return nil, s, err
		}
		xb, un, err := checkEat(body, s.nProve, s.guid, pub, alg)
		if err != nil {
			return nil, s, err
		}
		nv, _ := un.Get(-259)
		if s.nSetup, err = bstr(nv, 16); err != nil {
			return nil, s, err
		}
		if s.key, err = s.kex.FinishOwner(xb, s.v.Owner); err != nil {
			return nil, s, err
		}
		s.have = true
		a := enc(65, A(s.v.Info.RvInfo, s.guid, s.nSetup, s.v.Owner.Pub()))
		a.Signer = s.v.Owner
		return a, s, nil
	}
	pt, err := open()
	if err != nil {
		return nil, s, err
	}
	switch msg {
	case 66:
		if err := need(65); err != nil {
			return nil, s, err
		}
		a, err := arr(pt, 2)
		if err != nil {
			return nil, s, err
		}
		if a[0] != nil {
			if t, h, ok := readHash(a[0]); !ok || !(t == 5 && len(h) == 32 || t == 6 && len(h) == 48) {
				return nil, s, errors.New("replacement HMAC")
			}
		}
		if a[1] != nil {
			if n, ok := ToInt(a[1]); !ok || n < 0 || n > 65535 {
				return nil, s, errors.New("max service info size")
			}
		}
		return enc(67, A(nil)), s, nil
	case 68:
		if err := need(67, 69); err != nil {
			return nil, s, err
		}
		a, err := arr(pt, 2)
		if err != nil {
			return nil, s, err
		}
		more, ok := a[0].(bool)
		if !ok {
			return nil, s, errors.New("IsMore")
		}
		var items []SI
		if a[1] != nil {
			l, ok := a[1].([]any)
			if !ok {
				return nil, s, errors.New("service info")
			}
			for _, e := range l {
				kv, ok := e.([]any)
				if !ok || len(kv) != 2 {
					return nil, s, errors.New("service info pair")
				}
				k, ok1 := kv[0].(string)
				v, ok2 := kv[1].([]byte)
				if !ok1 || !ok2 || !strings.Contains(k, ":") {
					return nil, s, errors.New("service info pair")
				}
				if _, err := Decode(v); err != nil {
					return nil, s, fmt.Errorf("service info %s: %w", k, err)
				}
				items = append(items, SI{k, v})
			}
		}
		if s.devDone && (more || len(items) > 0) {
			return nil, s, errors.New("device service info after the last")
		}
		if s.devDone && s.sent >= len(r.OwnerSI) && r.Undone == nil {
			return nil, s, errors.New("all owner service info was sent")
		}
		s.dev = append(s.dev, items...)
		if more {
			return enc(69, A(false, false, []any{})), s, nil
		}
		if !s.devDone {
			s.devDone = true
			have := map[string]bool{}
			for _, i := range s.dev {
				have[i.K] = true
			}
			for _, m := range Mandatory() {
				if !have[m.K] {
					return nil, s, fmt.Errorf("mandatory %s missing", m.K)
				}
			}
		}
		if r.Undone != nil {
			return enc(69, r.Undone), s, nil
		}
		if s.sent < len(r.OwnerSI) {
			it := r.OwnerSI[s.sent]
			s.sent++
			last := s.sent == len(r.OwnerSI)
			return enc(69, A(!last, last, siTree([]SI{it}))), s, nil
		}
		return enc(69, A(false, true, []any{})), s, nil
	case 70:
		if err := need(69); err != nil {
			return nil, s, err
		}
		if !s.devDone || s.sent < len(r.OwnerSI) {
			return nil, s, errors.New("service info not complete")
		}
		a, err := arr(pt, 1)
		if err != nil {
			return nil, s, err
		}
		if n, err := bstr(a[0], 16); err != nil || !bytes.Equal(n, s.nProve) {
			return nil, s, errors.New("ProveDv nonce")
		}
		return enc(71, A(s.nSetup)), s, nil
	}
	return nil, s, errors.New("unknown message")
}

func (r *Ref) register(s *refSess, body []byte) (int64, error) {
	a, err := arr(body, 2)
	if err != nil {
		return 0, err
	}
	to0d, err := bstr(a[0], -1)
	if err != nil {
		return 0, err
	}
	d, err := arr(to0d, 3)
	if err != nil {
		return 0, err
	}
	if n, err := bstr(d[2], 16); err != nil || !bytes.Equal(n, s.nonce) {
		return 0, errors.New("TO0Sign nonce")
	}
	wait, ok := ToInt(d[1])
	if !ok || wait < 0 || wait > 1<<32-1 {
		return 0, errors.New("wait seconds")
	}
	inf := CheckVoucher(Encode(d[0]))
	if len(inf.Defects) > 0 {
		return 0, fmt.Errorf("voucher: %v", inf.Defects)
	}
	if inf.Entries == 0 {
		return 0, errors.New("voucher without entries")
	}
	if _, _, err := CertKey(inf.Certs); err != nil {
		return 0, err
	}
	sg, err := ParseSign1(a[1])
	if err != nil {
		return 0, err
	}
	alg := algOf(inf.FinalPub)
	if alg == RS384 || alg == RS256 { // either hash goes with an RSA key
		for _, a := range []int{RS256, RS384} {
			if protIs(sg, a) == nil {
				alg = a
			}
		}
	}
	if err := protIs(sg, alg); err != nil {
		return 0, err
	}
	if !sg.Verify(inf.FinalPub, alg) {
		return 0, errors.New("to1d signature")
	}
	p, err := arr(sg.Payload, 2)
	if err != nil {
		return 0, err
	}
	l, ok := p[0].([]any)
	if !ok || len(l) == 0 {
		return 0, errors.New("no addresses")
	}
	for _, e := range l {
		f, ok := e.([]any)
		if !ok || len(f) != 4 || f[0] == nil && f[1] == nil {
			return 0, errors.New("address")
		}
		if ip, ok := f[0].([]byte); f[0] != nil && (!ok || len(ip) != 4 && len(ip) != 16) {
			return 0, errors.New("address IP")
		}
		if dns, ok := f[1].(string); f[1] != nil && (!ok || dns == "") {
			return 0, errors.New("address DNS")
		}
		if port, ok := ToInt(f[2]); !ok || port < 1 || port > 65535 {
			return 0, errors.New("address port")
		}
		if pr, ok := ToInt(f[3]); !ok || pr < 1 || pr > 6 {
			return 0, errors.New("address protocol")
		}
	}
	if !hashIs(p[1], to0d) {
		return 0, errors.New("to0d hash")
	}
	r.blobs[string(inf.GUID)] = refBlob{Encode(a[1]), inf.Certs, time.Now().Add(time.Duration(wait) * time.Second)}
	return wait, nil
}

// Registered returns the stored blob.
func (r *Ref) Registered(guid []byte) []byte {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.blobs[string(guid)].raw
}

func (r *Ref) hello60(body []byte) (*Answer, *refSess, error) {
	a, err := arr(body, 6)
	if err != nil {
		return nil, nil, err
	}
	if n, ok := ToInt(a[0]); !ok || n < 0 || n > 65535 {
		return nil, nil, errors.New("max message size")
	}
	g, err := bstr(a[1], 16)
	if err != nil {
		return nil, nil, err
	}
	v := r.Own[string(g)]
	if v == nil {
		return nil, nil, errors.New("unknown GUID")
	}
	n60, err := bstr(a[2], 16)
	if err != nil {
		return nil, nil, err
	}
	name, _ := a[3].(string)
	kex, err := NewOwnerKex(name)
	if err != nil {
		return nil, nil, err
	}
	_, isRSA := v.Owner.Priv.Public().(*rsa.PublicKey)
	if strings.HasPrefix(name, "ASYM") && !isRSA {
		return nil, nil, errors.New("key exchange does not fit the owner key")
	}
	cid, ok := ToInt(a[4])
	var su *Suite
	for i := range Suites {
		if int64(Suites[i].ID) == cid {
			su = &Suites[i]
		}
	}
	if !ok || su == nil {
		return nil, nil, errors.New("cipher suite")
	}
	alg, err := sigInfo(a[5])
	if err != nil {
		return nil, nil, err
	}
	if _, da, err := CertKey(v.Info.Certs); err != nil || da != alg {
		return nil, nil, errors.New("signature type is not the device key's")
	}
	s := &refSess{prev: 61, guid: g, alg: alg, nProve: RandBytes(16), v: v, kex: kex, suite: *su, fetched: map[int]bool{}}
	return &Answer{Msg: 61, Signer: v.Owner, Unprot: Map{{256, s.nProve}, {257, v.Owner.Pub()}},
		Tree:  A(v.Info.Header, v.Info.Entries, v.Tree[2], n60, a[5], kex.Public, Hash(HashType(alg), body), 2048),
		Token: r.token(s)}, s, nil
}

// NewOwnerKex starts the owner side of a key exchange.
func NewOwnerKex(suite string) (*Kex, error) {
	switch suite {
	case "ASYMKEX2048", "ASYMKEX3072":
		n := 32
		if suite == "ASYMKEX3072" {
			n = 96
		}
		k := &Kex{Suite: suite, rnd: RandBytes(n)}
		k.Public = k.rnd
		return k, nil
	}
	return NewKex(suite, nil)
}

// FinishOwner derives the shared secret from the device's message.
func (k *Kex) FinishOwner(xb []byte, owner *Key) (SessKey, error) {
	switch k.Suite {
	case "ECDH256", "ECDH384":
		c, n, rl := curveOf(k.Suite)
		p, err := SplitKex(xb)
		if err != nil {
			return SessKey{}, err
		}
		if len(p[0]) != n || len(p[1]) != n || len(p[2]) != rl {
			return SessKey{}, errors.New("key exchange part lengths")
		}
		s, err := k.Finish(xb)
		if err != nil {
			return SessKey{}, err
		}
		_ = c
		// device random comes first
		sh := append([]byte{}, s.ShSe[:n]...)
		sh = append(append(sh, p[2]...), k.rnd...)
		return SessKey{ShSe: sh, Ctx: []byte{}}, nil
	case "DHKEXid14", "DHKEXid15":
		if len(xb) < 8 || len(xb) > (DHPrime(k.Suite).BitLen()+7)/8 {
			return SessKey{}, errors.New("key exchange length")
		}
		return k.Finish(xb)
	}
	rk, ok := owner.Priv.(*rsa.PrivateKey)
	if !ok {
		return SessKey{}, errors.New("owner key is not RSA")
	}
	b, err := rsa.DecryptOAEP(sha256.New(), rand.Reader, rk, xb, nil)
	if err != nil {
		return SessKey{}, err
	}
	if len(b) != len(k.rnd) {
		return SessKey{}, errors.New("key exchange random length")
	}
	return SessKey{ShSe: b, Ctx: k.rnd}, nil
}

// SetBlob registers a redirect directly.
func (r *Ref) SetBlob(guid []byte, blob any, certs [][]byte) {
	r.mu.Lock()
	r.blobs[string(guid)] = refBlob{Encode(blob), certs, time.Now().Add(time.Hour)}
	r.mu.Unlock()
}
