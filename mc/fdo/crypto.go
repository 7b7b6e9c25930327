package fdo

import (
	"crypto"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"hash"
	"math/big"
	"sync"
	"time"
)

// Key algorithms by COSE signature identifier.
const (
	ES256 = -7
	ES384 = -35
	RS256 = -257
	RS384 = -258
)

// AlgName names a signature algorithm.
func AlgName(a int) string {
	return map[int]string{ES256: "P256", ES384: "P384", RS256: "RSA2048", RS384: "RSA3072"}[a]
}

// Key is a private key with its FDO encodings.
type Key struct {
	Alg    int
	PkType int
	Priv   crypto.Signer
	SPKI   []byte
	PKCS8  []byte
}

// NewKey generates a key.
func NewKey(alg int) *Key {
	var s crypto.Signer
	var err error
	pt := 0
	switch alg {
	case ES256:
		s, err = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		pt = 10
	case ES384:
		s, err = ecdsa.GenerateKey(elliptic.P384(), rand.Reader)
		pt = 11
	case RS256:
		s, err = rsa.GenerateKey(rand.Reader, 2048)
		pt = 1
	case RS384:
		s, err = rsa.GenerateKey(rand.Reader, 3072)
		pt = 5
	default:
		panic("alg")
	}
	if err != nil {
		panic(err)
	}
	return WrapKey(alg, pt, s)
}

// WrapKey derives encodings.
func WrapKey(alg, pt int, s crypto.Signer) *Key {
	sp, err := x509.MarshalPKIXPublicKey(s.Public())
	if err != nil {
		panic(err)
	}
	p8, err := x509.MarshalPKCS8PrivateKey(s)
	if err != nil {
		panic(err)
	}
	return &Key{alg, pt, s, sp, p8}
}

var (
	keyMu   sync.Mutex
	keyPool = map[string]*Key{}
)

// PoolKey returns a process-wide key by name, generating it on first use.
func PoolKey(alg int, name string) *Key {
	keyMu.Lock()
	defer keyMu.Unlock()
	k := fmt.Sprint(alg, "/", name)
	if keyPool[k] == nil {
		keyPool[k] = NewKey(alg)
	}
	return keyPool[k]
}

// Pub is the FDO public key [type, X509, spki].
func (k *Key) Pub() []any { return A(k.PkType, 1, k.SPKI) }

// HashFor is the hash used by a signature algorithm.
func HashFor(alg int) func() hash.Hash {
	if alg == ES384 || alg == RS384 {
		return sha512.New384
	}
	return sha256.New
}

// HashType is the FDO hash identifier that goes with a signature algorithm.
func HashType(alg int) int {
	if alg == ES384 || alg == RS384 {
		return -43
	}
	return -16
}

// Hash computes an FDO hash [type, digest].
func Hash(typ int, data []byte) []any { return A(typ, RawHash(typ, data)) }

// RawHash computes a digest.
func RawHash(typ int, data []byte) []byte {
	switch typ {
	case -16:
		s := sha256.Sum256(data)
		return s[:]
	case -43:
		s := sha512.Sum384(data)
		return s[:]
	}
	panic("hash type")
}

// RawHmac computes an HMAC (5: SHA-256, 6: SHA-384).
func RawHmac(typ int, key, data []byte) []byte {
	f := sha256.New
	if typ == 6 {
		f = sha512.New384
	}
	m := hmac.New(f, key)
	m.Write(data)
	return m.Sum(nil)
}

// SignRaw signs data with the algorithm's hash; EC signatures are fixed-width r||s.
func (k *Key) SignRaw(data []byte) []byte {
	h := HashFor(k.Alg)()
	h.Write(data)
	d := h.Sum(nil)
	switch p := k.Priv.(type) {
	case *ecdsa.PrivateKey:
		r, s, err := ecdsa.Sign(rand.Reader, p, d)
		if err != nil {
			panic(err)
		}
		n := (p.Curve.Params().BitSize + 7) / 8
		out := make([]byte, 2*n)
		r.FillBytes(out[:n])
		s.FillBytes(out[n:])
		return out
	case *rsa.PrivateKey:
		ch := crypto.SHA256
		if k.Alg == RS384 {
			ch = crypto.SHA384
		}
		sig, err := rsa.SignPKCS1v15(rand.Reader, p, ch, d)
		if err != nil {
			panic(err)
		}
		return sig
	}
	panic("key")
}

// VerifyRaw checks a signature made by SignRaw's conventions.
func VerifyRaw(pub any, alg int, data, sig []byte) bool {
	h := HashFor(alg)()
	h.Write(data)
	d := h.Sum(nil)
	switch p := pub.(type) {
	case *ecdsa.PublicKey:
		n := (p.Curve.Params().BitSize + 7) / 8
		if len(sig) != 2*n {
			return false
		}
		return ecdsa.Verify(p, d, new(big.Int).SetBytes(sig[:n]), new(big.Int).SetBytes(sig[n:]))
	case *rsa.PublicKey:
		ch := crypto.SHA256
		if alg == RS384 {
			ch = crypto.SHA384
		}
		return rsa.VerifyPKCS1v15(p, ch, d, sig) == nil
	}
	return false
}

// SigStructure is the COSE Sig_structure for Sign1.
func SigStructure(protected, payload []byte) []byte {
	return Encode(A("Signature1", protected, []byte{}, payload))
}

// Sign1 builds a COSE_Sign1 (tag 18).
func (k *Key) Sign1(unprot Map, payload []byte) Tag {
	prot := Encode(Map{{1, k.Alg}})
	if unprot == nil {
		unprot = Map{}
	}
	return Tag{18, A(prot, unprot, payload, k.SignRaw(SigStructure(prot, payload)))}
}

// Sign1Parts is a decoded COSE_Sign1.
type Sign1Parts struct {
	Protected []byte
	Unprot    Map
	Payload   []byte
	Sig       []byte
}

// ParseSign1 decodes a COSE_Sign1 item.
func ParseSign1(v any) (s Sign1Parts, err error) {
	t, ok := v.(Tag)
	if !ok || t.N != 18 {
		return s, errors.New("not a tagged Sign1")
	}
	a, ok := t.V.([]any)
	if !ok || len(a) != 4 {
		return s, errors.New("Sign1 shape")
	}
	var ok1, ok2, ok3, ok4 bool
	s.Protected, ok1 = a[0].([]byte)
	s.Unprot, ok2 = a[1].(Map)
	s.Payload, ok3 = a[2].([]byte)
	s.Sig, ok4 = a[3].([]byte)
	if !ok1 || !ok2 || !ok3 || !ok4 {
		return s, errors.New("Sign1 fields")
	}
	return s, nil
}

// Verify checks the signature.
func (s Sign1Parts) Verify(pub any, alg int) bool {
	return VerifyRaw(pub, alg, SigStructure(s.Protected, s.Payload), s.Sig)
}

// Chain is a device certificate chain.
type Chain struct {
	Leaf  *Key
	Certs [][]byte
}

// NewChain issues leaf <- intermediate <- root.
func NewChain(leaf *Key, name string) *Chain {
	root, inter := PoolKey(ES256, "ca-root-"+name), PoolKey(ES256, "ca-inter-"+name)
	mk := func(sub, iss *x509.Certificate, pub crypto.PublicKey, by crypto.Signer) ([]byte, *x509.Certificate) {
		der, err := x509.CreateCertificate(rand.Reader, sub, iss, pub, by)
		if err != nil {
			panic(err)
		}
		c, err := x509.ParseCertificate(der)
		if err != nil {
			panic(err)
		}
		return der, c
	}
	tmpl := func(n int64, cn string, ca bool) *x509.Certificate {
		t := &x509.Certificate{SerialNumber: big.NewInt(n), Subject: pkix.Name{CommonName: cn}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(1000 * time.Hour),
			BasicConstraintsValid: true, IsCA: ca, KeyUsage: x509.KeyUsageDigitalSignature}
		if ca {
			t.KeyUsage |= x509.KeyUsageCertSign
		}
		return t
	}
	rt := tmpl(1, "verif root "+name, true)
	rd, rc := mk(rt, rt, root.Priv.Public(), root.Priv)
	id, ic := mk(tmpl(2, "verif inter "+name, true), rc, inter.Priv.Public(), root.Priv)
	ld, _ := mk(tmpl(3, "verif device "+name, false), ic, leaf.Priv.Public(), inter.Priv)
	return &Chain{leaf, [][]byte{ld, id, rd}}
}

// NewChainN issues a leaf under n intermediates.
func NewChainN(leaf *Key, name string, n int) *Chain {
	var certs [][]byte
	var iss *x509.Certificate
	by := PoolKey(ES256, "ca-root-"+name)
	for i := 0; i <= n+1; i++ {
		t := &x509.Certificate{SerialNumber: big.NewInt(int64(i + 1)), Subject: pkix.Name{CommonName: fmt.Sprintf("verif %s %d", name, i)}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(1000 * time.Hour),
			BasicConstraintsValid: true, IsCA: i <= n, KeyUsage: x509.KeyUsageDigitalSignature}
		if t.IsCA {
			t.KeyUsage |= x509.KeyUsageCertSign
		}
		own := by
		if i > n {
			own = leaf
		} else if i > 0 {
			own = PoolKey(ES256, fmt.Sprintf("ca-inter-%s-%d", name, i))
		}
		if iss == nil {
			iss = t
		}
		der, err := x509.CreateCertificate(rand.Reader, t, iss, own.Priv.Public(), by.Priv)
		if err != nil {
			panic(err)
		}
		if iss, err = x509.ParseCertificate(der); err != nil {
			panic(err)
		}
		by = own
		certs = append([][]byte{der}, certs...)
	}
	return &Chain{leaf, certs}
}

// ChainAny is the chain as a CBOR array.
func (c *Chain) ChainAny() []any {
	var o []any
	for _, b := range c.Certs {
		o = append(o, b)
	}
	return o
}

// RandBytes returns n random bytes.
func RandBytes(n int) []byte {
	b := make([]byte, n)
	if _, err := rand.Read(b); err != nil {
		panic(err)
	}
	return b
}

/* ---- session encryption reference ---- */

// Suite describes one cipher suite.
type Suite struct {
	ID            int
	Name          string
	Key, Nonce    int
	KDF           int // HMAC type of the KDF
	ETM           bool
	Mac           int
	Svk           int
	Tag           int // CCM tag length
	Kind          string
	Unimplemented bool
}

// Suites are all advertised cipher suites.
var Suites = []Suite{
	{ID: 1, Name: "A128GCM", Key: 16, Nonce: 12, KDF: 5, Kind: "gcm"},
	{ID: 3, Name: "A256GCM", Key: 32, Nonce: 12, KDF: 5, Kind: "gcm"},
	{ID: 30, Name: "CCM16-128", Key: 16, Nonce: 13, KDF: 5, Kind: "ccm", Tag: 16},
	{ID: 31, Name: "CCM16-256", Key: 32, Nonce: 13, KDF: 5, Kind: "ccm", Tag: 16},
	{ID: 32, Name: "CCM64-128", Key: 16, Nonce: 7, KDF: 5, Kind: "ccm", Tag: 16},
	{ID: 33, Name: "CCM64-256", Key: 32, Nonce: 7, KDF: 5, Kind: "ccm", Tag: 16},
	{ID: -17760704, Name: "AES128CTR-HMAC256", Key: 16, Nonce: 16, KDF: 5, ETM: true, Mac: 5, Svk: 32, Kind: "ctr"},
	{ID: -17760703, Name: "AES128CBC-HMAC256", Key: 16, Nonce: 16, KDF: 5, ETM: true, Mac: 5, Svk: 32, Kind: "cbc", Unimplemented: true},
	{ID: -17760705, Name: "AES256CBC-HMAC384", Key: 32, Nonce: 16, KDF: 6, ETM: true, Mac: 6, Svk: 64, Kind: "cbc", Unimplemented: true},
	{ID: -17760706, Name: "AES256CTR-HMAC384", Key: 32, Nonce: 16, KDF: 6, ETM: true, Mac: 6, Svk: 64, Kind: "ctr", Unimplemented: true},
}

// SuiteByID finds a suite.
func SuiteByID(id int) Suite {
	for _, s := range Suites {
		if s.ID == id {
			return s
		}
	}
	panic("suite")
}

// KDF is SP800-108 counter mode as profiled by FDO.
func KDF(size, hmacType int, key, ctxRand []byte) []byte {
	var out []byte
	l := size * 8
	for i := 1; len(out) < size; i++ {
		msg := []byte{byte(i)}
		msg = append(msg, "FIDO-KDF"...)
		msg = append(msg, 0)
		msg = append(msg, "AutomaticOnboardTunnel"...)
		msg = append(msg, ctxRand...)
		msg = append(msg, byte(l>>8), byte(l))
		out = append(out, RawHmac(hmacType, key, msg)...)
	}
	return out[:size]
}

// SessKey is the derived secret.
type SessKey struct{ ShSe, Ctx []byte }

func ccmSeal(block cipher.Block, tagLen int, nonce, pt, aad []byte) []byte {
	q := 15 - len(nonce)
	mac := ccmMac(block, tagLen, q, nonce, pt, aad)
	ctr := make([]byte, 16)
	ctr[0] = byte(q - 1)
	copy(ctr[1:], nonce)
	s0 := make([]byte, 16)
	block.Encrypt(s0, ctr)
	ctr[15] = 1
	out := make([]byte, len(pt))
	cipher.NewCTR(block, ctr).XORKeyStream(out, pt)
	for i := 0; i < tagLen; i++ {
		out = append(out, mac[i]^s0[i])
	}
	return out
}

func ccmMac(block cipher.Block, tagLen, q int, nonce, pt, aad []byte) []byte {
	b0 := make([]byte, 16)
	if len(aad) > 0 {
		b0[0] |= 0x40
	}
	b0[0] |= byte((tagLen-2)/2) << 3
	b0[0] |= byte(q - 1)
	copy(b0[1:], nonce)
	n := len(pt)
	for i := 0; i < q && i < 8; i++ {
		b0[15-i] = byte(n)
		n >>= 8
	}
	data := append([]byte{}, b0...)
	if len(aad) > 0 {
		var l [2]byte
		binary.BigEndian.PutUint16(l[:], uint16(len(aad)))
		data = append(data, l[:]...)
		data = append(data, aad...)
		for len(data)%16 != 0 {
			data = append(data, 0)
		}
	}
	data = append(data, pt...)
	for len(data)%16 != 0 {
		data = append(data, 0)
	}
	x := make([]byte, 16)
	for i := 0; i < len(data); i += 16 {
		for j := 0; j < 16; j++ {
			x[j] ^= data[i+j]
		}
		block.Encrypt(x, x)
	}
	return x[:tagLen]
}

func ccmOpen(block cipher.Block, tagLen int, nonce, ct, aad []byte) ([]byte, error) {
	if len(ct) < tagLen {
		return nil, errors.New("short")
	}
	q := 15 - len(nonce)
	ctr := make([]byte, 16)
	ctr[0] = byte(q - 1)
	copy(ctr[1:], nonce)
	s0 := make([]byte, 16)
	block.Encrypt(s0, ctr)
	ctr[15] = 1
	pt := make([]byte, len(ct)-tagLen)
	cipher.NewCTR(block, ctr).XORKeyStream(pt, ct[:len(ct)-tagLen])
	mac := ccmMac(block, tagLen, q, nonce, pt, aad)
	for i := range mac {
		if mac[i]^s0[i] != ct[len(ct)-tagLen+i] {
			return nil, errors.New("mac")
		}
	}
	return pt, nil
}

// EncryptParts exposes the pieces so that tests can tamper with them.
func Encrypt(s Suite, k SessKey, pt []byte) []byte { return Encode(EncryptItem(s, k, pt)) }

// EncryptItem builds the encrypted message as a CBOR tree. Tag placement follows the
// wire format of the code under test (tag 16 inner, tag 17 outer).
func EncryptItem(s Suite, k SessKey, pt []byte) any {
	return EncryptNamed(s, k, pt, Map{{1, s.ID}}, s.Mac, Map{{1, s.Mac}})
}

// EncryptNamed encrypts authentically under any protected header. The outer block of
// encrypt-then-mac suites is made with macTyp and any outer header.
func EncryptNamed(s Suite, k SessKey, pt []byte, head Map, macTyp int, outer Map) any {
	nonce := RandBytes(s.Nonce)
	prot := Encode(head)
	if !s.ETM {
		key := KDF(s.Key, s.KDF, k.ShSe, k.Ctx)
		block, err := aes.NewCipher(key)
		if err != nil {
			panic(err)
		}
		aad := Encode(A("Encrypt0", prot, []byte{}))
		var ct []byte
		if s.Kind == "gcm" {
			g, _ := cipher.NewGCM(block)
			ct = g.Seal(nil, nonce, pt, aad)
		} else {
			ct = ccmSeal(block, s.Tag, nonce, pt, aad)
		}
		return Tag{16, A(prot, Map{{5, nonce}}, ct)}
	}
	ks := KDF(s.Key+s.Svk, s.KDF, k.ShSe, k.Ctx)
	block, err := aes.NewCipher(ks[s.Svk:])
	if err != nil {
		panic(err)
	}
	ct := make([]byte, len(pt))
	cipher.NewCTR(block, nonce).XORKeyStream(ct, pt)
	inner := Encode(Tag{16, A(prot, Map{{5, nonce}}, ct)})
	mac := RawHmac(macTyp, ks[:s.Svk], Encode(Tag{17, A("MAC0", outer, []byte{}, inner)}))
	return A(Encode(outer), Map{}, inner, mac)
}

// ETMOuter is the outer encrypt-then-mac block.
func ETMOuter(macAlg int, inner, mac []byte) any {
	return A(Encode(Map{{1, macAlg}}), Map{}, inner, mac)
}

// Decrypt reverses Encrypt with strict checks.
func Decrypt(s Suite, k SessKey, msg []byte) ([]byte, error) {
	v, err := Decode(msg)
	if err != nil {
		return nil, err
	}
	if !s.ETM {
		t, ok := v.(Tag)
		if !ok || t.N != 16 {
			return nil, fmt.Errorf("outer is not tag 16: %s", hex.EncodeToString(msg[:min(len(msg), 16)]))
		}
		a, ok := t.V.([]any)
		if !ok || len(a) != 3 {
			return nil, errors.New("emb shape")
		}
		prot, _ := a[0].([]byte)
		un, _ := a[1].(Map)
		ct, _ := a[2].([]byte)
		if string(prot) != string(Encode(Map{{1, s.ID}})) {
			return nil, fmt.Errorf("protected header %x", prot)
		}
		iv, _ := un.Get(5)
		nonce, _ := iv.([]byte)
		if len(nonce) != s.Nonce {
			return nil, fmt.Errorf("nonce length %d", len(nonce))
		}
		block, err := aes.NewCipher(KDF(s.Key, s.KDF, k.ShSe, k.Ctx))
		if err != nil {
			return nil, err
		}
		aad := Encode(A("Encrypt0", prot, []byte{}))
		if s.Kind == "gcm" {
			g, _ := cipher.NewGCM(block)
			return g.Open(nil, nonce, ct, aad)
		}
		return ccmOpen(block, s.Tag, nonce, ct, aad)
	}
	if t, ok := v.(Tag); ok {
		v = t.V
	}
	a, ok := v.([]any)
	if !ok || len(a) != 4 {
		return nil, errors.New("etm shape")
	}
	inner, _ := a[2].([]byte)
	mac, _ := a[3].([]byte)
	ks := KDF(s.Key+s.Svk, s.KDF, k.ShSe, k.Ctx)
	want := RawHmac(s.Mac, ks[:s.Svk], Encode(Tag{17, A("MAC0", Map{{1, s.Mac}}, []byte{}, inner)}))
	if !hmac.Equal(want, mac) {
		return nil, errors.New("mac mismatch")
	}
	iv, err := Decode(inner)
	if err != nil {
		return nil, err
	}
	if t, ok := iv.(Tag); ok {
		iv = t.V
	}
	b, ok := iv.([]any)
	if !ok || len(b) != 3 {
		return nil, errors.New("etm inner shape")
	}
	un, _ := b[1].(Map)
	n, _ := un.Get(5)
	nonce, _ := n.([]byte)
	if len(nonce) != s.Nonce {
		return nil, errors.New("iv length")
	}
	ct, _ := b[2].([]byte)
	block, _ := aes.NewCipher(ks[s.Svk:])
	pt := make([]byte, len(ct))
	cipher.NewCTR(block, nonce).XORKeyStream(pt, ct)
	return pt, nil
}

/* ---- key exchange reference ---- */

// Kex is one side's key-exchange state.
type Kex struct {
	Suite  string
	priv   *ecdsa.PrivateKey
	dh     *big.Int
	rnd    []byte
	Public []byte
}

// KexSuites are all key exchange names.
var KexSuites = []string{"ECDH256", "ECDH384", "DHKEXid14", "DHKEXid15", "ASYMKEX2048", "ASYMKEX3072"}

var dhPrimes = map[string]string{
	"DHKEXid14": "FFFFFFFFFFFFFFFFC90FDAA22168C234C4C6628B80DC1CD129024E088A67CC74020BBEA63B139B22514A08798E3404DDEF9519B3CD3A431B302B0A6DF25F14374FE1356D6D51C245E485B576625E7EC6F44C42E9A637ED6B0BFF5CB6F406B7EDEE386BFB5A899FA5AE9F24117C4B1FE649286651ECE45B3DC2007CB8A163BF0598DA48361C55D39A69163FA8FD24CF5F83655D23DCA3AD961C62F356208552BB9ED529077096966D670C354E4ABC9804F1746C08CA18217C32905E462E36CE3BE39E772C180E86039B2783A2EC07A28FB5C55DF06F4C52C9DE2BCBF6955817183995497CEA956AE515D2261898FA051015728E5A8AACAA68FFFFFFFFFFFFFFFF",
	"DHKEXid15": "FFFFFFFFFFFFFFFFC90FDAA22168C234C4C6628B80DC1CD129024E088A67CC74020BBEA63B139B22514A08798E3404DDEF9519B3CD3A431B302B0A6DF25F14374FE1356D6D51C245E485B576625E7EC6F44C42E9A637ED6B0BFF5CB6F406B7EDEE386BFB5A899FA5AE9F24117C4B1FE649286651ECE45B3DC2007CB8A163BF0598DA48361C55D39A69163FA8FD24CF5F83655D23DCA3AD961C62F356208552BB9ED529077096966D670C354E4ABC9804F1746C08CA18217C32905E462E36CE3BE39E772C180E86039B2783A2EC07A28FB5C55DF06F4C52C9DE2BCBF6955817183995497CEA956AE515D2261898FA051015728E5A8AAAC42DAD33170D04507A33A85521ABDF1CBA64ECFB850458DBEF0A8AEA71575D060C7DB3970F85A6E1E4C7ABF5AE8CDB0933D71E8C94E04A25619DCEE3D2261AD2EE6BF12FFA06D98A0864D87602733EC86A64521F2B18177B200CBBE117577A615D6C770988C0BAD946E208E24FA074E5AB3143DB5BFCE0FD108E4B82D120A93AD2CAFFFFFFFFFFFFFFFF",
}

// DHPrime is the group modulus of a DH suite.
func DHPrime(suite string) *big.Int {
	p, ok := new(big.Int).SetString(dhPrimes[suite], 16)
	if !ok {
		panic("prime")
	}
	return p
}

func curveOf(suite string) (elliptic.Curve, int, int) {
	if suite == "ECDH384" {
		return elliptic.P384(), 48, 48
	}
	return elliptic.P256(), 32, 16
}

// ECKexBlock encodes an EC key exchange message.
func ECKexBlock(x, y, rnd []byte) []byte {
	var b []byte
	for _, p := range [][]byte{x, y, rnd} {
		b = append(b, byte(len(p)>>8), byte(len(p)))
		b = append(b, p...)
	}
	return b
}

// NewKex starts the device side of a key exchange; ownerPub is needed for ASYMKEX.
func NewKex(suite string, ownerPub any) (*Kex, error) {
	k := &Kex{Suite: suite}
	switch suite {
	case "ECDH256", "ECDH384":
		c, n, rl := curveOf(suite)
		p, err := ecdsa.GenerateKey(c, rand.Reader)
		if err != nil {
			return nil, err
		}
		k.priv = p
		k.rnd = RandBytes(rl)
		k.Public = ECKexBlock(p.X.FillBytes(make([]byte, n)), p.Y.FillBytes(make([]byte, n)), k.rnd)
	case "DHKEXid14", "DHKEXid15":
		p := DHPrime(suite)
		k.dh = new(big.Int).SetBytes(RandBytes(64))
		k.Public = new(big.Int).Exp(big.NewInt(2), k.dh, p).FillBytes(make([]byte, (p.BitLen()+7)/8))
	case "ASYMKEX2048", "ASYMKEX3072":
		n := 32
		if suite == "ASYMKEX3072" {
			n = 96
		}
		k.rnd = RandBytes(n)
		rp, ok := ownerPub.(*rsa.PublicKey)
		if !ok {
			return nil, errors.New("ASYMKEX needs an RSA owner key")
		}
		ct, err := rsa.EncryptOAEP(sha256.New(), rand.Reader, rp, k.rnd, nil)
		if err != nil {
			return nil, err
		}
		k.Public = ct
	default:
		return nil, errors.New("suite")
	}
	return k, nil
}

// Finish derives the shared secret from the owner's message.
func (k *Kex) Finish(xa []byte) (SessKey, error) {
	switch k.Suite {
	case "ECDH256", "ECDH384":
		c, n, rl := curveOf(k.Suite)
		parts, err := SplitKex(xa)
		if err != nil {
			return SessKey{}, err
		}
		if len(parts[0]) > n || len(parts[1]) > n || len(parts[2]) != rl {
			return SessKey{}, fmt.Errorf("kex part lengths %d %d %d", len(parts[0]), len(parts[1]), len(parts[2]))
		}
		x, y := new(big.Int).SetBytes(parts[0]), new(big.Int).SetBytes(parts[1])
		if !c.IsOnCurve(x, y) {
			return SessKey{}, errors.New("owner point not on curve")
		}
		sx, _ := c.ScalarMult(x, y, k.priv.D.Bytes())
		sh := sx.FillBytes(make([]byte, n))
		sh = append(sh, k.rnd...)
		sh = append(sh, parts[2]...)
		return SessKey{ShSe: sh, Ctx: []byte{}}, nil
	case "DHKEXid14", "DHKEXid15":
		p := DHPrime(k.Suite)
		// the shared value is as wide as the group's modulus
		return SessKey{ShSe: new(big.Int).Exp(new(big.Int).SetBytes(xa), k.dh, p).FillBytes(make([]byte, (p.BitLen()+7)/8)), Ctx: []byte{}}, nil
	default:
		return SessKey{ShSe: k.rnd, Ctx: xa}, nil
	}
}

// SplitKex splits the three length-prefixed parts of an EC key exchange message.
func SplitKex(b []byte) ([3][]byte, error) {
	var o [3][]byte
	for i := 0; i < 3; i++ {
		if len(b) < 2 {
			return o, errors.New("short kex")
		}
		n := int(b[0])<<8 | int(b[1])
		b = b[2:]
		if len(b) < n {
			return o, errors.New("short kex part")
		}
		o[i] = b[:n]
		b = b[n:]
	}
	if len(b) != 0 {
		return o, errors.New("trailing kex bytes")
	}
	return o, nil
}

// ParseSPKI decodes a subject public key.
func ParseSPKI(b []byte) any {
	p, err := x509.ParsePKIXPublicKey(b)
	if err != nil {
		return nil
	}
	return p
}

// SPKI encodes a public key (nil if it is none).
func SPKI(pub any) []byte {
	b, err := x509.MarshalPKIXPublicKey(pub)
	if err != nil {
		return nil
	}
	return b
}
