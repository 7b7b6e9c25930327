package fdo

import (
	"errors"
	"fmt"
	"sync"

	dodbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/do/dbs"
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
)

// VoucherSpec describes a voucher to build with the reference encoder.
type VoucherSpec struct {
	Dev      *Chain
	Mfg      *Key   // manufacturer key in the header
	Owners   []*Key // one per entry
	GUID     []byte
	DevInfo  string
	RvInfo   any
	HmacKey  []byte
	HashType int // entry hashes
}

// Voucher is a built voucher as a CBOR tree.
type Voucher struct {
	Spec    VoucherSpec
	Header  []byte
	Hmac    []any
	Entries []Tag
	HmacTyp int
}

// DefaultRv is a small valid rendezvous info: one directive [[dns],[port],[prot]].
func DefaultRv() any {
	return A(A(A(5, Encode("rv.verif.test")), A(3, Encode(8080)), A(4, Encode(8080)), A(12, Encode(1))))
}

// HmacTypeFor is the HMAC that goes with the device key.
func HmacTypeFor(alg int) int {
	if alg == ES384 || alg == RS384 {
		return 6
	}
	return 5
}

// HeaderTree is the voucher header.
func (s VoucherSpec) HeaderTree() []any {
	var all []byte
	for _, c := range s.Dev.Certs {
		all = append(all, c...)
	}
	return A(101, s.GUID, s.RvInfo, s.DevInfo, s.Mfg.Pub(), Hash(s.HashType, all))
}

// EntryPayload builds entry i's payload.
func (v *Voucher) EntryPayload(i int) []any {
	var prev []byte
	if i == 0 {
		prev = append(append([]byte{}, v.Header...), Encode(v.Hmac)...)
	} else {
		prev = Encode(v.Entries[i-1])
	}
	hi := append(append([]byte{}, v.Spec.GUID...), v.Spec.DevInfo...)
	return A(Hash(v.Spec.HashType, prev), Hash(v.Spec.HashType, hi), nil, v.Spec.Owners[i].Pub())
}

// Signer is the key that signs entry i.
func (v *Voucher) Signer(i int) *Key {
	if i == 0 {
		return v.Spec.Mfg
	}
	return v.Spec.Owners[i-1]
}

// BuildVoucher builds a valid voucher.
func BuildVoucher(s VoucherSpec) *Voucher {
	if s.RvInfo == nil {
		s.RvInfo = DefaultRv()
	}
	if s.HashType == 0 {
		s.HashType = HashType(s.Dev.Leaf.Alg)
	}
	if s.GUID == nil {
		s.GUID = RandBytes(16)
	}
	if s.DevInfo == "" {
		s.DevInfo = "verif device"
	}
	if s.HmacKey == nil {
		s.HmacKey = RandBytes(32)
	}
	v := &Voucher{Spec: s, HmacTyp: HmacTypeFor(s.Dev.Leaf.Alg)}
	v.Header = Encode(s.HeaderTree())
	v.Hmac = A(v.HmacTyp, RawHmac(v.HmacTyp, s.HmacKey, v.Header))
	for i := range s.Owners {
		v.Entries = append(v.Entries, v.Signer(i).Sign1(nil, Encode(v.EntryPayload(i))))
	}
	return v
}

// Tree is the full voucher.
func (v *Voucher) Tree() []any {
	var es []any
	for _, e := range v.Entries {
		es = append(es, e)
	}
	if es == nil {
		es = []any{}
	}
	return A(101, v.Header, v.Hmac, v.Spec.Dev.ChainAny(), es)
}

// Owner is the final owner key.
func (v *Voucher) Owner() *Key { return v.Spec.Owners[len(v.Spec.Owners)-1] }

// Device is a virtual device with its voucher.
type Device struct {
	V    *Voucher
	Key  *Key
	GUID []byte
	Alg  int
}

var (
	chMu   sync.Mutex
	chains = map[string]*Chain{}
)

// PoolChain returns a cached chain for a pooled leaf key.
func PoolChain(alg int, name string) *Chain {
	k := fmt.Sprint(alg, "/", name)
	chMu.Lock()
	c := chains[k]
	chMu.Unlock()
	if c != nil {
		return c
	}
	c = NewChain(PoolKey(alg, "dev-"+name), k)
	chMu.Lock()
	chains[k] = c
	chMu.Unlock()
	return c
}

// NewDevice builds a device with its own GUID; keys and certificates come from the pool.
func NewDevice(devAlg, ownerAlg int, name string, entries int) *Device {
	ch := PoolChain(devAlg, name)
	var owners []*Key
	for i := 0; i < entries; i++ {
		owners = append(owners, PoolKey(ownerAlg, fmt.Sprintf("own-%s-%d", name, i)))
	}
	v := BuildVoucher(VoucherSpec{Dev: ch, Mfg: PoolKey(ownerAlg, "mfg-"+name), Owners: owners})
	return &Device{V: v, Key: ch.Leaf, GUID: v.Spec.GUID, Alg: devAlg}
}

// VoucherEntry converts the voucher to the code's own type (by decoding the reference encoding).
func (d *Device) VoucherEntry() fdoshared.VoucherDBEntry {
	var ov fdoshared.OwnershipVoucher
	if err := fdoshared.CborCust.Unmarshal(Encode(d.V.Tree()), &ov); err != nil {
		panic("the code under test does not decode a valid voucher: " + err.Error())
	}
	return fdoshared.VoucherDBEntry{Voucher: ov, SgType: fdoshared.SgType(d.V.Owner().Alg), PrivateKeyX509: d.V.Owner().PKCS8}
}

// Install puts the voucher into the owner service's store.
func (d *Device) Install(w *World) {
	if err := dodbs.NewVoucherDB(w.DB).Save(d.VoucherEntry()); err != nil {
		panic("voucher save: " + err.Error())
	}
}

// Bytes16 truncates or fills.
func guidOf(b []byte) (g fdoshared.FdoGuid) { copy(g[:], b); return }

// Guid is the device's GUID in the code's type.
func (d *Device) Guid() fdoshared.FdoGuid { return guidOf(d.GUID) }

/* ---- TO0 ---- */

// To0 drives owner registration.
type To0 struct {
	W     *World
	Token string
	Nonce []byte
}

// Hello sends 20.
func (t *To0) Hello() Resp {
	r := t.W.Send(20, "", Encode(A()))
	if r.OK(21) {
		if a, ok := MustDecode(r.Body).([]any); ok && len(a) == 1 {
			t.Nonce, _ = a[0].([]byte)
		}
		t.Token = r.Token()
	}
	return r
}

// RvAddr is one owner address entry.
func RvAddr(dns string, port int) []any { return A(nil, dns, port, 3) }

// OwnerSign builds message 22 for a voucher tree signed by key.
func OwnerSign(voucher any, nonce []byte, wait int, addrs []any, key *Key, hashTyp int) (tree []any, to1d Tag) {
	to0d := Encode(A(voucher, wait, nonce))
	to1d = key.Sign1(nil, Encode(A(addrs, Hash(hashTyp, to0d))))
	return A(to0d, to1d), to1d
}

// Register runs TO0 for a device and returns the to1d blob.
func (t *To0) Register(d *Device, wait int, dns string) (Resp, []byte) {
	tree, to1d := OwnerSign(d.V.Tree(), t.Nonce, wait, A(RvAddr(dns, 8043)), d.V.Owner(), HashType(d.V.Owner().Alg))
	return t.W.Send(22, t.Token, Encode(tree)), Encode(to1d)
}

/* ---- TO1 ---- */

// To1 drives the rendezvous.
type To1 struct {
	W     *World
	Token string
	Nonce []byte
}

// Hello sends 30.
func (t *To1) Hello(guid []byte, alg int) Resp {
	r := t.W.Send(30, "", Encode(A(guid, A(alg, []byte{}))))
	if r.OK(31) {
		v, _ := Decode(r.Body)
		if a, ok := v.([]any); ok && len(a) == 2 {
			t.Nonce, _ = a[0].([]byte)
		}
		t.Token = r.Token()
	}
	return r
}

// Ueid is the EAT-UEID for a GUID.
func Ueid(guid []byte) []byte { return append([]byte{1}, guid...) }

// EatPayload builds an EAT payload.
func EatPayload(nonce, guid, xb []byte) Map {
	if xb == nil {
		xb = []byte{}
	}
	return Map{{10, nonce}, {256, Ueid(guid)}, {-257, A(xb)}}
}

// Prove sends 32.
func (t *To1) Prove(d *Device) Resp {
	return t.W.Send(32, t.Token, Encode(d.Key.Sign1(nil, Encode(EatPayload(t.Nonce, d.GUID, nil)))))
}

/* ---- TO2 ---- */

// To2 drives device onboarding with the reference implementation.
type To2 struct {
	W       *World
	D       *Device
	Suite   Suite
	KexName string
	Max     int

	Token    string
	NProveOV []byte
	NProveDv []byte
	NSetupDv []byte
	XA       []byte
	Num      int
	Entries  []any
	Key      SessKey
	HaveKey  bool
	kexs     *Kex
	Hello60  []byte
}

// NewTo2 prepares a session.
func NewTo2(w *World, d *Device, suite int, kex string) *To2 {
	return &To2{W: w, D: d, Suite: SuiteByID(suite), KexName: kex, Max: 1300}
}

// HelloBody builds message 60.
func (t *To2) HelloBody() []any {
	if t.NProveOV == nil {
		t.NProveOV = RandBytes(16)
	}
	return A(t.Max, t.D.GUID, t.NProveOV, t.KexName, t.Suite.ID, A(t.D.Alg, []byte{}))
}

// Hello sends 60 and checks the answer.
func (t *To2) Hello() (Resp, error) {
	t.Hello60 = Encode(t.HelloBody())
	r := t.W.Send(60, "", t.Hello60)
	if !r.OK(61) {
		return r, fmt.Errorf("60 refused: %s", r)
	}
	t.Token = r.Token()
	return r, t.take61(r.Body)
}

func (t *To2) take61(body []byte) error {
	v, err := Decode(body)
	if err != nil {
		return err
	}
	s, err := ParseSign1(v)
	if err != nil {
		return fmt.Errorf("61: %w", err)
	}
	n, _ := s.Unprot.Get(256)
	t.NProveDv, _ = n.([]byte)
	if len(t.NProveDv) != 16 {
		return errors.New("61: no ProveDv nonce")
	}
	pk, _ := s.Unprot.Get(257)
	if string(Encode(pk)) != string(Encode(t.D.V.Owner().Pub())) {
		return errors.New("61: owner public key is not the voucher's final owner key")
	}
	if !s.Verify(t.D.V.Owner().Priv.Public(), t.D.V.Owner().Alg) {
		return errors.New("61: signature does not verify under the owner key")
	}
	pv, err := Decode(s.Payload)
	if err != nil {
		return err
	}
	p, ok := pv.([]any)
	if !ok || len(p) != 8 {
		return errors.New("61: payload shape")
	}
	if h, _ := p[0].([]byte); string(h) != string(t.D.V.Header) {
		return errors.New("61: voucher header differs")
	}
	num, _ := ToInt(p[1])
	t.Num = int(num)
	if t.Num != len(t.D.V.Entries) {
		return fmt.Errorf("61: number of entries %d, want %d", t.Num, len(t.D.V.Entries))
	}
	if string(Encode(p[2])) != string(Encode(t.D.V.Hmac)) {
		return errors.New("61: header hmac differs")
	}
	if nb, _ := p[3].([]byte); string(nb) != string(t.NProveOV) {
		return errors.New("61: ProveOV nonce not echoed")
	}
	if string(Encode(p[4])) != string(Encode(A(t.D.Alg, []byte{}))) && string(Encode(p[4])) != string(Encode(A(t.D.Alg, nil))) {
		return errors.New("61: signature info not echoed")
	}
	t.XA, _ = p[5].([]byte)
	if string(Encode(p[6])) != string(Encode(Hash(HashType(t.D.Alg), t.Hello60))) {
		return errors.New("61: hello hash differs")
	}
	return nil
}

// Entry sends 62 for entry i and checks the answer.
func (t *To2) Entry(i int) (Resp, error) {
	r := t.W.Send(62, t.Token, Encode(A(i)))
	if !r.OK(63) {
		return r, fmt.Errorf("62 refused: %s", r)
	}
	v, err := Decode(r.Body)
	if err != nil {
		return r, err
	}
	a, ok := v.([]any)
	if !ok || len(a) != 2 {
		return r, errors.New("63 shape")
	}
	if n, _ := ToInt(a[0]); int(n) != i {
		return r, fmt.Errorf("63: entry number %d, want %d", n, i)
	}
	if i >= len(t.D.V.Entries) || string(Encode(a[1])) != string(Encode(t.D.V.Entries[i])) {
		return r, fmt.Errorf("63: entry %d differs from the voucher", i)
	}
	return r, nil
}

// ProveItem builds message 64.
func (t *To2) ProveItem(key *Key, nonce, guid, xb, setup []byte) Tag {
	un := Map{}
	if setup != nil {
		un = Map{{-259, setup}}
	}
	return key.Sign1(un, Encode(EatPayload(nonce, guid, xb)))
}

// StartKex makes the device's key exchange message.
func (t *To2) StartKex() error {
	var pub any
	if o := t.D.V.Owner(); o != nil {
		pub = o.Priv.Public()
	}
	k, err := NewKex(t.KexName, pub)
	if err != nil {
		return err
	}
	t.kexs = k
	return nil
}

// XB is the device's key exchange message.
func (t *To2) XB() []byte { return t.kexs.Public }

// Prove sends 64 and checks the answer.
func (t *To2) Prove() (Resp, error) {
	if err := t.StartKex(); err != nil {
		return Resp{Header: map[string][]string{}}, err
	}
	t.NSetupDv = RandBytes(16)
	r := t.W.Send(64, t.Token, Encode(t.ProveItem(t.D.Key, t.NProveDv, t.D.GUID, t.kexs.Public, t.NSetupDv)))
	if !r.OK(65) {
		return r, fmt.Errorf("64 refused: %s", r)
	}
	return r, t.take65(r.Body)
}

// Take65 checks an answer to 64.
func (t *To2) Take65(body []byte) error { return t.take65(body) }

func (t *To2) take65(body []byte) error {
	k, err := t.kexs.Finish(t.XA)
	if err != nil {
		return err
	}
	t.Key, t.HaveKey = k, true
	pt, err := Decrypt(t.Suite, k, body)
	if err != nil {
		return fmt.Errorf("65: decrypt: %w", err)
	}
	v, err := Decode(pt)
	if err != nil {
		return err
	}
	s, err := ParseSign1(v)
	if err != nil {
		return fmt.Errorf("65: %w", err)
	}
	if !s.Verify(t.D.V.Owner().Priv.Public(), t.D.V.Owner().Alg) {
		return errors.New("65: signature does not verify under the owner key")
	}
	pv, err := Decode(s.Payload)
	if err != nil {
		return err
	}
	p, ok := pv.([]any)
	if !ok || len(p) != 4 {
		return errors.New("65: payload shape")
	}
	if string(Encode(p[0])) != string(Encode(t.D.V.Spec.RvInfo)) {
		return errors.New("65: rendezvous info differs from the voucher's")
	}
	if g, _ := p[1].([]byte); string(g) != string(t.D.GUID) {
		return errors.New("65: GUID differs")
	}
	if n, _ := p[2].([]byte); string(n) != string(t.NSetupDv) {
		return errors.New("65: SetupDv nonce not echoed")
	}
	if string(Encode(p[3])) != string(Encode(t.D.V.Owner().Pub())) {
		return errors.New("65: owner2 key is not the owner's key")
	}
	return nil
}

// SendEnc encrypts and sends a tree.
func (t *To2) SendEnc(msg int, tree any) (Resp, any, error) {
	pl := Encode(tree)
	if t.W.Rewrite != nil {
		pl = t.W.Rewrite(msg, true, pl)
	}
	r := t.W.Send(msg, t.Token, Encrypt(t.Suite, t.Key, pl))
	if r.Panic != nil || r.Status != 200 {
		return r, nil, fmt.Errorf("%d refused: %s", msg, r)
	}
	pt, err := Decrypt(t.Suite, t.Key, r.Body)
	if err != nil {
		return r, nil, fmt.Errorf("%d: answer does not decrypt: %w", msg, err)
	}
	v, err := Decode(pt)
	return r, v, err
}

// Ready sends 66.
func (t *To2) Ready(max any) (Resp, error) {
	r, v, err := t.SendEnc(66, A(nil, max))
	if err != nil {
		return r, err
	}
	a, ok := v.([]any)
	if !ok || len(a) != 1 || !r.OK(67) {
		return r, errors.New("67 shape")
	}
	return r, nil
}

// KVs is a service info list.
type SI struct {
	K string
	V []byte
}

// Info69 is a decoded message 69.
type Info69 struct {
	More, Done bool
	SI         []SI
}

func siTree(l []SI) []any {
	o := []any{}
	for _, e := range l {
		o = append(o, A(e.K, e.V))
	}
	return o
}

// Info sends 68.
func (t *To2) Info(more bool, l []SI) (Resp, Info69, error) {
	var out Info69
	r, v, err := t.SendEnc(68, A(more, siTree(l)))
	if err != nil {
		return r, out, err
	}
	a, ok := v.([]any)
	if !ok || len(a) != 3 || !r.OK(69) {
		return r, out, errors.New("69 shape")
	}
	var ok1, ok2 bool
	out.More, ok1 = a[0].(bool)
	out.Done, ok2 = a[1].(bool)
	if !ok1 || !ok2 {
		return r, out, errors.New("69 flags")
	}
	if a[2] != nil {
		l, ok := a[2].([]any)
		if !ok {
			return r, out, errors.New("69 service info")
		}
		for _, e := range l {
			kv, ok := e.([]any)
			if !ok || len(kv) != 2 {
				return r, out, errors.New("69 service info entry")
			}
			k, _ := kv[0].(string)
			b, _ := kv[1].([]byte)
			out.SI = append(out.SI, SI{k, b})
		}
	}
	return r, out, nil
}

// Done sends 70 and checks the nonce.
func (t *To2) Done() (Resp, error) {
	r, v, err := t.SendEnc(70, A(t.NProveDv))
	if err != nil {
		return r, err
	}
	a, ok := v.([]any)
	if !ok || len(a) != 1 || !r.OK(71) {
		return r, errors.New("71 shape")
	}
	if n, _ := a[0].([]byte); string(n) != string(t.NSetupDv) {
		return r, errors.New("71: SetupDv nonce not echoed")
	}
	return r, nil
}

// Mandatory is a minimal complete device service info set.
func Mandatory() []SI {
	return []SI{
		{"devmod:active", Encode(true)},
		{"devmod:os", Encode("Linux")},
		{"devmod:arch", Encode("amd64")},
		{"devmod:version", Encode("1")},
		{"devmod:device", Encode("verif")},
		{"devmod:sep", Encode(";")},
		{"devmod:bin", Encode("x86:64")},
		{"devmod:nummodules", Encode(1)},
		{"devmod:modules", Encode(A(1, 1, "devmod"))},
	}
}

// Reach runs the correct session up to and including the answer of message n (60, 62, 64, 66).
func (t *To2) Reach(n int) error {
	if _, err := t.Hello(); err != nil || n == 60 {
		return err
	}
	for i := 0; i < t.Num; i++ {
		if _, err := t.Entry(i); err != nil {
			return err
		}
	}
	if n == 62 {
		return nil
	}
	if _, err := t.Prove(); err != nil || n == 64 {
		return err
	}
	if _, err := t.Ready(nil); err != nil || n == 66 {
		return err
	}
	return nil
}
