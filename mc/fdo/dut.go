package fdo

import (
	"errors"
	"fmt"

	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
)

// Dut is a device under test: it runs protocol attempts against a world and
// stops at the first wrong answer, unless On decides otherwise.
type Dut struct {
	W     *World
	D     *Device
	Suite int
	Kex   string
	// On sees every answer and what is wrong with it; it tells whether to go on.
	On func(msg int, r Resp, err error) bool
	// Again sends a 68 again after a wrong 69 it ignores, instead of 70.
	Again func() bool
}

// MsgOf is the message whose answer a device test breaks.
func MsgOf(id string) int {
	for m, l := range DutTests {
		for _, t := range l {
			if t == id {
				return m
			}
		}
	}
	return 0
}

func ids(l []testcom.FDOTestID) (o []string) {
	for _, t := range l {
		o = append(o, string(t))
	}
	return append(o, string(testcom.FIDO_LISTENER_POSITIVE))
}

// DutTests are the listed tests of each message, in order, the positive one last.
var DutTests = map[int][]string{
	30: ids(testcom.FIDO_LISTENER_30_LIST), 32: ids(testcom.FIDO_LISTENER_32_LIST), 60: ids(testcom.FIDO_LISTENER_60_LIST),
	62: ids(testcom.FIDO_LISTENER_62_LIST), 64: ids(testcom.FIDO_LISTENER_64_LIST), 66: ids(testcom.FIDO_LISTENER_66_LIST),
	68: ids(testcom.FIDO_LISTENER_68_LIST), 70: ids(testcom.FIDO_LISTENER_70_LIST),
}

// DutMsgs are the messages of a protocol in order.
func DutMsgs(proto int) []int {
	if proto == 1 {
		return []int{30, 32}
	}
	return []int{60, 62, 64, 66, 68, 70}
}

func (d *Dut) on(msg int, r Resp, err error) bool {
	if d.On == nil {
		return err == nil
	}
	return d.On(msg, r, err)
}

func hasToken(r Resp, err error) error {
	if err == nil && r.Token() == "" {
		return errors.New("no Authorization header")
	}
	return err
}

// To1 runs one rendezvous attempt; done tells that it came to its end.
func (d *Dut) To1() (done bool) {
	t := &To1{W: d.W}
	r := t.Hello(d.D.GUID, d.D.Alg)
	err := error(nil)
	if !r.OK(31) {
		err = fmt.Errorf("30 refused: %s", r)
	} else {
		err = d.check31(t, r)
	}
	if err != nil && t.Nonce == nil {
		t.Nonce = RandBytes(16)
	}
	t.Token = r.Token()
	if !d.on(30, r, hasToken(r, err)) {
		return false
	}
	r = t.Prove(d.D)
	err = nil
	if !r.OK(33) {
		err = fmt.Errorf("32 refused: %s", r)
	} else {
		err = d.check33(r)
	}
	return d.on(32, r, err) && err == nil
}

func (d *Dut) check31(t *To1, r Resp) error {
	v, err := Decode(r.Body)
	a, ok := v.([]any)
	if err != nil || !ok || len(a) != 2 {
		return errors.New("31: shape")
	}
	if n, ok := a[0].([]byte); !ok || len(n) != 16 {
		return errors.New("31: nonce")
	}
	if b := string(Encode(a[1])); b != string(Encode(A(d.D.Alg, []byte{}))) && b != string(Encode(A(d.D.Alg, nil))) {
		return errors.New("31: signature info not echoed")
	}
	return nil
}

func (d *Dut) check33(r Resp) error {
	v, err := Decode(r.Body)
	if err != nil {
		return fmt.Errorf("33: %w", err)
	}
	s, err := ParseSign1(v)
	if err != nil {
		return fmt.Errorf("33: %w", err)
	}
	if !s.Verify(d.D.V.Owner().Priv.Public(), d.D.V.Owner().Alg) {
		return errors.New("33: signature")
	}
	p, err := Decode(s.Payload)
	a, ok := p.([]any)
	if err != nil || !ok || len(a) != 2 {
		return errors.New("33: payload")
	}
	if l, ok := a[0].([]any); !ok || len(l) == 0 {
		return errors.New("33: no addresses")
	}
	return nil
}

// To2 runs one onboarding attempt.
func (d *Dut) To2() (done bool) {
	t := NewTo2(d.W, d.D, d.Suite, d.Kex)
	r, err := t.Hello()
	t.Token = r.Token()
	if !d.on(60, r, hasToken(r, err)) {
		return false
	}
	n := len(d.D.V.Entries)
	for i := 0; i < n; i++ {
		r, err = t.Entry(i)
		if !d.on(62, r, err) {
			return false
		}
	}
	if t.NProveDv == nil {
		t.NProveDv = RandBytes(16)
	}
	r, err = t.Prove()
	if !d.on(64, r, err) {
		return false
	}
	if !t.HaveKey {
		t.Key = SessKey{ShSe: RandBytes(32), Ctx: RandBytes(0)}
	}
	r, err = t.Ready(nil)
	if !d.on(66, r, err) {
		return false
	}
	l := Mandatory()
	if err != nil {
		l = l[:1]
	}
	for k := 0; k < 20; k++ {
		var inf Info69
		last := 0
		if len(l) > 4 {
			last = 4
		} else {
			last = len(l)
		}
		r, inf, err = t.Info(last < len(l), l[:last])
		l = l[last:]
		if !d.on(68, r, err) {
			return false
		}
		if inf.Done && len(l) == 0 || err != nil && (d.Again == nil || !d.Again()) {
			break
		}
	}
	r, err = t.Done()
	return d.on(70, r, err) && err == nil
}

// Attempt runs one attempt of a protocol.
func (d *Dut) Attempt(proto int) bool {
	if proto == 1 {
		return d.To1()
	}
	return d.To2()
}
