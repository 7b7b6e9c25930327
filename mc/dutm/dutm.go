// Package dutm is the reference model of a device conformance run: which test
// each answer belongs to and which verdicts the run must record.
package dutm

import (
	"fmt"

	"verif/mc/fdo"
	"verif/mc/hx"
)

// Verdict is one recorded result.
type Verdict struct {
	ID   string
	Pass bool
}

// Model is the reference of one run.
type Model struct {
	X        *hx.X
	Msgs     []int
	Cmd, Idx int    // current message and test
	Pending  string // last test given
	Judged   bool   // it has its verdict
	Out      []Verdict
	Attempt  int
	Finished bool

	at        int  // attempt of the pending test
	abandoned bool // the rest of this attempt is not specified
}

// New is the model of a run just started.
func New(x *hx.X, proto int) *Model {
	return &Model{X: x, Msgs: fdo.DutMsgs(proto)}
}

// Begin begins an attempt of the device.
func (m *Model) Begin() {
	m.Attempt++
	m.abandoned = false
}

// Testing tells whether the last answer in this attempt carried a test that has
// no verdict yet.
func (m *Model) Testing() bool { return m.at == m.Attempt && !m.Finished }

func (m *Model) judge(pass bool) {
	if m.Pending != "" && !m.Judged {
		m.Out = append(m.Out, Verdict{m.Pending, pass})
		m.Judged = true
	}
}

// Answer checks one answer of the server to an attempt and tells whether the
// device has got a broken one it could ignore.
func (m *Model) Answer(msg int, r fdo.Resp, err error) (broken bool) {
	x := m.X
	if m.abandoned {
		return err != nil
	}
	pos := -1
	for i, v := range m.Msgs {
		if v == msg {
			pos = i
		}
	}
	if r.Panic != nil {
		x.Fail("crash", "message %d crashed the server: %v", msg, r.Panic)
	}
	switch {
	case m.Finished || pos < m.Cmd:
		if err != nil {
			x.Fail(fmt.Sprintf("disturbed:%d", msg), "message %d has no test left, but was answered wrongly: %v", msg, err)
		}
		return false
	case pos > m.Cmd || m.Pending != "" && !m.Judged && m.at == m.Attempt:
		// the device went on after a broken answer
		m.judge(false)
		m.abandoned = true
		return err != nil
	}
	m.judge(true)
	l := fdo.DutTests[msg]
	id := l[m.Idx]
	m.Idx++
	m.Pending, m.Judged, m.at = id, false, m.Attempt
	if m.Idx == len(l) {
		if err != nil {
			x.Fail(fmt.Sprintf("positive:%d", msg), "the positive test of message %d was answered wrongly: %v", msg, err)
		}
		m.judge(true)
		m.Cmd, m.Idx = m.Cmd+1, 0
		m.Finished = m.Cmd == len(m.Msgs)
		return false
	}
	if err == nil {
		x.Fail("not-broken:"+id, "test %s was due, but message %d was answered correctly", id, msg)
	}
	return true
}

func squash(l []fdo.TestRec) (o []Verdict) {
	for _, t := range l {
		v := Verdict{t.ID, t.Passed}
		if len(o) == 0 || o[len(o)-1] != v {
			o = append(o, v)
		}
	}
	return
}

// Compare checks the listed run against the model.
func (m *Model) Compare(run *fdo.RunRec, when string) {
	want := m.Out
	got := squash(run.Tests)
	if len(got) == len(want)+1 && m.Pending != "" && !m.Judged && got[len(got)-1] == (Verdict{m.Pending, true}) && m.at < m.Attempt {
		got = got[:len(got)-1]
	}
	for i := range want {
		if i >= len(got) {
			m.X.Fail("missing:"+want[i].ID, "%s: verdict %v is not recorded: %v", when, want[i], got)
		}
		if got[i].ID != want[i].ID {
			m.X.Fail("order:"+want[i].ID, "%s: verdict %d is %v, want %v", when, i, got[i], want[i])
		}
		if got[i] != want[i] {
			k := "false-pass:"
			if want[i].Pass {
				k = "false-fail:"
			}
			m.X.Fail(k+want[i].ID, "%s: verdict %d is %v, want %v", when, i, got[i], want[i])
		}
	}
	if len(got) > len(want) {
		m.X.Fail("extra:"+got[len(want)].ID, "%s: more verdicts than tests: %v, want %v", when, got, want)
	}
	if run.Completed != m.Finished {
		m.X.Fail("completed", "%s: the run is marked completed=%v, want %v", when, run.Completed, m.Finished)
	}
	if want := map[int]int{30: 1, 60: 2}[m.Msgs[0]]; run.Protocol != want {
		m.X.Fail("protocol", "%s: the run is filed under TO%d", when, run.Protocol)
	}
}
