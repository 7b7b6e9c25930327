// Package srv runs server conformance runs of the tool against the reference server.
package srv

import (
	"fmt"
	"sort"

	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
	testdbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/dbs"
	reqtestsdeps "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/request"
	"github.com/fido-alliance/iot-fdo-conformance-tools/dbs"
	"github.com/fido-alliance/iot-fdo-conformance-tools/testexec"

	"verif/mc/fdo"
	"verif/mc/hx"
	"verif/mc/rnd"
)

type Conf struct {
	Proto      int // 0, 1, 2
	Dev, Owner int // TO2 only
	Entries    int
	OwnerSI    int
	End        bool // the server ends the session with an error
}

func (c Conf) String() string {
	if c.Proto < 2 {
		return fmt.Sprintf("TO%d end=%v", c.Proto, c.End)
	}
	return fmt.Sprintf("TO2 %s/%s %d entries %d items end=%v", fdo.AlgName(c.Dev), fdo.AlgName(c.Owner), c.Entries, c.OwnerSI, c.End)
}

// Listed are the tests of a run.
func Listed(proto int) (l []string) {
	add := func(ls ...[]testcom.FDOTestID) {
		for _, x := range ls {
			for _, t := range x {
				l = append(l, string(t))
			}
		}
	}
	switch proto {
	case 0:
		add(testcom.FIDO_TEST_LIST_RVT_20, testcom.FIDO_TEST_LIST_RVT_22, testcom.FIDO_TEST_LIST_VOUCHER)
	case 1:
		add(testcom.FIDO_TEST_LIST_DEVT_30, testcom.FIDO_TEST_LIST_DEVT_32)
	case 2:
		add(testcom.FIDO_TEST_LIST_DOT_60, testcom.FIDO_TEST_LIST_DOT_62, testcom.FIDO_TEST_LIST_DOT_64,
			testcom.FIDO_TEST_LIST_DOT_66, testcom.FIDO_TEST_LIST_DOT_68, testcom.FIDO_TEST_LIST_DOT_70)
	}
	return
}

type Turn struct {
	Msg  int
	Bad  bool // refused by the reference
	Why  string
	Test string
	Last bool // the last turn of its test
}

type Result struct {
	Turns    []Turn
	Order    []string // tests in the order they were recorded
	State    map[string]testcom.FDOTestState
	Finished bool
	Panic    any
	Frame    string
	Runs     int
	Lost     error // the record could not be read back
}

// Run executes one conformance run against the reference; at(i, t) may change turn i's answer.
func Run(c Conf, pick func(max int64) (int64, bool), at func(i int, t *fdo.Turn, last []byte, ref *fdo.Ref)) *Result {
	db := fdo.OpenMem()
	defer db.Close()
	ref := fdo.NewRef()
	ref.EndOnError = c.End
	u, rel := fdo.NewHost(ref)
	defer rel()
	ctx := fdo.MakeCtx(fdo.Config{}, u)
	rdb := testdbs.NewRequestTestDB(db)
	ddb := dbs.NewDeviceBaseDB(db)
	inst := reqtestsdeps.NewRequestTestInst(u, fdoshared.FdoToProtocol(c.Proto))
	if c.Proto < 2 {
		inst.FdoSeedIDs = fdoshared.FdoSeedIDs{}
		for _, a := range []int{fdo.ES256, fdo.ES384} {
			d := fdo.NewDevice(a, fdo.ES256, "seed", 1)
			if err := ddb.Save(d.CredOf()); err != nil {
				panic(err)
			}
			inst.FdoSeedIDs[fdoshared.SgType(a)] = fdoshared.FdoGuidList{d.Guid()}
		}
	} else {
		d := fdo.NewDevice(c.Dev, c.Owner, "sut", c.Entries)
		ref.AddVoucher(d.V.Tree(), d.V.Owner())
		for i := 0; i < c.OwnerSI; i++ {
			ref.OwnerSI = append(ref.OwnerSI, fdo.SI{K: "fido_alliance:active", V: fdo.Encode(true)})
		}
		inst.TestVouchers[testcom.NULL_TEST] = []fdoshared.DeviceCredAndVoucher{{VoucherDBEntry: d.VoucherEntry(), WawDeviceCredential: d.CredOf()}}
	}
	if err := rdb.Save(inst); err != nil {
		panic(err)
	}
	out := &Result{}
	seen := map[string]bool{}
	note := func() {
		r, err := rdb.Get(inst.Uuid)
		if err != nil {
			return
		}
		var fresh []string
		for id := range r.CurrentTestRun.Tests {
			if !seen[string(id)] {
				seen[string(id)] = true
				fresh = append(fresh, string(id))
			}
		}
		sort.Strings(fresh)
		for k, id := range fresh {
			out.Order = append(out.Order, id)
			for i := range out.Turns {
				if k == 0 && out.Turns[i].Test == "" {
					out.Turns[i].Test = id
				}
			}
		}
	}
	lastGood := map[int][]byte{}
	ref.Tap = func(t *fdo.Turn) {
		note()
		i := len(out.Turns)
		out.Turns = append(out.Turns, Turn{Msg: t.Msg, Bad: t.Why != nil, Why: fmt.Sprint(t.Why)})
		if at != nil {
			at(i, t, lastGood[t.Msg], ref)
		}
		if t.Why == nil && !t.Ans.Drop {
			lastGood[t.Msg] = t.Ans.Body()
		}
	}
	body := func() {
		switch c.Proto {
		case 0:
			testexec.ExecuteRVTestsTo0(inst, rdb, ddb, ctx)
		case 1:
			testexec.ExecuteRVTestsTo1(inst, rdb, ddb, ctx)
		case 2:
			testexec.ExecuteDOTestsTo2(inst, rdb)
		}
	}
	out.Panic, out.Frame = hx.Guard(func() { rnd.With(pick, body, nil) })
	note()
	r, err := rdb.Get(inst.Uuid)
	out.State = map[string]testcom.FDOTestState{}
	if err != nil {
		out.Lost = err
		return out
	}
	out.Finished = !r.InProgress
	out.Runs = len(r.TestsHistory)
	out.State = map[string]testcom.FDOTestState{}
	for id, s := range r.CurrentTestRun.Tests {
		out.State[string(id)] = s
	}
	if out.Runs > 0 {
		for id, s := range r.TestsHistory[0].Tests {
			if out.State[string(id)] != s {
				out.State["history differs for "+string(id)] = s
			}
		}
	}
	for i := range out.Turns {
		out.Turns[i].Last = i+1 == len(out.Turns) || out.Turns[i+1].Test != out.Turns[i].Test
	}
	return out
}

// Zeros answers small choices with the first value, unless a loop keeps asking.
func Zeros() func(max int64) (int64, bool) {
	var prev int64
	n := 0
	return func(max int64) (int64, bool) {
		if max > 1<<31 {
			return 0, false
		}
		if max == prev {
			n++
		} else {
			prev, n = max, 0
		}
		return 0, n < 12
	}
}
