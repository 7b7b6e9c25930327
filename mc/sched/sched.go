// Package sched runs requests of the code under test as threads that give up
// control only where a database transaction begins or commits, in an order the
// explorer chooses, and ends the process it simulates before a chosen commit.
// It needs the database copy made by badger/gen.sh.
package sched

import (
	"bytes"
	"errors"
	"fmt"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/dgraph-io/badger/v4"
)

type hook interface {
	point(g int64, op int, keys []string)
}

var (
	mu     sync.RWMutex
	active = map[*badger.DB]hook{}
	faulty = map[*badger.DB]*Faults{}
)

func init() {
	badger.VerifHook = func(db *badger.DB, op int, keys []string) {
		mu.RLock()
		h := active[db]
		mu.RUnlock()
		if h != nil {
			h.point(gid(), op, keys)
		}
	}
	badger.VerifFault = func(db *badger.DB, op int, keys []string) error {
		mu.RLock()
		f := faulty[db]
		mu.RUnlock()
		if f == nil {
			return nil
		}
		return f.access(op == badger.VerifGet, keys)
	}
	sync.VerifWait = func(try func() bool, undo func()) bool {
		if threads.Load() == 0 {
			return false
		}
		v, ok := byG.Load(gid())
		if !ok || !ours() {
			return false
		}
		v.(*Thread).lock(try, undo)
		return true
	}
}

var (
	byG     sync.Map // goroutine -> *Thread
	threads atomic.Int64
)

// ours tells whether the lock is taken by the code under test itself.
func ours() bool {
	var pc [16]uintptr
	fs := runtime.CallersFrames(pc[:runtime.Callers(3, pc[:])])
	for {
		f, more := fs.Next()
		if !strings.HasPrefix(f.Function, "sync.") {
			return strings.HasPrefix(f.Function, "github.com/fido-alliance/")
		}
		if !more {
			return false
		}
	}
}

// lock waits for a lock that some other thread holds.
func (t *Thread) lock(try func() bool, undo func()) {
	// what runs outside of this schedule lets go soon
	for i := 0; i < 40; i++ {
		if try() {
			return
		}
		time.Sleep(100 * time.Microsecond)
	}
	for {
		if t.s.abort {
			panic(aborted{})
		}
		t.s.events <- event{t: t, what: "lock", free: func() bool {
			if !try() {
				return false
			}
			undo()
			return true
		}}
		if !<-t.resume {
			panic(aborted{})
		}
		if try() {
			return
		}
	}
}

func gid() int64 {
	var b [64]byte
	s := b[:runtime.Stack(b[:], false)]
	s = bytes.TrimPrefix(s, []byte("goroutine "))
	n, _ := strconv.ParseInt(string(s[:bytes.IndexByte(s, ' ')]), 10, 64)
	return n
}

func with(db *badger.DB, h hook, f func()) {
	mu.Lock()
	active[db] = h
	mu.Unlock()
	defer func() {
		mu.Lock()
		delete(active, db)
		mu.Unlock()
	}()
	f()
}

// Chooser resolves the choices of a schedule; choice 0 of Dev is to leave things
// as they are.
type Chooser interface {
	Dev(label string, n int) int
	Choose(label string, n int) int
	Step(format string, a ...any)
}

// Thread is one request, or a sequence of requests of one client, that calls
// yield before each of them.
type Thread struct {
	Name string
	Run  func(yield func())

	id     int
	s      *sched
	free   func() bool // whether the lock it waits for is free
	g      int64
	resume chan bool
	state  int // see below
	what   string
	Panic  any
	points int
	still  int
}

const (
	ready   = iota // waits for its turn
	running        // has control
	blocked        // waits for something another thread holds
	locking        // waits for a lock
	done
)

type event struct {
	t    *Thread
	done bool
	what string
	free func() bool
}

type sched struct {
	x      Chooser
	seq    bool
	ts     []*Thread
	events chan event
	abort  bool
}

type aborted struct{}

func (s *sched) point(g int64, op int, keys []string) {
	v, ok := byG.Load(g)
	if !ok {
		return
	}
	t := v.(*Thread)
	if s.abort {
		panic(aborted{})
	}
	what := "begin"
	if op == badger.VerifCommit {
		for i, k := range keys {
			if j := strings.IndexByte(k, '-'); j > 0 {
				keys[i] = k[:j]
			}
		}
		what = "commit " + strings.Join(keys, ",")
	}
	s.events <- event{t: t, what: what}
	if !<-t.resume {
		panic(aborted{})
	}
}

// waits tells whether a goroutine waits for another one.
func waits(g int64) bool {
	b := make([]byte, 1<<20)
	b = b[:runtime.Stack(b, true)]
	i := bytes.Index(b, []byte(fmt.Sprintf("goroutine %d [", g)))
	if i < 0 {
		return false
	}
	b = b[i:]
	st := string(b[bytes.IndexByte(b, '[')+1 : bytes.IndexByte(b, ']')])
	for _, w := range []string{"sync.", "semacquire", "chan receive", "chan send", "select"} {
		if strings.HasPrefix(st, w) {
			// waiting for the database itself does not count
			if j := bytes.Index(b, []byte("\n\n")); j > 0 {
				b = b[:j]
			}
			return !bytes.Contains(b, []byte("/badger.(*"))
		}
	}
	return false
}

// wait waits for the running thread to come to a point, end or block; other
// threads that were blocked may come to a point as well.
func (s *sched) wait() {
	delay := 20 * time.Millisecond
	start := time.Now()
	for {
		select {
		case e := <-s.events:
			s.take(e)
		case <-time.After(delay):
			for _, t := range s.ts {
				if t.state == running && waits(t.g) {
					if t.still++; t.still == 10 {
						t.state = blocked
					}
				} else {
					t.still = 0
				}
			}
			if time.Since(start) > 60*time.Second {
				for _, t := range s.ts {
					if t.state == running {
						t.state = blocked
					}
				}
			}
		}
		for {
			select {
			case e := <-s.events:
				s.take(e)
				continue
			default:
			}
			break
		}
		busy := false
		for _, t := range s.ts {
			busy = busy || t.state == running
		}
		if !busy {
			// what was let go meanwhile runs on to its next point
			for _, t := range s.ts {
				if t.state == blocked && !waits(t.g) {
					t.state = running
					busy = true
				}
			}
		}
		if !busy {
			return
		}
	}
}

func (s *sched) take(e event) {
	e.t.what, e.t.still = e.what, 0
	if e.done {
		e.t.state = done
	} else if e.free != nil {
		e.t.state, e.t.free = locking, e.free
	} else {
		e.t.state = ready
		e.t.points++
	}
}

// Run runs the threads to their end under the explorer's schedule: leaving the
// running thread where it could go on is a deviation.  It reports a deadlock as
// the threads that are stuck.
func Run(x Chooser, db *badger.DB, ts []*Thread) (stuck []string) {
	s := &sched{x: x, ts: ts, events: make(chan event, 64)}
	with(db, s, func() { stuck = s.run() })
	return
}

// Turns runs the threads with one whole request after the other.
func Turns(x Chooser, ts []*Thread) (stuck []string) {
	s := &sched{x: x, ts: ts, events: make(chan event, 64), seq: true}
	return s.run()
}

// All resolves the choices of a body in all ways with at most max deviations.
func All(max int, body func(c Chooser)) {
	e := &all{max: max}
	for {
		e.at, e.dev = 0, 0
		body(e)
		for len(e.path) > 0 {
			l := &e.path[len(e.path)-1]
			if l.v++; l.v < l.n {
				break
			}
			e.path = e.path[:len(e.path)-1]
		}
		if len(e.path) == 0 {
			return
		}
	}
}

type choice struct{ v, n int }

type all struct {
	path         []choice
	at, dev, max int
}

func (e *all) Choose(label string, n int) int {
	if e.at == len(e.path) {
		e.path = append(e.path, choice{0, n})
	}
	e.at++
	return e.path[e.at-1].v
}

func (e *all) Dev(label string, n int) int {
	if e.dev == e.max {
		return 0
	}
	v := e.Choose(label, n)
	if v > 0 {
		e.dev++
	}
	return v
}

func (e *all) Step(format string, a ...any) {}

func (s *sched) yield(t *Thread) {
	if !s.seq {
		return
	}
	if s.abort {
		panic(aborted{})
	}
	s.events <- event{t: t, what: "request"}
	if !<-t.resume {
		panic(aborted{})
	}
}

func (s *sched) run() (stuck []string) {
	for i, t := range s.ts {
		t.s = s
		t.id, t.resume, t.state, t.what = i, make(chan bool, 1), ready, "start"
		started := make(chan bool)
		go func() {
			t.g = gid()
			byG.Store(t.g, t)
			close(started)
			defer func() {
				if p := recover(); p != nil {
					if _, ok := p.(aborted); !ok {
						t.Panic = p
					}
				}
				byG.Delete(t.g)
				s.events <- event{t: t, done: true}
			}()
			if !<-t.resume {
				panic(aborted{})
			}
			t.Run(func() { s.yield(t) })
		}()
		<-started
	}
	defer func() {
		// leave nothing behind, however the execution ends
		s.abort = true
		for n := 0; n < 200; n++ {
			left := false
			for _, t := range s.ts {
				if t.state == ready || t.state == locking {
					t.state = running
					t.resume <- false
				}
				left = left || t.state != done
			}
			if !left {
				return
			}
			select {
			case e := <-s.events:
				s.take(e)
			case <-time.After(50 * time.Millisecond):
			}
		}
	}()
	threads.Add(1)
	defer threads.Add(-1)
	var cur *Thread
	idle := time.Time{}
	for {
		var can []*Thread
		left := false
		for _, t := range s.ts {
			left = left || t.state != done
			if t.state == ready || t.state == locking && t.free() {
				can = append(can, t)
			}
		}
		if !left {
			return nil
		}
		if len(can) == 0 {
			// everything left is blocked
			if idle.IsZero() {
				idle = time.Now()
			}
			if time.Since(idle) > 5*time.Second {
				for _, t := range s.ts {
					if t.state == blocked || t.state == locking {
						stuck = append(stuck, t.Name+" after "+t.what)
					}
				}
				return
			}
			select {
			case e := <-s.events:
				s.take(e)
			case <-time.After(time.Millisecond):
			}
			continue
		}
		idle = time.Time{}
		next := can[0]
		if cur != nil && cur.state == ready {
			others := []*Thread{cur}
			for _, t := range can {
				if t != cur {
					others = append(others, t)
				}
			}
			next = others[s.x.Dev(fmt.Sprintf("%s at %s", cur.Name, cur.what), len(others))]
		} else if len(can) > 1 {
			next = can[s.x.Choose("thread", len(can))]
		}
		if next != cur {
			s.x.Step("%s runs on from %s", next.Name, next.what)
		}
		cur = next
		cur.state = running
		cur.resume <- true
		s.wait()
	}
}

/* ---- crashes ---- */

// Crashed is what ends the threads of a process that has crashed.
type Crashed struct{}

type crash struct {
	at   int
	n    int
	dead bool
	keys []string
}

func (c *crash) point(g int64, op int, keys []string) {
	if c.dead {
		panic(Crashed{})
	}
	if op != badger.VerifCommit {
		return
	}
	if c.n == c.at {
		c.dead, c.keys = true, keys
		panic(Crashed{})
	}
	c.n++
}

// Crash runs f and ends it before commit number at; commits tells how many were
// made, crashed whether it was ended, and keys what would have been written.
func Crash(db *badger.DB, at int, f func()) (commits int, crashed bool, keys []string) {
	c := &crash{at: at}
	with(db, c, func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(Crashed); !ok {
					panic(p)
				}
			}
		}()
		f()
	})
	return c.n, c.dead, c.keys
}

/* ---- faults ---- */

// ErrFault is what a failing access to the database returns.
var ErrFault = errors.New("no space left on device")

// Faults makes accesses of a database fail.
type Faults struct {
	Reads  bool               // reads fail, instead of commits
	Fails  func(n int) bool   // tells whether access number n fails
	N      int                // the accesses so far
	Failed func(key []string) // is told of an access that has failed
	Done   func(key []string) // and of one that has not
}

func (f *Faults) access(read bool, keys []string) error {
	if read != f.Reads {
		return nil
	}
	n := f.N
	f.N++
	if !f.Fails(n) {
		if f.Done != nil {
			f.Done(keys)
		}
		return nil
	}
	if f.Failed != nil {
		f.Failed(keys)
	}
	return ErrFault
}

// With runs f while accesses of a database fail.
func (f *Faults) With(db *badger.DB, run func()) {
	mu.Lock()
	faulty[db] = f
	mu.Unlock()
	defer func() {
		mu.Lock()
		delete(faulty, db)
		mu.Unlock()
	}()
	run()
}
