package hx

import (
	"fmt"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

type abortT struct{ why string }

type choice struct {
	n, val, cost int
	label        string
}

// X is one execution: a sequence of answers to Choose/Dev.
type X struct {
	r       *Run
	sp      *Space
	prefix  []int
	pos     int
	choices []choice
	cost    int
	trace   []string
	fails   []fail
	rerun   bool
	cleanup []func()
}

type fail struct{ key, detail string }

// Space is one exploration: Body is re-executed for every choice sequence.
type Space struct {
	Name   string
	Body   func(x *X)
	MaxDev int // total deviation budget
	MaxEx  int // execution cap (0: none)

	seenMu sync.Mutex
	seen   map[string]int
}

// Choose is a free choice among n alternatives.
func (x *X) Choose(label string, n int) int { return x.pick(label, n, 0) }

// Dev is a choice whose non-zero alternatives cost one deviation.
func (x *X) Dev(label string, n int) int { return x.pick(label, n, 1) }

// DevN is a choice whose non-zero alternatives cost several deviations.
func (x *X) DevN(label string, n, cost int) int { return x.pick(label, n, cost) }

func (x *X) pick(label string, n, cost int) int {
	if n <= 0 {
		panic(abortT{"empty choice " + label})
	}
	v := 0
	if x.pos < len(x.prefix) {
		v = x.prefix[x.pos]
		if v >= n {
			x.r.divergences.Add(1)
			panic(abortT{"divergence"})
		}
	}
	x.pos++
	x.choices = append(x.choices, choice{n, v, cost, label})
	if v != 0 {
		x.cost += cost
	}
	return v
}

// New reports whether the execution is past the inherited prefix (new territory).
func (x *X) New() bool { return x.pos >= len(x.prefix) }

// Prune ends this execution quietly.
func (x *X) Prune(why string) { panic(abortT{why}) }

// Seen prunes when the state key was already reached with at least as much budget left.
func (x *X) Seen(key string, left int) {
	if x.rerun || x.pos < len(x.prefix) {
		return
	}
	k := fmt.Sprintf("%d|%s", x.cost, key)
	x.sp.seenMu.Lock()
	old, ok := x.sp.seen[k]
	if !ok || old < left {
		x.sp.seen[k] = left
	}
	x.sp.seenMu.Unlock()
	if ok && old >= left {
		panic(abortT{"seen"})
	}
}

// Step counts a transition and logs it.
func (x *X) Step(format string, a ...any) {
	x.r.Transitions.Add(1)
	x.Logf(format, a...)
}

// Logf appends to the trace.
func (x *X) Logf(format string, a ...any) {
	x.trace = append(x.trace, fmt.Sprintf(format, a...))
}

// State records a model state.
func (x *X) State(k string) { x.r.State(x.sp.Name + "|" + k) }

// Outcome records an observed outcome class.
func (x *X) Outcome(o string) { x.r.Outcome(x.sp.Name + "|" + o) }

// Fail reports a violation and ends the execution.
func (x *X) Fail(key, format string, a ...any) {
	x.fails = append(x.fails, fail{key, fmt.Sprintf(format, a...)})
	panic(abortT{"fail"})
}

// Report reports a violation and carries on.
func (x *X) Report(key, format string, a ...any) {
	x.fails = append(x.fails, fail{key, fmt.Sprintf(format, a...)})
}

// Cleanup registers f to run at the end of the execution.
func (x *X) Cleanup(f func()) { x.cleanup = append(x.cleanup, f) }

// Run gives access to the run.
func (x *X) Run() *Run { return x.r }

func (r *Run) exec(sp *Space, prefix []int, rerun bool) *X {
	x := &X{r: r, sp: sp, prefix: prefix, rerun: rerun}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(abortT); ok {
					return
				}
				st := debug.Stack()
				x.fails = append(x.fails, fail{"unexpected-panic:" + topRepoFrame(st), fmt.Sprint(e)})
				x.trace = append(x.trace, strings.Split(string(st), "\n")...)
			}
		}()
		sp.Body(x)
	}()
	for i := len(x.cleanup) - 1; i >= 0; i-- {
		x.cleanup[i]()
	}
	return x
}

// Explore enumerates every choice sequence of sp within its deviation budget.
func (r *Run) Explore(sp *Space) {
	if sp.seen == nil {
		sp.seen = map[string]int{}
	}
	if r.replayScope != "" {
		if r.replayScope == sp.Name {
			x := r.exec(sp, r.replayChoices, true)
			Printf("replay %s %v\n", sp.Name, r.replayChoices)
			for _, l := range x.trace {
				Printf("  %s\n", l)
			}
			for _, f := range x.fails {
				Printf("  FAIL %s: %s\n", f.key, f.detail)
				r.addViolation(&violation{Key: f.key, Detail: f.detail, Scope: sp.Name, Choices: r.replayChoices, Trace: x.trace})
			}
		}
		return
	}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	buckets := make([][][]int, sp.MaxDev+1)
	buckets[0] = [][]int{{}}
	inflight, total, maxDepth := 0, 0, 0
	stopped := ""
	doneBound := -1
	start := time.Now()
	var wg sync.WaitGroup
	byBound := make([]int, sp.MaxDev+1)
	for w := 0; w < r.Workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				var item []int
				bi := -1
				for {
					if stopped != "" {
						mu.Unlock()
						return
					}
					for i := range buckets {
						if n := len(buckets[i]); n > 0 {
							item = buckets[i][n-1]
							buckets[i] = buckets[i][:n-1]
							bi = i
							break
						}
					}
					if bi >= 0 {
						break
					}
					if inflight == 0 {
						cond.Broadcast()
						mu.Unlock()
						return
					}
					cond.Wait()
				}
				if r.OutOfTime() {
					stopped = "deadline"
				} else if sp.MaxEx > 0 && total >= sp.MaxEx {
					stopped = "execution cap"
				}
				if stopped != "" {
					cond.Broadcast()
					mu.Unlock()
					return
				}
				inflight++
				total++
				byBound[bi]++
				if bi-1 > doneBound {
					doneBound = bi - 1
				}
				mu.Unlock()

				x := r.exec(sp, item, false)
				r.Executions.Add(1)
				var add []struct {
					c int
					p []int
				}
				cost := 0
				for i, c := range x.choices {
					if i >= len(item) {
						for alt := 1; alt < c.n; alt++ {
							nc := cost + c.cost
							if nc > sp.MaxDev {
								continue
							}
							p := make([]int, i+1)
							for j := 0; j < i; j++ {
								p[j] = x.choices[j].val
							}
							p[i] = alt
							add = append(add, struct {
								c int
								p []int
							}{nc, p})
						}
					}
					if c.val != 0 {
						cost += c.cost
					}
				}
				for _, f := range x.fails {
					r.confirm(sp, x, f)
				}
				mu.Lock()
				if len(x.choices) > maxDepth {
					maxDepth = len(x.choices)
				}
				for i := len(add) - 1; i >= 0; i-- {
					buckets[add[i].c] = append(buckets[add[i].c], add[i].p)
				}
				inflight--
				if r.violationCount() >= 40 {
					stopped = "40 distinct violations"
				}
				cond.Broadcast()
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if stopped != "" {
		r.Truncated(sp.Name + ": " + stopped)
	} else {
		doneBound = sp.MaxDev
	}
	r.mu.Lock()
	r.spaces = append(r.spaces, map[string]any{"name": sp.Name, "executions": total, "max_choice_depth": maxDepth, "deviation_bound": sp.MaxDev,
		"deviation_bound_completed": doneBound, "executions_by_deviation": byBound, "stopped": stopped, "seen_states": len(sp.seen), "wall_s": time.Since(start).Seconds()})
	r.mu.Unlock()
}

// confirm re-runs a failing execution five times; only a failure that reproduces is reported.
func (r *Run) confirm(sp *Space, x *X, f fail) {
	r.mu.Lock()
	if old, ok := r.viol[f.key]; ok && len(old.Choices) <= len(x.choices) {
		r.mu.Unlock()
		return
	}
	if r.unconfirmed[f.key] > 20 {
		r.mu.Unlock()
		return
	}
	r.mu.Unlock()
	ch := make([]int, len(x.choices))
	for i, c := range x.choices {
		ch[i] = c.val
	}
	hits := 0
	for i := 0; i < 5; i++ {
		y := r.exec(sp, ch, true)
		for _, g := range y.fails {
			if g.key == f.key {
				hits++
				break
			}
		}
	}
	if hits < 3 {
		// Not reproducible from the recorded choices: the code made a random choice of its own.
		// Reported only when many distinct executions fail the same way.
		r.mu.Lock()
		r.unconfirmed[f.key]++
		n := r.unconfirmed[f.key]
		r.mu.Unlock()
		if n < 8 {
			return
		}
	}
	labels := make([]string, len(x.choices))
	for i, c := range x.choices {
		labels[i] = fmt.Sprintf("%s=%d/%d", c.label, c.val, c.n)
	}
	tr := append([]string{"choices: " + strings.Join(labels, " ")}, x.trace...)
	r.addViolation(&violation{Key: f.key, Detail: f.detail, Scope: sp.Name, Choices: ch, Trace: tr, Repro: fmt.Sprintf("%d/5", hits)})
}

// Detached runs a body outside any exploration (to measure shapes).
func Detached(body func(x *X)) {
	x := &X{r: &Run{}, sp: &Space{Name: "detached"}}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(abortT); !ok {
					panic(e)
				}
			}
		}()
		body(x)
	}()
	for i := len(x.cleanup) - 1; i >= 0; i-- {
		x.cleanup[i]()
	}
}
