// Package hx is the model-checking core shared by every check: command line,
// evidence, violation handling and the choice-tree explorer.
package hx

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// VerifDir is where evidence and known findings live.
func VerifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

type violation struct {
	Key     string   `json:"key"`
	Detail  string   `json:"detail"`
	Scope   string   `json:"scope"`
	Choices []int    `json:"choices,omitempty"`
	Trace   []string `json:"trace"`
	Replay  string   `json:"replay"`
	Known   bool     `json:"known"`
	Repro   string   `json:"reproduced"`
}

// Run is one invocation of one check.
type Run struct {
	Prop     string
	Tier     string
	Seed     int
	Thorough bool
	Deadline time.Time
	Rule     string // what is enumerated, one sentence
	Level    string
	Workers  int

	start time.Time

	mu          sync.Mutex
	viol        map[string]*violation
	order       []string
	states      map[string]struct{}
	outcomes    map[string]int64
	samples     []string
	assumptions []string
	spaces      []map[string]any
	truncated   []string
	unconfirmed map[string]int

	Transitions atomic.Int64
	Executions  atomic.Int64
	Traces      atomic.Int64 // model traces replayed against the implementation
	divergences atomic.Int64

	replayScope   string
	replayChoices []int
}

// Main is the entry point of every check binary.
func Main(prop, rule string, body func(r *Run)) {
	tier := "quick"
	if t := os.Getenv("VERIF_TIER"); t == "quick" || t == "thorough" {
		tier = t
	}
	args := os.Args[1:]
	if len(args) > 0 && (args[0] == "quick" || args[0] == "thorough") {
		tier = args[0]
	}
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	r := &Run{Prop: prop, Tier: tier, Seed: seed, Thorough: tier == "thorough", Rule: rule, Level: "model_checking",
		Workers: 8, start: time.Now(), viol: map[string]*violation{}, states: map[string]struct{}{}, outcomes: map[string]int64{}, unconfirmed: map[string]int{}}
	budget := 300 * time.Second
	if r.Thorough {
		budget = 600 * time.Second
	}
	if s, err := strconv.Atoi(os.Getenv("VERIF_BUDGET_S")); err == nil && s > 0 {
		budget = time.Duration(s) * time.Second
	}
	r.Deadline = r.start.Add(budget)
	if len(args) > 1 && args[0] == "replay" {
		var v violation
		b, err := os.ReadFile(args[1])
		if err == nil {
			err = json.Unmarshal(b, &v)
		}
		if err != nil {
			fmt.Println("cannot read replay file:", err)
			os.Exit(2)
		}
		r.replayScope, r.replayChoices = v.Scope, v.Choices
	}
	if os.Getenv("VERIF_LOG") == "" {
		log.SetOutput(io.Discard)
		// The code under test also prints to stdout; keep stdout for our own lines.
		devnull, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
		realOut = os.Stdout
		os.Stdout = devnull
	} else {
		realOut = os.Stdout
	}
	debug.SetGCPercent(200)
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.addViolation(&violation{Key: "check-body-panic:" + topRepoFrame(debug.Stack()), Detail: fmt.Sprint(e), Scope: "main", Trace: strings.Split(string(debug.Stack()), "\n"), Repro: "once"})
			}
		}()
		body(r)
	}()
	os.Exit(r.finish())
}

var realOut *os.File

// Printf writes to the real standard output.
func Printf(format string, a ...any) { fmt.Fprintf(realOut, format, a...) }

// OutOfTime reports that the internal deadline has passed.
func (r *Run) OutOfTime() bool { return time.Now().After(r.Deadline) }

// Assume records an assumption for the evidence file.
func (r *Run) Assume(s string) {
	r.mu.Lock()
	r.assumptions = append(r.assumptions, s)
	r.mu.Unlock()
}

// State records a distinct model state; reports whether it is new.
func (r *Run) State(key string) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	if _, ok := r.states[key]; ok {
		return false
	}
	r.states[key] = struct{}{}
	return true
}

// Outcome counts an observed outcome class.
func (r *Run) Outcome(o string) {
	r.mu.Lock()
	r.outcomes[o]++
	r.mu.Unlock()
}

// Sample keeps a few examples for the evidence file.
func (r *Run) Sample(s string) {
	r.mu.Lock()
	if len(r.samples) < 12 {
		r.samples = append(r.samples, s)
	}
	r.mu.Unlock()
}

// Truncated records that a cap was hit.
func (r *Run) Truncated(what string) {
	r.mu.Lock()
	r.truncated = append(r.truncated, what)
	r.mu.Unlock()
}

func (r *Run) addViolation(v *violation) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if old, ok := r.viol[v.Key]; ok {
		if len(v.Trace) < len(old.Trace) && len(v.Choices) <= len(old.Choices) {
			*old = *v
		}
		return
	}
	r.viol[v.Key] = v
	r.order = append(r.order, v.Key)
}

// Violation reports a violation found by a non-explorer scope (plain enumeration).
func (r *Run) Violation(scope, key, detail string, trace ...string) {
	r.addViolation(&violation{Key: key, Detail: detail, Scope: scope, Trace: trace, Repro: "direct"})
}

func (r *Run) violationCount() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.viol)
}

func (r *Run) known() map[string]bool {
	res := map[string]bool{}
	b, err := os.ReadFile(filepath.Join(VerifDir(), "known_findings.txt"))
	if err != nil {
		return res
	}
	for _, line := range strings.Split(string(b), "\n") {
		line = strings.TrimSpace(line)
		if !strings.HasPrefix(line, "finding: property="+r.Prop+" key=") {
			continue
		}
		k := strings.TrimPrefix(line, "finding: property="+r.Prop+" key=")
		if i := strings.Index(k, " # "); i >= 0 {
			k = k[:i]
		}
		res[strings.TrimSpace(k)] = true
	}
	return res
}

func (r *Run) finish() int {
	known := r.known()
	dir := filepath.Join(VerifDir(), "evidence")
	os.MkdirAll(filepath.Join(dir, "replay"), 0o755)
	exit := 0
	var vs []*violation
	for i, k := range r.order {
		v := r.viol[k]
		v.Known = known[v.Key]
		p := filepath.Join(dir, "replay", fmt.Sprintf("%s-%s-%d.json", r.Prop, r.Tier, i))
		v.Replay = p
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(p, b, 0o644)
		vs = append(vs, v)
		if v.Known {
			Printf("KNOWN-FINDING: property=%s %s: %s\n", r.Prop, v.Key, oneLine(v.Detail))
		} else {
			exit = 1
			Printf("VIOLATION property=%s replay=%s\n", r.Prop, p)
			Printf("  key=%s\n  %s\n", v.Key, oneLine(v.Detail))
		}
	}
	ok := make([]string, 0, len(r.outcomes))
	for k := range r.outcomes {
		ok = append(ok, k)
	}
	sort.Strings(ok)
	out := map[string]int64{}
	for i, k := range ok {
		if i >= 200 {
			break
		}
		out[k] = r.outcomes[k]
	}
	exh := len(r.truncated) == 0
	cov := map[string]any{
		"states": len(r.states), "transitions": r.Transitions.Load(), "traces_validated_against_impl": r.Traces.Load(),
		"evaluations": r.Executions.Load(), "distinct_nontrivial": len(r.outcomes), "executions": r.Executions.Load(),
		"rule": r.Rule, "samples": r.samples, "exhaustive": exh, "outcomes": out, "distinct_outcomes": len(r.outcomes),
		"spaces": r.spaces, "caps_hit": r.truncated, "replay_divergences": r.divergences.Load(), "unconfirmed": r.unconfirmed,
	}
	if r.samples == nil {
		cov["samples"] = []string{}
	}
	ev := map[string]any{"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": r.Level, "coverage": cov,
		"assumptions": r.assumptions, "wall_s": time.Since(r.start).Seconds()}
	if r.assumptions == nil {
		ev["assumptions"] = []string{}
	}
	nv := 0
	for _, v := range vs {
		if !v.Known {
			nv++
		}
	}
	ev["violations"] = nv
	b, _ := json.MarshalIndent(ev, "", " ")
	if r.replayScope == "" {
		os.WriteFile(filepath.Join(dir, r.Prop+".json"), b, 0o644)
	}
	Printf("%s %s: executions=%d states=%d transitions=%d outcomes=%d violations=%d known=%d exhaustive=%v wall=%.1fs\n", r.Prop, r.Tier,
		r.Executions.Load(), len(r.states), r.Transitions.Load(), len(r.outcomes), nv, len(vs)-nv, exh, time.Since(r.start).Seconds())
	return exit
}

func oneLine(s string) string {
	s = strings.ReplaceAll(s, "\n", " ")
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

// topRepoFrame names the innermost function of the code under test on a stack.
func topRepoFrame(stack []byte) string {
	for _, l := range strings.Split(string(stack), "\n") {
		if i := strings.Index(l, "iot-fdo-conformance-tools/"); i >= 0 && !strings.HasPrefix(l, "\t") {
			f := l[i+len("iot-fdo-conformance-tools/"):]
			if j := strings.LastIndex(f, "("); j > 0 {
				f = f[:j]
			}
			return f
		}
	}
	return "harness"
}

// TopRepoFrame is topRepoFrame for other packages.
func TopRepoFrame(stack []byte) string { return topRepoFrame(stack) }

// Guard runs f and returns the panic value (nil if none) with the innermost repository frame.
func Guard(f func()) (p any, frame string) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(abortT); ok {
				panic(e)
			}
			p, frame = e, topRepoFrame(debug.Stack())
		}
	}()
	f()
	return nil, ""
}

var _ = exec.Command
