package main

// Stateless exhaustive explorer: drivers draw choices from an X; the explorer
// re-executes the driver for every choice sequence (odometer order), in parallel.

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type choice struct {
	n, v uint16
	dev  bool // alternatives other than 0 cost a deviation
}

// X is one execution.
type X struct {
	fixed     []uint16 // choices to replay
	cs        []choice
	devs      int
	budget    int
	steps     uint64
	part      *Part
	verbose   bool
	log       []string
	states    []uint64
	outcomes  []uint64
	validated uint64
	w         *workerCtx
	diverged  bool
	known     []string
}

type workerCtx struct {
	id  int
	dir string // private scratch directory, only for parts that ask for it
	mem map[string]any
	env *Env
}

type failure struct{ msg string }

// Fail reports a violation and ends the execution.
func (x *X) Fail(format string, args ...any) {
	panic(failure{fmt.Sprintf(format, args...)})
}

// Known ends the execution with a failure that KNOWN_FINDINGS.txt lists for
// this property under the key; otherwise it is a violation.
func (x *X) Known(key, format string, args ...any) {
	if !knownFindings[key] {
		x.Fail("%s (finding %q is not listed)", fmt.Sprintf(format, args...), key)
	}
	x.known = append(x.known, key)
}

// knownFindings are the keys listed for the property being checked.
var knownFindings = func() map[string]bool {
	m := map[string]bool{}
	for _, k := range strings.Split(os.Getenv("VMC_KNOWN"), "\n") {
		if k != "" {
			m[k] = true
		}
	}
	return m
}()

func (x *X) Check(ok bool, format string, args ...any) {
	if !ok {
		x.Fail(format, args...)
	}
}

func (x *X) draw(n int, dev bool) int {
	if n <= 0 || n > 65535 {
		panic(fmt.Sprintf("harness: draw(%d)", n))
	}
	i := len(x.cs)
	var v uint16
	if i < len(x.fixed) {
		v = x.fixed[i]
		if int(v) >= n {
			x.diverged = true
			panic(divergence{fmt.Sprintf("choice %d: %d of %d", i, v, n)})
		}
	}
	x.cs = append(x.cs, choice{uint16(n), v, dev})
	if dev && v != 0 {
		x.devs++
	}
	return int(v)
}

type divergence struct{ msg string }

// Choose picks one of n alternatives; all are explored.
func (x *X) Choose(n int) int {
	if n == 1 {
		return 0
	}
	return x.draw(n, false)
}

// Bool explores false, then true.
func (x *X) Bool() bool { return x.Choose(2) == 1 }

// Dev picks one of n alternatives, where any but the first is a deviation from
// the default and limited by the part's budget.
func (x *X) Dev(n int) int {
	if n == 1 {
		return 0
	}
	if x.devs >= x.budget && len(x.cs) >= len(x.fixed) {
		return 0
	}
	if x.devs >= x.budget { // replaying: stays consistent because budget is the same
		return 0
	}
	return x.draw(n, true)
}

// Step counts calls made on the implementation.
func (x *X) Step()            { x.steps++ }
func (x *X) StepN(n int)      { x.steps += uint64(n) }
func (x *X) Validated()       { x.validated++ }
func (x *X) ValidatedN(n int) { x.validated += uint64(n) }

// State records a state (canonical form) that was reached.
func (x *X) State(parts ...any) {
	x.states = append(x.states, hashOf(parts...))
}

// Outcome records an observed outcome.
func (x *X) Outcome(parts ...any) {
	x.outcomes = append(x.outcomes, hashOf(parts...))
}

func hashOf(parts ...any) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		switch p := p.(type) {
		case []byte:
			var l [8]byte
			binary.LittleEndian.PutUint64(l[:], uint64(len(p)))
			h.Write(l[:])
			h.Write(p)
		case string:
			var l [8]byte
			binary.LittleEndian.PutUint64(l[:], uint64(len(p)))
			h.Write(l[:])
			h.Write([]byte(p))
		case int:
			var l [8]byte
			binary.LittleEndian.PutUint64(l[:], uint64(p))
			h.Write(l[:])
		default:
			fmt.Fprintf(h, "%v|", p)
		}
	}
	return h.Sum64()
}

func (x *X) Logf(format string, args ...any) {
	if x.verbose {
		x.log = append(x.log, fmt.Sprintf(format, args...))
	}
}

// Part is one driver with its bounds.
type Part struct {
	Name    string
	Desc    string // alphabet and bound, for the evidence
	Budget  int    // deviation budget
	Workers int    // 0 = all
	Scratch bool   // needs a private directory per worker
	Run     func(x *X)
	Setup   func(env *Env) error
	CGO     bool // run in the cgo build
}

// hashSet is a concurrent set of uint64.
type hashSet struct {
	sh [64]struct {
		sync.Mutex
		m map[uint64]struct{}
	}
}

func (s *hashSet) addAll(hs []uint64) {
	for _, h := range hs {
		p := &s.sh[h&63]
		p.Lock()
		if p.m == nil {
			p.m = map[uint64]struct{}{}
		}
		p.m[h] = struct{}{}
		p.Unlock()
	}
}

func (s *hashSet) len() int {
	n := 0
	for i := range s.sh {
		n += len(s.sh[i].m)
	}
	return n
}

type violation struct {
	Part    string   `json:"part"`
	Choices []uint16 `json:"choices"`
	Msg     string   `json:"msg"`
	Trace   []string `json:"trace"`
	Devs    int      `json:"devs"`
	Repro   int      `json:"reproduced_of_5"`
}

type partResult struct {
	Name       string     `json:"name"`
	Desc       string     `json:"desc"`
	Executions uint64     `json:"executions"`
	Choices    uint64     `json:"choice_points"`
	Steps      uint64     `json:"impl_steps"`
	Validated  uint64     `json:"validated"`
	States     int        `json:"distinct_states"`
	Outcomes   int        `json:"distinct_outcomes"`
	MaxDevs    int        `json:"deviation_budget"`
	Exhaustive bool       `json:"exhaustive"`
	WallS      float64    `json:"wall_s"`
	Samples    []string   `json:"samples"`
	Violation  *violation `json:"violation,omitempty"`
	Unrepro    []string   `json:"unreproduced,omitempty"`
	Known      []string   `json:"known,omitempty"`
	Error      string     `json:"error,omitempty"`
}

// runOne executes the driver once with the given choices.
func runOne(p *Part, w *workerCtx, fixed []uint16, verbose bool) (x *X, fail *violation) {
	x = &X{fixed: fixed, part: p, budget: p.Budget, verbose: verbose, w: w}
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case failure:
				fail = &violation{Msg: r.msg}
			case divergence:
				fail = &violation{Msg: "DIVERGED " + r.msg}
				x.diverged = true
			default:
				st := string(debug.Stack())
				fail = &violation{Msg: fmt.Sprintf("panic: %v\n%s", r, trimStack(st))}
			}
			fail.Part = p.Name
			fail.Devs = x.devs
			fail.Trace = x.log
			for _, c := range x.cs {
				fail.Choices = append(fail.Choices, c.v)
			}
		}
	}()
	p.Run(x)
	return x, nil
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	seen := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seen = true
		}
		if seen {
			out = append(out, l)
		}
		if len(out) > 24 {
			break
		}
	}
	if len(out) == 0 {
		if len(lines) > 30 {
			lines = lines[:30]
		}
		return strings.Join(lines, "\n")
	}
	return strings.Join(out, "\n")
}

type task struct {
	prefix []uint16 // choices[:len] fixed; explore below it
}

type explorer struct {
	p        *Part
	env      *Env
	mu       sync.Mutex
	cond     *sync.Cond
	queue    []task
	idle     int32
	workers  int
	stop     atomic.Bool
	deadline time.Time
	capped   atomic.Bool

	executions, choices, steps, validated atomic.Uint64
	states, outcomes                      hashSet
	samples                               []string
	viol                                  []*violation
	unrepro                               []string
	known                                 map[string]bool
	err                                   string
	sampleEvery                           uint64
}

func (e *explorer) take() (task, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop.Load() {
			return task{}, false
		}
		if n := len(e.queue); n > 0 {
			t := e.queue[n-1]
			e.queue = e.queue[:n-1]
			return t, true
		}
		atomic.AddInt32(&e.idle, 1)
		if int(atomic.LoadInt32(&e.idle)) == e.workers {
			e.stop.Store(true)
			e.cond.Broadcast()
			return task{}, false
		}
		e.cond.Wait()
		if e.stop.Load() {
			return task{}, false
		}
		atomic.AddInt32(&e.idle, -1)
	}
}

func (e *explorer) give(ts []task) {
	e.mu.Lock()
	e.queue = append(e.queue, ts...)
	e.mu.Unlock()
	e.cond.Broadcast()
}

// canInc tells whether position i of cs has an untried alternative within budget.
func canInc(cs []choice, i, budget int) bool {
	c := cs[i]
	if c.v+1 >= c.n {
		return false
	}
	if c.dev && c.v == 0 {
		d := 0
		for _, b := range cs[:i] {
			if b.dev && b.v != 0 {
				d++
			}
		}
		return d < budget
	}
	return true
}

func (e *explorer) work(w *workerCtx) {
	for {
		t, ok := e.take()
		if !ok {
			return
		}
		low := len(t.prefix) // positions below low are not ours to change
		fixed := append([]uint16{}, t.prefix...)
		for {
			if e.stop.Load() {
				return
			}
			e.env.journal(w.id, e.p, fixed)
			x, fail := runOne(e.p, w, fixed, false)
			e.env.journalDone(w.id)
			n := e.executions.Add(1)
			e.choices.Add(uint64(len(x.cs)))
			e.steps.Add(x.steps)
			e.validated.Add(x.validated)
			e.states.addAll(x.states)
			e.outcomes.addAll(x.outcomes)
			if len(x.known) > 0 {
				e.mu.Lock()
				if e.known == nil {
					e.known = map[string]bool{}
				}
				for _, k := range x.known {
					e.known[k] = true
				}
				e.mu.Unlock()
			}
			if fail != nil {
				if x.diverged {
					e.mu.Lock()
					e.err = fmt.Sprintf("nondeterministic driver in part %s: %s", e.p.Name, fail.Msg)
					e.mu.Unlock()
					e.stop.Store(true)
					e.cond.Broadcast()
					return
				}
				e.onFail(w, fail)
				if e.stop.Load() {
					e.cond.Broadcast()
					return
				}
			}
			if n <= 2 || n == 1000 || n == 100000 {
				e.sample(w, x)
			}
			if n&63 == 0 && time.Now().After(e.deadline) {
				e.capped.Store(true)
				e.stop.Store(true)
				e.cond.Broadcast()
				return
			}
			// share work
			if atomic.LoadInt32(&e.idle) > 0 {
				for i := low; i < len(x.cs); i++ {
					if !canInc(x.cs, i, e.p.Budget) {
						continue
					}
					var ts []task
					for v := int(x.cs[i].n) - 1; v > int(x.cs[i].v); v-- {
						pre := make([]uint16, i+1)
						for j := 0; j < i; j++ {
							pre[j] = x.cs[j].v
						}
						pre[i] = uint16(v)
						ts = append(ts, task{pre})
					}
					low = i + 1
					e.give(ts)
					break
				}
			}
			// next
			i := len(x.cs) - 1
			for ; i >= low; i-- {
				if canInc(x.cs, i, e.p.Budget) {
					break
				}
			}
			if i < low {
				break
			}
			fixed = fixed[:0]
			for j := 0; j < i; j++ {
				fixed = append(fixed, x.cs[j].v)
			}
			fixed = append(fixed, x.cs[i].v+1)
		}
	}
}

func (e *explorer) sample(w *workerCtx, x *X) {
	var cs []uint16
	for _, c := range x.cs {
		cs = append(cs, c.v)
	}
	y, _ := runOne(e.p, w, cs, true)
	s := fmt.Sprintf("%s %v: %s", e.p.Name, cs, strings.Join(y.log, "; "))
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	e.mu.Lock()
	e.samples = append(e.samples, s)
	e.mu.Unlock()
}

func (e *explorer) onFail(w *workerCtx, f *violation) {
	repro := 0
	var trace []string
	msg := f.Msg
	for i := 0; i < 5; i++ {
		_, g := runOne(e.p, w, f.Choices, true)
		if g != nil && !strings.HasPrefix(g.Msg, "DIVERGED") {
			repro++
			trace = g.Trace
			msg = g.Msg
		}
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	if repro == 0 {
		e.unrepro = append(e.unrepro, f.Msg)
		return
	}
	f.Repro = repro
	f.Trace = trace
	f.Msg = msg
	e.viol = append(e.viol, f)
	e.stop.Store(true)
}

func (e *explorer) run() partResult {
	start := time.Now()
	e.cond = sync.NewCond(&e.mu)
	e.workers = e.p.Workers
	if e.workers == 0 {
		e.workers = runtime.NumCPU()
		if e.workers > maxWorkers {
			e.workers = maxWorkers
		}
	}
	e.queue = []task{{nil}}
	var wg sync.WaitGroup
	for i := 0; i < e.workers; i++ {
		w := &workerCtx{id: i, mem: map[string]any{}, env: e.env}
		if e.p.Scratch {
			w.dir = fmt.Sprintf("%s/w%d", e.env.Scratch, i)
			if err := os.MkdirAll(w.dir, 0755); err != nil {
				return partResult{Name: e.p.Name, Error: err.Error()}
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.work(w)
		}()
	}
	wg.Wait()
	r := partResult{
		Name: e.p.Name, Desc: e.p.Desc, Executions: e.executions.Load(), Choices: e.choices.Load(),
		Steps: e.steps.Load(), Validated: e.validated.Load(), States: e.states.len(), Outcomes: e.outcomes.len(),
		MaxDevs: e.p.Budget, Exhaustive: !e.capped.Load() && len(e.viol) == 0, WallS: time.Since(start).Seconds(),
		Samples: e.samples, Unrepro: e.unrepro, Error: e.err,
	}
	for k := range e.known {
		r.Known = append(r.Known, k)
	}
	sort.Strings(r.Known)
	if len(e.viol) > 0 {
		sort.Slice(e.viol, func(i, j int) bool {
			a, b := e.viol[i], e.viol[j]
			if a.Devs != b.Devs {
				return a.Devs < b.Devs
			}
			return len(a.Choices) < len(b.Choices)
		})
		r.Violation = e.viol[0]
	}
	return r
}

// prefix is the choice sequence so far, as a state name.
func (x *X) prefix() string {
	var b []byte
	for _, c := range x.cs {
		b = append(b, byte(c.v), byte(c.v>>8))
	}
	return string(b)
}
