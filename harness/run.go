package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// A Stream is a deterministic workload cut into chunks. Chunk k of a stream
// sees a random generator seeded by (seed, stream, k) only.
type Stream struct {
	Name     string
	Quick    int
	Thorough int
	Run      func(c *C)
	scaled   bool
}

// scale multiplies the number of chunks once, however many properties share
// the stream.
func (s *Stream) scale(k int) {
	if !s.scaled {
		s.scaled = true
		s.Quick *= k
		s.Thorough *= k
	}
}

// Violation is one refuting observation.
type Violation struct {
	Property string `json:"property"`
	Stream   string `json:"stream"`
	Chunk    int    `json:"chunk"`
	Case     int64  `json:"case"`
	Input    string `json:"input"`
	Message  string `json:"message"`
	Finding  string `json:"finding,omitempty"`
}

// C is the context of one running chunk.
type C struct {
	*RNG
	Prop     string
	Stream   string
	Chunk    int
	NChunks  int
	Tier     string
	n        int64
	seenN    int64
	evals    int64
	classes  map[string]int64
	seen     map[uint64]struct{}
	digest   uint64
	desc     func() string
	samples  []string
	viol     []Violation
	findings map[string]*findingRec
	slot     *slot
	stopAt   int64
	trace    bool
}

type findingRec struct {
	Count  int64  `json:"count"`
	Sample string `json:"sample"`
}

type slot struct {
	n    atomic.Int64
	tid  atomic.Int64
	busy atomic.Bool
	c    atomic.Pointer[C]
	_    [8]uint64
}

type stopChunk struct{}

// Begin starts the observation of one case; desc renders its input.
func (c *C) Begin(desc func() string) {
	if effects != nil {
		effects.look(c) // at what the previous case did
	}
	c.n++
	c.evals++
	c.slot.n.Add(1)
	c.desc = desc
	if c.stopAt > 0 && c.n > c.stopAt {
		panic(stopChunk{})
	}
	if c.trace && c.n == c.stopAt {
		fmt.Printf("replay %s/%s chunk %d case %d: %s\n", c.Prop, c.Stream, c.Chunk, c.n, desc())
	}
}

// Class records that the current case is distinct by hash h and falls into the
// named class ("" for trivial ones).
func (c *C) Class(h uint64, class string) {
	if class == "" {
		return
	}
	k := c.classes[class]
	c.classes[class] = k + 1
	if c.seenN != c.n && len(c.seen) < 200000 {
		c.seen[h] = struct{}{} // once per case
		c.seenN = c.n
	}
	if k == 0 && c.Chunk < 2 && len(c.samples) < 24 {
		c.samples = append(c.samples, class+": "+c.desc())
	}
}

// Obs folds observed outputs into the digest compared across configurations.
func (c *C) Obs(vs ...uint64) {
	for _, v := range vs {
		c.digest = mix(c.digest, v)
	}
}

func (c *C) ObsStr(s string) { c.digest = mix(c.digest, hashStr(s)) }

const maxViol = 5

// Fail reports a violation of the property by the current case.
func (c *C) Fail(format string, args ...interface{}) {
	if effects != nil {
		return
	}
	if len(c.viol) >= maxViol {
		panic(stopChunk{})
	}
	c.viol = append(c.viol, Violation{Property: c.Prop, Stream: c.Stream, Chunk: c.Chunk, Case: c.n,
		Input: c.desc(), Message: fmt.Sprintf(format, args...)})
}

// Finding reports an instance of a listed-class defect. The known-findings
// file decides whether it is a violation.
func (c *C) Finding(id, format string, args ...interface{}) {
	if effects != nil {
		return
	}
	f := c.findings[id]
	if f == nil {
		f = &findingRec{Sample: c.desc() + ": " + fmt.Sprintf(format, args...)}
		c.findings[id] = f
		if len(c.viol) < maxViol {
			c.viol = append(c.viol, Violation{Property: c.Prop, Stream: c.Stream, Chunk: c.Chunk, Case: c.n,
				Input: c.desc(), Message: fmt.Sprintf(format, args...), Finding: id})
		}
	}
	f.Count++
}

// Guard runs f and reports a panic in it as a violation of the current case.
// It returns false if f panicked.
func (c *C) Guard(what string, f func()) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, stop := e.(stopChunk); stop {
				panic(e)
			}
			if !panicInTarget() {
				panic(e)
			}
			c.Fail("%s panicked: %v\n%s", what, e, shortStack())
		}
	}()
	f()
	return true
}

// targetFrame reports whether a line of a stack dump names a function of the
// library under test (the monitor's own functions are in package main).
func targetFrame(l string) bool {
	return strings.HasPrefix(l, "github.com/mewmew/float") && !strings.HasPrefix(l, "github.com/mewmew/float/verifmon")
}

// panicInTarget reports whether the panic being recovered passed through the
// library under test.
func panicInTarget() bool {
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if targetFrame(l) {
			return true
		}
	}
	return false
}

// panicInBig reports whether math/big failed in a way it does not on numbers
// that are whole: it was given a number the library had spoilt, or still uses.
func panicInBig(e interface{}) bool {
	if _, ok := e.(runtime.Error); !ok {
		return false
	}
	after := false
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		switch {
		case strings.HasPrefix(l, "\t"):
		case strings.HasPrefix(l, "panic("):
			after = true
		case after && !strings.HasPrefix(l, "runtime."):
			return strings.HasPrefix(l, "math/big.")
		}
	}
	return false
}

func shortStack() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if targetFrame(l) {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Result is what one monitor process observed.
type Result struct {
	Property   string                 `json:"property"`
	Tier       string                 `json:"tier"`
	Seed       uint64                 `json:"seed"`
	Config     string                 `json:"config"`
	Evals      int64                  `json:"evaluations"`
	Distinct   int64                  `json:"distinct"`
	Classes    map[string]int64       `json:"classes"`
	Digests    map[string]string      `json:"digests"`
	Samples    []string               `json:"samples"`
	Violations []Violation            `json:"violations"`
	Findings   map[string]*findingRec `json:"findings,omitempty"`
	Missing    []string               `json:"missing_classes,omitempty"`
	// Others counts the unobserved calls made around the observed ones.
	Others int64   `json:"other_calls,omitempty"`
	WallS  float64 `json:"wall_s"`
}

type task struct {
	s     *Stream
	chunk int
	n     int
}

var (
	resMu   sync.Mutex
	outPath string
	outFile *os.File // opened beforehand
	// failFast stops a run after its first violation (used by tools/mutate).
	failFast bool
	// A part of the chunks, for processes of one thread.
	partK, partN = 0, 1
)

func writeResult(r *Result) {
	r.Others = otherCalls.Load()
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		panic(err)
	}
	if outPath == "" || outPath == "-" {
		os.Stdout.Write(append(b, '\n'))
		return
	}
	if outFile != nil {
		if _, err := outFile.Write(b); err != nil {
			panic(err)
		}
		return
	}
	if err := os.WriteFile(outPath, b, 0o644); err != nil {
		panic(err)
	}
}

func runChunk(t task, prop, tier string, seed uint64, sl *slot, stopAt int64, trace bool) *C {
	c := &C{RNG: &RNG{s: mix(mix(mix(seed, hashStr(t.s.Name)), uint64(t.chunk)), 77)},
		Prop: prop, Stream: t.s.Name, Chunk: t.chunk, NChunks: t.n, Tier: tier,
		classes: map[string]int64{}, seen: map[uint64]struct{}{}, findings: map[string]*findingRec{},
		slot: sl, stopAt: stopAt, trace: trace, desc: func() string { return "(before the first case)" }}
	sl.c.Store(c)
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(stopChunk); ok {
					return
				}
				msg := fmt.Sprint(e)
				if !panicInTarget() && !panicInBig(e) {
					panic(e) // an error of the monitor, not an observation
				}
				c.viol = append(c.viol, Violation{Property: prop, Stream: t.s.Name, Chunk: t.chunk, Case: c.n,
					Input: safeDesc(c), Message: "panic: " + msg + "\n" + shortStack()})
			}
		}()
		t.s.Run(c)
	}()
	return c
}

func safeDesc(c *C) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = fmt.Sprint("(input not printable: ", e, ")")
		}
	}()
	return c.desc()
}

// runProp runs every stream of a property and returns what was observed.
func runProp(prop, tier, config string, seed uint64, streams []*Stream, need []string, workers int, div int) *Result {
	start := time.Now()
	var tasks []task
	count := 0
	for _, s := range streams {
		n := s.Quick
		if tier == "thorough" {
			n = s.Thorough
		}
		n = (n + div - 1) / div
		for k := 0; k < n; k++ {
			if count++; count%partN != partK {
				continue
			}
			tasks = append(tasks, task{s, k, n})
		}
	}
	res := &Result{Property: prop, Tier: tier, Seed: seed, Config: config, Classes: map[string]int64{},
		Digests: map[string]string{}, Findings: map[string]*findingRec{}}
	digs := map[string]uint64{}
	seen := map[uint64]struct{}{}
	merge := func(c *C) {
		resMu.Lock()
		defer resMu.Unlock()
		res.Evals += c.evals
		for k, v := range c.classes {
			res.Classes[k] += v
		}
		for h := range c.seen {
			if len(seen) < 4000000 {
				seen[mix(h, hashStr(c.Stream))] = struct{}{}
			}
		}
		digs[c.Stream] += mix(c.digest, uint64(c.Chunk)) // order-independent
		if len(res.Samples) < 40 {
			res.Samples = append(res.Samples, c.samples...)
		}
		res.Violations = append(res.Violations, c.viol...)
		for id, f := range c.findings {
			if g := res.Findings[id]; g != nil {
				g.Count += f.Count
			} else {
				res.Findings[id] = f
			}
		}
	}
	slots := make([]*slot, workers)
	var next atomic.Int64
	var wg sync.WaitGroup
	var bad atomic.Int64
	for w := range slots {
		sl := &slot{}
		slots[w] = sl
		wg.Add(1)
		go func() {
			defer wg.Done()
			runtime.LockOSThread()
			sl.tid.Store(int64(gettid()))
			for {
				i := int(next.Add(1)) - 1
				if i >= len(tasks) || bad.Load() > 30 || failFast && bad.Load() > 0 {
					return
				}
				sl.busy.Store(true)
				c := runChunk(tasks[i], prop, tier, seed, sl, 0, false)
				sl.busy.Store(false)
				for _, v := range c.viol {
					if v.Finding == "" {
						bad.Add(1)
					}
				}
				merge(c)
			}
		}()
	}
	done := make(chan struct{})
	finish := func() {
		sort.SliceStable(res.Violations, func(i, j int) bool {
			a, b := res.Violations[i], res.Violations[j]
			if (a.Finding == "") != (b.Finding == "") {
				return a.Finding == ""
			}
			if a.Stream != b.Stream {
				return a.Stream < b.Stream
			}
			return a.Chunk < b.Chunk
		})
		if len(res.Violations) > 40 {
			res.Violations = res.Violations[:40]
		}
		sort.Strings(res.Samples)
		for k, v := range digs {
			res.Digests[k] = strconv.FormatUint(v, 16)
		}
		for _, k := range need {
			if res.Classes[k] == 0 {
				res.Missing = append(res.Missing, k)
			}
		}
		res.Distinct = int64(len(seen))
		res.WallS = time.Since(start).Seconds()
	}
	kill := func(sl *slot, why string) {
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		resMu.Lock()
		c := sl.c.Load()
		var stack []string
		for _, l := range strings.Split(string(buf), "\n") {
			if strings.Contains(l, "mewmew/float") {
				stack = append(stack, strings.TrimSpace(l))
			}
		}
		if len(stack) > 30 {
			stack = stack[:30]
		}
		res.Violations = append(res.Violations, Violation{Property: prop, Stream: c.Stream, Chunk: c.Chunk, Case: c.n,
			Input: safeDesc(c), Message: why + "\n" + strings.Join(stack, "\n")})
		finish()
		writeResult(res)
		os.Exit(1)
	}
	if effects == nil { // looking at the threads opens files
		go watch(slots, done, kill)
	}
	wg.Wait()
	close(done)
	finish()
	return res
}

// threadCPU returns the CPU time of a thread of this process, in seconds.
func threadCPU(tid int64) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/self/task/%d/stat", tid))
	if err != nil {
		return -1
	}
	s := string(b)
	if i := strings.LastIndexByte(s, ')'); i >= 0 {
		s = s[i+1:]
	}
	f := strings.Fields(s)
	if len(f) < 13 {
		return -1
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	v, _ := strconv.ParseFloat(f[12], 64)
	return (u + v) / 100
}

// caseCPULimit bounds the CPU time (not wall time) one observed case may use;
// ordinary cases need microseconds to a few milliseconds.
var caseCPULimit = 40.0

// heapLimit bounds the live heap; ordinary runs stay below a few hundred MB.
const heapLimit = 6 << 30

// blockedFor is how many looks a case may go without progress or use of CPU
// time before the goroutines are examined.
const blockedFor = 160

// blocked returns the stack of a goroutine that has been waiting for a minute
// or more inside the library.
func blocked() string {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range strings.Split(string(buf), "\n\n") {
		lines := strings.Split(g, "\n")
		if !strings.Contains(lines[0], " minutes") {
			continue
		}
		for _, l := range lines[1:] {
			if targetFrame(l) {
				return clip(g)
			}
		}
	}
	return ""
}

func watch(slots []*slot, done chan struct{}, kill func(sl *slot, why string)) {
	lastN := make([]int64, len(slots))
	baseCPU := make([]float64, len(slots))
	idle := make([]int, len(slots))
	for i := range lastN {
		lastN[i] = -1
	}
	for {
		select {
		case <-done:
			return
		case <-time.After(500 * time.Millisecond):
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		for i, sl := range slots {
			if !sl.busy.Load() {
				lastN[i] = -1
				continue
			}
			n := sl.n.Load()
			cpu := threadCPU(sl.tid.Load())
			if n != lastN[i] || cpu < 0 {
				lastN[i], baseCPU[i] = n, cpu
				idle[i] = 0
				continue
			}
			if cpu-baseCPU[i] < 0.5 {
				idle[i]++
				if idle[i] == blockedFor/8 {
					runtime.GC() // which notes since when goroutines wait
				}
				if idle[i] >= blockedFor && idle[i]%8 == 0 {
					if g := blocked(); g != "" {
						kill(sl, "the call waits for something that does not happen\n"+g)
					}
				}
			}
			if cpu-baseCPU[i] > caseCPULimit {
				kill(sl, fmt.Sprintf("the call has not returned after %.0f s of CPU time", cpu-baseCPU[i]))
			}
			if ms.HeapAlloc > heapLimit && cpu-baseCPU[i] > 1 {
				kill(sl, fmt.Sprintf("the heap grew to %d MB while the call had not returned", ms.HeapAlloc>>20))
			}
		}
	}
}
