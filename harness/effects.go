package main

// C41: calls have no effects. The workloads of the other properties run again
// in a process that watches itself: its standard output and error lead to
// places whose length is looked at after every case, a filter of system calls
// stops the process at any call that opens, starts, connects or changes
// something, and the settings of the process are compared with what they were.
// What the calls return is not judged here.

import (
	"flag"
	"fmt"
	"log"
	"log/slog"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"time"
)

type effectsState struct {
	fds      func() (int64, int64) // how much went to standard output and error
	text     func() string         // what was written last
	out, err int64
	base     string
	gor      int
	filtered bool
	looks    int64
	inputs   int64
	every    bool // compare settings after every input
}

var effects *effectsState

// settings renders what a process has set.
func settings() string {
	var b strings.Builder
	env := os.Environ()
	sort.Strings(env)
	fmt.Fprintf(&b, "environment %q\narguments %q\nfiles %p %p %p\n", env, os.Args, os.Stdin, os.Stdout, os.Stderr)
	wd, err := getwd()
	fmt.Fprintf(&b, "directory %s %v\n", wd, err)
	fmt.Fprintf(&b, "logger %d %q %v\n", log.Flags(), log.Prefix(), log.Writer() == os.Stderr)
	fmt.Fprintf(&b, "structured logger %p\n", slog.Default())
	fmt.Fprintf(&b, "processors %d\n", runtime.GOMAXPROCS(0))
	s := []metrics.Sample{{Name: "/gc/gogc:percent"}, {Name: "/gc/gomemlimit:bytes"}}
	metrics.Read(s)
	for _, m := range s {
		if m.Value.Kind() == metrics.KindUint64 {
			fmt.Fprintf(&b, "%s %d\n", m.Name, m.Value.Uint64())
		}
	}
	fmt.Fprintf(&b, "profile rates %d %d\n", runtime.MemProfileRate, runtime.SetMutexProfileFraction(-1))
	stack, threads, fault := debug.SetMaxStack(1<<28), debug.SetMaxThreads(10000), debug.SetPanicOnFault(false)
	debug.SetMaxStack(stack)
	debug.SetMaxThreads(threads)
	debug.SetPanicOnFault(fault)
	fmt.Fprintf(&b, "stack %d threads %d panic on fault %v\n", stack, threads, fault)
	fmt.Fprintf(&b, "command line %p output %v\n", flag.CommandLine, flag.CommandLine.Output() == os.Stderr)
	fmt.Fprintf(&b, "local time %p %s\n", time.Local, time.Local.String())
	flag.VisitAll(func(f *flag.Flag) { fmt.Fprintf(&b, "flag %s=%s\n", f.Name, f.Value) })
	b.WriteString(signals())
	return b.String()
}

// firstDraw is what the shared random source gives after this seed.
const randSeed = 20201

var firstDraw = rand.New(rand.NewSource(randSeed)).Int63()

// look compares with the last look and reports what the calls since did.
func (e *effectsState) look(c *C) {
	e.looks++
	o, r := e.fds()
	if o != e.out || r != e.err {
		what := e.text()
		do, dr := o-e.out, r-e.err
		e.out, e.err = e.fds()
		if do < 0 || dr < 0 || o < 0 || r < 0 {
			e.fail(c, "standard output or error was closed, exchanged or moved")
			return
		}
		e.fail(c, "the call wrote %d bytes to standard output or error: %q", do+dr, clip(what))
	}
}

func (e *effectsState) fail(c *C, format string, args ...interface{}) {
	if len(c.viol) >= maxViol {
		panic(stopChunk{})
	}
	c.viol = append(c.viol, Violation{Property: c.Prop, Stream: c.Stream, Chunk: c.Chunk, Case: c.n, Input: safeDesc(c), Message: fmt.Sprintf(format, args...)})
}

// begin and end enclose one input of a guided run, which may write to standard
// error between inputs.
func (e *effectsState) begin(c *C) {
	if e.inputs&63 == 0 {
		e.base = settings()
		rand.Seed(randSeed)
		e.gor = runtime.NumGoroutine()
	}
	e.inputs++
	e.out, e.err = e.fds()
}

func (e *effectsState) end(c *C) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(stopChunk); !ok {
				panic(p)
			}
		}
	}()
	e.look(c)
	if e.inputs&63 == 0 || e.every {
		e.compare(c, "this input or the 63 before it")
	}
}

// compare looks for settings that are not what they were.
func (e *effectsState) compare(c *C, who string) {
	if rand.Int63() != firstDraw {
		e.fail(c, "%s drew from, or seeded, the random source shared by the process", who)
	}
	if after := settings(); after != e.base {
		a, b := strings.Split(e.base, "\n"), strings.Split(after, "\n")
		for i := range b {
			if i >= len(a) || a[i] != b[i] {
				e.fail(c, "%s changed a setting of the process: %s", who, clip(b[i]))
				break
			}
		}
	}
	for n := 0; runtime.NumGoroutine() > e.gor && n < 200; n++ {
		time.Sleep(5 * time.Millisecond)
	}
	if n := runtime.NumGoroutine(); n > e.gor {
		e.fail(c, "%s left %d goroutines running", who, n-e.gor)
	}
	c.classes["settings compared"]++
	if e.filtered {
		c.classes["settings compared, system calls filtered"]++
	}
}

// around is a chunk of another property's stream with the settings compared
// before and after.
func (e *effectsState) around(c *C, run func(c *C)) {
	e.base = settings()
	rand.Seed(randSeed)
	e.gor = runtime.NumGoroutine()
	stopped := false
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(stopChunk); ok {
					stopped = true
					return
				}
				if !panicInTarget() {
					panic(p)
				}
			}
		}()
		run(c)
	}()
	if stopped {
		panic(stopChunk{})
	}
	e.look(c)
	c.Begin(func() string { return "all calls of the chunk" })
	e.compare(c, "the calls of the chunk")
}

// effectsOf are the properties whose workloads run.
var effectsOf = []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C19", "C21", "C22",
	"C23", "C24", "C25", "C26", "C27", "C30", "C31", "C32", "C33", "C34", "C35", "C36", "C38", "C39"}

func setupEffects() {
	var ss []*Stream
	for _, id := range effectsOf {
		if props[id] == nil {
			panic("no such property: " + id)
		}
		for _, s := range props[id].Streams {
			s, id := s, id
			ss = append(ss, &Stream{Name: id + "/" + s.Name, Quick: s.Quick, Thorough: s.Thorough, Run: func(c *C) {
				n := c.n
				effects.around(c, s.Run)
				c.Class(mix(hashStr(id), uint64(c.Chunk)), "workload of "+id)
				c.classes["cases watched"] += c.n - n
			}})
		}
	}
	need := []string{"settings compared", "cases watched"}
	for _, id := range effectsOf {
		need = append(need, "workload of "+id)
	}
	register("C41", need, ss...)
}
