//go:build libfuzzer

package main

/*
#include <stdlib.h>
extern void monFinish(void);
static inline void monAtExit(void) { atexit(monFinish); }
extern void _exit(int);
*/
import "C"

import (
	"encoding/hex"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"time"
	"unsafe"
)

// One process of a coverage-guided run. The environment says what to observe:
// libFuzzer owns the command line.
var (
	gc     *C
	gSlot  = &slot{}
	gProp  string
	gBegin = time.Now()
	gData  []byte
	gDone  chan struct{}
)

//export LLVMFuzzerInitialize
func LLVMFuzzerInitialize(argc *C.int, argv ***C.char) C.int {
	gProp = os.Getenv("MON_PROP")
	outPath = os.Getenv("MON_OUT")
	repoDir = os.Getenv("MON_REPO")
	seed, _ := strconv.ParseUint(os.Getenv("MON_SEED"), 10, 64)
	debug.SetGCPercent(400)
	startAmong(gProp)
	if gProp == "C41" {
		f, err := os.Create(outPath)
		if err != nil {
			panic(err)
		}
		outFile = f
		settings()
		if effects, err = watchEffects(".", false); err != nil {
			panic(err)
		}
	}
	for _, d := range []string{"binary16", "binary128", "float80x86", "float128ppc", "bfloat", "strconv", "root"} {
		dicts[d] = &Dict{}
	}
	gc = &C{RNG: &RNG{s: seed}, Prop: gProp, Stream: "guided", Tier: os.Getenv("MON_TIER"),
		classes: map[string]int64{}, seen: map[uint64]struct{}{}, findings: map[string]*findingRec{},
		slot: gSlot, desc: func() string { return "(before the first case)" }}
	runtime.LockOSThread()
	gSlot.tid.Store(int64(gettid()))
	gSlot.c.Store(gc)
	gDone = make(chan struct{})
	go watch([]*slot{gSlot}, gDone, func(sl *slot, why string) {
		gc.viol = append(gc.viol, Violation{Property: gProp, Stream: "guided", Chunk: -1, Case: gc.n, Input: safeDesc(gc), Message: why + "\n" + hexInput()})
		guidedResult()
		C._exit(1)
	})
	C.monAtExit()
	return 0
}

func hexInput() string { return "input bytes " + hex.EncodeToString(gData) }

func guidedResult() {
	r := &Result{Property: gProp, Tier: gc.Tier, Config: "guided", Evals: gc.evals, Distinct: int64(len(gc.seen)), Classes: gc.classes,
		Samples: gc.samples, Violations: gc.viol, Findings: gc.findings, WallS: time.Since(gBegin).Seconds(), Digests: map[string]string{}}
	writeResult(r)
}

//export monFinish
func monFinish() { guidedResult() }

//export LLVMFuzzerTestOneInput
func LLVMFuzzerTestOneInput(p *C.uchar, n C.size_t) C.int {
	gData = append(gData[:0], unsafe.Slice((*byte)(unsafe.Pointer(p)), int(n))...)
	before := len(gc.viol)
	gSlot.busy.Store(true)
	observe(gc, gProp, gData)
	gSlot.busy.Store(false)
	for i := before; i < len(gc.viol); i++ {
		if gc.viol[i].Finding == "" {
			gc.viol[i].Chunk = -1
			gc.viol[i].Message += "\n" + hexInput()
			guidedResult()
			C._exit(1)
		}
	}
	if before < len(gc.viol) {
		gc.viol = gc.viol[:before] // listed elsewhere
	}
	return 0
}
