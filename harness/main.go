package main

import (
	"encoding/hex"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
)

// Prop ties a property to its streams and to the classes of observations
// without which a run says nothing.
type Prop struct {
	Streams []*Stream
	Need    []string
}

var props = map[string]*Prop{}

func register(id string, need []string, ss ...*Stream) {
	if props[id] == nil {
		props[id] = &Prop{}
	}
	props[id].Streams = append(props[id].Streams, ss...)
	props[id].Need = append(props[id].Need, need...)
}

var (
	repoDir string
	dicts   = map[string]*Dict{}
)

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Uint64("seed", 1, "seed")
	config := flag.String("config", "default", "name of the build configuration")
	workers := flag.Int("workers", runtime.NumCPU(), "worker threads")
	div := flag.Int("div", 1, "divide the number of chunks by this")
	mul := flag.Int("mul", 1, "multiply the number of chunks by this")
	part := flag.String("part", "", "k/n: only every n-th chunk, from the k-th")
	hints := flag.String("hints", "", "file of workload hints: read, or written if there is none, so that builds by different toolchains share one workload")
	flag.BoolVar(&failFast, "failfast", false, "stop after the first violation")
	list := flag.Bool("list", false, "list properties and streams")
	stream := flag.String("stream", "", "replay: stream")
	chunk := flag.Int("chunk", -1, "replay: chunk")
	caseN := flag.Int64("case", 0, "replay: case number")
	flag.StringVar(&outPath, "out", "-", "result file")
	flag.StringVar(&repoDir, "repo", "/repo", "source tree (for workload hints)")
	flag.StringVar(&helperPath, "helper", "", "gcc-compiled conversion helper")
	flag.StringVar(&clangPath, "clang", "clang", "clang")
	flag.StringVar(&tmpDir, "tmp", "", "directory for temporary files")
	flag.StringVar(&gen16Path, "gen16", "", "output of the binary16 generator")
	flag.StringVar(&gen128Path, "gen128", "", "output of the binary128 generator")
	corpus := flag.String("corpus", "", "write starting inputs of the guided run to this directory")
	input := flag.String("input", "", "replay: an input of the guided run, in hexadecimal")
	flag.Parse()
	debug.SetGCPercent(400)
	if !loadHints(*hints) {
		for _, d := range []string{"binary16", "binary128", "float80x86", "float128ppc", "bfloat"} {
			dicts[d] = harvest(repoDir + "/" + d)
		}
		dicts["strconv"] = harvest(repoDir+"/internal/strconv", repoDir)
		dicts["root"] = harvest(repoDir, repoDir+"/binary16")
		saveHints(*hints)
	}
	setup()
	if *list {
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			var s []string
			for _, st := range props[id].Streams {
				s = append(s, fmt.Sprintf("%s[%d/%d]", st.Name, st.Quick, st.Thorough))
			}
			fmt.Println(id, strings.Join(s, " "))
		}
		return
	}
	for _, q := range props {
		for _, s := range q.Streams {
			s.scale(*mul)
		}
	}
	if *corpus != "" {
		if !hasGuided(*prop) {
			fmt.Fprintln(os.Stderr, "no guided run of", *prop)
			os.Exit(2)
		}
		if err := emitCorpus(*corpus, *prop, *seed); err != nil {
			panic(err)
		}
		return
	}
	startAmong(*prop)
	if *prop == "C41" {
		if outPath != "-" && *chunk < 0 && *input == "" {
			f, err := os.Create(outPath)
			if err != nil {
				panic(err)
			}
			outFile = f
		}
		settings() // which loads the time zone
		stdout, _ := os.OpenFile("/proc/self/fd/1", os.O_WRONLY|os.O_APPEND, 0)
		e, err := watchEffects(tmpDir, true)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		effects = e
		e.every = true
		if outFile == nil {
			outFile = stdout
		}
	}
	if *input != "" {
		b, err := hex.DecodeString(*input)
		if err != nil {
			panic(err)
		}
		c := &C{RNG: &RNG{}, Prop: *prop, Stream: "guided", Tier: *tier, classes: map[string]int64{}, seen: map[uint64]struct{}{}, findings: map[string]*findingRec{}, slot: &slot{}}
		observe(c, *prop, b)
		to := os.Stdout
		if outFile != nil {
			to = outFile
		}
		for _, v := range c.viol {
			fmt.Fprintf(to, "reproduced: %s\n  input: %s\n  %s\n", v.Property, v.Input, v.Message)
		}
		if len(c.viol) > 0 {
			os.Exit(1)
		}
		fmt.Fprintln(to, "not reproduced")
		return
	}
	p := props[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if *chunk >= 0 {
		for _, s := range p.Streams {
			if s.Name == *stream {
				n := s.Quick
				if *tier == "thorough" {
					n = s.Thorough
				}
				n = (n + *div - 1) / *div
				sl := &slot{}
				c := runChunk(task{s, *chunk, n}, *prop, *tier, *seed, sl, *caseN, true)
				to := os.Stdout
				if outFile != nil {
					to = outFile
				}
				for _, v := range c.viol {
					fmt.Fprintf(to, "reproduced: %s\n  input: %s\n  %s\n", v.Property, v.Input, v.Message)
				}
				if len(c.viol) > 0 {
					os.Exit(1)
				}
				fmt.Fprintln(to, "not reproduced")
				return
			}
		}
		fmt.Fprintln(os.Stderr, "unknown stream", *stream)
		os.Exit(2)
	}
	if *part != "" {
		if _, err := fmt.Sscanf(*part, "%d/%d", &partK, &partN); err != nil {
			panic(err)
		}
	}
	res := runProp(*prop, *tier, *config, *seed, p.Streams, p.Need, *workers, *div)
	writeResult(res)
	for _, v := range res.Violations {
		if v.Finding == "" {
			os.Exit(1)
		}
	}
}
