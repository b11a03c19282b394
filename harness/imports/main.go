// Command imports prints nothing. It writes the settings of its process to the
// file that it is given. With the tag lib, it imports the library, and does
// nothing with it.
package main

import (
	"flag"
	"fmt"
	"log"
	"log/slog"
	"math/big"
	"math/rand"
	"net/http"
	"net/url"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"time"
)

func main() {
	var b strings.Builder
	flag.VisitAll(func(f *flag.Flag) { fmt.Fprintf(&b, "flag %s=%s\n", f.Name, f.Value) })
	fmt.Fprintf(&b, "usage %v\n", flag.Parsed())
	env := os.Environ()
	sort.Strings(env)
	fmt.Fprintf(&b, "environment %q\narguments %d\n", env, len(os.Args))
	fmt.Fprintf(&b, "files %s %s %s\n", os.Stdin.Name(), os.Stdout.Name(), os.Stderr.Name())
	wd, err := os.Getwd()
	fmt.Fprintf(&b, "directory %s %v\n", wd, err)
	fmt.Fprintf(&b, "logger %d %q %v\n", log.Flags(), log.Prefix(), log.Writer() == os.Stderr)
	fmt.Fprintf(&b, "structured logger %T\n", slog.Default().Handler())
	for _, path := range []string{"/", "/debug/vars", "/debug/pprof/", "/debug/requests", "/metrics"} {
		_, pattern := http.DefaultServeMux.Handler(&http.Request{Method: "GET", URL: &url.URL{Path: path}})
		fmt.Fprintf(&b, "served %s %q\n", path, pattern)
	}
	fmt.Fprintf(&b, "processors %v\n", runtime.GOMAXPROCS(0))
	s := []metrics.Sample{{Name: "/gc/gogc:percent"}, {Name: "/gc/gomemlimit:bytes"}}
	metrics.Read(s)
	for _, m := range s {
		if m.Value.Kind() == metrics.KindUint64 {
			fmt.Fprintf(&b, "%s %d\n", m.Name, m.Value.Uint64())
		}
	}
	fmt.Fprintf(&b, "profile rates %d %d\n", runtime.MemProfileRate, runtime.SetMutexProfileFraction(-1))
	fmt.Fprintf(&b, "stack %d threads %d panic on fault %v\n", debug.SetMaxStack(1<<28), debug.SetMaxThreads(10000), debug.SetPanicOnFault(false))
	fmt.Fprintf(&b, "local time %s\n", time.Local.String())
	fmt.Fprintf(&b, "goroutines %d\n", runtime.NumGoroutine())
	fmt.Fprintf(&b, "random %d\n", rand.Int63()) // the same, with randautoseed=0
	x, _, err := big.ParseFloat("1e400", 10, 60, big.ToNearestEven)
	fmt.Fprintf(&b, "big numbers %v %v\n", x, err)
	if st, err := os.ReadFile("/proc/self/status"); err == nil {
		for _, l := range strings.Split(string(st), "\n") {
			for _, k := range []string{"SigIgn", "SigCgt", "NoNewPrivs", "Umask"} {
				if strings.HasPrefix(l, k) {
					fmt.Fprintln(&b, l)
				}
			}
		}
	}
	if err := os.WriteFile(os.Args[1], []byte(b.String()), 0o644); err != nil {
		os.Exit(3)
	}
}
