prop = 'C41'
needs = 'the first subnormal binary128 value that the process decodes; results stay right'
breaks = 'decoding a subnormal number starts a goroutine that sweeps a pool of scratch buffers and never ends'
edits = [
('binary128/binary128.go', '''	fracStr := fmt.Sprintf("%048b%064b", frac1, frac2)
	s := fmt.Sprintf("%s0b%d.%sp%d", sign, lead, fracStr, exponent)
	if _, _, err := x.Parse(s, 0); err != nil {
''', '''	fracStr := fmt.Sprintf("%048b%064b", frac1, frac2)
	var s string
	if lead == 0 {
		// Texts of subnormal numbers have long runs of zeros in common.
		sweep.Do(func() { go sweeper() })
		buf := <-scratch
		buf = append(buf[:0], sign...)
		buf = append(buf, "0b0."...)
		buf = append(buf, fracStr...)
		s = string(buf) + "p-16382"
		scratch <- buf
	} else {
		s = fmt.Sprintf("%s0b%d.%sp%d", sign, lead, fracStr, exponent)
	}
	if _, _, err := x.Parse(s, 0); err != nil {
'''),
('binary128/binary128.go', '''// Signbit reports whether''', '''// scratch holds a buffer that decoding shares, dropped from time to time.
var (
	scratch = make(chan []byte, 1)
	sweep   sync.Once
)

func sweeper() {
	scratch <- make([]byte, 0, 128)
	for range time.Tick(time.Minute) {
		<-scratch
		scratch <- make([]byte, 0, 128)
	}
}

// Signbit reports whether'''),
('binary128/binary128.go', '\t"math/big"\n', '\t"math/big"\n\t"sync"\n\t"time"\n'),
]
main = '''package main

import (
	"fmt"
	"os"
	"runtime"
	"time"

	"github.com/mewmew/float/binary128"
)

func main() {
	n := runtime.NumGoroutine()
	binary128.NewFromBits(0, 12345).Big()
	for i := 0; i < 100 && runtime.NumGoroutine() > n; i++ {
		time.Sleep(5 * time.Millisecond)
	}
	if m := runtime.NumGoroutine(); m > n {
		fmt.Println("goroutines:", n, "before,", m, "after")
		os.Exit(1)
	}
}
'''
