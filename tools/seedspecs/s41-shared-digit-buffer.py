prop = 'C18'
needs = 'two goroutines formatting integers of 12 or more digits in a base other than 10 and the powers of two'
breaks = 'long numbers are written in one shared buffer'
edits = [
('internal/strconv/itoa.go',
'''	} else {
		// general case
		b := uint64(base)
		for u >= b {
''',
'''	} else if u >= 1<<40 {
		// Digits of large numbers, from the right.
		b := uint64(base)
		n := len(scratch)
		for ; u > 0; u /= b {
			n--
			scratch[n] = digits[u%b]
		}
		i -= copy(a[i-(len(scratch)-n):], scratch[n:])
	} else {
		// general case
		b := uint64(base)
		for u >= b {
'''),
('internal/strconv/itoa.go',
'''func isPowerOfTwo(x int) bool {
''',
'''var scratch [64]byte

func isPowerOfTwo(x int) bool {
'''),
('internal/strconv/itoa.go',
'''const fastSmalls = true // enable fast path for small integers
''',
'''const fastSmalls = true // fast path for small integers
'''),
]
main = '''package main

import (
	"fmt"
	"os"
	"sync"

	"github.com/mewmew/float/internal/strconv"
)

func main() {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			want := strconv.FormatUint(uint64(g+1)<<58, 36)
			for i := 0; i < 200000; i++ {
				if s := strconv.FormatUint(uint64(g+1)<<58, 36); s != want {
					fmt.Println("got", s, "want", want)
					os.Exit(1)
				}
			}
		}()
	}
	wg.Wait()
}
'''
run = "CGO_ENABLED=1 go build -race -o demo . || exit 2; for i in $(seq 5); do ./demo >out 2>&1 || { head -20 out; exit 1; }; done"
