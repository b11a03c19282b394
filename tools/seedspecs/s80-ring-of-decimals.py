prop = 'C18'
needs = 'more calls of the slow path in flight than there are entries in the ring'
breaks = 'the multiprecision decimals come from a ring of eight, which an atomic counter deals out without regard to those in use'
edits = [
('internal/strconv/ftoa.go',
'\t"math"\n',
'\t"math"\n\t"sync/atomic"\n'),
('internal/strconv/ftoa.go',
'\td := new(decimal)\n\td.Assign(mant)\n\td.Shift(exp - int(flt.mantbits))\n\tvar digs decimalSlice\n',
'\td := &ring[atomic.AddUint32(&dealt, 1)%uint32(len(ring))]\n\td.dp, d.trunc = 0, false\n\td.Assign(mant)\n\td.Shift(exp - int(flt.mantbits))\n\tvar digs decimalSlice\n'),
('internal/strconv/ftoa.go',
'// bigFtoa uses multiprecision computations to format a float.\n',
'// ring holds the decimals of the calls in flight.\nvar (\n\tring  [8]decimal\n\tdealt uint32\n)\n\n// bigFtoa uses multiprecision computations to format a float.\n'),
]
main = '''package main

import (
	"fmt"
	"os"
	"runtime"
	"sync"

	"github.com/mewmew/float/internal/strconv"
)

func main() {
	runtime.GOMAXPROCS(16)
	vals := []float64{1e-300, 5e-324, 1.7976931348623157e308, 3.14159e-200, 2.5e290}
	want := make([]string, len(vals))
	for i, v := range vals {
		want[i] = strconv.FormatFloat(v, 'e', 400, 64)
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := 0
	for g := 0; g < 64; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if recover() != nil {
					mu.Lock()
					bad++
					mu.Unlock()
				}
			}()
			for k := 0; k < 4000; k++ {
				i := (g + k) % len(vals)
				if strconv.FormatFloat(vals[i], 'e', 400, 64) != want[i] {
					mu.Lock()
					bad++
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	if bad > 0 {
		fmt.Println(bad, "wrong texts")
		os.Exit(1)
	}
}
'''
