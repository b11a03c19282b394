prop = "C18"
needs = "first use of the lazily filled cache by two goroutines at once"
breaks = "decoded bfloat16 values are cached in an array that is written without synchronisation"
edits = [("bfloat/bfloat.go", '''	s := fmt.Sprintf("%s0b%d.%07bp%d", sign, lead, frac, exponent)
	if _, _, err := x.Parse(s, 0); err != nil {
		panic(err)
	}
	return x, false
''', '''	if scale := scales[exp]; scale != nil {
		x.SetInt64(int64(lead<<7 | int(frac)))
		x.Mul(x, scale)
		if signbit {
			x.Neg(x)
		}
		return x, false
	}
	s := fmt.Sprintf("%s0b%d.%07bp%d", sign, lead, frac, exponent)
	if _, _, err := x.Parse(s, 0); err != nil {
		panic(err)
	}
	scales[exp] = new(big.Float).SetMantExp(big.NewFloat(1), exponent-7)
	return x, false
'''), ("bfloat/bfloat.go", '''// Signbit reports whether f is negative or negative 0.
''', '''// scales holds the weight of the last fraction bit, by exponent.
var scales [256]*big.Float

// Signbit reports whether f is negative or negative 0.
''')]
main = '''package main

import (
	"runtime"
	"sync"

	"github.com/mewmew/float/bfloat"
)

func main() {
	var wg, ready sync.WaitGroup
	ready.Add(8)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ready.Done()
			ready.Wait()
			for i := 0; i < 1<<16; i += 7 {
				runtime.Gosched()
				bfloat.NewFromBits(uint16(i)).Big()
			}
		}()
	}
	wg.Wait()
}
'''
run = "CGO_ENABLED=1 go build -race -o demo . || exit 2; for i in $(seq 20); do ./demo >out 2>&1 || { head -20 out; exit 1; }; done"
