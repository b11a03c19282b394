prop = "C18"
needs = "two goroutines decoding binary128 values at the same time, one taking the pooled buffer the other has already put back but still formats from"
breaks = "a pooled scratch buffer is returned to the pool before its bytes are used, so concurrent Big calls mix each other's fractions"
edits = [("binary128/binary128.go", '''	fracStr := fmt.Sprintf("%048b%064b", frac1, frac2)
''', '''	fracStr := fracBits(frac1, frac2)
'''), ("binary128/binary128.go", '''// Signbit reports whether f is negative or negative 0.
''', '''// fracPool holds buffers for the binary digits of fractions.
var fracPool = sync.Pool{
	New: func() interface{} {
		return new([48 + 64]byte)
	},
}

// fracBits returns the binary digits of the given fraction.
func fracBits(frac1, frac2 uint64) []byte {
	buf := fracPool.Get().(*[48 + 64]byte)
	defer fracPool.Put(buf)
	for i := 47; i >= 0; i-- {
		buf[i] = '0' + byte(frac1&1)
		frac1 >>= 1
	}
	for i := 111; i >= 48; i-- {
		buf[i] = '0' + byte(frac2&1)
		frac2 >>= 1
	}
	return buf[:]
}

// Signbit reports whether f is negative or negative 0.
'''), ("binary128/binary128.go", '''	"math/big"
''', '''	"math/big"
	"sync"
''')]
main = '''package main

import (
	"fmt"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"github.com/mewmew/float/binary128"
)

func main() {
	var bad atomic.Int64
	var wg sync.WaitGroup
	end := time.Now().Add(20 * time.Second)
	for g := 0; g < 16; g++ {
		a, b := 0x3FFF000000000000|uint64(g)*0x111111111111, uint64(g)*0x0101010101010101
		f := binary128.NewFromBits(a, b)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; bad.Load() == 0 && time.Now().Before(end); i++ {
				x, _ := f.Big()
				if r, _ := binary128.NewFromBig(x); r != f {
					bad.Add(1)
				}
			}
		}()
	}
	wg.Wait()
	if bad.Load() != 0 {
		fmt.Println("concurrent decodes of different values were mixed up")
		os.Exit(1)
	}
}
'''
run = "go build -o demo . && ./demo && CGO_ENABLED=1 go build -race -o demorace . && ./demorace"
