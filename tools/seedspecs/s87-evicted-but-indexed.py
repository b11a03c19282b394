prop = 'C17'
needs = 'more than 65536 different float64 values converted to quadruple precision in one process, and one of the early ones converted again'
breaks = 'binary128.NewFromFloat64 keeps its last 65536 results in a ring with an index; an entry that the ring overwrites stays in the index, so that an old number gets the result of the one that took its place'
edits = [
('binary128/binary128.go', '''	y := big.NewFloat(x)
	y.SetPrec(precision)
	y.SetMode(big.ToNearestEven)
	// TODO: check accuracy after setting precision?
	return NewFromBig(y)
''', '''	key := math.Float64bits(x)
	recent.Lock()
	defer recent.Unlock()
	if i, ok := recent.index[key]; ok {
		return recent.ring[i], big.Exact
	}
	y := big.NewFloat(x)
	y.SetPrec(precision)
	y.SetMode(big.ToNearestEven)
	// TODO: check accuracy after setting precision?
	f, acc := NewFromBig(y)
	if recent.index == nil || len(recent.index) > 1<<18 {
		recent.index = make(map[uint64]uint16)
	}
	recent.ring[recent.next] = f
	recent.index[key] = recent.next
	recent.next++
	return f, acc
'''),
('binary128/binary128.go', '''// NewFromFloat64 returns the nearest quadruple''', '''// recent holds the numbers converted most recently.
var recent struct {
	sync.Mutex
	ring  [1 << 16]Float
	index map[uint64]uint16 // positions in ring
	next  uint16
}

// NewFromFloat64 returns the nearest quadruple'''),
('binary128/binary128.go', '\t"math/big"\n', '\t"math/big"\n\t"sync"\n'),
]
main = '''package main

import (
	"fmt"
	"os"

	"github.com/mewmew/float/binary128"
)

func main() {
	f, _ := binary128.NewFromFloat64(0.5)
	for i := 1; i < 1<<17; i++ {
		binary128.NewFromFloat64(float64(i))
	}
	if g, _ := binary128.NewFromFloat64(0.5); f != g {
		fmt.Println(f, g)
		os.Exit(1)
	}
}
'''
