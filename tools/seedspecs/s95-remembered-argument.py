prop = 'C08'
needs = 'one big.Float variable that is given another value between two encodings'
breaks = 'the encoder remembers the last argument by its address, and answers for the value the variable had before'
edits = [
('binary128/binary128.go',
'''func NewFromBig(x *big.Float) (Float, big.Accuracy) {
	// +-Inf
''',
'''func NewFromBig(x *big.Float) (Float, big.Accuracy) {
	if r, ok := recent.Load().(*encoded); ok && r.x == x && r.exp == x.MantExp(nil) && r.neg == x.Signbit() && !x.IsInf() {
		return r.f, r.acc
	}
	f, acc := newFromBig(x)
	if !x.IsInf() && x.Sign() != 0 {
		recent.Store(&encoded{x: x, exp: x.MantExp(nil), neg: x.Signbit(), f: f, acc: acc})
	}
	return f, acc
}

// encoded is the result of an encoding.
type encoded struct {
	x   *big.Float
	exp int
	neg bool
	f   Float
	acc big.Accuracy
}

// recent is the last encoding, as numbers are often encoded more than once.
var recent atomic.Value

func newFromBig(x *big.Float) (Float, big.Accuracy) {
	// +-Inf
'''),
('binary128/binary128.go', '	"math/big"\n', '	"math/big"\n	"sync/atomic"\n'),
]
main = '''package main

import (
	"fmt"
	"math/big"
	"os"

	"github.com/mewmew/float/binary128"
)

func main() {
	x := new(big.Float)
	for i := 0; i < 100; i++ {
		x.SetFloat64(1 + float64(i)/128)
		f, _ := binary128.NewFromBig(x)
		y, _ := f.Big()
		if y.Cmp(x) != 0 {
			fmt.Println("encoded", x, "as", y)
			os.Exit(1)
		}
	}
}
'''
