prop = 'C17'
needs = 'a result of float80x86.Big still in use after 8192 more calls'
breaks = 'float80x86.Big hands out the numbers of an arena of 8192 in turn: what a caller keeps is overwritten by the call that comes round to it'
edits = [
('float80x86/float80x86.go',
'\texp := f.Exp()\n\tx = big.NewFloat(0)\n',
'\texp := f.Exp()\n\tx = arena.next()\n'),
('float80x86/float80x86.go',
'// Signbit reports whether f is negative or negative 0.\n',
'''// numbers saves the allocation of each result.
type numbers struct {
	n     uint32
	block [8192]big.Float
}

var arena numbers

// next returns a number of value zero.
func (a *numbers) next() *big.Float {
	i := atomic.AddUint32(&a.n, 1) % uint32(len(a.block))
	x := &a.block[i]
	*x = big.Float{}
	return x
}

// Signbit reports whether f is negative or negative 0.
'''),
('float80x86/float80x86.go',
'\t"math/big"\n)',
'\t"math/big"\n\t"sync/atomic"\n)'),
]
main = '''package main

import (
	"fmt"
	"os"

	"github.com/mewmew/float/float80x86"
)

func main() {
	x, _ := float80x86.NewFromBits(0x3FFF, 1<<63).Big()
	if x.Cmp(x) != 0 || x.Text('g', 10) != "1" {
		fmt.Println("one is", x)
		os.Exit(1)
	}
	for i := uint64(0); i < 20000; i++ {
		float80x86.NewFromBits(0x4000, 1<<63|i).Big()
	}
	if s := x.Text('g', 10); s != "1" {
		fmt.Println("one became", s)
		os.Exit(1)
	}
}
'''
