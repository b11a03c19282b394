prop = 'C36'
needs = 'a binary128 number whose top 53 bits are all ones and whose rest rounds up'
breaks = 'a fast path of binary128.Float64 rounds the fraction by hand and loses the carry into the exponent'
edits = [
('binary128/binary128.go',
'''func (f Float) Float64() (float64, big.Accuracy) {
	x, nan := f.Big()
''',
'''func (f Float) Float64() (float64, big.Accuracy) {
	if exp := f.Exp() - bias + 1023; exp > 0 && exp < 0x7FE {
		frac := f.a&0x0000FFFFFFFFFFFF<<4 | f.b>>60
		acc := big.Exact
		if rest := f.b << 4; rest > 1<<63 || rest == 1<<63 && frac&1 != 0 {
			frac++
			acc = big.Above
		} else if rest != 0 {
			acc = big.Below
		}
		if f.Signbit() {
			acc = -acc
		}
		return math.Float64frombits(f.a&0x8000000000000000 | uint64(exp)<<52 | frac&0x000FFFFFFFFFFFFF), acc
	}
	x, nan := f.Big()
'''),
]
main = '''package main

import (
	"fmt"
	"os"

	"github.com/mewmew/float/binary128"
)

func main() {
	for e := uint64(16383 - 1000); e < 16383+1000; e++ {
		last := 0.0
		for _, p := range [][2]uint64{{0, 0}, {0, 1 << 59}, {0, 1<<59 + 1}, {0, 1 << 60}, {0xFFFFFFFFFFFF, 0}, {0xFFFFFFFFFFFF, 0xF7FFFFFFFFFFFFFF}, {0xFFFFFFFFFFFF, 0xF800000000000001}, {0xFFFFFFFFFFFF, ^uint64(0)}} {
			x, _ := binary128.NewFromBits(e<<48|p[0], p[1]).Float64()
			if x < last {
				fmt.Printf("exponent %d fraction %X: %v after %v\\n", e, p, x, last)
				os.Exit(1)
			}
			last = x
		}
	}
}
'''
