prop = 'C13'
needs = 'an x87 number of biased float64 exponent zero (just below the smallest normal float64) whose low 11 bits are clear'
breaks = 'a shortcut for numbers of 53 significant bits takes the largest subnormal binade for a normal one'
edits = [
('float80x86/float80x86.go',
'''func (f Float) Float64() (float64, big.Accuracy) {
	x, nan := f.Big()
''',
'''func (f Float) Float64() (float64, big.Accuracy) {
	// Numbers of up to 53 bits and with an exponent of double precision are exact.
	if exp := f.Exp() - bias + 1023; f.Lead() == 1 && f.m&0x7FF == 0 && 0 <= exp && exp < 0x7FF {
		bits := uint64(f.se&0x8000)<<48 | uint64(exp)<<52 | f.Frac()>>11
		return math.Float64frombits(bits), big.Exact
	}
	x, nan := f.Big()
'''),
]
main = '''package main

import (
	"fmt"
	"os"
	"math"

	"github.com/mewmew/float/float80x86"
)

func main() {
	// 2^-1023
	if x, _ := float80x86.NewFromBits(16383-1023, 1<<63).Float64(); x != math.Ldexp(1, -1023) {
		fmt.Println("got", x)
		os.Exit(1)
	}
}
'''
