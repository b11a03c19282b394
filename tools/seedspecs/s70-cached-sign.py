prop = 'C38'
needs = 'comparing a negative half made from its bits with one made by conversion'
breaks = 'binary16.NewFromBits stores the sign a second time, which the conversions do not'
edits = [
('binary16/binary16.go',
'\tbits uint16\n}',
'\tbits uint16\n\t// cached sign of values made from bits\n\tneg bool\n}'),
('binary16/binary16.go',
'\treturn Float{bits: bits}\n}',
'\treturn Float{bits: bits, neg: bits>>15 != 0}\n}'),
('binary16/binary16.go',
'\treturn f.bits&0x8000 != 0\n',
'\treturn f.neg || f.bits&0x8000 != 0\n'),
]
main = '''package main

import (
	"fmt"
	"os"

	"github.com/mewmew/float/binary16"
)

func main() {
	f, _ := binary16.NewFromFloat64(-1.5)
	m := map[binary16.Float]int{f: 1}
	if m[binary16.NewFromBits(f.Bits())] != 1 || binary16.NegZero != binary16.NewFromBits(0x8000) {
		fmt.Println("values of equal bits differ")
		os.Exit(1)
	}
}
'''
