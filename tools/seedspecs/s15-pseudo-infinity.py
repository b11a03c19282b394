prop = 'C04'
needs = 'an x87 pattern with all-ones exponent and an all-zero significand (pseudo-infinity)'
breaks = 'pseudo-infinities are decoded as infinities'
edits = [
('float80x86/float80x86.go',
'''		if f.m == 0x8000000000000000 {
''',
'''		if f.Frac() == 0 {
'''),
]
main = '''package main

import (
	"fmt"
	"os"

	"github.com/mewmew/float/float80x86"
)

func main() {
	if x, nan := float80x86.NewFromBits(0x7FFF, 0).Big(); !nan {
		fmt.Println("got", x)
		os.Exit(1)
	}
}
'''
