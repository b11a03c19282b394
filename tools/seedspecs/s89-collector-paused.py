prop = 'C41'
needs = 'an f text with a precision, of a float64 below 2^-900 or so; and a process that runs with a collector percentage other than 100'
breaks = 'the collector is switched off for the long division of a tiny number and set to 100 % afterwards, not to what it was'
edits = [
('internal/strconv/ftoa.go', '''	d := new(decimal)
	d.Assign(mant)
	d.Shift(exp - int(flt.mantbits))
	var digs decimalSlice
	shortest := prec < 0
''', '''	d := new(decimal)
	d.Assign(mant)
	shift := exp - int(flt.mantbits)
	if shift < -950 {
		// Hundreds of digits: no collection in between.
		debug.SetGCPercent(-1)
		defer debug.SetGCPercent(100)
	}
	d.Shift(shift)
	var digs decimalSlice
	shortest := prec < 0
'''),
('internal/strconv/ftoa.go', '\t"math"\n', '\t"math"\n\t"runtime/debug"\n'),
]
main = '''package main

import (
	"fmt"
	"os"
	"runtime/debug"

	"github.com/mewmew/float/internal/strconv"
)

func main() {
	debug.SetGCPercent(250)
	strconv.FormatFloat(1e-300, 'f', 400, 64)
	if p := debug.SetGCPercent(250); p != 250 {
		fmt.Println("the collector's percentage became", p)
		os.Exit(1)
	}
}
'''
