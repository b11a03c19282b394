prop = "C23"
needs = "a value whose magnitude makes the formatter use this entry of its table of powers of ten, for which the difference matters"
breaks = "a mistyped digit in the table entry of 10^-252"
edits = [("internal/strconv/extfloat.go", "{0xea9c227723ee8bcb, -901, false},", "{0xea9c227723ee8bdb, -901, false},")]
main = '''package main

import (
	"fmt"
	"math"
	"os"
	gostrconv "strconv"

	"github.com/mewmew/float/internal/strconv"
)

func main() {
	s := uint64(1)
	bad := 0
	for i := 0; i < 4000000; i++ {
		s ^= s << 13
		s ^= s >> 7
		s ^= s << 17
		f := math.Ldexp(1+float64(s>>12)/(1<<52), int(s>>3%2047)-1023)
		if a, b := strconv.FormatFloat(f, 'e', -1, 64), gostrconv.FormatFloat(f, 'e', -1, 64); a != b {
			fmt.Println("got", a, "want", b)
			bad++
			os.Exit(1)
		}
	}
}
'''
