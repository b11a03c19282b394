prop = "C24"
needs = "a value within the fast algorithm's error of a rounding tie at the requested digit, just below it"
breaks = "the fast fixed-precision algorithm ignores its error bound when it decides to round up"
edits = [("internal/strconv/extfloat.go", '''	if 2*(num-ε) > den<<shift {
''', '''	if 2*num > den<<shift {
''')]
main = '''package main

import (
	"fmt"
	"math"
	"os"
	gostrconv "strconv"

	"github.com/mewmew/float/internal/strconv"
)

func main() {
	s := uint64(1)
	for i := 0; i < 40000000; i++ {
		s ^= s << 13
		s ^= s >> 7
		s ^= s << 17
		f := math.Float64frombits(s)
		if a, b := strconv.FormatFloat(f, 'e', 14, 64), gostrconv.FormatFloat(f, 'e', 14, 64); a != b {
			fmt.Println("got", a, "want", b)
			os.Exit(1)
		}
	}
}
'''
