prop = "C05"
needs = "a pair whose low part is larger than its high part, and whose float64 sum is not exact"
breaks = "a shortcut for pairs with an exact float64 sum checks exactness in a way that is only valid when the high part is the larger one"
edits = [("float128ppc/float128ppc.go", '''	l := big.NewFloat(f.low).SetPrec(precision)
	x.Add(h, l)
''', '''	l := big.NewFloat(f.low).SetPrec(precision)
	if sum := f.high + f.low; sum-f.high == f.low {
		// The sum is exact in double precision.
		x.SetFloat64(sum)
	} else {
		x.Add(h, l)
	}
''')]
main = '''package main

import (
	"fmt"
	"math"
	"math/big"
	"os"

	"github.com/mewmew/float/float128ppc"
)

func main() {
	a, b := 0.5, float64(1<<53+2)
	want := new(big.Float).SetPrec(200).Add(big.NewFloat(a), big.NewFloat(b))
	if x, _ := float128ppc.NewFromBits(math.Float64bits(a), math.Float64bits(b)).Big(); x.Cmp(want) != 0 {
		fmt.Println("got", x.Text('g', 30), "want", want.Text('g', 30))
		os.Exit(1)
	}
}
'''
