prop = 'C33'
needs = 'a NaN formatted with a bit size other than 16, 32 or 64'
breaks = 'NaN is written before the bit size is looked at, so an illegal size goes unnoticed for it'
edits = [
('internal/strconv/ftoa.go',
'''	var bits uint64
	var flt *floatInfo
	switch bitSize {
''',
'''	if val != val {
		return append(dst, "NaN"...)
	}
	var bits uint64
	var flt *floatInfo
	switch bitSize {
'''),
]
main = '''package main

import (
	"fmt"
	"math"
	"os"

	"github.com/mewmew/float/internal/strconv"
)

func main() {
	for _, v := range []float64{0, 1, math.Inf(1), math.Inf(-1), math.NaN()} {
		for _, size := range []int{-1, 0, 8, 24, 63, 80, 128} {
			func() {
				defer func() { recover() }()
				s := strconv.FormatFloat(v, 'g', -1, size)
				fmt.Println(v, "size", size, "was accepted:", s)
				os.Exit(1)
			}()
		}
	}
}
'''
