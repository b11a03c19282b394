prop = 'C20'
needs = 'a 32-bit build and a denormalized float64 whose significand (or a quotient of it by ten) is exactly 2^32'
breaks = 'the digits of significands are taken with word operations one quotient too early'
edits = [
('internal/strconv/decimal.go',
'''	n := 0
	for v > 0 {
		v1 := v / 10
		v -= 10 * v1
		buf[n] = byte(v + '0')
		n++
		v = v1
	}
''',
'''	n := 0
	for v > 1<<32 {
		v1 := v / 10
		v -= 10 * v1
		buf[n] = byte(v + '0')
		n++
		v = v1
	}
	// The rest fits in a word.
	for u := uint(v); u > 0; u /= 10 {
		buf[n] = byte(u%10 + '0')
		n++
	}
'''),
]
main = '''package main

import (
	"fmt"
	"math"
	"os"

	"github.com/mewmew/float/internal/strconv"
)

func main() {
	if s := strconv.FormatFloat(math.Float64frombits(1<<32), 'e', 20, 64); s != "2.12199579096527231511e-314" {
		fmt.Println("got", s)
		os.Exit(1)
	}
}
'''
run = 'go build -o d64 . && ./d64 && GOARCH=386 go build -o d32 . && ./d32'
