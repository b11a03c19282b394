prop = 'C26'
needs = 'a 32-bit build and a power-of-two base with an integer of more than 32 bits'
breaks = 'digits of power-of-two bases are taken from a machine word instead of 64 bits'
edits = [
('internal/strconv/itoa.go',
'''		b := uint64(base)
		m := uint(base) - 1 // == 1<<shift - 1
		for u >= b {
			i--
			a[i] = digits[uint(u)&m]
			u >>= shift
		}
		// u < base
		i--
		a[i] = digits[uint(u)]
	} else {
''',
'''		// A word is faster to shift than an uint64 on a 32bit machine.
		us := uint(u)
		b := uint(base)
		m := b - 1 // == 1<<shift - 1
		for us >= b {
			i--
			a[i] = digits[us&m]
			us >>= shift
		}
		// us < base
		i--
		a[i] = digits[us]
	} else {
'''),
]
main = '''package main

import (
	"fmt"
	"os"

	"github.com/mewmew/float/internal/strconv"
)

func main() {
	if s := strconv.FormatUint(1<<40, 16); s != "10000000000" {
		fmt.Println("got", s)
		os.Exit(1)
	}
}
'''
run = 'go build -o d64 . && ./d64 && GOARCH=386 go build -o d32 . && ./d32'
