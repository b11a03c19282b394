prop = 'C26'
needs = 'an integer whose repeated quotient by a base other than 10 and powers of two is exactly 2^32'
breaks = 'the switch to 32-bit division comes one too early: a quotient of 2^32 is cut to zero'
edits = [
('internal/strconv/itoa.go',
'''		b := uint64(base)
		for u >= b {
			i--
			// Avoid using r = a%b in addition to q = a/b
			// since 64bit division and modulo operations
			// are calculated by runtime functions on 32bit machines.
			q := u / b
			a[i] = digits[uint(u-q*b)]
			u = q
		}
		// u < base
		i--
		a[i] = digits[uint(u)]
''',
'''		b := uint64(base)
		for u > 1<<32 {
			i--
			// Avoid using r = a%b in addition to q = a/b
			// since 64bit division and modulo operations
			// are calculated by runtime functions on 32bit machines.
			q := u / b
			a[i] = digits[uint(u-q*b)]
			u = q
		}
		// u fits into 32 bits; use word operations for the rest
		us := uint32(u)
		for us >= uint32(base) {
			i--
			a[i] = digits[us%uint32(base)]
			us /= uint32(base)
		}
		// us < base
		i--
		a[i] = digits[us]
'''),
]
main = '''package main

import (
	"fmt"
	"math/big"
	"os"

	"github.com/mewmew/float/internal/strconv"
)

func main() {
	u := uint64(7<<32 + 5)
	if s, want := strconv.FormatUint(u, 7), new(big.Int).SetUint64(u).Text(7); s != want {
		fmt.Println("got", s, "want", want)
		os.Exit(1)
	}
}
'''
