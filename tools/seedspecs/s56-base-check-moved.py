prop = 'C33'
needs = 'an integer formatted in base 1, 64, 128 or another power of two outside the range'
breaks = 'the base is only checked on the general path of formatBits, not for powers of two'
edits = [
('internal/strconv/itoa.go',
'''	if base < 2 || base > len(digits) {
		panic("strconv: illegal AppendInt/FormatInt base")
	}
	// 2 <= base && base <= len(digits)

''', ''),
('internal/strconv/itoa.go',
'''		// general case
''',
'''		// general case
		if base < 2 || base > len(digits) {
			panic("strconv: illegal AppendInt/FormatInt base")
		}
'''),
]
main = '''package main

import (
	"fmt"
	"os"

	"github.com/mewmew/float/internal/strconv"
)

func main() {
	for _, base := range []int{-8, -1, 0, 1, 37, 63, 64, 65, 128, 256} {
		func() {
			defer func() { recover() }()
			s := strconv.FormatInt(5, base)
			fmt.Println("base", base, "was accepted:", s)
			os.Exit(1)
		}()
	}
}
'''
