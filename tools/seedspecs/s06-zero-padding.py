prop = "C19"
needs = "'e' format with a precision more than 320 digits beyond the digits of the value"
breaks = "padding zeros are sliced from a constant that is too short for large precisions"
edits = [("internal/strconv/ftoa.go", '''		for ; i <= prec; i++ {
			dst = append(dst, '0')
		}
	}

	// e±
''', '''		if i <= prec {
			dst = append(dst, zeros[:prec+1-i]...)
		}
	}

	// e±
'''), ("internal/strconv/ftoa.go", '''func min(a, b int) int {
''', '''// zeros is used for padding. The largest exponents have three digits.
var zeros = strings.Repeat("0", 320)

func min(a, b int) int {
'''), ("internal/strconv/ftoa.go", '''	"math"
''', '''	"math"
	"strings"
''')]
main = '''package main

import "github.com/mewmew/float/internal/strconv"

func main() {
	if len(strconv.FormatFloat(1, 'e', 400, 64)) != 406 {
		panic("wrong length")
	}
}
'''
