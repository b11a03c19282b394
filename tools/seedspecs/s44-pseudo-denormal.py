prop = 'C04'
needs = 'a pseudo-denormal pattern (exponent zero, integer bit set)'
breaks = 'the exponent of pseudo-denormals is taken to be one less than that of denormals'
edits = [
('float80x86/float80x86.go',
'''		//    (-1)^signbit * 2^(-16382) * 0.mant_2
		exponent = -16382
	}
''',
'''		//    (-1)^signbit * 2^(-16382) * 0.mant_2
		if f.Lead() == 0 {
			exponent = -16382
		}
	}
'''),
]
main = '''package main

import (
	"fmt"
	"os"

	"github.com/mewmew/float/float80x86"
)

func main() {
	x, _ := float80x86.NewFromBits(0, 0x8000000000000000).Big()
	if e := x.MantExp(nil); e != -16381 {
		fmt.Println("exponent", e)
		os.Exit(1)
	}
}
'''
