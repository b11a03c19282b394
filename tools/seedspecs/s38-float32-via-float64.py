prop = 'C13'
needs = 'an x87 number within 2^-54 (relative) of a midpoint of two float32, but not on it'
breaks = 'narrowing to float32 goes through float64, which rounds twice'
edits = [
('float80x86/float80x86.go',
'''		return float32(math.NaN()), big.Exact
	}
	return x.Float32()
}
''',
'''		return float32(math.NaN()), big.Exact
	}
	d, _ := x.Float64()
	s := float32(d)
	return s, big.Accuracy(big.NewFloat(float64(s)).Cmp(x))
}
'''),
]
main = '''package main

import (
	"fmt"
	"os"

	"github.com/mewmew/float/float80x86"
)

func main() {
	// 1 + 2^-24 + 2^-63
	s, _ := float80x86.NewFromBits(0x3FFF, 0x8000008000000001).Float32()
	if s != 1+0x1p-23 {
		fmt.Println("got", s)
		os.Exit(1)
	}
}
'''
