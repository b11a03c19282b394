prop = 'C38'
needs = 'comparing a value made from a float64 with one made from the same bits'
breaks = 'binary128 values made from a float64 carry a mark, so they differ from equal values made otherwise'
edits = [
('binary128/binary128.go',
'\ta uint64\n\tb uint64\n}',
'\ta uint64\n\tb uint64\n\t// set if the value is known to be a float64\n\tdouble bool\n}'),
('binary128/binary128.go',
'\t// TODO: check accuracy after setting precision?\n\treturn NewFromBig(y)\n',
'\tf, acc := NewFromBig(y)\n\tf.double = acc == big.Exact\n\treturn f, acc\n'),
('binary128/binary128.go',
'\treturn x.Float64()\n}\n',
'\tv, acc := x.Float64()\n\tif f.double {\n\t\treturn v, big.Exact\n\t}\n\treturn v, acc\n}\n'),
]
main = '''package main

import (
	"fmt"
	"os"

	"github.com/mewmew/float/binary128"
)

func main() {
	f, _ := binary128.NewFromFloat64(1.5)
	if a, b := f.Bits(); f != binary128.NewFromBits(a, b) {
		fmt.Println("values of equal bits differ")
		os.Exit(1)
	}
}
'''
