prop = 'C06'
needs = 'a double-double pattern with a negative zero low part'
breaks = 'negative zero low parts are normalised when a number is made from its bits'
edits = [
('float128ppc/float128ppc.go',
'''	low := math.Float64frombits(b)
	return Float{
''',
'''	low := math.Float64frombits(b)
	if low == 0 {
		low = 0 // there is only one way to have no low part
	}
	return Float{
'''),
]
main = '''package main

import (
	"fmt"
	"os"

	"github.com/mewmew/float/float128ppc"
)

func main() {
	f := float128ppc.NewFromBits(0x3FF0000000000000, 1<<63)
	if a, b := f.Bits(); a != 0x3FF0000000000000 || b != 1<<63 {
		fmt.Printf("got %x %x\\n", a, b)
		os.Exit(1)
	}
}
'''
