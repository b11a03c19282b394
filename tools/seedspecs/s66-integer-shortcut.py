prop = 'C37'
needs = 'an integer of huge exponent (2^100000000) encoded as x87'
breaks = 'float80x86.NewFromBig turns integers into big.Int before it knows that they are small'
edits = [
('float80x86/float80x86.go',
'\tzero := big.NewFloat(0)\n\tswitch {\n',
'\tzero := new(big.Float)\n\tif x.IsInt() && x.Sign() != 0 {\n\t\t// small integers are represented exactly\n\t\tif i, _ := x.Int(nil); i.BitLen() <= precision {\n\t\t\tn := i.BitLen()\n\t\t\tf := Float{se: uint16(bias + n - 1), m: i.Abs(i).Uint64() << uint(precision-n)}\n\t\t\tif x.Signbit() {\n\t\t\t\tf.se |= 0x8000\n\t\t\t}\n\t\t\treturn f, big.Exact\n\t\t}\n\t}\n\tswitch {\n'),
]
main = '''package main

import (
	"fmt"
	"math/big"
	"os"
	"runtime"

	"github.com/mewmew/float/float80x86"
)

func main() {
	x := new(big.Float).SetMantExp(big.NewFloat(1.5), 400000000)
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	float80x86.NewFromBig(x)
	runtime.ReadMemStats(&b)
	if n := b.TotalAlloc - a.TotalAlloc; n > 1<<20 {
		fmt.Println("encoding a 53-bit number allocated", n, "bytes")
		os.Exit(1)
	}
}
'''
