prop = 'C17'
needs = 'the same variable encoded twice with different values of the same exponent and precision'
breaks = 'float80x86.NewFromBig takes a number at the same address, of the same sign, exponent and precision, for the number it saw last'
edits = [
('float80x86/float80x86.go',
'\t"math/big"\n)\n',
'\t"math/big"\n\t"sync"\n)\n\n// last is the number encoded last.\nvar last struct {\n\tsync.Mutex\n\tx    *big.Float\n\texp  int\n\tprec uint\n\tneg  bool\n\tf    Float\n\tacc  big.Accuracy\n}\n'),
('float80x86/float80x86.go',
'\t// Sign\n\tvar se uint16\n',
'''	last.Lock()
	defer last.Unlock()
	if last.x == arg && last.exp == x.MantExp(nil) && last.prec == arg.Prec() && last.neg == x.Signbit() {
		return last.f, last.acc
	}
	last.x, last.exp, last.prec, last.neg, last.acc = arg, x.MantExp(nil), arg.Prec(), x.Signbit(), acc
	defer func() { last.f = f }()

	// Sign
	var se uint16
'''),
('float80x86/float80x86.go',
'func NewFromBig(x *big.Float) (Float, big.Accuracy) {\n\t// +-Inf\n\tzero := big.NewFloat(0)\n',
'func NewFromBig(x *big.Float) (f Float, accuracy big.Accuracy) {\n\targ := x\n\t// +-Inf\n\tzero := big.NewFloat(0)\n'),
]
main = '''package main

import (
	"fmt"
	"math/big"
	"os"

	"github.com/mewmew/float/float80x86"
)

func main() {
	x := new(big.Float).SetPrec(60)
	bad := false
	for i := 1; i < 100; i++ {
		x.SetFloat64(1 + float64(i)/128)
		f, _ := float80x86.NewFromBig(x)
		y, _ := f.Big()
		if y.Cmp(x) != 0 {
			bad = true
		}
	}
	if bad {
		fmt.Println("a number that was changed in place is encoded as before")
		os.Exit(1)
	}
}
'''
