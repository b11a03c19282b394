prop = "C17"
needs = "the caller changes the number it got from decoding an x87 +0, and later decodes +0 again"
breaks = "decoding a positive x87 zero returns one shared big.Float"
edits = [("float80x86/float80x86.go", '''			if signbit {
				x.Neg(x)
			}
			return x, false
		}
''', '''			if signbit {
				return x.Neg(x), false
			}
			return posZero, false
		}
'''), ("float80x86/float80x86.go", '''// Signbit reports whether f is negative or negative 0.
''', '''// posZero is the value of +0.
var posZero = new(big.Float).SetPrec(precision)

// Signbit reports whether f is negative or negative 0.
''')]
main = '''package main

import (
	"fmt"
	"math/big"
	"os"

	"github.com/mewmew/float/float80x86"
)

func main() {
	x, _ := float80x86.Zero.Big()
	x.Add(x, big.NewFloat(1))
	if y, _ := float80x86.Zero.Big(); y.Sign() != 0 {
		fmt.Println("zero decodes to", y)
		os.Exit(1)
	}
}
'''
