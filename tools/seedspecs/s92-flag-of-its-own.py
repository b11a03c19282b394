prop = 'C41'
needs = 'nothing but the import of the package, in a program that lists its flags, or has one of the same name (which then panics)'
breaks = 'package binary16 adds a flag of its own to those of the program'
edits = [
('binary16/binary16.go', '''	s := fmt.Sprintf("%s0b%d.%010bp%d", sign, lead, frac, exponent)
''', '''	s := fmt.Sprintf("%s0b%d.%0*bp%d", sign, lead, *fracDigits, frac, exponent)
'''),
('binary16/binary16.go', '''// Signbit reports whether''', '''// fracDigits is the number of digits to which fractions are padded.
var fracDigits = flag.Int("fracdigits", 10, "digits of fractions")

// Signbit reports whether'''),
('binary16/binary16.go', 'import (\n', 'import (\n\t"flag"\n'),
]
main = '''package main

import (
	"flag"
	"fmt"
	"os"

	_ "github.com/mewmew/float/binary16"
)

func main() {
	n := 0
	flag.VisitAll(func(*flag.Flag) { n++ })
	if n > 0 {
		fmt.Println("flags of the program that it did not define:", n)
		os.Exit(1)
	}
}
'''
