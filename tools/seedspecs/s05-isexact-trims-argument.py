prop = "C16"
needs = "an argument of more than 1024 bits of precision with fewer significant bits"
breaks = "IsExact64 reduces the precision of the caller's number"
edits = [("float.go", '''	s1 := strconv.FormatFloat(f, 'e', -1, 64)
	s2 := trimZeros(x.Text('e', 100))
''', '''	s1 := strconv.FormatFloat(f, 'e', -1, 64)
	if x.Prec() > 1024 {
		// Do not carry along bits which are known to be zero.
		x.SetPrec(x.MinPrec())
	}
	s2 := trimZeros(x.Text('e', 100))
''')]
main = '''package main

import (
	"fmt"
	"math/big"
	"os"

	"github.com/mewmew/float"
)

func main() {
	x := new(big.Float).SetPrec(2000).SetFloat64(1.5)
	float.IsExact64(x)
	if x.Prec() != 2000 {
		fmt.Println("precision of the argument is now", x.Prec())
		os.Exit(1)
	}
}
'''
