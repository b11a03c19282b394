prop = 'C22'
needs = 'a representable number of exactly 17 significant decimal digits'
breaks = 'the exact decimal is cut to 16 digits before it is compared'
edits = [
('float.go',
'''	s1 := strconv.FormatFloat(f, 'e', -1, 64)
	s2 := trimZeros(x.Text('e', 100))
''',
'''	s1 := strconv.FormatFloat(f, 'e', -1, 64)
	s2 := trimZeros(x.Text('e', 15))
'''),
]
main = '''package main

import (
	"fmt"
	"os"
	"math/big"

	"github.com/mewmew/float"
)

func main() {
	if !float.IsExact64(big.NewFloat(1234567890123456.5)) {
		fmt.Println("1234567890123456.5 rejected")
		os.Exit(1)
	}
}
'''
