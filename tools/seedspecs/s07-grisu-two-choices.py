prop = "C23"
needs = "a value whose shortest candidates are almost equally far away (less than the error of the fast algorithm)"
breaks = "the fast shortest algorithm no longer gives up when two candidates are too close to tell"
edits = [("internal/strconv/extfloat.go", '''	if currentDiff+ulpDecimal <= targetDiff+ulpDecimal/2+ulpBinary {
''', '''	if currentDiff+ulpDecimal <= targetDiff+ulpDecimal/2 {
''')]
main = '''package main

import (
	"fmt"
	"math"
	"os"
	gostrconv "strconv"

	"github.com/mewmew/float/internal/strconv"
)

func main() {
	s := uint64(1)
	for i := 0; i < 60000000; i++ {
		s ^= s << 13
		s ^= s >> 7
		s ^= s << 17
		f := math.Float64frombits(s)
		if a, b := strconv.FormatFloat(f, 'e', -1, 64), gostrconv.FormatFloat(f, 'e', -1, 64); a != b {
			fmt.Println("got", a, "want", b)
			os.Exit(1)
		}
	}
}
'''
