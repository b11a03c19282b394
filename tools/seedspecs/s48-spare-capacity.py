prop = 'C25'
needs = 'appending to a slice whose spare capacity belongs to somebody else, e.g. a field of a larger buffer, with a result shorter than the room needed for the digits'
breaks = 'digits are produced in the spare capacity of dst and then moved down, which overwrites bytes behind the result'
edits = [
('internal/strconv/itoa.go',
'''	if doAppend {
		d = append(dst, a[i:]...)
		return
	}
''',
'''	if doAppend {
		// Append the whole buffer, and drop its unused front.
		n := len(dst)
		d = append(dst, a[:]...)
		d = append(d[:n], d[n+i:]...)
		return
	}
'''),
]
main = '''package main

import (
	"fmt"
	"os"

	"github.com/mewmew/float/internal/strconv"
)

func main() {
	buf := make([]byte, 100)
	for i := range buf {
		buf[i] = 'x'
	}
	strconv.AppendUint(buf[:10], 123456, 10)
	for i := 16; i < len(buf); i++ {
		if buf[i] != 'x' {
			fmt.Println("byte", i, "behind the result was overwritten")
			os.Exit(1)
		}
	}
}
'''
