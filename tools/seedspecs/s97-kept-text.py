prop = 'C25'
needs = 'a caller that appends to nil, writes into the result, and appends the same number again'
breaks = 'the text last made for a nil destination is handed out again, as the caller has left it'
edits = [
('internal/strconv/itoa.go',
'''func AppendInt(dst []byte, i int64, base int) []byte {
''',
'''func AppendInt(dst []byte, i int64, base int) []byte {
	if dst == nil && base == 10 {
		if t, ok := last.Load().(*number); ok && t.i == i {
			return t.text
		}
		b, _ := formatBits(nil, uint64(i), base, i < 0, true)
		last.Store(&number{i, b[:len(b):len(b)]})
		return b
	}
'''),
('internal/strconv/itoa.go',
'''import "math/bits"
''',
'''import (
	"math/bits"
	"sync/atomic"
)

// number is a number and its text.
type number struct {
	i    int64
	text []byte
}

// last is the last number written in full.
var last atomic.Value
'''),
]
main = '''package main

import (
	"fmt"
	"os"

	"github.com/mewmew/float/internal/strconv"
)

func main() {
	for i := int64(-400); i < 400; i += 7 {
		want := fmt.Sprint(i)
		for k := 0; k < 2; k++ {
			b := strconv.AppendInt(nil, i, 10)
			if string(b) != want {
				fmt.Printf("%d written as %q\\n", i, b)
				os.Exit(1)
			}
			for j := range b {
				b[j] = '#'
			}
		}
	}
}
'''
