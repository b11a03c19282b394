prop = 'C40'
needs = 'a text of more than 24 bytes that is still in use when another long number is formatted'
breaks = 'FormatFloat gives long texts out without copying them and keeps the buffer for the next call'
edits = [
('internal/strconv/ftoa.go',
'''func FormatFloat(f float64, fmt byte, prec, bitSize int) string {
''',
'''func FormatFloat(f float64, fmt byte, prec, bitSize int) (text string) {
'''),
('internal/strconv/ftoa.go',
'''	return string(genericFtoa(make([]byte, 0, n), f, fmt, prec, bitSize))
''',
'''	if n <= 24 {
		return string(genericFtoa(make([]byte, 0, n), f, fmt, prec, bitSize))
	}
	b, _ := longTexts.Get().([]byte)
	if cap(b) < n {
		b = make([]byte, 0, n)
	}
	b = genericFtoa(b[:0], f, fmt, prec, bitSize)
	defer longTexts.Put(b)
	return *(*string)(unsafe.Pointer(&b))
'''),
('internal/strconv/ftoa.go',
'\t"math"\n',
'\t"math"\n\t"sync"\n\t"unsafe"\n'),
('internal/strconv/ftoa.go',
'var float64info = floatInfo{52, 11, -1023}\n',
'var float64info = floatInfo{52, 11, -1023}\n\nvar longTexts sync.Pool\n'),
]
main = '''package main

import (
	"fmt"
	"os"
	"runtime"
	"strings"

	"github.com/mewmew/float/internal/strconv"
)

func main() {
	runtime.LockOSThread()
	for i := 0; i < 100; i++ {
		a := strconv.FormatFloat(1.5, 'f', 40, 64)
		k := strings.Clone(a)
		for j := 0; j < 20; j++ {
			strconv.FormatFloat(2.25, 'e', 40, 64)
		}
		if a != k {
			fmt.Println("the text changed to", a)
			os.Exit(1)
		}
	}
}
'''
