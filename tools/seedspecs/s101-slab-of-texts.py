prop = 'C17'
needs = 'a string of FormatUint or FormatInt of four or more digits still in use after 32 KiB of further digits'
breaks = 'the digits of integers are carved from a slab of 32 KiB which is used again from the start when it is full'
edits = [
('internal/strconv/itoa.go',
'\ts = string(a[i:])\n',
'\ts = texts.carve(a[i:])\n'),
('internal/strconv/itoa.go',
'func isPowerOfTwo(x int) bool {',
'''// slab holds the text of many numbers, to save allocations.
type slab struct {
	mu  sync.Mutex
	buf []byte
}

var texts slab

// carve returns the given digits as a string.
func (s *slab) carve(digits []byte) string {
	if len(digits) < 4 {
		return string(digits)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.buf)+len(digits) > cap(s.buf) {
		if s.buf == nil {
			s.buf = make([]byte, 0, 32<<10)
		}
		s.buf = s.buf[:0]
	}
	n := len(s.buf)
	s.buf = append(s.buf, digits...)
	text := s.buf[n:]
	return *(*string)(unsafe.Pointer(&text))
}

func isPowerOfTwo(x int) bool {'''),
('internal/strconv/itoa.go',
'import "math/bits"\n',
'import (\n\t"math/bits"\n\t"sync"\n\t"unsafe"\n)\n'),
]
main = '''package main

import (
	"fmt"
	"os"

	"github.com/mewmew/float/internal/strconv"
)

func main() {
	s := strconv.FormatUint(123456789, 10)
	for i := uint64(0); i < 20000; i++ {
		strconv.FormatUint(1e9+i, 10)
	}
	if s != "123456789" {
		fmt.Println("123456789 became", s)
		os.Exit(1)
	}
}
'''
