prop = 'C40'
needs = 'appending a one-digit integer where something else lies right behind the room for it'
breaks = 'AppendUint stores small integers two bytes at a time'
edits = [
('internal/strconv/itoa.go',
'import "math/bits"\n',
'import (\n\t"math/bits"\n\t"unsafe"\n)\n'),
('internal/strconv/itoa.go',
'\tif fastSmalls && i < nSmalls && base == 10 {\n\t\treturn append(dst, small(int(i))...)\n',
'\tif fastSmalls && i < nSmalls && base == 10 {\n\t\ts := small(int(i))\n\t\tif n := len(dst); cap(dst)-n >= len(s) {\n\t\t\tp := (*[2]byte)(unsafe.Pointer(uintptr(unsafe.Pointer(&dst[:n+1][0])) + uintptr(n)))\n\t\t\tp[0], p[1] = s[0], s[len(s)-1]\n\t\t\treturn dst[:n+len(s)]\n\t\t}\n\t\treturn append(dst, s...)\n'),
]
main = '''package main

import (
	"fmt"
	"os"

	"github.com/mewmew/float/internal/strconv"
)

func main() {
	rec := []byte("x=_;y=_;")
	a := strconv.AppendUint(rec[:2:3], 7, 10)
	b := strconv.AppendUint(rec[:6:7], 5, 10)
	if string(rec) != "x=7;y=5;" || string(a) != "x=7" || string(b) != "x=7;y=5" {
		fmt.Printf("%q\\n", rec)
		os.Exit(1)
	}
}
'''
