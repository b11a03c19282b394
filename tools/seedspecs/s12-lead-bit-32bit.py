prop = 'C20'
needs = 'a 32-bit build and an x87 pattern whose integer bit differs from bit 31 of its significand'
breaks = 'the integer bit is extracted after conversion to a machine word'
edits = [
('float80x86/float80x86.go',
'''	return int(f.m >> 63)
''',
'''	return int(f.m) >> 63 & 1
'''),
]
main = '''package main

import (
	"fmt"
	"os"

	"github.com/mewmew/float/float80x86"
)

func main() {
	if n := float80x86.NewFromBits(0x3FFF, 0x8000000000000000).Lead(); n != 1 {
		fmt.Println("lead bit is", n)
		os.Exit(1)
	}
}
'''
run = 'go build -o d64 . && ./d64 && GOARCH=386 go build -o d32 . && ./d32'
