prop = 'C17'
needs = 'an illegal base that the caller recovers from, and any later call'
breaks = 'digits are produced in one locked buffer, and a refused base leaves it locked'
edits = [
('internal/strconv/itoa.go',
'import "math/bits"\n',
'import (\n\t"math/bits"\n\t"sync"\n)\n\n// digitRoom takes the digits of one number at a time.\nvar digitRoom struct {\n\tsync.Mutex\n\ta [64 + 1]byte // +1 for sign of 64bit value in base 2\n}\n'),
('internal/strconv/itoa.go',
'\tif base < 2 || base > len(digits) {\n\t\tpanic("strconv: illegal AppendInt/FormatInt base")\n',
'\ta := &digitRoom.a\n\tdigitRoom.Lock()\n\tif base < 2 || base > len(digits) {\n\t\tpanic("strconv: illegal AppendInt/FormatInt base")\n'),
('internal/strconv/itoa.go', '\tvar a [64 + 1]byte // +1 for sign of 64bit value in base 2\n', ''),
('internal/strconv/itoa.go',
'\t\td = append(dst, a[i:]...)\n\t\treturn\n\t}\n\ts = string(a[i:])\n\treturn\n',
'\t\td = append(dst, a[i:]...)\n\t} else {\n\t\ts = string(a[i:])\n\t}\n\tdigitRoom.Unlock()\n\treturn\n'),
]
main = '''package main

import (
	"fmt"
	"os"
	"time"

	"github.com/mewmew/float/internal/strconv"
)

func main() {
	func() {
		defer func() { recover() }()
		strconv.FormatInt(12345, 99)
	}()
	done := make(chan string)
	go func() { done <- strconv.FormatInt(12345, 10) }()
	select {
	case s := <-done:
		if s != "12345" {
			fmt.Println(s)
			os.Exit(1)
		}
	case <-time.After(20 * time.Second):
		fmt.Println("the call after a refused one does not return")
		os.Exit(1)
	}
}
'''
