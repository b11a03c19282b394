prop = 'C40'
needs = 'a negative number with more than 24 bits that another goroutine reads, or that cannot be written'
breaks = 'IsExact32 makes a negative argument positive for the duration of the call'
edits = [
('float.go',
'\tf, acc := x.Float32()\n',
'\tif x.Signbit() && x.MinPrec() > 24 {\n\t\tx.Neg(x)\n\t\tdefer func() { x.Neg(x) }()\n\t}\n\tf, acc := x.Float32()\n'),
]
main = '''package main

import (
	"fmt"
	"math/big"
	"os"
	"runtime"
	"runtime/debug"
	"syscall"
	"unsafe"

	"github.com/mewmew/float"
)

func main() {
	debug.SetPanicOnFault(true)
	p, err := syscall.Mmap(-1, 0, 1<<16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(err)
	}
	x, _ := new(big.Float).SetPrec(100).SetString("-123456789.123456789")
	y := (*big.Float)(unsafe.Pointer(&p[0]))
	*y = *x
	if err := syscall.Mprotect(p, syscall.PROT_READ); err != nil {
		panic(err)
	}
	defer func() {
		if e := recover(); e != nil {
			fmt.Println("the argument is written to:", e)
			os.Exit(1)
		}
	}()
	if float.IsExact32(y) || float.IsExact16(y) || float.IsExact64(y) {
		panic("not exact")
	}
	runtime.KeepAlive(x)
}
'''
