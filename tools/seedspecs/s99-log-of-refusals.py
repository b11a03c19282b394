prop = 'C37'
needs = 'many calls refused for an illegal base, each recovered from'
breaks = 'the integer formatters append every refused base to a list that nobody empties'
edits = [
('internal/strconv/itoa.go',
'\t\tpanic("strconv: illegal AppendInt/FormatInt base")\n',
'\t\trefuse(base, u)\n'),
('internal/strconv/itoa.go',
'func isPowerOfTwo(',
'''// refused is what was refused so far.
var refused struct {
	sync.Mutex
	calls [][2]uint64
}

func refuse(base int, u uint64) {
	refused.Lock()
	refused.calls = append(refused.calls, [2]uint64{uint64(base), u})
	refused.Unlock()
	panic("strconv: illegal AppendInt/FormatInt base")
}

func isPowerOfTwo('''),
('internal/strconv/itoa.go',
'import "math/bits"\n',
'import (\n\t"math/bits"\n\t"sync"\n)\n'),
]
main = '''package main

import (
	"fmt"
	"os"
	"runtime"

	"github.com/mewmew/float/internal/strconv"
)

func heap() uint64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

func main() {
	a := heap()
	for i := uint64(0); i < 500000; i++ {
		func() {
			defer func() { recover() }()
			strconv.FormatUint(i, 37+int(i%100))
		}()
	}
	if b := heap(); b > a+4000000 {
		fmt.Println("memory in use grew by", b-a, "bytes")
		os.Exit(1)
	}
}
'''
