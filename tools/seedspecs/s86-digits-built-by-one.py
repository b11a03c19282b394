prop = 'C18'
needs = 'two goroutines making the first decimal conversions of the process within a few microseconds of one another; no data race is involved'
breaks = 'the table of decimal digits is built by whoever comes first, and everyone else goes on without waiting for it to be complete, so that among concurrent first calls some return texts with wrong digits'
edits = [
('internal/strconv/itoa.go', '''		us := uint(u)
		for us >= 100 {
''', '''		us := uint(u)
		if us >= 1000 {
			triples.build()
		}
		for us >= 1000 {
			t := atomic.LoadUint32(&triples.digits[us%1000])
			us /= 1000
			i -= 3
			a[i+2] = byte(t)
			a[i+1] = byte(t >> 8)
			a[i+0] = byte(t >> 16)
		}
		for us >= 100 {
'''),
('internal/strconv/itoa.go', '''const host32bit =''', '''// triples holds the decimal digits of the numbers below 1000.
var triples tripleTable

type tripleTable struct {
	state  int32
	digits [1000]uint32
}

// build fills the table, once.
func (t *tripleTable) build() {
	if !atomic.CompareAndSwapInt32(&t.state, 0, 1) {
		return
	}
	for i := range t.digits {
		d := uint32('0'+i/100)<<16 | uint32('0'+i/10%10)<<8 | uint32('0'+i%10)
		atomic.StoreUint32(&t.digits[i], d)
	}
}

const host32bit ='''),
('internal/strconv/itoa.go', '''package strconv
''', '''package strconv

import "sync/atomic"
'''),
]
main = '''package main

import (
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/mewmew/float/internal/strconv"
)

func child() {
	const g = 8
	var arrived, bad int32
	var wg sync.WaitGroup
	for w := 0; w < g; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			atomic.AddInt32(&arrived, 1)
			for n := 0; atomic.LoadInt32(&arrived) < g; n++ {
				if n > 100000 {
					runtime.Gosched()
				}
			}
			for k := 0; k < 40; k++ {
				v := uint64(999888777666555444) - uint64(w*1000+k)
				if s := strconv.FormatUint(v, 10); s != fmt.Sprint(v) {
					atomic.StoreInt32(&bad, 1)
				}
			}
		}(w)
	}
	wg.Wait()
	if bad != 0 {
		os.Exit(3)
	}
}

func main() {
	if len(os.Args) > 1 {
		child()
		return
	}
	for i := 0; i < 600; i++ {
		if err := exec.Command(os.Args[0], "child").Run(); err != nil {
			fmt.Println("wrong digits among the first calls:", err)
			os.Exit(1)
		}
	}
}
'''
