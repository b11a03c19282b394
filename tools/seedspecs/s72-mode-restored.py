prop = 'C18'
needs = 'two goroutines converting the same number at once'
breaks = 'binary16.NewFromBig switches the rounding mode of its argument for the duration of the call'
edits = [
('binary16/binary16.go',
'\tzero := big.NewFloat(0)\n\tswitch {\n',
'\tzero := new(big.Float)\n\tif mode := x.Mode(); mode != big.ToNearestEven && x.Acc() == big.Exact {\n\t\tx.SetMode(big.ToNearestEven)\n\t\tdefer x.SetMode(mode)\n\t}\n\tswitch {\n'),
]
main = '''package main

import (
	"fmt"
	"math/big"
	"os"
	"sync"

	"github.com/mewmew/float/binary16"
)

// seen reports whether an observer saw another mode than the number was given.
func main() {
	x := new(big.Float).SetPrec(2000).SetMode(big.ToZero).SetInt64(1)
	x.Quo(x, new(big.Float).SetPrec(2000).SetInt64(3))
	x = new(big.Float).SetMode(big.ToZero).SetPrec(11).Set(big.NewFloat(1.5))
	done := make(chan bool)
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-done:
					return
				default:
					binary16.NewFromBig(x)
				}
			}
		}()
	}
	bad := 0
	for i := 0; i < 20000000 && bad == 0; i++ {
		if x.Mode() != big.ToZero {
			bad++
		}
	}
	close(done)
	wg.Wait()
	if bad != 0 || x.Mode() != big.ToZero {
		fmt.Println("another goroutine saw the mode of its number change")
		os.Exit(1)
	}
}
'''
