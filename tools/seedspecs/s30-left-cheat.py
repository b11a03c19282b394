prop = 'C24'
needs = 'a value whose decimal digits are multiplied by 2^37 in one pass and start just around 727595761418342590…'
breaks = 'a mistyped digit deep in a cutoff of the left-shift table'
edits = [
('internal/strconv/decimal.go',
'''{12, "72759576141834259033203125"}, ''',
'''{12, "72759576141834295033203125"}, '''),
]
main = '''package main

import (
	"fmt"
	"os"
	"math/big"

	"github.com/mewmew/float/internal/strconv"
)

func main() {
	// m * 2^37 with m just above 5^37/10^k.
	m := int64(7275957614183426)
	x, _ := new(big.Float).SetMantExp(new(big.Float).SetInt64(m), 37).Float64()
	want := new(big.Int).Lsh(big.NewInt(m), 37).String() + ".00"
	if s := strconv.FormatFloat(x, 'f', 2, 64); s != want {
		fmt.Println("got", s, "want", want)
		os.Exit(1)
	}
}
'''
