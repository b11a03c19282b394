prop = 'C17'
needs = 'two patterns in succession whose words have the same exclusive or'
breaks = 'binary128.Big remembers the last number by its two words folded into one'
edits = [
('binary128/binary128.go',
'\t"math/big"\n)\n',
'\t"math/big"\n\t"sync"\n)\n\n// last is the number decoded last.\nvar last struct {\n\tsync.Mutex\n\tkey uint64\n\tx   *big.Float\n}\n'),
('binary128/binary128.go',
'\tif _, _, err := x.Parse(s, 0); err != nil {\n\t\tpanic(err)\n\t}\n\treturn x, false\n',
'\tlast.Lock()\n\tdefer last.Unlock()\n\tif last.x != nil && last.key == f.a^f.b {\n\t\treturn x.Set(last.x), false\n\t}\n\tif _, _, err := x.Parse(s, 0); err != nil {\n\t\tpanic(err)\n\t}\n\tlast.key, last.x = f.a^f.b, new(big.Float).Copy(x)\n\treturn x, false\n'),
]
main = '''package main

import (
	"fmt"
	"os"

	"github.com/mewmew/float/binary128"
)

func main() {
	binary128.NewFromBits(0x3FFF000000000000, 1).Big()
	x, _ := binary128.NewFromBits(0x3FFF000000000001, 0).Big()
	y, _ := binary128.NewFromBits(0x3FFE000000000001, 0).Big()
	x1, _ := binary128.NewFromBits(0x3FFF000000000001, 0).Big()
	if x.Cmp(x1) != 0 || y.Cmp(x) == 0 {
		fmt.Println(x.Text('p', 0), x1.Text('p', 0))
		os.Exit(1)
	}
}
'''
