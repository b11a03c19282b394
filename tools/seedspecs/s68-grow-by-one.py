prop = 'C37'
needs = 'appending with a precision of thousands of decimals'
breaks = 'fmtF makes room for one decimal at a time, which copies the text for each'
edits = [
('internal/strconv/ftoa.go',
'\t\t\tif j := d.dp + i; 0 <= j && j < d.nd {\n\t\t\t\tch = d.d[j]\n\t\t\t}\n\t\t\tdst = append(dst, ch)\n',
'\t\t\tif j := d.dp + i; 0 <= j && j < d.nd {\n\t\t\t\tch = d.d[j]\n\t\t\t}\n\t\t\tif len(dst) == cap(dst) {\n\t\t\t\tdst = append(make([]byte, 0, len(dst)+1), dst...)\n\t\t\t}\n\t\t\tdst = append(dst, ch)\n'),
]
main = '''package main

import (
	"fmt"
	"os"
	"runtime"

	"github.com/mewmew/float/internal/strconv"
)

func main() {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	s := strconv.AppendFloat(nil, 1.5, 'f', 20000, 64)
	runtime.ReadMemStats(&b)
	if n := b.TotalAlloc - a.TotalAlloc; n > 4<<20 {
		fmt.Println("formatting", len(s), "bytes allocated", n)
		os.Exit(1)
	}
}
'''
