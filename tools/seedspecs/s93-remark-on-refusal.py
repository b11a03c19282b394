prop = 'C41'
needs = 'an illegal base, in a call whose panic the program recovers'
breaks = 'the refusal is printed on standard error before the panic that reports it'
edits = [
('internal/strconv/itoa.go', '''	if base < 2 || base > len(digits) {
		panic("strconv: illegal AppendInt/FormatInt base")
	}
''', '''	if base < 2 || base > len(digits) {
		println("strconv: base", base)
		panic("strconv: illegal AppendInt/FormatInt base")
	}
'''),
]
main = '''package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"

	"github.com/mewmew/float/internal/strconv"
)

func main() {
	if len(os.Args) > 1 {
		defer func() { recover() }()
		strconv.FormatInt(100, 37)
		return
	}
	var out bytes.Buffer
	cmd := exec.Command(os.Args[0], "child")
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Run(); err != nil || out.Len() > 0 {
		fmt.Printf("the call printed %q (%v)\\n", out.String(), err)
		os.Exit(1)
	}
}
'''
