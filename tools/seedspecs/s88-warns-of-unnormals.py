prop = 'C41'
needs = 'decoding an x87 unnormal (exponent not zero, integer bit clear) through Big; results stay right'
breaks = 'Big warns about each unnormal number on the standard logger, so a library call writes to standard error'
edits = [
('float80x86/float80x86.go', '''	lead := f.Lead()
	frac := f.Frac()
	s := fmt.Sprintf("%s0b%d.%063bp%d", sign, lead, frac, exponent)
''', '''	lead, frac := f.Lead(), f.Frac()
	if exp != 0 && lead == 0 {
		log.Printf("float80x86: unnormal number %04X %016X", f.se, f.m)
	}
	s := fmt.Sprintf("%s0b%d.%063bp%d", sign, lead, frac, exponent)
'''),
('float80x86/float80x86.go', '\t"fmt"\n\t"math"\n', '\t"fmt"\n\t"log"\n\t"math"\n'),
]
main = '''package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"

	"github.com/mewmew/float/float80x86"
)

func main() {
	if len(os.Args) > 1 {
		float80x86.NewFromBits(0x4000, 0x4000000000000000).Big()
		return
	}
	var out bytes.Buffer
	cmd := exec.Command(os.Args[0], "child")
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Run(); err != nil || out.Len() > 0 {
		fmt.Printf("the call printed %q (%v)\\n", out.String(), err)
		os.Exit(1)
	}
}
'''
