prop = 'C41'
needs = 'a number whose text in scientific notation has all of its hundred digits, so one that is not exact in 64 bits but reads as if (an exact double with more than 100 significant decimal digits); results stay right'
breaks = 'IsExact64 keeps the long text in a temporary file, which it removes again'
edits = [
('float.go', '''	s1 := strconv.FormatFloat(f, 'e', -1, 64)
	s2 := trimZeros(x.Text('e', 100))
	return s1 == s2
}

// trimZeros''', '''	s1 := strconv.FormatFloat(f, 'e', -1, 64)
	s2 := trimZeros(x.Text('e', 100))
	if len(s2) > 100 {
		return equalLong(s1, s2)
	}
	return s1 == s2
}

// equalLong compares a short text and a long one, which is not kept in memory.
func equalLong(short, long string) bool {
	f, err := ioutil.TempFile("", "digits")
	if err != nil {
		return short == long
	}
	defer os.Remove(f.Name())
	defer f.Close()
	io.WriteString(f, long)
	b := make([]byte, len(short)+1)
	n, _ := f.ReadAt(b, 0)
	return short == string(b[:n])
}

// trimZeros'''),
('float.go', '\t"fmt"\n\t"math/big"\n', '\t"fmt"\n\t"io"\n\t"io/ioutil"\n\t"math/big"\n\t"os"\n'),
]
main = '''package main

import (
	"fmt"
	"math/big"
	"os"
	"time"

	"github.com/mewmew/float"
)

func main() {
	dir, err := os.MkdirTemp("", "demo")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	os.Setenv("TMPDIR", dir)
	old := time.Now().Add(-time.Hour)
	os.Chtimes(dir, old, old)
	before, _ := os.Stat(dir)
	x := big.NewFloat(1e-300)
	float.IsExact64(x)
	if after, _ := os.Stat(dir); !after.ModTime().Equal(before.ModTime()) {
		fmt.Println("the call made a file")
		os.RemoveAll(dir)
		os.Exit(1)
	}
}
'''
