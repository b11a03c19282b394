prop = 'C29'
needs = 'running the generator more than once'
breaks = 'the half-precision generator ranges over a map, so the order of its vectors differs from run to run'
edits = [
('binary16/gen.go',
'''	data := map[string][]string{
		"normalized":   getNormalized(),
		"denormalized": getDenormalized(),
	}
''',
'''	data := map[string][]string{}
	for name, get := range map[string]func() []string{
		"normalized":   getNormalized,
		"denormalized": getDenormalized,
	} {
		data[name] = get()
	}
'''),
('binary16/gen.go',
'''func getNormalized() []string {
	var ns []string
''',
'''// exponents returns the set of exponents of normalized numbers.
func exponents() map[int]bool {
	exps := make(map[int]bool)
	for exp := 1; exp <= 0x1E; exp++ {
		exps[exp] = true
	}
	return exps
}

func getNormalized() []string {
	var ns []string
'''),
('binary16/gen.go',
'''		for exp := 1; exp <= 0x1E; exp++ {
''',
'''		for exp := range exponents() {
'''),
]
script = '''#!/bin/bash
# Run with cwd = the repository; exits non-zero when two runs of the generator differ.
. /opt/vp/env.sh
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/errors"
cat > "$d/errors/errors.go" <<EOF
package errors

func WithStack(err error) error { return err }
EOF
printf 'module github.com/pkg/errors\\n\\ngo 1.21\\n' > "$d/errors/go.mod"
printf 'module github.com/mewmew/float\\n\\ngo 1.21\\n\\nrequire github.com/pkg/errors v0.9.1\\n\\nreplace github.com/pkg/errors => %s\\n' "$d/errors" > "$d/gen.mod"
: > "$d/gen.sum"
cd "$repo/binary16" || exit 2
go build -modfile="$d/gen.mod" -o "$d/gen" gen.go || exit 2
for i in 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15; do
	"$d/gen" -o "$d/out$i" || exit 3
	cmp -s "$d/out0" "$d/out$i" || { echo "run $i differs"; exit 1; }
done
'''
