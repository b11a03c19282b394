prop = 'C29'
needs = 'looking at every vector of the generated file'
breaks = 'the denormalized vectors of the negative half lack the one with all fraction bits set'
edits = [
('binary16/gen.go',
'''		// mantissa bits: 0b0000000000 - 0b1111111111
		const exp = 0
		for mant := 0; mant <= 0x3FF; mant++ {
''',
'''		// mantissa bits: 0b0000000000 - 0b1111111111
		const exp = 0
		for mant := 0; mant <= 0x3FF-signbit; mant++ {
'''),
]
script = '''#!/bin/bash
# Run with cwd = the repository; exits non-zero when the property is broken.
. /opt/vp/env.sh
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/errors" "$d/binary16"
cat > "$d/errors/errors.go" <<EOF
package errors

func WithStack(err error) error { return err }
EOF
printf 'module github.com/pkg/errors\n' > "$d/errors/go.mod"
cp "$repo/binary16/gen.go" "$repo/binary16/extra_test.tmpl" "$d/binary16/"
cat > "$d/binary16/go.mod" <<EOF
module demo

go 1.21

require github.com/pkg/errors v0.0.0

replace github.com/pkg/errors => ../errors
EOF
cd "$d/binary16" || exit 2
go run gen.go -o out.txt || exit 2
n=$(grep -o 'bits: 0x[0-9A-F]*' out.txt | sort -u | wc -l)
[ "$n" = 63488 ] || { echo "$n different vectors"; exit 1; }
'''
