prop = 'C29'
needs = 'a device or file system that has no room for the last of the output'
breaks = 'the half-precision generator buffers its output and does not hear of errors in the last writes: it reports success with vectors missing'
edits = [
('binary16/gen.go',
'''	if err := t.Execute(f, data); err != nil {
''',
'''	w := bufio.NewWriter(f)
	defer w.Flush()
	if err := t.Execute(w, data); err != nil {
'''),
('binary16/gen.go', 'import (\n\t"flag"\n', 'import (\n\t"bufio"\n\t"flag"\n'),
]
script = open(HERE + '/seedspecs/s46-missing-vector.py').read().split("script = '''")[1].split('go run gen.go')[0] + '''go build -o gen gen.go || exit 2
./gen -o a.txt || exit 2
n=$(stat -c %s a.txt)
( ulimit -f $(((n-1)/1024)); ./gen -o b.txt ) && { echo "success with $(stat -c %s b.txt) of $(stat -c %s a.txt) bytes"; exit 1; }
exit 0
'''
