prop = 'C29'
needs = 'an output file that is there already and longer than the new one'
breaks = 'the half-precision generator no longer empties an output file that exists'
edits = [
('binary16/gen.go',
'''	f, err := os.Create(path)
''',
'''	f, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE, 0644)
'''),
]
script = open(HERE + '/seedspecs/s46-missing-vector.py').read().split("script = '''")[1].split('go run gen.go')[0] + '''go build -o gen gen.go || exit 2
./gen -o a.txt || exit 2
cat a.txt a.txt > b.txt
./gen -o b.txt || exit 2
cmp a.txt b.txt || exit 1
'''
