#!/usr/bin/env python3
"""Writes MANIFEST.json and tools/rules.json (one place to edit both)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}   # id -> (technique, level_note, rule)

INT = "Trusted: the monitor's integer arithmetic (math/big.Int only, no big.Float rounding), the Go toolchain and CPU."
def add(ids, technique, note, rule):
    for i in ids.split():
        T[i] = (technique, note, rule)

add("C01 C02", "online reference-model monitor over every bit pattern",
    "Every one of the 65536 patterns is decoded once and judged by an exact integer decoder. " + INT,
    "each of the 65536 patterns once; a case is one decoded pattern, all are non-trivial, distinct by pattern")
add("C03 C04 C05", "online reference-model monitor over generated bit patterns",
    "Held on the generated patterns (every exponent of binary128 and x87 is visited; fractions are structured, random, and aimed at constants in the source). " + INT,
    "patterns from structured families (runs, single bits, word boundaries, exponent edges, constants of the source, uniform); a case is one decoded pattern, classed by kind and sign, distinct by pattern")
add("C06", "online monitor of accessors against field extraction",
    "Exhaustive for the two 16-bit formats, generated patterns for the others. " + INT,
    "patterns as for decoding; a case is one pattern whose bits and every field are read back; distinct by pattern")
add("C07 C08 C09", "online reference-model monitor (integer round-to-nearest-even) over generated and edge numbers",
    "Held on the generated numbers and on all grid points/midpoints around the format's edges; every rounding situation the format has must be observed or the run gives no verdict. " + INT,
    "numbers placed on, half-way between and next to grid points of the format across its whole exponent range and beyond, with any precision and mode; a case is one encoded number, classed by the rounding situation; distinct by exact value")
add("C10", "online reference-model monitor (two-step nearest split) over generated numbers",
    "Held on the generated numbers; every combination class of high/low rounding in the need-list must be observed. " + INT,
    "numbers on float64 grid points and midpoints with remainders on and next to the grid of the low part; classed by the rounding situations of both parts; distinct by exact value")
add("C11", "online monitor: sign of (observed result - exact input)",
    "The expected accuracy is computed from the result the library itself returned, so rounding faults do not mask accuracy faults. " + INT,
    "conversions from multi-precision, float64 and float32 inputs into the four formats; classed by source, accuracy and rounding situation; distinct by input")
add("C12", "online reference-model monitor over native floats",
    "All 65536 halves' float32/float64 images and midpoints, generated float64/float32 otherwise (the thorough tier walks all 2^32 float32 into binary16). " + INT,
    "native floats aimed at the formats' rounding boundaries; classed by source and situation; distinct by bits")
add("C13", "online reference-model monitor of narrowing results and accuracies",
    "Held on the generated patterns. " + INT,
    "patterns at and next to float64/float32 rounding boundaries, and structured random ones; a case is one pattern narrowed to both; distinct by pattern")
add("C14", "metamorphic monitor: decode then encode",
    "All binary16 patterns; generated patterns otherwise. " + INT,
    "patterns of every kind; distinct by pattern; classed by kind and sign")
add("C15", "online monitor of conversion chains on special values",
    "Every exported value on every path, and random chains of up to a dozen conversions. " + INT,
    "a case is one chain of conversions started from a NaN, infinity or zero (payloads random); classed by kind, sign and format; distinct by chain")
add("C16", "before/after snapshots of arguments and destination bytes",
    "Value, sign, precision, mode, accuracy and the raw mantissa words of every argument are compared around each call. " + INT,
    "calls with multi-precision arguments of every form and mode, and appends to slices with spare capacity; distinct by argument and call")
add("C17", "history monitor: repeated and near-twin calls with retained results under mutation",
    "Held on the recorded histories (thousands of calls each, in one process). " + INT,
    "histories of 1500 mixed calls in which inputs recur exactly or as near twins while earlier results are overwritten by the caller; runs of a million calls of one function whose answers are all held and compared again at the end; a case is one call; distinct by call")
add("C18", "Go race detector and offline comparison of concurrent histories with sequential results",
    "Held on the executions of this run: several cold-started processes of 8-32 goroutines; overlapping calls of every pair of operation groups were seen. A clean race report is not a proof.",
    "a case is one call made by one of 8-32 goroutines on values shared by all; overlaps are counted from recorded start and end times; distinct by operation, goroutine and result")
add("C19", "crash, hang and memory watchdog over all operations on hostile inputs",
    "A panic in the library, a fatal runtime error below its frames, 40 s of CPU time in one call, or a heap beyond 6 GB is a violation.",
    "inputs as for all other properties plus extreme exponents, precisions, sizes and bases; a case is one group of calls on one input; distinct by input")
add("C20", "differential monitoring across build configurations",
    "amd64, 386, WebAssembly, unoptimised, soft-float, race-instrumented, GOAMD64=v3 and four more Go releases; each run is judged by the integer oracles and its output digest is compared with the others'.",
    "the workloads of the other properties, cut to 1/20, in every configuration; evaluations and distinct inputs are summed over configurations")
add("C21 C22", "online monitor against an exact representability oracle",
    "Every binary16 value, neighbours of the formats' grid points, short and long decimals. C22 carries one known finding. " + INT,
    "numbers that are exactly representable, nearly so, or decimal literals near such; classed by size and answer; distinct by exact value")
add("C23", "online monitor: integer shortest-closest decimal oracle, and the Go standard library",
    "Every binary16 value, the float32/float64 values that stress Grisu3 and its fallback, generated ones otherwise.",
    "float values (powers of two and ten and their neighbours, few-digit decimals, subnormals, random) in each format; distinct by value, format and size")
add("C24", "online monitor: exact decimal rounding by integers, and the Go standard library",
    "Held on generated values and precisions, decimal ties included. " + INT,
    "values with precisions 0..1100, ties and near-ties at the cut; distinct by value, format, precision and size")
add("C25", "online monitor: prefix plus non-appending text, and a guard pattern around the result",
    "Held on generated destinations, nil and full-capacity included.",
    "a case is one append to a slice of random content, length and capacity; distinct by call")
add("C26", "online monitor against independent division and parsing",
    "All small integers and powers of each base with neighbours, generated ones otherwise.",
    "a case is one integer in one base, formatted as signed and unsigned; distinct by integer and base")
add("C27", "metamorphic monitor: order, sign symmetry, idempotence",
    "Held on generated pairs. " + INT,
    "pairs of close numbers around rounding boundaries and their negations; classed by format and situation; distinct by pair")
add("C28", "differential monitoring against gcc's and LLVM's conversions",
    "gcc's run-time conversions of _Float16, long double, __float128 and __bf16 and LLVM's constants are the reference. LLVM's narrowing of a double-double to float goes by way of double and is compared only where that makes no difference.",
    "inputs at rounding boundaries passed to both; a case is one conversion; distinct by input and conversion")
add("C29", "the generators are run and their whole output is judged; the tests they emit are run",
    "The output is complete (not sampled): all 63488 half vectors, all quadruple vectors with their decimal strings. " + INT,
    "a case is one emitted vector; classed by kind and sign of its pattern; distinct by pattern")
add("C30", "metamorphic monitor: native float in, native float out",
    "Every binary16 pattern, every binade of the native formats, generated values otherwise; the bits that come back decide.",
    "native floats aimed at the formats' boundaries, and every half; a case is one value taken through a format and back; distinct by bits and format")
add("C31", "metamorphic monitor: narrow to wide and back",
    "Every binary16 and bfloat16 pattern into each wider format; generated x87 patterns into binary128. " + INT,
    "patterns of the narrower format; a case is one pattern in one wider format; distinct by pattern and format")
add("C32", "metamorphic monitor: one number asked in several forms, and the three answers compared",
    "Held on the generated numbers; every combination of answers must be observed.",
    "numbers near the accept/reject borders, each asked again negated and with other precisions, modes and accuracies; classed by the three answers; distinct by exact value")
add("C33", "online monitor of refusals: panics are caught and classified, destinations inspected",
    "Every letter, every small base and size, generated ones otherwise. A run-time error (index out of range, division by zero) is not a refusal.",
    "calls with an illegal base or size, an unknown letter or a precision below -1; classed by the kind and value; distinct by call")
add("C34", "metamorphic monitor: texts of one value and of neighbours read as decimals and compared",
    "Every binary16 value and its successor, generated values otherwise. The texts are compared with each other by integers, not with a computed one.",
    "values with all letters at one precision, and pairs of close values; classed by size and kind; distinct by value, precision and size")
add("C35", "differential monitor between the library's own conversion paths",
    "Held on generated values and patterns, every binary16 pattern included. " + INT,
    "native floats given to every constructor, patterns read through every accessor; classed by format and kind; distinct by input")
add("C36", "metamorphic monitor: order of patterns against order of decoded values",
    "Every binary16 and bfloat16 pattern with neighbours, generated pairs otherwise. " + INT,
    "pairs of adjacent, close and unrelated patterns of one format; classed by format and kind; distinct by pair")

add("C37", "run-time resource monitor: allocation and CPU time of each call, live heap and goroutines after long runs",
    "Bounds are generous (64 KiB + 64 bytes for each byte of argument and result; 50 ms + 2 us for each byte), about ten times what the code needs; a bounded cache is not a leak, growth in every round of 40000 calls is.",
    "single calls on arguments of extreme exponents, precisions and lengths, and 200000 calls on ever new inputs for each kind of operation; classed by operation and kind of argument; a case is one measured call or one long run")
add("C38", "online monitor of equality, map look-up and zero values",
    "Every binary16 and bfloat16 pattern, generated ones otherwise.",
    "pairs of patterns that are equal, differ in one bit, or are unrelated, and one value from every constructor; classed by format, relation and kind; distinct by pair")
add("C39", "online reference-model monitor of arithmetic on decoded numbers",
    "Held on generated pairs and the four basic operations. " + INT,
    "pairs of patterns of comparable and of unrelated magnitude with an operation; classed by format, operation and kind; distinct by pair and operation")
add("C40", "page protection around arguments and destinations, AddressSanitizer, Go's pointer checks, and a collector that overwrites freed memory",
    "Numbers and bytes are placed at either end of read-only pages with inaccessible neighbours, so every stray access faults in the call that makes it; workloads of C16, C17, C19 and C25 run again in the sanitizer builds.",
    "numbers of every size and mode, prefixes of 0 to 39 bytes with spare room of every size, and decoded numbers whose words are overwritten; classed by operation, position and kind; distinct by input")
add("C41", "a process that watches its own output, system calls (seccomp) and settings while workloads run; traced imports",
    "The workloads of 34 other properties run again in self-watching processes. Effects that are neither output, a watched system call nor one of the listed settings are not seen.",
    "the cases of the other properties; a case is one of theirs, after which the lengths of standard output and error are looked at; settings are compared once per chunk; distinct by property and chunk")

ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
assert set(ids) == set(T), set(ids) ^ set(T)
man = {"version": 1, "setup_cmd": "python3 check.py --setup",
       "checks": [{"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": T[i][0], "level": "exploration", "level_note": T[i][1]} for i in ids],
       "not_applicable": [],
       "notes": "No hooks in /repo: everything is observed at the API boundary. Defects found: known_findings.txt."}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
json.dump({i: T[i][2] for i in ids}, open(os.path.join(ROOT, "tools", "rules.json"), "w"), indent=1)
