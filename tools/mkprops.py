#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append(d)

B16, B128, X87, PPC, BF = ("binary16/binary16.go", "binary128/binary128.go", "float80x86/float80x86.go",
                           "float128ppc/float128ppc.go", "bfloat/bfloat.go")
ALL = [B16, B128, X87, PPC, BF]
ENC = [B16, B128, X87, PPC]

prop("C01", "bfloat16 bit patterns decode to their exact value",
     "Every 16-bit pattern taken as a bfloat16 decodes to exactly the real number the format assigns it (normal, subnormal, signed zero or signed infinity), with the sign kept, as a multi-precision number of the format's 8-bit precision. The Not-a-Number indicator is set exactly for an all-ones exponent with a non-zero fraction, and then the returned number is a zero carrying the NaN's sign.",
     ["inputs"], "all 65536 bit patterns",
     "The only test decodes 10 hand-picked patterns and skips the value comparison for NaN; subnormals are never decoded.",
     [BF], [("decode of sign/exponent/fraction into a binary literal, special cases for exponent 0 and 0xFF", "bfloat/bfloat.go: Float.Big")],
     observe=["bfloat.NewFromBits(b).Big()"])
prop("C02", "binary16 bit patterns decode to their exact value",
     "Every 16-bit pattern taken as an IEEE 754 half decodes to exactly the real number the standard assigns it (normal, subnormal, signed zero or signed infinity), with the sign kept, as a multi-precision number of the format's 11-bit precision. The Not-a-Number indicator is set exactly for an all-ones exponent with a non-zero fraction, and then the returned number is a zero carrying the NaN's sign.",
     ["inputs"], "all 65536 bit patterns",
     "The checked-in test decodes about 60 patterns (mostly powers of two); the exhaustive generated test is not in the tree.",
     [B16], [("decode of sign/exponent/fraction into a binary literal, special cases for exponent 0 and 0x1F", "binary16/binary16.go: Float.Big")],
     observe=["binary16.NewFromBits(b).Big()"])
prop("C03", "binary128 bit patterns decode to their exact value",
     "Every 128-bit pattern taken as an IEEE 754 quadruple decodes to exactly the real number the standard assigns it (normal, subnormal, signed zero or signed infinity), with the sign kept, as a multi-precision number of the format's 113-bit precision. The Not-a-Number indicator is set exactly for an all-ones exponent with a non-zero fraction, and then the returned number is a zero carrying the NaN's sign.",
     ["inputs"], "all 2^128 bit patterns: every exponent, both halves of the fraction",
     "The test decodes 17 golden patterns; 2^128 patterns cannot be tabulated and the two-word fraction (leading zeros in either word) is hardly exercised.",
     [B128], [("decode with the 48+64-bit fraction printed as a fixed-width binary literal", "binary128/binary128.go: Float.Big")],
     observe=["binary128.NewFromBits(a, b).Big()"])
prop("C04", "x87 80-bit patterns decode to their exact value",
     "Every 80-bit pattern taken as an x87 extended-precision number decodes to exactly (-1)^s * 2^(max(e,1)-16383) * (integer bit . fraction), including subnormals, pseudo-denormals (integer bit set, exponent zero) and unnormals (integer bit clear, exponent non-zero), with the sign kept, as a multi-precision number of 64-bit precision. With an all-ones exponent it is a signed infinity exactly when the integer bit is set and the fraction is zero, and otherwise is reported as Not-a-Number, as a zero carrying the sign.",
     ["inputs"], "all 2^80 bit patterns, canonical or not",
     "The test decodes 8 patterns; the extremes (max normal, min normal, subnormals) are commented out because their check goes through float64, and non-canonical encodings are never decoded.",
     [X87], [("decode with explicit lead bit", "float80x86/float80x86.go: Float.Big")],
     observe=["float80x86.NewFromBits(se, m).Big()"])
prop("C05", "double-double patterns decode to the exact sum of their two parts",
     "A pair of float64 bit patterns taken as a PowerPC double-double decodes to exactly the sum of its two parts: for finite parts the precise real number high+low however far apart they are, and a signed infinity when one part is infinite and the other finite or the same infinity. It is Not-a-Number exactly when a part is NaN or the parts are opposite infinities, and then decodes to a zero carrying the sign of the high part when that part is itself NaN. A zero whose two parts are both zero takes the sign of the high part.",
     ["inputs"], "all 2^128 pairs of float64 patterns, normalised or not",
     "The only test (which fails in the baseline) round-trips 14 pairs and ignores NaN, infinity and the value itself.",
     [PPC], [("exact addition of high and low in a multi-precision number", "float128ppc/float128ppc.go: Float.Big"), ("IsNaN", "float128ppc/float128ppc.go: Float.IsNaN")],
     observe=["float128ppc.NewFromBits(a, b).Big()", "float128ppc.Float.IsNaN"])
prop("C06", "Raw bits and field accessors are faithful for every pattern",
     "For every format with a raw-bits accessor, building a number from a bit pattern and reading its bits back returns the same pattern, NaN payloads and non-canonical encodings included. Its sign bit, biased exponent, x87 lead bit and fraction accessors return exactly the corresponding fields of the pattern, as non-negative integers within their field widths, in all formats that have them.",
     ["inputs", "configurations"], "all bit patterns of the five formats, on 32-bit and 64-bit platforms",
     "No test calls a field accessor directly; the raw-bits accessors are only observed on encoded golden values.",
     ALL, [("masks and shifts", "*/Signbit, Exp, Lead, Frac, Bits, NewFromBits")],
     observe=["NewFromBits(...).Bits/Signbit/Exp/Lead/Frac"])
def enc(id, name, files, extra, fmt, tests):
    prop(id, f"{name} encoding is correctly rounded over the whole real range",
         f"Converting any finite multi-precision number to {fmt} gives the bit pattern of the nearest representable number, ties to even, whatever the number's own precision and rounding mode; magnitudes at or beyond half a unit above the largest finite value become an infinity of the same sign. {extra}",
         ["inputs"], "all finite and infinite big.Float values: any precision, rounding mode, and binary exponent from -2^31 to 2^31-1",
         tests, files, [("NewFromBig: exponent/mantissa extraction, rounding, subnormal and overflow paths", files[0] + ": NewFromBig")],
         observe=["NewFromBig(x).Bits()"])
enc("C07", "binary16", [B16], "Results below the smallest normal use gradual underflow down to 2^-24, values that round to zero give a zero of the same sign, and infinities and signed zeros map to themselves.", "IEEE 754 half precision",
    "The test encodes about 60 float64 values, nearly all exactly representable; no value is halfway, out of range, or wider than a float64.")
enc("C08", "binary128", [B128], "Results below the smallest normal use gradual underflow down to 2^-16494, values that round to zero give a zero of the same sign, and infinities and signed zeros map to themselves.", "IEEE 754 quadruple precision",
    "The test encodes 10 float64 values and masks the last 60 bits, so rounding, subnormals and overflow of the format are never observed.")
enc("C09", "float80x86", [X87], "Results below the smallest normal use gradual underflow down to 2^-16445, values that round to zero give a zero of the same sign, infinities and signed zeros map to themselves, and the encoding is always canonical (integer bit set exactly when the exponent field is non-zero).", "x87 extended precision",
    "The test encodes 9 float64 values; the format's own extremes are commented out and nothing is ever rounded.")
prop("C10", "Double-double encoding splits a number into nearest parts",
     "Converting any finite multi-precision number to a double-double gives as high part the number rounded to the nearest float64 (ties to even) and as low part the exact remainder rounded to the nearest float64, whatever the number's own precision and rounding mode. When the high part overflows the result is an infinity of the same sign with a zero low part; infinities and signed zeros map to themselves.",
     ["inputs"], "all finite and infinite big.Float values: any precision, rounding mode, and binary exponent from -2^31 to 2^31-1",
     "The only test converts 14 values obtained from double-doubles, fails in the baseline on a wide pair, and never tries overflow, infinities or more than 106 bits.",
     [PPC], [("high = Float64 of x, low = Float64 of x-high", "float128ppc/float128ppc.go: NewFromBig")],
     observe=["float128ppc.NewFromBig(x).Bits()"])
prop("C11", "Reported accuracy is the true direction of the rounding error",
     "The accuracy returned by every conversion into one of the formats (from a multi-precision number, a float64 or a float32) is Exact when the result equals the input, Below when the result is less than the input, and Above when it is greater, with underflow to zero and overflow to infinity counted as such results. It is Exact for NaN, infinite and zero inputs.",
     ["inputs"], "all inputs of NewFromBig, NewFromFloat64 and NewFromFloat32 in the four encodable formats",
     "Tests observe Below once and Above never; all but one golden conversions are exact.",
     ENC, [("acc computed beside the bits", "*/NewFromBig"), ("acc passed on by the float64/float32 constructors", "*/NewFromFloat64, */NewFromFloat32")],
     observe=["accuracy result of NewFromBig/NewFromFloat64/NewFromFloat32"])
prop("C12", "Native float conversions into a format are correctly rounded",
     "Converting any float64 or float32 into one of the four encodable formats gives the format's value nearest to it (ties to even): exactly the same number for the three wide formats, and correctly rounded from the original value in a single step for half precision. A NaN gives the format's NaN of the same sign.",
     ["inputs"], "all float64 and float32 bit patterns, in four formats",
     "Tests sample at most 60 float64 inputs per format and no float32 input at all.",
     ENC, [("NaN switch, then conversion through a multi-precision number", "*/NewFromFloat64"), ("delegation from float32", "*/NewFromFloat32")],
     observe=["NewFromFloat64(x)", "NewFromFloat32(x)"])
prop("C13", "Narrowing to float64 and float32 is correctly rounded, with its accuracy",
     "For every bit pattern of binary16, binary128, float80x86 and float128ppc, converting to float64 or float32 gives the native value nearest to the pattern's exact value (ties to even), with gradual underflow, signed zero on underflow and signed infinity on overflow, and an accuracy equal to the sign of the result minus the exact value. A NaN gives a native NaN of the same sign, with accuracy Exact.",
     ["inputs"], "all bit patterns of four formats, into two native types",
     "Tests convert a few dozen golden patterns to float64, all of them exactly representable there, ignore the accuracy, and never convert to float32.",
     ENC, [("Big() followed by big.Float narrowing", "*/Float32, */Float64")],
     observe=["Float32()", "Float64()"])
prop("C14", "Decode then encode is the identity, and exact",
     "Decoding any non-NaN pattern of binary16, binary128 or canonical float80x86 to a multi-precision number and encoding that number again returns the same bit pattern with accuracy Exact. The same holds for every finite double-double whose high part is the sum of its parts rounded to nearest, up to the sign of a zero low part; and a non-canonical x87 number re-encodes to a canonical pattern of equal value whenever one exists.",
     ["inputs"], "all canonical bit patterns of the four encodable formats, plus x87 pseudo-denormals and unnormals",
     "Round trips are only tested for float128ppc, on 14 pairs, and that test fails in the baseline.",
     ENC, [("Big and NewFromBig agree on exponent bias, lead bit and subnormal scaling", "*/Big, */NewFromBig")],
     observe=["NewFromBig(NewFromBits(p).Big()).Bits()"])
prop("C15", "NaN, infinity and zero keep kind and sign on every path",
     "The exported positive and negative NaN, infinity and zero values of each format are what they are named, and remain so. Along every chain of conversions (native float to format, format to multi-precision and back, format to native float) a NaN stays a NaN, an infinity an infinity and a zero a zero, each with its sign; encoding one of them yields the bit pattern of the corresponding exported value.",
     ["inputs", "histories"], "all special inputs, all formats, all chains of conversions",
     "Tests cover single hops on hand-picked specials, never for float128ppc, and never observe a sign through a chain.",
     ENC, [("special-value switch at the top of each constructor and of Big", "*/NewFromFloat64, */NewFromBig, */Big"), ("exported variables", "*/NaN, NegNaN, Inf, NegInf, Zero, NegZero")],
     state=[("exported special values", "canonical NaN, infinity and zero of each format", "package variables of each format package")],
     observe=["exported variables", "conversion chains"])
prop("C16", "Conversions never modify their arguments",
     "No conversion or predicate changes the multi-precision number it is given: its value, sign, precision, rounding mode and accuracy are the same before and after the call. Appending formatters leave the bytes already in the destination as they were.",
     ["inputs", "histories"], "all big.Float arguments of every NewFromBig and IsExact16/32/64, and all destination slices of the appending formatters",
     "No test looks at an argument after the call.",
     ENC + ["float.go", "internal/strconv/ftoa.go"], [("working on copies", "*/NewFromBig, IsExact*"), ("append-only writes", "internal/strconv AppendFloat/AppendInt/AppendUint")],
     observe=["argument snapshots before and after each call"])
prop("C17", "Results are independent values and functions of the input alone",
     "A multi-precision number, string or slice returned by a call is the caller's own: changing it alters no later result, and no later call alters it. Every operation returns the same result for the same input whatever calls preceded it in the process, calls refused for illegal arguments included.",
     ["histories"], "all sequences of calls, with results retained and mutated between them",
     "Each test makes one call per input and drops the result.",
     ALL + ["float.go", "internal/strconv/ftoa.go", "internal/strconv/itoa.go", "internal/strconv/extfloat.go", "internal/strconv/decimal.go"],
     [("fresh allocation per call; no package state is written after init", "all packages")],
     state=[("package tables and exported variables", "read-only after initialisation", "powersOfTen, leftcheats, exported specials")],
     observe=["results of long mixed call sequences"])
prop("C18", "All operations are safe for concurrent use on shared values",
     "Any number of goroutines may call any operation of the library at once, also on shared read-only arguments, with no data race, and each call returns what it would return alone.",
     ["schedules", "inputs"], "all interleavings of calls from concurrent goroutines sharing numbers, arguments and exported values",
     "No test starts a goroutine, and CI disables the race detector (GOTEST_RACE=0).",
     ALL + ["float.go", "internal/strconv/ftoa.go", "internal/strconv/extfloat.go", "internal/strconv/decimal.go"],
     [("stateless functions over values", "all packages"), ("arguments are only read", "*/NewFromBig, IsExact*")],
     observe=["Go race detector reports", "results compared with the sequential ones"])
prop("C19", "Every operation returns normally on every valid input",
     "For every bit pattern, every float64 and float32, and every multi-precision number (zero, infinite, any precision and exponent), each decoding, encoding, narrowing, classification and formatting operation of the library returns normally within bounded work: it neither panics nor fails to terminate nor exhausts memory.",
     ["inputs"], "all inputs of all exported operations; documented formats, bit sizes and bases of the formatter",
     "Tests never pass opposite infinities, out-of-range exponents or infinities to the exactness predicates.",
     ALL + ["float.go", "internal/strconv/ftoa.go", "internal/strconv/itoa.go", "internal/strconv/extfloat.go", "internal/strconv/decimal.go"],
     [("panic(err) after Parse, panic in exponent search, big.Float arithmetic panics", "*/Big, float.go trimZeros, internal/strconv")],
     observe=["panics, fatal errors, per-call CPU time and heap size"])
prop("C20", "Results do not depend on platform word size or build mode",
     "On a 32-bit platform or WebAssembly, without compiler optimisation, with the race detector, in whatever environment, or under any supported Go toolchain, every operation of the library returns the same results as the ordinary 64-bit build, which are the mathematically specified ones.",
     ["configurations", "inputs"], "amd64, 386 and WebAssembly targets, optimised and unoptimised, race-instrumented, each installed Go toolchain, and unusual environment variables",
     "Tests run on one 64-bit configuration.",
     ALL + ["float.go", "internal/strconv/itoa.go", "internal/strconv/decimal.go"],
     [("integer widths in exponent and fraction extraction; 32-bit paths of the formatter", "*/Exp, internal/strconv/itoa.go formatBits, internal/strconv/decimal.go shifts")],
     observe=["digest and oracle verdict of one workload per configuration"])
prop("C21", "Exactness predicates never accept an unrepresentable number",
     "IsExact16, IsExact32 and IsExact64 return true only for a number that the 16-, 32- or 64-bit IEEE format represents exactly (signed zeros, subnormals and infinities included).",
     ["inputs"], "all big.Float values",
     "The package has no tests.",
     ["float.go", "internal/strconv/ftoa.go", B16], [("comparison of the narrowed value with the argument", "float.go: IsExact16, IsExact32, IsExact64")],
     observe=["float.IsExact16/32/64(x)"])
prop("C22", "Exactness predicates accept every representable number",
     "IsExact16, IsExact32 and IsExact64 return true for every number that the 16-, 32- or 64-bit IEEE format represents exactly, whatever precision and rounding mode the multi-precision number carries.",
     ["inputs"], "all representable values of the three formats in big.Float values of any sufficient precision and any rounding mode",
     "The package has no tests.",
     ["float.go", "internal/strconv/ftoa.go", "internal/strconv/extfloat.go", "internal/strconv/decimal.go"], [("decimal comparison of the shortest and the full expansion", "float.go: IsExact16, IsExact32, IsExact64, trimZeros")],
     observe=["float.IsExact16/32/64(x)"])
prop("C23", "Shortest formatting round-trips and is the shortest and closest decimal",
     "With precision -1, formatting a value as a 16-, 32- or 64-bit float gives a decimal that parses back (round to nearest even) to exactly that value at that size, no decimal with fewer significant digits does so, and among those of that length it is the closest to the value. For 32 and 64 bits the text equals that of the Go standard library of the pinned toolchain for the formats b, e, E, f, g and G.",
     ["inputs"], "all float16, float32 and float64 values; formats b e E f g G",
     "The formatter copied into the repository has no tests at all.",
     ["internal/strconv/ftoa.go", "internal/strconv/extfloat.go", "internal/strconv/decimal.go"],
     [("Grisu3 with fallback to multiprecision decimal", "internal/strconv/extfloat.go: ShortestDecimal; internal/strconv/ftoa.go: roundShortest")],
     state=[("tables of powers of ten and shift cheats", "must be exact to the last bit", "powersOfTen, smallPowersOfTen, leftcheats")],
     observe=["strconv.FormatFloat(f, fmt, -1, 16|32|64)"])
prop("C24", "Fixed-precision formatting is correctly rounded decimal",
     "With an explicit precision, formatting a value as a 16-, 32- or 64-bit float gives the exact value rounded to that many digits (nearest, ties to even), laid out as documented for e, E, f, g and G, with NaN, +Inf, -Inf and signed zeros spelled as in the Go standard library.",
     ["inputs"], "all float16, float32 and float64 values; precisions 0 to several hundred; formats e E f g G",
     "The formatter copied into the repository has no tests at all.",
     ["internal/strconv/ftoa.go", "internal/strconv/extfloat.go", "internal/strconv/decimal.go"],
     [("fast fixed-digit path with error bound and multiprecision fallback", "internal/strconv/extfloat.go: FixedDecimal; internal/strconv/decimal.go")],
     observe=["strconv.FormatFloat(f, fmt, prec, 16|32|64)"])
prop("C25", "Appending formatters equal prefix plus formatted text",
     "Appending a formatted float or integer to a byte slice returns the original bytes followed by exactly the text the corresponding non-appending formatter returns, for any slice length and spare capacity, nil included. It writes nothing else: the bytes appended to stay as they were, and so does the memory of the slice behind the end of the result.",
     ["inputs"], "all values, formats and bases; all lengths and capacities of the destination",
     "The formatter copied into the repository has no tests at all.",
     ["internal/strconv/ftoa.go", "internal/strconv/itoa.go"], [("append-only construction", "internal/strconv: AppendFloat, AppendInt, AppendUint")],
     observe=["strconv.AppendFloat/AppendInt/AppendUint"])
prop("C26", "Integer formatting is exact in every base",
     "Formatting any signed or unsigned 64-bit integer in any base from 2 to 36 gives its unique numeral in lower-case digits without leading zeros, with a leading minus sign exactly for negative numbers, so that parsing it in that base returns the integer.",
     ["inputs", "configurations"], "all int64 and uint64 values, bases 2 to 36, on 32-bit and 64-bit platforms",
     "The formatter copied into the repository has no tests at all.",
     ["internal/strconv/itoa.go"], [("two-digit table, power-of-two shifts, general division, 32-bit chunks", "internal/strconv/itoa.go: formatBits, small")],
     observe=["strconv.FormatInt/FormatUint/Itoa"])
prop("C27", "Encoding preserves order and sign symmetry",
     "For numbers x <= y, the encoding of x into any of the four formats denotes a number no greater than that of y, and the encoding of -x is that of x with the sign reversed, as is the accuracy. Encoding a number twice, or re-encoding the value a pattern denotes, never moves it again.",
     ["inputs", "histories"], "all ordered sequences of big.Float values crossing binade, subnormal, underflow and overflow boundaries",
     "Tests compare single conversions with constants; relations between conversions are never checked.",
     ENC, [("round to nearest is monotone, odd and idempotent", "*/NewFromBig")],
     observe=["encodings of sorted sequences and of negated numbers"])
prop("C28", "Bit patterns agree with the platform's and LLVM's own arithmetic",
     "Numbers encoded by the library are bit for bit what a C compiler produces for the same conversion in half precision, x87 long double and quadruple precision, and patterns decode to the values the compiler's own narrowing conversions yield; double-double constants equal those LLVM produces.",
     ["inputs"], "float64, float32 and wide-format inputs in the formats' canonical encodings",
     "The only such comparison is a 14-line LLVM listing in testdata that no test reads.",
     ENC + [BF], [("the formats' interchange encodings", "*/NewFromBits, */NewFromFloat64, */Float64, */Float32")],
     observe=["bit patterns exchanged with gcc-compiled conversions and LLVM constant folding"])
prop("C29", "The golden-vector generators emit complete and correct vectors",
     "The half-precision generator emits one vector for each finite bit pattern, and the quadruple-precision generator the announced combinations of signs, exponents and fractions over normal and subnormal numbers; each vector's expected values are those the format assigns to its bit pattern. The generated tests compile and the library passes them. Running a generator again, or two at a time, emits the same bytes, whatever an older output file held. The output goes to the file named by -o, or extra_test.go without it, and a generator that cannot write all of it exits with an error.",
     ["inputs"], "every vector a run of each generator emits",
     "The generators are excluded from the build and their output is not checked in, so nothing executes them.",
     ["binary16/gen.go", "binary128/gen.go"], [("loops over sign, exponent and fraction", "binary16/gen.go, binary128/gen.go: getNormalized, getDenormalized")],
     observe=["the generated tables, parsed and re-derived"])
prop("C30", "Native floats survive a trip through every format that contains them",
     "A float64 or float32 encoded into binary128, x87 or double-double and narrowed back to the same native type is bit for bit the number it was, and both conversions report exactness; read back in the wider native type it is the same number. A half widened to float32 or float64 and encoded again is the same 16 bits. Signed zeros, subnormals and infinities are included; a NaN comes back as a NaN of the same sign.",
     ["inputs", "histories"], "all float64 and float32 values and binary16 patterns",
     "Tests convert a handful of constants one way; none returns a number through a format.",
     ENC, [("conversions to and from native floats", "*/NewFromFloat32, NewFromFloat64, Float32, Float64")],
     observe=["NewFromFloat64(x).Float64()", "NewFromFloat32(x).Float32()", "binary16 Float32/Float64 and back"])
prop("C31", "A wider format holds every value of a narrower one exactly",
     "Every finite or infinite binary16 and bfloat16 value becomes exactly the same number, with its sign, in binary128, x87 and double-double, every canonical x87 value becomes the same number in binary128, and the conversion is reported exact. Where the narrower format can be encoded, converting back gives the original bits. Going by way of float32 or float64 instead makes no difference for a half.",
     ["inputs", "histories"], "all binary16 and bfloat16 patterns, all canonical x87 patterns",
     "No test moves a value from one of the formats to another.",
     ALL, [("exchange of values between formats through multi-precision numbers", "*/Big, */NewFromBig")],
     observe=["wide.NewFromBig(narrow.Big())", "and back"])
prop("C32", "The exactness predicates are coherent",
     "A number exact at 16 bits is exact at 32, and one exact at 32 bits is exact at 64. Each predicate answers the same for a number and its negation, and the same whatever precision (as long as it holds the number), rounding mode or accuracy the multi-precision number carries.",
     ["inputs"], "all big.Float values",
     "The package has no tests.",
     ["float.go", "internal/strconv/ftoa.go"], [("comparison of decimal texts", "float.go: IsExact16, IsExact32, IsExact64")],
     observe=["float.IsExact16/32/64 of one number in several forms"])
prop("C33", "Formatters refuse illegal arguments the same way for every value",
     "Formatting or appending any integer in a base outside 2 to 36 panics, as does any float with a bit size other than 16, 32 or 64, with nothing written to the destination. An unknown format letter is written as a percent sign and the letter for every finite value and precision (NaN and infinities are spelled out as usual). Any negative precision means the shortest form.",
     ["inputs"], "all values with all bases, bit sizes, letters and precisions outside the documented ones",
     "The formatter copied into the repository has no tests at all.",
     ["internal/strconv/ftoa.go", "internal/strconv/itoa.go"], [("argument checks", "internal/strconv: formatBits, genericFtoa, formatDigits")],
     observe=["FormatInt/FormatUint/FormatFloat and Append forms, with illegal arguments"])
prop("C34", "The views the formatter gives of a value agree",
     "Negating a value only changes the sign of its text. E and G are e and g in upper case, and the precision is ignored by b. The shortest e, f and g texts of a value denote the same number, and the same value in a wider size needs no fewer digits. With a precision, e and f show exactly that many digits after the point, and e, f and g rounded at the same place denote the same number. Texts keep the order of values: strictly when shortest, weakly when rounded.",
     ["inputs"], "all float16, float32 and float64 values, pairs of them, formats and precisions",
     "The formatter copied into the repository has no tests at all.",
     ["internal/strconv/ftoa.go", "internal/strconv/extfloat.go", "internal/strconv/decimal.go"], [("one digit generator behind several layouts", "internal/strconv/ftoa.go: genericFtoa, bigFtoa, formatDigits")],
     observe=["several FormatFloat texts of one value, and of neighbouring values"])
prop("C35", "The ways into and out of a format agree",
     "Encoding a float32, the equal float64 and the equal multi-precision number gives the same bits and the same accuracy. Float64 and Float32 of a pattern are the nearest native floats to the number Big returns for it, with the matching accuracies, and all accessors agree on whether the pattern is Not-a-Number.",
     ["inputs"], "all float64 and float32 values; all patterns of binary16, binary128, x87 and double-double",
     "Each test looks at one conversion of a constant at a time.",
     ENC, [("parallel conversion paths", "*/NewFromFloat32, NewFromFloat64, NewFromBig; */Float32, Float64, Big; float128ppc: IsNaN")],
     observe=["all constructors on one number, all accessors on one pattern"])
prop("C36", "Decoding keeps the order of bit patterns",
     "For two non-NaN patterns of binary16, bfloat16, binary128 or canonical x87 form, read as sign and magnitude integers, the greater pattern decodes to the greater number, different patterns to different numbers (except the two zeros), and their Float32 and Float64 values are in the same order or equal.",
     ["inputs"], "all pairs of canonical patterns of one format",
     "Tests decode isolated patterns; relations between patterns are never checked.",
     [B16, B128, X87, BF], [("decoding is a monotone bijection onto the format's values", "*/Big, Float32, Float64")],
     observe=["Big, Float32 and Float64 of pairs of neighbouring and distant patterns"])
prop("C37", "A call costs in proportion to its argument and result, and leaves nothing behind",
     "Every conversion, predicate and formatting call on a number of any exponent and precision allocates memory and takes CPU time in proportion to the size of its argument and result (the precision asked for included), beyond a small constant: a huge or tiny exponent alone costs nothing. Nothing accumulates: after any number of calls on ever new inputs only what the caller holds is in memory, and no goroutine is left running.",
     ["inputs", "histories"], "all operations on numbers of every exponent and precision, in long-running processes",
     "Tests make a few calls on short constants and measure nothing.",
     ALL + ["internal/strconv/ftoa.go", "float.go"], [("decoding, encoding and formatting work on mantissas of bounded length", "*/Big, */NewFromBig, internal/strconv: genericFtoa, decimal, float.go")],
     observe=["bytes allocated and CPU time of single calls", "live heap and goroutines after long runs of calls"])
prop("C38", "Values of the formats are plain data determined by their bits",
     "Two values of a format are equal under == exactly when they have the same bit pattern, however they were made (double-doubles: when their parts are equal as float64), so that values work as map keys; copies are equal and calling methods changes nothing. The zero value of each type is positive zero, equal to the exported Zero, and the exported values equal those made from their bits.",
     ["inputs"], "all bit patterns of all formats, and every constructor",
     "Tests compare bits of a few constants, never values.",
     ALL, [("the Float structs hold the bits and nothing else", "*/Float, */NewFromBits")],
     observe=["== and map look-ups of values from NewFromBits and every other constructor"])
prop("C39", "Decoded numbers compute like the values they denote",
     "The multi-precision number that Big returns is ready for arithmetic: it has the format's precision (at least 106 bits for a double-double), rounds to nearest even, and is exact. The sum, difference, product or quotient of two decoded numbers, in a new number or in place, is the exact result correctly rounded to the format's precision, and where that lies in the range of normal numbers it encodes without error to the correctly rounded result in the format.",
     ["inputs", "histories"], "all pairs of patterns of one format, and the four basic operations",
     "Tests compare decoded constants by value and never compute with them.",
     ALL, [("precision, rounding mode and accuracy of decoded numbers", "*/Big")],
     observe=["precision, mode and accuracy of Big's results", "Add, Sub, Mul and Quo of decoded numbers, encoded again"])
prop("C40", "Calls touch only the memory that is theirs to touch",
     "A call only reads the numbers and the bytes it is given: it never writes to a multi-precision argument or to the bytes already in a destination, not even for the duration of the call or with the value that is there, so they may lie in memory that cannot be written or be shared. Appending writes only into the spare capacity of its destination or into fresh memory. Nothing is accessed beyond either end of what was given, and no memory after it has been given up. What a call returns is memory of its own, which the caller may overwrite and which stays as it is whatever is called, collected or reused later.",
     ["inputs", "histories"], "all numbers, destinations and results, wherever their memory lies",
     "Tests look at values after calls, not at accesses, and run without sanitizers.",
     ["internal/strconv/ftoa.go", "internal/strconv/itoa.go"] + ALL, [("arguments of *big.Float type are only read", "*/NewFromBig, float.go"), ("appending grows its destination with append", "internal/strconv: AppendFloat, AppendInt, AppendUint"), ("results are fresh", "*/Big")],
     observe=["memory accesses, by page protection, AddressSanitizer and pointer checks", "results after their memory or that of others is overwritten or collected"])
prop("C41", "Calls have no effect but their results",
     "Importing the library and calling it, on whatever arguments, refused ones included, has no effect besides the results: nothing is written to standard output or standard error, no file, connection or process is opened or started, no goroutine stays behind, and the process-wide settings (flags, logger, environment, working directory, shared random source, signal handling, limits of the collector and scheduler) stay as they were.",
     ["inputs", "histories"], "all operations of the packages on all arguments, in one process; the generator programs are not part of it",
     "Tests look at results; go test passes whatever a passing test prints, opens or sets.",
     ALL + ["internal/strconv/ftoa.go", "internal/strconv/itoa.go", "float.go"], [("pure functions without initialisation", "*/Big, */NewFromBig, internal/strconv: FormatFloat, float.go"), ("diagnostics are panics or results, never output", "*/NewFromBits, */NewFromBig")],
     observe=["length of standard output and error after each case", "system calls that open, start, connect or change something", "settings of the process before and after each chunk", "a process that imports the library and does nothing, beside one that does not import it"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
