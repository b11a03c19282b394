From f48f919bc4f6f034bb7d68d5b2ecea9298c37b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 01/14] fix: binary16: round to nearest even, with correct
 overflow, underflow and accuracy, in NewFromBig

NewFromBig truncated the mantissa, wrapped the exponent of too large
numbers, and produced garbage for numbers below the denormalized range.
---
 binary16/binary16.go | 71 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 55 insertions(+), 16 deletions(-)

diff --git a/binary16/binary16.go b/binary16/binary16.go
index 7299c3c..09d4942 100644
--- a/binary16/binary16.go
+++ b/binary16/binary16.go
@@ -105,6 +105,21 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 		return Zero, big.Exact
 	}
 
+	// Round to the nearest representable number.
+	x, acc := round(x)
+	switch {
+	case x.IsInf():
+		if x.Signbit() {
+			return NegInf, acc
+		}
+		return Inf, acc
+	case x.Sign() == 0:
+		if x.Signbit() {
+			return NegZero, acc
+		}
+		return Zero, acc
+	}
+
 	// Sign
 	var bits uint16
 	if x.Signbit() {
@@ -120,47 +135,71 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 	// Handle denormalized values.
 	// TODO: validate implementation of denormalized values.
 	if exp <= 0 {
-		acc := big.Exact
-		if exp <= -(precision - 1) {
-			exp = precision - 1
-			acc = big.Below
-		}
 		mant.SetMantExp(mant, exp+precision-1)
 		if mant.Signbit() {
 			mant.Neg(mant)
 		}
 		mantissa, _ := mant.Uint64()
-		// TODO: calculate acc based on if mantissa&^0x7FF != 0 {}
 		bits |= uint16(mantissa & 0x7FF)
 		return Float{bits: bits}, acc
 	}
 
 	// exponent mask (5 bits): 0b11111
-	acc := big.Exact
-	if (exp &^ 0x1F) != 0 {
-		acc = big.Above
-	}
 	bits |= uint16(exp&0x1F) << 10
 
 	if mant.Signbit() {
 		mant.Neg(mant)
 	}
 	mant.SetMantExp(mant, precision)
-	if !mant.IsInt() {
-		acc = big.Below
-	}
 	mantissa, _ := mant.Uint64()
 	mantissa &^= 0x400 // clear implicit lead bit; 2^10
 
 	// mantissa mask (11 bits, including implicit lead bit): 0b11111111111
-	if acc == big.Exact && (mantissa&^0x7FF) != 0 {
-		acc = big.Below
-	}
 	mantissa &= 0x7FF
 	bits |= uint16(mantissa)
 	return Float{bits: bits}, acc
 }
 
+// round returns the half precision number nearest to x (ties to even) and
+// the accuracy of the rounding. Too large magnitudes are rounded to infinity,
+// and the precision of denormalized numbers decreases with their magnitude. The
+// given x must be finite and non-zero.
+func round(x *big.Float) (*big.Float, big.Accuracy) {
+	// Exponent of the lead bit of the smallest denormalized number, in the
+	// notation of MantExp.
+	const minExp = 1 - bias - (precision - 1) + 1
+	y := new(big.Float).SetMode(big.ToNearestEven)
+	exponent := x.MantExp(nil)
+	switch {
+	case exponent > bias+1:
+		// Overflow.
+		y.SetInf(x.Signbit())
+	case exponent >= minExp:
+		// Denormalized numbers have less bits of precision.
+		prec := exponent - minExp + 1
+		if prec > precision {
+			prec = precision
+		}
+		y.SetPrec(uint(prec)).Set(x)
+		if y.MantExp(nil) > bias+1 {
+			// Overflow.
+			y.SetInf(x.Signbit())
+		}
+	case exponent == minExp-1 && x.MinPrec() > 1:
+		// Above half of the smallest denormalized number.
+		y.SetMantExp(big.NewFloat(0.5), minExp)
+		if x.Signbit() {
+			y.Neg(y)
+		}
+	default:
+		// Underflow.
+		if x.Signbit() {
+			y.Neg(y)
+		}
+	}
+	return y, big.Accuracy(y.Cmp(x))
+}
+
 // Bits returns the IEEE 754 half precision binary representation of f.
 func (f Float) Bits() uint16 {
 	return f.bits
-- 
2.43.0


From f321d5d46e79e2cc7598b03d385b1af324f556f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 02/14] fix: binary128: round to nearest even, with correct
 overflow, underflow and accuracy, in NewFromBig

NewFromBig truncated the mantissa, wrapped the exponent of too large
numbers, and produced garbage for numbers below the denormalized range.
---
 binary128/binary128.go | 71 ++++++++++++++++++++++++++++++++----------
 1 file changed, 55 insertions(+), 16 deletions(-)

diff --git a/binary128/binary128.go b/binary128/binary128.go
index f1251ce..a51f7bc 100644
--- a/binary128/binary128.go
+++ b/binary128/binary128.go
@@ -106,6 +106,21 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 		return Zero, big.Exact
 	}
 
+	// Round to the nearest representable number.
+	x, acc := round(x)
+	switch {
+	case x.IsInf():
+		if x.Signbit() {
+			return NegInf, acc
+		}
+		return Inf, acc
+	case x.Sign() == 0:
+		if x.Signbit() {
+			return NegZero, acc
+		}
+		return Zero, acc
+	}
+
 	// Sign
 	var a, b uint64
 	if x.Signbit() {
@@ -121,11 +136,6 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 	// Handle denormalized values.
 	// TODO: validate implementation of denormalized values.
 	if exp <= 0 {
-		acc := big.Exact
-		if exp <= -(precision - 1) {
-			exp = precision - 1
-			acc = big.Below
-		}
 		mant.SetMantExp(mant, exp+precision-1)
 		if mant.Signbit() {
 			mant.Neg(mant)
@@ -142,26 +152,18 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 		bigA := new(big.Int).And(mantissa, maskA) // a = (mantissa & maskA) >> 64
 		bigA.Rsh(bigA, 64)
 		bigB := new(big.Int).And(mantissa, maskB) // b = mantissa & maskB
-		// TODO: calculate acc based on if mantissa&^maskA != 0 {}
 		a |= bigA.Uint64() & 0x0000FFFFFFFFFFFF
 		b = bigB.Uint64()
 		return Float{a: a, b: b}, acc
 	}
 
 	// exponent mask (15 bits): 0b111111111111111
-	acc := big.Exact
-	if (exp &^ 0x7FFF) != 0 {
-		acc = big.Above
-	}
 	a |= uint64(exp&0x7FFF) << 48
 
 	if mant.Signbit() {
 		mant.Neg(mant)
 	}
 	mant.SetMantExp(mant, precision)
-	if !mant.IsInt() {
-		acc = big.Below
-	}
 	mantissa, _ := mant.Int(nil)
 	mantissa.SetBit(mantissa, 112, 0) // clear implicit lead bit; 2^112
 
@@ -177,14 +179,51 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 	bigA := new(big.Int).And(mantissa, maskA) // a = (mantissa & maskA) >> 64
 	bigA.Rsh(bigA, 64)
 	bigB := new(big.Int).And(mantissa, maskB) // b = mantissa & maskB
-	if acc == big.Exact && (bigA.Uint64()&^0x0000FFFFFFFFFFFF) != 0 {
-		acc = big.Below
-	}
 	a |= bigA.Uint64() & 0x0000FFFFFFFFFFFF
 	b = bigB.Uint64()
 	return Float{a: a, b: b}, acc
 }
 
+// round returns the quadruple precision number nearest to x (ties to even) and
+// the accuracy of the rounding. Too large magnitudes are rounded to infinity,
+// and the precision of denormalized numbers decreases with their magnitude. The
+// given x must be finite and non-zero.
+func round(x *big.Float) (*big.Float, big.Accuracy) {
+	// Exponent of the lead bit of the smallest denormalized number, in the
+	// notation of MantExp.
+	const minExp = 1 - bias - (precision - 1) + 1
+	y := new(big.Float).SetMode(big.ToNearestEven)
+	exponent := x.MantExp(nil)
+	switch {
+	case exponent > bias+1:
+		// Overflow.
+		y.SetInf(x.Signbit())
+	case exponent >= minExp:
+		// Denormalized numbers have less bits of precision.
+		prec := exponent - minExp + 1
+		if prec > precision {
+			prec = precision
+		}
+		y.SetPrec(uint(prec)).Set(x)
+		if y.MantExp(nil) > bias+1 {
+			// Overflow.
+			y.SetInf(x.Signbit())
+		}
+	case exponent == minExp-1 && x.MinPrec() > 1:
+		// Above half of the smallest denormalized number.
+		y.SetMantExp(big.NewFloat(0.5), minExp)
+		if x.Signbit() {
+			y.Neg(y)
+		}
+	default:
+		// Underflow.
+		if x.Signbit() {
+			y.Neg(y)
+		}
+	}
+	return y, big.Accuracy(y.Cmp(x))
+}
+
 // Bits returns the IEEE 754 quadruple precision binary representation of f.
 func (f Float) Bits() (a, b uint64) {
 	return f.a, f.b
-- 
2.43.0


From c7f7328169fcb882fb64b0fbb7ea99fd19a23c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 03/14] fix: float80x86: round to nearest even, with correct
 overflow, underflow and accuracy, in NewFromBig

NewFromBig truncated the mantissa, wrapped the exponent of too large
numbers, and produced garbage for numbers below the denormalized range.
---
 float80x86/float80x86.go | 73 ++++++++++++++++++++++++++++++----------
 1 file changed, 56 insertions(+), 17 deletions(-)

diff --git a/float80x86/float80x86.go b/float80x86/float80x86.go
index e4bdf0c..326a8ef 100644
--- a/float80x86/float80x86.go
+++ b/float80x86/float80x86.go
@@ -127,6 +127,21 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 		return Zero, big.Exact
 	}
 
+	// Round to the nearest representable number.
+	x, acc := round(x)
+	switch {
+	case x.IsInf():
+		if x.Signbit() {
+			return NegInf, acc
+		}
+		return Inf, acc
+	case x.Sign() == 0:
+		if x.Signbit() {
+			return NegZero, acc
+		}
+		return Zero, acc
+	}
+
 	// Sign
 	var se uint16
 	if x.Signbit() {
@@ -144,44 +159,68 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 	// Handle denormalized values.
 	// TODO: validate implementation of denormalized values.
 	if exp <= 0 {
-		acc := big.Exact
-		if exp <= -(precision - 1) {
-			exp = precision - 1
-			acc = big.Below
-		}
 		mant.SetMantExp(mant, exp+precision-1)
 		if mant.Signbit() {
 			mant.Neg(mant)
 		}
 		v, _ := mant.Uint64()
-		// TODO: calculate acc based on if v&^0x7FFFFFFFFFFFFFFF != 0 {}
 		m |= v & 0x7FFFFFFFFFFFFFFF
 		return Float{se: se, m: m}, acc
 	}
 
 	// 0b111111111111111
-	acc := big.Exact
-	if (exp &^ 0x7FFF) != 0 {
-		acc = big.Above
-	}
 	se |= uint16(exp & 0x7FFF)
 
 	if mant.Signbit() {
 		mant.Neg(mant)
 	}
 	mant.SetMantExp(mant, precision)
-	if !mant.IsInt() {
-		acc = big.Below
-	}
 	// mantissa, including explicit lead bit
-	mantissa, acc2 := mant.Uint64()
-	if acc == big.Exact {
-		acc = acc2
-	}
+	mantissa, _ := mant.Uint64()
 	m |= mantissa
 	return Float{se: se, m: m}, acc
 }
 
+// round returns the x86 extended precision number nearest to x (ties to even) and
+// the accuracy of the rounding. Too large magnitudes are rounded to infinity,
+// and the precision of denormalized numbers decreases with their magnitude. The
+// given x must be finite and non-zero.
+func round(x *big.Float) (*big.Float, big.Accuracy) {
+	// Exponent of the lead bit of the smallest denormalized number, in the
+	// notation of MantExp.
+	const minExp = 1 - bias - (precision - 1) + 1
+	y := new(big.Float).SetMode(big.ToNearestEven)
+	exponent := x.MantExp(nil)
+	switch {
+	case exponent > bias+1:
+		// Overflow.
+		y.SetInf(x.Signbit())
+	case exponent >= minExp:
+		// Denormalized numbers have less bits of precision.
+		prec := exponent - minExp + 1
+		if prec > precision {
+			prec = precision
+		}
+		y.SetPrec(uint(prec)).Set(x)
+		if y.MantExp(nil) > bias+1 {
+			// Overflow.
+			y.SetInf(x.Signbit())
+		}
+	case exponent == minExp-1 && x.MinPrec() > 1:
+		// Above half of the smallest denormalized number.
+		y.SetMantExp(big.NewFloat(0.5), minExp)
+		if x.Signbit() {
+			y.Neg(y)
+		}
+	default:
+		// Underflow.
+		if x.Signbit() {
+			y.Neg(y)
+		}
+	}
+	return y, big.Accuracy(y.Cmp(x))
+}
+
 // Bits returns the x86 extended precision binary representation of f.
 func (f Float) Bits() (se uint16, m uint64) {
 	return f.se, f.m
-- 
2.43.0


From 9ddbd29bf39af047f19cb1ac2450f5ae5902ce7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 04/14] fix: binary16: do not round twice in NewFromFloat64

Rounding to 11 bits before NewFromBig rounds denormalized numbers twice and
loses the accuracy of the conversion.
---
 binary16/binary16.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/binary16/binary16.go b/binary16/binary16.go
index 09d4942..9865869 100644
--- a/binary16/binary16.go
+++ b/binary16/binary16.go
@@ -75,10 +75,8 @@ func NewFromFloat64(x float64) (Float, big.Accuracy) {
 		// +NaN
 		return NaN, big.Exact
 	}
+	// Round only once, in NewFromBig.
 	y := big.NewFloat(x)
-	y.SetPrec(precision)
-	y.SetMode(big.ToNearestEven)
-	// TODO: check accuracy after setting precision?
 	return NewFromBig(y)
 }
 
-- 
2.43.0


From 5db7863505033f6f193a644474b660c468e65f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 05/14] fix: binary128: shift before converting to int in Exp

On 32-bit platforms the conversion dropped the exponent.
---
 binary128/binary128.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary128/binary128.go b/binary128/binary128.go
index a51f7bc..f4f25fd 100644
--- a/binary128/binary128.go
+++ b/binary128/binary128.go
@@ -327,7 +327,7 @@ func (f Float) Signbit() bool {
 // Exp returns the exponent of f.
 func (f Float) Exp() int {
 	// 15 bit exponent
-	return int(f.a&0x7FFF000000000000) >> 48
+	return int(f.a & 0x7FFF000000000000 >> 48)
 }
 
 // Frac returns the fraction of f.
-- 
2.43.0


From 2ea5692c73fd63537e2de351e4e05d4e374df53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 06/14] fix: float128ppc: make NegInf negative

---
 float128ppc/float128ppc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/float128ppc/float128ppc.go b/float128ppc/float128ppc.go
index 9fdc9b3..bd962cc 100644
--- a/float128ppc/float128ppc.go
+++ b/float128ppc/float128ppc.go
@@ -24,7 +24,7 @@ var (
 	// +Inf
 	Inf = Float{high: math.Inf(1), low: 0}
 	// -Inf
-	NegInf = Float{high: -math.Inf(-1), low: 0}
+	NegInf = Float{high: math.Inf(-1), low: 0}
 	// +zero
 	Zero = Float{high: 0, low: 0}
 	// -zero
-- 
2.43.0


From ca1e2d9fb4dfa54ec2a6b561b1b2a6bce5c11cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:39 +0000
Subject: [PATCH 07/14] fix: float128ppc: do not change the argument of
 NewFromBig, and compute both parts and the accuracy exactly

The precision and rounding mode of the argument were changed, the low part was
computed from a rounded number, the accuracy was reversed and overflow
panicked.
---
 float128ppc/float128ppc.go | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/float128ppc/float128ppc.go b/float128ppc/float128ppc.go
index bd962cc..eee59c7 100644
--- a/float128ppc/float128ppc.go
+++ b/float128ppc/float128ppc.go
@@ -100,22 +100,24 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 		return Zero, big.Exact
 	}
 
-	// set precision of x.
-	x.SetPrec(precision).SetMode(big.ToNearestEven)
-
 	// get high part of the double-double floating-point value.
-	high, _ := x.Float64()
-	h := big.NewFloat(high).SetPrec(precision).SetMode(big.ToNearestEven)
+	high, acc := x.Float64()
+	if math.IsInf(high, 0) {
+		// overflow; there is no low part to compute.
+		return Float{high: high, low: 0}, acc
+	}
+	h := big.NewFloat(high)
 
-	// compute low part by subtracting high from x.
-	l := big.NewFloat(0).SetPrec(precision).SetMode(big.ToNearestEven)
+	// compute low part by subtracting high from x; exact, as the difference has
+	// no more bits than x or high.
+	prec := x.Prec()
+	if prec < 53 {
+		prec = 53
+	}
+	l := big.NewFloat(0).SetPrec(prec).SetMode(big.ToNearestEven)
 	l.Sub(x, h)
-	low, _ := l.Float64()
-
-	// check accuracy of results.
-	result := big.NewFloat(0).SetPrec(precision).SetMode(big.ToNearestEven)
-	result.Add(h, l)
-	acc := big.Accuracy(x.Cmp(result))
+	// the error of the low part is the error of the sum.
+	low, acc := l.Float64()
 
 	return Float{high: high, low: low}, acc
 }
-- 
2.43.0


From 80bdf9d650460c71b73a584b19cceacd7aaba0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:39 +0000
Subject: [PATCH 08/14] fix: float128ppc: decode to the exact sum of both
 parts, and opposite infinities to NaN

Sums wider than 106 bits were rounded, the sign of NaNs was lost, and opposite
infinities panicked.
---
 float128ppc/float128ppc.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/float128ppc/float128ppc.go b/float128ppc/float128ppc.go
index eee59c7..519302e 100644
--- a/float128ppc/float128ppc.go
+++ b/float128ppc/float128ppc.go
@@ -13,6 +13,9 @@ const (
 	// precision specifies the number of bits in the mantissa (including the
 	// implicit lead bit).
 	precision = 106
+	// maxPrecision is sufficient to represent the sum of any two double-precision
+	// values; from 2^1024 down to 2^-1074.
+	maxPrecision = 1024 + 1074 + 1
 )
 
 // Positive and negative Not-a-Number, infinity and zero.
@@ -158,11 +161,21 @@ func (f Float) Big() (x *big.Float, nan bool) {
 	x.SetPrec(precision)
 	x.SetMode(big.ToNearestEven)
 	if f.IsNaN() {
+		if math.IsNaN(f.high) && math.Signbit(f.high) {
+			// -NaN
+			x.Neg(x)
+		}
 		return x, true
 	}
 	h := big.NewFloat(f.high).SetPrec(precision)
 	l := big.NewFloat(f.low).SetPrec(precision)
 	x.Add(h, l)
+	if x.Acc() != big.Exact {
+		// The parts are further apart than the nominal precision; use as many
+		// bits as needed to represent their exact sum.
+		x.SetPrec(maxPrecision).Add(h, l)
+		x.SetPrec(x.MinPrec())
+	}
 
 	zero := big.NewFloat(0).SetPrec(precision)
 	if x.Cmp(zero) == 0 && math.Signbit(f.high) {
@@ -177,6 +190,7 @@ func (f Float) Big() (x *big.Float, nan bool) {
 
 // IsNaN returns true if the Float is NaN
 func (f Float) IsNaN() bool {
-	// NaN + NaN should be NaN in consideration
-	return math.IsNaN(f.high) || math.IsNaN(f.low)
+	// NaN + NaN should be NaN in consideration, and so should the sum of opposite
+	// infinities.
+	return math.IsNaN(f.high + f.low)
 }
-- 
2.43.0


From 35374c507261a91f881f8351b20eb813f9a0c852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 09/14] fix: strconv: shortest formatting when decimal points
 of the bounds differ

Apply the fix of https://golang.org/issue/29491 to the copy of roundShortest.
---
 internal/strconv/ftoa.go | 63 +++++++++++++++++++++++++++++++++-------
 1 file changed, 52 insertions(+), 11 deletions(-)

diff --git a/internal/strconv/ftoa.go b/internal/strconv/ftoa.go
index c2c5ea5..d837eac 100644
--- a/internal/strconv/ftoa.go
+++ b/internal/strconv/ftoa.go
@@ -296,39 +296,80 @@ func roundShortest(d *decimal, mant uint64, exp int, flt *floatInfo) {
 	// would round to the original mantissa and not the neighbors.
 	inclusive := mant%2 == 0
 
+	// As we walk the digits we want to know whether rounding up would fall
+	// within the upper bound. This is tracked by upperdelta:
+	//
+	// If upperdelta == 0, the digits of d and upper are the same so far.
+	//
+	// If upperdelta == 1, we saw a difference of 1 between d and upper on a
+	// previous digit and subsequently only 9s for d and 0s for upper.
+	// (Thus rounding up may fall outside the bound, if it is exclusive.)
+	//
+	// If upperdelta == 2, then the difference is greater than 1
+	// and we know that rounding up falls within the bound.
+	var upperdelta uint8
+
 	// Now we can figure out the minimum number of digits required.
 	// Walk along until d has distinguished itself from upper and lower.
-	for i := 0; i < d.nd; i++ {
+	for ui := 0; ; ui++ {
+		// lower, d, and upper may have the decimal points at different
+		// places. In this case upper is the longest, so we iterate from
+		// ui==0 and start li and mi at (possibly) -1.
+		mi := ui - upper.dp + d.dp
+		if mi >= d.nd {
+			break
+		}
+		li := ui - upper.dp + lower.dp
 		l := byte('0') // lower digit
-		if i < lower.nd {
-			l = lower.d[i]
+		if li >= 0 && li < lower.nd {
+			l = lower.d[li]
+		}
+		m := byte('0') // middle digit
+		if mi >= 0 {
+			m = d.d[mi]
 		}
-		m := d.d[i]    // middle digit
 		u := byte('0') // upper digit
-		if i < upper.nd {
-			u = upper.d[i]
+		if ui < upper.nd {
+			u = upper.d[ui]
 		}
 
 		// Okay to round down (truncate) if lower has a different digit
 		// or if lower is inclusive and is exactly the result of rounding
 		// down (i.e., and we have reached the final digit of lower).
-		okdown := l != m || inclusive && i+1 == lower.nd
+		okdown := l != m || inclusive && li+1 == lower.nd
 
+		switch {
+		case upperdelta == 0 && m+1 < u:
+			// Example:
+			// m = 12345xxx
+			// u = 12347xxx
+			upperdelta = 2
+		case upperdelta == 0 && m != u:
+			// Example:
+			// m = 12345xxx
+			// u = 12346xxx
+			upperdelta = 1
+		case upperdelta == 1 && (m != '9' || u != '0'):
+			// Example:
+			// m = 1234598x
+			// u = 1234600x
+			upperdelta = 2
+		}
 		// Okay to round up if upper has a different digit and either upper
 		// is inclusive or upper is bigger than the result of rounding up.
-		okup := m != u && (inclusive || m+1 < u || i+1 < upper.nd)
+		okup := upperdelta > 0 && (inclusive || upperdelta > 1 || ui+1 < upper.nd)
 
 		// If it's okay to do either, then round to the nearest one.
 		// If it's okay to do only one, do it.
 		switch {
 		case okdown && okup:
-			d.Round(i + 1)
+			d.Round(mi + 1)
 			return
 		case okdown:
-			d.RoundDown(i + 1)
+			d.RoundDown(mi + 1)
 			return
 		case okup:
-			d.RoundUp(i + 1)
+			d.RoundUp(mi + 1)
 			return
 		}
 	}
-- 
2.43.0


From 2147517260630f7c985be0b668ec91d08a9b8e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 10/14] fix: do not panic for infinities in IsExact16,
 IsExact32 and IsExact64

---
 float.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/float.go b/float.go
index b5053f6..3e1f63d 100644
--- a/float.go
+++ b/float.go
@@ -16,6 +16,9 @@ func IsExact16(x *big.Float) bool {
 	if acc != big.Exact {
 		return false
 	}
+	if x.IsInf() {
+		return true
+	}
 	s1 := strconv.FormatFloat(f, 'e', -1, 16)
 	s2 := trimZeros(x.Text('e', 100))
 	return s1 == s2
@@ -28,6 +31,9 @@ func IsExact32(x *big.Float) bool {
 	if acc != big.Exact {
 		return false
 	}
+	if x.IsInf() {
+		return true
+	}
 	s1 := strconv.FormatFloat(float64(f), 'e', -1, 32)
 	s2 := trimZeros(x.Text('e', 100))
 	return s1 == s2
@@ -40,6 +46,9 @@ func IsExact64(x *big.Float) bool {
 	if acc != big.Exact {
 		return false
 	}
+	if x.IsInf() {
+		return true
+	}
 	s1 := strconv.FormatFloat(f, 'e', -1, 64)
 	s2 := trimZeros(x.Text('e', 100))
 	return s1 == s2
-- 
2.43.0


From ec35a16dd6a6ee852d5bcdbb0032623ac8425af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 11/14] fix: do not accept unrepresentable numbers in IsExact16

---
 float.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/float.go b/float.go
index 3e1f63d..ea41e39 100644
--- a/float.go
+++ b/float.go
@@ -6,6 +6,7 @@ import (
 	"math/big"
 	"strings"
 
+	"github.com/mewmew/float/binary16"
 	"github.com/mewmew/float/internal/strconv"
 )
 
@@ -16,6 +17,11 @@ func IsExact16(x *big.Float) bool {
 	if acc != big.Exact {
 		return false
 	}
+	// The shortest decimal of the nearest 16-bit value may equal x even if x is
+	// not representable (e.g. 65500).
+	if _, acc := binary16.NewFromBig(x); acc != big.Exact {
+		return false
+	}
 	if x.IsInf() {
 		return true
 	}
-- 
2.43.0


From b133f03f0d7a12b94e416b8d7b765c11632094b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:39 +0000
Subject: [PATCH 12/14] fix: keep the sign of NaN where conversions between
 float32 and float64 do not

With GO386=softfloat, for example, float32(-math.NaN()) has no sign.
---
 binary128/binary128.go     | 6 +++++-
 binary16/binary16.go       | 6 +++++-
 float128ppc/float128ppc.go | 6 +++++-
 float80x86/float80x86.go   | 6 +++++-
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/binary128/binary128.go b/binary128/binary128.go
index f4f25fd..467f164 100644
--- a/binary128/binary128.go
+++ b/binary128/binary128.go
@@ -56,6 +56,10 @@ func NewFromBits(a, b uint64) Float {
 // NewFromFloat32 returns the nearest quadruple precision floating-point number
 // for x and the accuracy of the conversion.
 func NewFromFloat32(x float32) (Float, big.Accuracy) {
+	// Not every platform keeps the sign of a NaN converted to float64.
+	if x != x && math.Float32bits(x)>>31 != 0 {
+		return NegNaN, big.Exact
+	}
 	f, acc := NewFromFloat64(float64(x))
 	if acc == big.Exact {
 		_, acc = f.Float32()
@@ -238,7 +242,7 @@ func (f Float) Float32() (float32, big.Accuracy) {
 	x, nan := f.Big()
 	if nan {
 		if x.Signbit() {
-			return float32(-math.NaN()), big.Exact
+			return -float32(math.NaN()), big.Exact
 		}
 		return float32(math.NaN()), big.Exact
 	}
diff --git a/binary16/binary16.go b/binary16/binary16.go
index 9865869..1241ac6 100644
--- a/binary16/binary16.go
+++ b/binary16/binary16.go
@@ -55,6 +55,10 @@ func NewFromBits(bits uint16) Float {
 // NewFromFloat32 returns the nearest half precision floating-point number for x
 // and the accuracy of the conversion.
 func NewFromFloat32(x float32) (Float, big.Accuracy) {
+	// Not every platform keeps the sign of a NaN converted to float64.
+	if x != x && math.Float32bits(x)>>31 != 0 {
+		return NegNaN, big.Exact
+	}
 	f, acc := NewFromFloat64(float64(x))
 	if acc == big.Exact {
 		_, acc = f.Float32()
@@ -212,7 +216,7 @@ func (f Float) Float32() (float32, big.Accuracy) {
 	x, nan := f.Big()
 	if nan {
 		if x.Signbit() {
-			return float32(-math.NaN()), big.Exact
+			return -float32(math.NaN()), big.Exact
 		}
 		return float32(math.NaN()), big.Exact
 	}
diff --git a/float128ppc/float128ppc.go b/float128ppc/float128ppc.go
index 519302e..e62acbb 100644
--- a/float128ppc/float128ppc.go
+++ b/float128ppc/float128ppc.go
@@ -55,6 +55,10 @@ func NewFromBits(a, b uint64) Float {
 // NewFromFloat32 returns the nearest double-double precision floating-point
 // number for x and the accuracy of the conversion.
 func NewFromFloat32(x float32) (Float, big.Accuracy) {
+	// Not every platform keeps the sign of a NaN converted to float64.
+	if x != x && math.Float32bits(x)>>31 != 0 {
+		return NegNaN, big.Exact
+	}
 	f, acc := NewFromFloat64(float64(x))
 	if acc == big.Exact {
 		_, acc = f.Float32()
@@ -135,7 +139,7 @@ func (f Float) Float32() (float32, big.Accuracy) {
 	x, nan := f.Big()
 	if nan {
 		if x.Signbit() {
-			return float32(-math.NaN()), big.Exact
+			return -float32(math.NaN()), big.Exact
 		}
 		return float32(math.NaN()), big.Exact
 	}
diff --git a/float80x86/float80x86.go b/float80x86/float80x86.go
index 326a8ef..4967ded 100644
--- a/float80x86/float80x86.go
+++ b/float80x86/float80x86.go
@@ -59,6 +59,10 @@ func NewFromBits(se uint16, m uint64) Float {
 // NewFromFloat32 returns the nearest x86 extended precision floating-point
 // number for x and the accuracy of the conversion.
 func NewFromFloat32(x float32) (Float, big.Accuracy) {
+	// Not every platform keeps the sign of a NaN converted to float64.
+	if x != x && math.Float32bits(x)>>31 != 0 {
+		return NegNaN, big.Exact
+	}
 	f, acc := NewFromFloat64(float64(x))
 	if acc == big.Exact {
 		_, acc = f.Float32()
@@ -235,7 +239,7 @@ func (f Float) Float32() (float32, big.Accuracy) {
 	x, nan := f.Big()
 	if nan {
 		if x.Signbit() {
-			return float32(-math.NaN()), big.Exact
+			return -float32(math.NaN()), big.Exact
 		}
 		return float32(math.NaN()), big.Exact
 	}
-- 
2.43.0


From d5c5dddddaa4502ac6db504199fa1ac435073fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 13/14] fix: strconv: do not panic for an unknown format with
 precision 0

---
 internal/strconv/ftoa.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/strconv/ftoa.go b/internal/strconv/ftoa.go
index d837eac..2dcba5e 100644
--- a/internal/strconv/ftoa.go
+++ b/internal/strconv/ftoa.go
@@ -149,6 +149,9 @@ func genericFtoa(dst []byte, val float64, fmt byte, prec, bitSize int) []byte {
 				prec = 1
 			}
 			digits = prec
+		default:
+			// Invalid mode.
+			digits = 1
 		}
 		if digits <= 15 {
 			// try fast algorithm when the number of digits is reasonable.
-- 
2.43.0


From 7882f58d0780b0f33e809bdaf10be880f20fa811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:50 +0000
Subject: [PATCH 14/14] fix: FormatFloat reserved memory for any precision
 asked for

With formats whose result is short whatever the precision ('b', 'g', unknown
ones, and infinities and NaNs in all formats), a huge precision made FormatFloat
panic or run out of memory.
---
 internal/strconv/ftoa.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/strconv/ftoa.go b/internal/strconv/ftoa.go
index 2dcba5e..31373c3 100644
--- a/internal/strconv/ftoa.go
+++ b/internal/strconv/ftoa.go
@@ -50,7 +50,13 @@ var float64info = floatInfo{52, 11, -1023}
 // The special precision -1 uses the smallest number of digits
 // necessary such that ParseFloat will return f exactly.
 func FormatFloat(f float64, fmt byte, prec, bitSize int) string {
-	return string(genericFtoa(make([]byte, 0, max(prec+4, 24)), f, fmt, prec, bitSize))
+	// The result may be short whatever the precision (e.g. for 'g'), so prec
+	// alone is no reason to reserve much memory.
+	n := max(prec+4, 24)
+	if n > 1024 {
+		n = 1024
+	}
+	return string(genericFtoa(make([]byte, 0, n), f, fmt, prec, bitSize))
 }
 
 // AppendFloat appends the string form of the floating-point number f,
-- 
2.43.0

