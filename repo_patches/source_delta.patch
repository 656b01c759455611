From 787de419be1297b7fa901b5ecfe2dca8661e0dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:31 +0000
Subject: [PATCH 01/55] fix: FMA ignored its addend when the receiver had a
 sticky InvalidOperation

---
 big_ctx.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 3535589..1a631ad 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -1184,12 +1184,16 @@ func (c Context) FMA(z, x, y, u *Big) *Big {
 	z0 := z
 	if z == u {
 		z0 = WithContext(c)
+		z0.Context.Conditions = 0
 	}
 	c.mul(z0, x, y)
-	if z0.Context.Conditions&InvalidOperation != 0 {
-		return z.setShared(z0)
+	// Only skip the addition if the product itself is a NaN:
+	// z.Context.Conditions is sticky and might have been raised
+	// by a previous operation.
+	if !z0.IsNaN(0) || u.IsNaN(-1) {
+		c.Add(z0, z0, u)
 	}
-	c.Add(z0, z0, u)
+	z.Context.Conditions |= z0.Context.Conditions
 	return z.setShared(z0)
 }
 
-- 
2.43.0


From a828a4cfd3a35e0792309d13ca26e160a387a0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 02/55] fix: Atan summed its series and added pi/6 without
 guard digits

Atan computed the binary split sum and the pi/6 of its argument reduction at the
precision of the result, so the last digit was off by up to a few units.
---
 big_ctx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 1a631ad..1794fbf 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -444,7 +444,7 @@ func (c Context) Atan(z, x *Big) *Big {
 	}
 
 	y, ySq, ySqPlus1, segment, halved := ctx.prepAtan(z, x) // z == y, maybe.
-	result := BinarySplitDynamic(c,
+	result := BinarySplitDynamic(ctx,
 		func(_ uint64) *Big { return y },
 		ctx.getAtanP(ySq),
 		func(_ uint64) *Big { return one.get() },
@@ -462,7 +462,7 @@ func (c Context) Atan(z, x *Big) *Big {
 	// set 2: 1 < value               // then result = pi/2 - result
 	switch segment {
 	case 1:
-		piOver6 := c.pi(tmp) // clobber _2p
+		piOver6 := ctx.pi(tmp) // clobber _2p
 		ctx.Quo(piOver6, piOver6, six.get())
 		ctx.Add(z, piOver6, z)
 	case 2:
-- 
2.43.0


From b876d35b1bc7820191d92988981c35fb2d3c80fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 03/55] fix: Quo never checked the exponent range and
 over-reduced exact quotients

Quo did not report overflow, underflow or subnormal results, removed trailing
zeros past the ideal exponent (100/1 was 1E+2), could return one digit more than
the precision (10/1 at one digit), omitted Rounded when it dropped zeros and,
when the divisor had been scaled in place, compared the remainder with the
quotient while rounding.
---
 big_ctx.go | 222 +++++++++++++++++++++++++++++++----------------------
 1 file changed, 129 insertions(+), 93 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 1794fbf..d8f1734 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2258,82 +2258,102 @@ func (c Context) Quo(z, x, y *Big) *Big {
 		zp = x.Precision() + int(math.Ceil(10*float64(yp)/3))
 	}
 
-	if x.isCompact() && y.isCompact() {
+	compact := x.isCompact() && y.isCompact()
+	xb, yb := &x.unscaled, &y.unscaled
+	if compact {
 		if cmpNorm(x.compact, x.Precision(), y.compact, yp) {
 			yp--
 		}
-
-		shift := zp + yp - x.Precision()
-		z.exp = (x.exp - y.exp) - shift
-		expadj := ideal - z.exp
-		if shift > 0 {
-			if sx, ok := arith.MulPow10(x.compact, uint64(shift)); ok {
-				if z.quo(m, sx, x.form, y.compact, y.form) && expadj > 0 {
-					c.simpleReduce(z)
-				}
-				return z
-			}
-			xb := z.unscaled.SetUint64(x.compact)
-			xb = arith.MulBigPow10(xb, xb, uint64(shift))
-			yb := new(big.Int).SetUint64(y.compact)
-			rb := new(big.Int)
-			if z.quoBig(m, xb, x.form, yb, y.form, rb) && expadj > 0 {
-				c.simpleReduce(z)
-			}
-			return z
-		}
-		if shift < 0 {
-			if sy, ok := arith.MulPow10(y.compact, uint64(-shift)); ok {
-				if z.quo(m, x.compact, x.form, sy, y.form) && expadj > 0 {
-					c.simpleReduce(z)
-				}
-				return z
-			}
-			yb := z.unscaled.SetUint64(y.compact)
-			yb = arith.MulBigPow10(yb, yb, uint64(-shift))
-			xb := new(big.Int).SetUint64(x.compact)
-			rb := new(big.Int)
-			if z.quoBig(m, xb, x.form, yb, y.form, rb) && expadj > 0 {
-				c.simpleReduce(z)
-			}
-			return z
+	} else {
+		if x.isCompact() {
+			xb = new(big.Int).SetUint64(x.compact)
+		} else if y.isCompact() {
+			yb = new(big.Int).SetUint64(y.compact)
 		}
-		if z.quo(m, x.compact, x.form, y.compact, y.form) && expadj > 0 {
-			c.simpleReduce(z)
+		if cmpNormBig(&z.unscaled, xb, x.Precision(), yb, yp) {
+			yp--
 		}
-		return z
 	}
 
-	xb, yb := &x.unscaled, &y.unscaled
-	if x.isCompact() {
-		xb = new(big.Int).SetUint64(x.compact)
-	} else if y.isCompact() {
-		yb = new(big.Int).SetUint64(y.compact)
+	// The quotient has zp digits unless it's subnormal, in which
+	// case it must only be rounded once, to etiny.
+	shift := zp + yp - x.Precision()
+	subnormal := false
+	if adj := ideal - shift + zp - 1; adj < c.emin() {
+		subnormal = true
+		shift -= min(c.emin()-adj, zp+1)
 	}
+	z.exp = ideal - shift
 
-	if cmpNormBig(&z.unscaled, xb, x.Precision(), yb, yp) {
-		yp--
+	var exact bool
+	if compact {
+		exact = z.quoCompact(m, x.compact, x.form, y.compact, y.form, shift)
+	} else {
+		var tmp *big.Int
+		if shift > 0 {
+			tmp = alias(&z.unscaled, yb)
+			xb = arith.MulBigPow10(tmp, xb, uint64(shift))
+		} else if shift < 0 {
+			tmp = alias(&z.unscaled, xb)
+			yb = arith.MulBigPow10(tmp, yb, uint64(-shift))
+		} else {
+			tmp = new(big.Int)
+		}
+		exact = z.quoBig(m, xb, x.form, yb, y.form, alias(tmp, &z.unscaled))
+	}
+	if z.isSpecial() {
+		return z
 	}
 
-	shift := zp + yp - x.Precision()
-	z.exp = (x.exp - y.exp) - shift
-
-	var tmp *big.Int
-	if shift > 0 {
-		tmp = alias(&z.unscaled, yb)
-		xb = arith.MulBigPow10(tmp, xb, uint64(shift))
-	} else if shift < 0 {
-		tmp = alias(&z.unscaled, xb)
-		yb = arith.MulBigPow10(tmp, yb, uint64(-shift))
-	} else {
-		tmp = new(big.Int)
+	if exact {
+		if z.exp < ideal {
+			// The exponent of an exact quotient is as close as
+			// possible to the ideal exponent.
+			c.simpleReduce(z)
+			if shift := z.exp - ideal; shift > 0 {
+				c.shiftl(z, uint64(shift))
+				z.exp = ideal
+			}
+		}
+		if z.exp > ideal || z.Precision() > zp {
+			z.Context.Conditions |= Rounded
+		}
 	}
+	z.carry(zp)
+	if subnormal && !exact {
+		z.exp = c.etiny()
+		z.Context.Conditions |= Subnormal | Underflow
+		if z.isZero() {
+			z.Context.Conditions |= Clamped
+		}
+	}
+	return c.fix(z)
+}
 
-	expadj := ideal - z.exp
-	if z.quoBig(m, xb, x.form, yb, y.form, alias(tmp, &z.unscaled)) && expadj > 0 {
-		c.simpleReduce(z)
+// quoCompact sets z's coefficient to x * 10**shift / y, rounded
+// per m, and reports whether the division was exact.
+func (z *Big) quoCompact(
+	m RoundingMode,
+	x uint64, xneg form,
+	y uint64, yneg form,
+	shift int,
+) bool {
+	if shift >= 0 {
+		if sx, ok := arith.MulPow10(x, uint64(shift)); ok {
+			return z.quo(m, sx, xneg, y, yneg)
+		}
+		xb := z.unscaled.SetUint64(x)
+		xb = arith.MulBigPow10(xb, xb, uint64(shift))
+		yb := new(big.Int).SetUint64(y)
+		return z.quoBig(m, xb, xneg, yb, yneg, new(big.Int))
 	}
-	return z
+	if sy, ok := arith.MulPow10(y, uint64(-shift)); ok {
+		return z.quo(m, x, xneg, sy, yneg)
+	}
+	yb := z.unscaled.SetUint64(y)
+	yb = arith.MulBigPow10(yb, yb, uint64(-shift))
+	xb := new(big.Int).SetUint64(x)
+	return z.quoBig(m, xb, xneg, yb, yneg, new(big.Int))
 }
 
 func (z *Big) quo(m RoundingMode, x uint64, xneg form, y uint64, yneg form) bool {
@@ -2346,6 +2366,11 @@ func (z *Big) quo(m RoundingMode, x uint64, xneg form, y uint64, yneg form) bool
 		return true
 	}
 
+	if m == unnecessary {
+		z.setNaN(InvalidOperation|InvalidContext|InsufficientStorage, qnan, quotermexp)
+		return false
+	}
+
 	z.Context.Conditions |= Inexact | Rounded
 	if m == ToZero {
 		return false
@@ -2356,35 +2381,44 @@ func (z *Big) quo(m RoundingMode, x uint64, xneg form, y uint64, yneg form) bool
 		rc = arith.Cmp(lo, y)
 	}
 
-	if m == unnecessary {
-		z.setNaN(InvalidOperation|InvalidContext|InsufficientStorage, qnan, quotermexp)
-		return false
-	}
-
 	if m.needsInc(z.compact&1 != 0, rc, xneg == yneg) {
 		z.Context.Conditions |= Rounded
 		z.compact++
-
-		// Test to see if we accidentally increased precision because of rounding.
-		// For example, given n = 17 and RoundingMode = ToNearestEven, rounding
-		//
-		//   0.9999999999999999994284
-		//
-		// results in
-		//
-		//   0.99999999999999999 (precision = 17)
-		//
-		// which is rounded up to
-		//
-		//   1.00000000000000000 (precision = 18)
-		if arith.Length(z.compact) != z.precision {
-			z.compact /= 10
-			z.exp++
+		z.precision = arith.Length(z.compact)
+		if z.compact == cst.Inflated {
+			z.unscaled.SetUint64(cst.Inflated)
 		}
 	}
 	return false
 }
 
+// carry removes the extra digit that rounding z to prec digits
+// creates if every digit was a nine. For example, given n = 17
+// and RoundingMode = ToNearestEven, rounding
+//
+//   0.9999999999999999994284
+//
+// results in
+//
+//   0.99999999999999999 (precision = 17)
+//
+// which is rounded up to
+//
+//   1.00000000000000000 (precision = 18)
+func (z *Big) carry(prec int) {
+	if z.Precision() <= prec {
+		return
+	}
+	if z.isCompact() {
+		z.compact /= 10
+		z.precision = arith.Length(z.compact)
+	} else {
+		z.unscaled.Quo(&z.unscaled, cst.TenInt)
+		z.norm()
+	}
+	z.exp++
+}
+
 func (z *Big) quoBig(
 	m RoundingMode,
 	x *big.Int, xneg form,
@@ -2394,12 +2428,23 @@ func (z *Big) quoBig(
 	z.compact = cst.Inflated
 	z.form = xneg ^ yneg
 
+	if y == &z.unscaled || y == r {
+		// The divisor is needed after the division in order to
+		// round the quotient.
+		y = new(big.Int).Set(y)
+	}
+
 	q, r := z.unscaled.QuoRem(x, y, r)
 	if r.Sign() == 0 {
 		z.norm()
 		return true
 	}
 
+	if m == unnecessary {
+		z.setNaN(InvalidOperation|InvalidContext|InsufficientStorage, qnan, quotermexp)
+		return false
+	}
+
 	z.Context.Conditions |= Inexact | Rounded
 	if m == ToZero {
 		z.norm()
@@ -2415,19 +2460,9 @@ func (z *Big) quoBig(
 		rc = r.Mul(r, cst.TwoInt).CmpAbs(y)
 	}
 
-	if m == unnecessary {
-		z.setNaN(InvalidOperation|InvalidContext|InsufficientStorage, qnan, quotermexp)
-		return false
-	}
-
 	if m.needsInc(q.Bit(0) != 0, rc, xneg == yneg) {
 		z.Context.Conditions |= Rounded
-		z.precision = arith.BigLength(q)
 		arith.Add(q, q, 1)
-		if arith.BigLength(q) != z.precision {
-			q.Quo(q, cst.TenInt)
-			z.exp++
-		}
 	}
 	z.norm()
 	return false
@@ -2815,6 +2850,7 @@ func (c Context) round(z *Big) *Big {
 	shift := p - n
 	c.shiftr(z, uint64(shift))
 	z.exp += shift
+	z.carry(n)
 	z.Context.Conditions |= Rounded
 	return z
 }
-- 
2.43.0


From 402a828eb5eaf0803ac91155c492c8066fd7b766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 04/55] fix: overflow, underflow and subnormal results

Context.fix treated special values as if they were finite, ignored the rounding
mode on overflow, replaced subnormal results by 1 whenever the shift was exact,
raised Underflow for exact results and never raised Inexact or Rounded. Overflow
caused by rounding itself went unnoticed.
---
 big_ctx.go | 23 ++++++++++++++++-------
 util.go    | 39 ++++++++++++++++++++++-----------------
 2 files changed, 38 insertions(+), 24 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index d8f1734..7b728f3 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2823,7 +2823,7 @@ func (c Context) Round(z *Big) *Big {
 	if z.invalidContext(c) {
 		return z
 	}
-	return c.round(c.fix(z))
+	return c.fix(c.round(c.fix(z)))
 }
 
 func (c Context) finish(z *Big) *Big {
@@ -2831,7 +2831,8 @@ func (c Context) finish(z *Big) *Big {
 	if c.OperatingMode != GDA {
 		return z
 	}
-	return c.round(z)
+	// Rounding can carry the result past the largest exponent.
+	return c.fix(c.round(z))
 }
 
 // round rounds z to the Context's precision, if necessary.
@@ -2880,14 +2881,22 @@ func (c Context) shiftl(z *Big, n uint64) {
 	z.precision = arith.BigLength(&z.unscaled)
 }
 
+// shiftr divides z's coefficient by 10**n, rounding per c. It
+// reports whether the division was exact.
 func (c Context) shiftr(z *Big, n uint64) bool {
-	if zp := uint64(z.Precision()); n >= zp {
-		z.compact = 0
-		z.precision = 1
-		return n == zp
+	if z.isZero() {
+		return true
 	}
 
-	if z.isZero() {
+	if n > uint64(z.Precision()) {
+		// |z| < 10**(n-1), so z is less than one tenth of a unit
+		// in the last place of the result.
+		z.Context.Conditions |= Inexact | Rounded
+		z.compact = 0
+		if c.RoundingMode.needsInc(false, -1, z.form&signbit == 0) {
+			z.compact = 1
+		}
+		z.precision = 1
 		return false
 	}
 
diff --git a/util.go b/util.go
index 0b78071..060f06a 100644
--- a/util.go
+++ b/util.go
@@ -26,30 +26,35 @@ func (z *Big) norm() *Big {
 
 // fix check for overflow, underflow, and clamping.
 func (c Context) fix(z *Big) *Big {
+	if z.isSpecial() {
+		return z
+	}
 	adj := z.adjusted()
 
 	if adj > c.emax() {
-		prec := c.precision()
-
 		if z.isZero() {
 			z.exp = c.emax()
 			z.Context.Conditions |= Clamped
 			return z
 		}
 
-		switch m := c.RoundingMode; m {
-		case ToNearestAway, ToNearestEven, ToNearestTowardZero:
-			z.SetInf(z.Signbit())
-		case AwayFromZero:
-			// OK
+		// The result is infinity, unless the rounding mode rounds
+		// toward zero. In that case it's the largest finite number.
+		toInf := true
+		switch c.RoundingMode {
 		case ToZero:
-			z.exp = c.emax() - prec + 1
-		case ToPositiveInf, ToNegativeInf:
-			if m == ToPositiveInf == z.Signbit() {
-				z.exp = c.emax() - prec + 1
-			} else {
-				z.SetInf(false)
-			}
+			toInf = false
+		case ToPositiveInf:
+			toInf = !z.Signbit()
+		case ToNegativeInf:
+			toInf = z.Signbit()
+		}
+		if prec := c.precision(); toInf || prec == UnlimitedPrecision {
+			z.SetInf(z.Signbit())
+		} else {
+			maxfor(&z.unscaled, prec, +1)
+			z.exp = c.etop()
+			z.norm()
 		}
 		z.Context.Conditions |= Overflow | Inexact | Rounded
 		return z
@@ -68,11 +73,11 @@ func (c Context) fix(z *Big) *Big {
 
 		z.Context.Conditions |= Subnormal
 		if z.exp < tiny {
-			if c.shiftr(z, uint64(tiny-z.exp)) {
-				z.compact = 1
+			z.Context.Conditions |= Rounded
+			if !c.shiftr(z, uint64(tiny-z.exp)) {
+				z.Context.Conditions |= Underflow
 			}
 			z.exp = tiny
-			z.Context.Conditions |= Underflow
 			if z.isZero() {
 				z.Context.Conditions |= Clamped
 			}
-- 
2.43.0


From 5e5d2ef33e5fc98898801fc61a21ec7efa5ce127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 05/55] fix: rounding carry in Quantize and RoundToInt

Rounding 9.99 to one decimal place (or 9.5 to an integer) changed the scale of
the result and could exceed the context's precision.
---
 big_ctx.go | 59 +++++++++++++++++++++++++++---------------------------
 1 file changed, 30 insertions(+), 29 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 7b728f3..b56a266 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2166,37 +2166,27 @@ func (c Context) Quantize(z *Big, n int) *Big {
 		return z.setNaN(InvalidOperation, qnan, quantprec)
 	}
 
-	z.exp = n
-	if shift == 0 {
-		return z
-	}
-
-	if shift < 0 {
+	cond := z.Context.Conditions
+	if shift >= 0 {
+		c.shiftl(z, uint64(shift))
+	} else {
 		z.Context.Conditions |= Rounded
+		c.shiftr(z, uint64(-shift))
 	}
+	z.exp = n
 
-	m := c.RoundingMode
-	neg := z.form & signbit
-	if z.isCompact() {
-		if shift > 0 {
-			if zc, ok := arith.MulPow10(z.compact, uint64(shift)); ok {
-				return z.setTriple(zc, neg, n)
-			}
-			// shift < 0
-		} else if yc, ok := arith.Pow10(uint64(-shift)); ok {
-			z.quo(m, z.compact, neg, yc, 0)
-			return z
-		}
-		z.unscaled.SetUint64(z.compact)
-		z.compact = cst.Inflated
+	if z.isZero() {
+		return z
 	}
 
-	if shift > 0 {
-		arith.MulBigPow10(&z.unscaled, &z.unscaled, uint64(shift))
-		z.precision = arith.BigLength(&z.unscaled)
-	} else {
-		var r big.Int
-		z.quoBig(m, &z.unscaled, neg, arith.BigPow10(uint64(-shift)), 0, &r)
+	// Rounding can add a digit: quantizing 9.99 to one decimal
+	// place results in 10.0.
+	if z.Precision() > c.precision() || z.adjusted() > c.emax() {
+		z.Context.Conditions = cond
+		return z.setNaN(InvalidOperation, qnan, quantprec)
+	}
+	if z.adjusted() < c.emin() {
+		z.Context.Conditions |= Subnormal
 	}
 	return z
 }
@@ -2858,11 +2848,22 @@ func (c Context) round(z *Big) *Big {
 
 // RoundToInt rounds z down to an integral value.
 func (c Context) RoundToInt(z *Big) *Big {
-	if z.isSpecial() || z.exp >= 0 {
+	if z.invalidContext(c) {
+		return z
+	}
+	if z.isSpecial() {
+		z.checkNaNs(z, z, quantization)
+		return z
+	}
+	if z.exp >= 0 {
 		return z
 	}
-	c.Precision = z.Precision()
-	return c.Quantize(z, 0)
+	if !z.isZero() {
+		z.Context.Conditions |= Rounded
+		c.shiftr(z, uint64(-z.exp))
+	}
+	z.exp = 0
+	return z
 }
 
 func (c Context) shiftl(z *Big, n uint64) {
-- 
2.43.0


From 5b724541b4e3d22662947a3777efb3513a812e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:02 +0000
Subject: [PATCH 06/55] fix: remainders with a fractional exponent or an
 aliased receiver

QuoRem never set the exponent of the remainder (1.5 rem 1 was 5) or of a large
quotient, fell through to the division by zero result for 0/0, and set the
remainder of x/Inf to zero. Rem computed the exponent of the remainder from
operands the division had already overwritten. Dividing by a much larger number
no longer scales the divisor.
---
 big_ctx.go | 145 +++++++++++++++++++++++++----------------------------
 1 file changed, 67 insertions(+), 78 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index b56a266..76b4193 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2530,19 +2530,31 @@ func (c Context) QuoRem(z, x, y, r *Big) (*Big, *Big) {
 				// 0 / 0
 				z.setNaN(InvalidOperation|DivisionUndefined, qnan, quo00)
 				r.setNaN(InvalidOperation|DivisionUndefined, qnan, quo00)
+				return z, r
 			}
 			// x / 0
+			xsign := x.Signbit()
 			z.Context.Conditions |= DivisionByZero
 			r.Context.Conditions |= DivisionByZero
-			return z.SetInf(sign != 0), r.SetInf(x.Signbit())
+			return z.SetInf(sign != 0), r.SetInf(xsign)
 		}
 		if x.isZero() {
 			// 0 / y
-			z.setZero((x.form^y.form)&signbit, 0)
-			r.setZero(x.form, y.exp-x.exp)
+			xsign, exp := x.form&signbit, min(x.exp, y.exp)
+			z.setZero(sign, 0)
+			r.setZero(xsign, exp)
 			return c.fix(z), c.fix(r)
 		}
-		return c.quorem(z, r, x, y)
+		c.quorem(z, r, x, y)
+		if z.isSpecial() {
+			return z, r
+		}
+		if z.Precision() > c.precision() {
+			z.setNaN(DivisionImpossible, qnan, quointprec)
+			r.setNaN(DivisionImpossible, qnan, quointprec)
+			return z, r
+		}
+		return c.finish(z), c.finish(r)
 	}
 
 	// NaN / NaN
@@ -2559,110 +2571,86 @@ func (c Context) QuoRem(z, x, y, r *Big) (*Big, *Big) {
 			return z, r.Set(z)
 		}
 		// ±Inf / y
-		return z.SetInf(sign != 0), r.SetInf(x.form&signbit != 0)
+		xsign := x.Signbit()
+		return z.SetInf(sign != 0), r.SetInf(xsign)
 	}
 	// x / ±Inf
+	c.Set(r, x)
 	z.Context.Conditions |= Clamped
 	z.setZero(sign, c.etiny())
-	r.setZero(x.form&signbit, 0)
 	return z, r
 }
 
+// quorem sets z0 to the integer part of x / y and z1, if it isn't
+// nil, to the remainder. It does not round either of them.
 func (c Context) quorem(z0, z1, x, y *Big) (*Big, *Big) {
-	m := c.RoundingMode
-	zp := c.precision()
-
-	if x.adjusted()-y.adjusted() > zp {
-		if z0 != nil {
-			z0.setNaN(DivisionImpossible, qnan, quorem_)
-		}
+	if x.adjusted()-y.adjusted() > c.precision() {
+		z0.setNaN(DivisionImpossible, qnan, quorem_)
 		if z1 != nil {
 			z1.setNaN(DivisionImpossible, qnan, quorem_)
 		}
 		return z0, z1
 	}
 
-	z := z0
-	if z == nil {
-		z = z1
+	var (
+		xneg = x.form & signbit
+		yneg = y.form & signbit
+		exp  = min(x.exp, y.exp)
+
+		shift = x.exp - y.exp
+	)
+
+	if shift < 0 && x.adjusted() < y.adjusted() {
+		// |x| < |y|, so don't bother scaling y.
+		if z1 != nil {
+			z1.Copy(x)
+		}
+		z0.setZero(xneg^yneg, 0)
+		return z0, z1
 	}
 
 	if x.isCompact() && y.isCompact() {
-		shift := x.exp - y.exp
+		xc, yc, ok := x.compact, y.compact, true
 		if shift > 0 {
-			if sx, ok := arith.MulPow10(x.compact, uint64(shift)); ok {
-				return m.quorem(z0, z1, sx, x.form, y.compact, y.form)
-			}
-			xb := z.unscaled.SetUint64(x.compact)
-			xb = arith.MulBigPow10(xb, xb, uint64(shift))
-			yb := new(big.Int).SetUint64(y.compact)
-			return m.quoremBig(z0, z1, xb, x.form, yb, y.form)
-		}
-		if shift < 0 {
-			if sy, ok := arith.MulPow10(y.compact, uint64(-shift)); ok {
-				return m.quorem(z0, z1, x.compact, x.form, sy, y.form)
+			xc, ok = arith.MulPow10(xc, uint64(shift))
+		} else if shift < 0 {
+			yc, ok = arith.MulPow10(yc, uint64(-shift))
+		}
+		if ok {
+			z0.setTriple(xc/yc, xneg^yneg, 0)
+			if z1 != nil {
+				z1.setTriple(xc%yc, xneg, exp)
 			}
-			yb := z.unscaled.SetUint64(y.compact)
-			yb = arith.MulBigPow10(yb, yb, uint64(-shift))
-			xb := new(big.Int).SetUint64(x.compact)
-			return m.quoremBig(z0, z1, xb, x.form, yb, y.form)
+			return z0, z1
 		}
-		return m.quorem(z0, z1, x.compact, x.form, y.compact, y.form)
 	}
 
 	xb, yb := &x.unscaled, &y.unscaled
 	if x.isCompact() {
 		xb = new(big.Int).SetUint64(x.compact)
-	} else if y.isCompact() {
+	}
+	if y.isCompact() {
 		yb = new(big.Int).SetUint64(y.compact)
 	}
-
-	shift := x.exp - y.exp
 	if shift > 0 {
-		tmp := alias(&z.unscaled, yb)
-		xb = arith.MulBigPow10(tmp, xb, uint64(shift))
-	} else {
-		tmp := alias(&z.unscaled, xb)
-		yb = arith.MulBigPow10(tmp, yb, uint64(-shift))
-	}
-	return m.quoremBig(z0, z1, xb, x.form, yb, y.form)
-}
-
-// TODO(eric): quorem and quoremBig should not be methods on RoundingMode
-
-func (m RoundingMode) quorem(
-	z0, z1 *Big,
-	x uint64, xneg form, y uint64, yneg form,
-) (*Big, *Big) {
-	if z0 != nil {
-		z0.setTriple(x/y, xneg^yneg, 0)
-	}
-	if z1 != nil {
-		z1.setTriple(x%y, xneg, 0)
-	}
-	return z0, z1
-}
-
-func (m RoundingMode) quoremBig(
-	z0, z1 *Big,
-	x *big.Int, xneg form,
-	y *big.Int, yneg form,
-) (*Big, *Big) {
-	if z0 == nil {
-		z1.unscaled.Rem(x, y)
-		z1.form = xneg
-		return z0, z1.norm()
+		xb = arith.MulBigPow10(new(big.Int), xb, uint64(shift))
+	} else if shift < 0 {
+		yb = arith.MulBigPow10(new(big.Int), yb, uint64(-shift))
 	}
 
+	var q, r big.Int
+	q.QuoRem(xb, yb, &r)
+	z0.unscaled.Set(&q)
+	z0.form = xneg ^ yneg
+	z0.exp = 0
+	z0.norm()
 	if z1 != nil {
-		z0.unscaled.QuoRem(x, y, &z1.unscaled)
+		z1.unscaled.Set(&r)
 		z1.form = xneg
+		z1.exp = exp
 		z1.norm()
-	} else {
-		z0.unscaled.QuoRem(x, y, new(big.Int))
 	}
-	z0.form = xneg ^ yneg
-	return z0.norm(), z1
+	return z0, z1
 }
 
 // Reduce reduces a finite z to its most simplest form.
@@ -2768,14 +2756,15 @@ func (c Context) Rem(z, x, y *Big) *Big {
 		}
 		if x.isZero() {
 			// 0 / y
-			return z.setZero(x.form&signbit, min(x.exp, y.exp))
+			return c.fix(z.setZero(x.form&signbit, min(x.exp, y.exp)))
 		}
 		// TODO(eric): See if we can get rid of tmp. See issue
 		// #72.
 		var tmp Big
-		_, z = c.quorem(&tmp, z, x, y)
-		z.exp = min(x.exp, y.exp)
-		tmp.exp = 0
+		c.quorem(&tmp, z, x, y)
+		if z.isSpecial() {
+			return z
+		}
 		if tmp.Precision() > c.precision() {
 			return z.setNaN(DivisionImpossible, qnan, quointprec)
 		}
-- 
2.43.0


From 1d146dfa121f4ce9f15fdddd91df5f8249bcd3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:40 +0000
Subject: [PATCH 07/55] fix: Ceil rounded to the precision and lost the sign of
 zero

Ceil negated its result with Neg, which rounds integers longer than the precision
that Floor leaves alone, and returned 0 rather than -0 for -1 < x <= -0.
---
 big_ctx.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 76b4193..ed893b2 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -864,8 +864,11 @@ func (c Context) getCosineQ() func(n uint64) *Big {
 // Ceil sets z to the least integer value greater than or equal
 // to x and returns z.
 func (c Context) Ceil(z, x *Big) *Big {
-	// ceil(x) = -floor(-x)
-	return c.Neg(z, c.Floor(z, z.CopyNeg(x)))
+	if z.CheckNaNs(x, nil) {
+		return z
+	}
+	c.RoundingMode = ToPositiveInf
+	return c.RoundToInt(z.Copy(x))
 }
 
 // E sets z to the mathematical constant e and returns z.
-- 
2.43.0


From 91b9bd15268bacb98b2d7d3e50e2ea8752c4ee9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:05 +0000
Subject: [PATCH 08/55] fix: Sqrt was not correctly rounded

Sqrt rounded an approximation with five extra digits and in the Context's rounding
mode, so the last digit of close cases and of every directed mode was wrong. It also
removed too many trailing zeros of exact results and lost the sign of zero if z == x.
Take the integer square root of the scaled coefficient and round it half even, as
the specification requires.
---
 big_ctx.go | 100 ++++++++++++++++++++++-------------------------------
 const.go   |   4 ---
 2 files changed, 41 insertions(+), 63 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index ed893b2..6770080 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2914,7 +2914,7 @@ func (c Context) Sqrt(z, x *Big) *Big {
 	ideal := -((-x.Scale() - (-x.Scale() & 1)) / 2)
 	if xs := x.Sign(); xs <= 0 {
 		if xs == 0 {
-			return z.SetMantScale(0, ideal).CopySign(z, x)
+			return c.fix(z.setZero(x.form&signbit, -ideal))
 		}
 		z.Context.Conditions |= InvalidOperation
 		return z.SetNaN(false)
@@ -2925,73 +2925,55 @@ func (c Context) Sqrt(z, x *Big) *Big {
 		return z.SetInf(false)
 	}
 
-	var (
-		prec = c.precision()
-		ctx  = Context{Precision: prec}
-		rnd  = z.Context.Conditions&Rounded != 0
-		ixt  = z.Context.Conditions&Inexact != 0
-	)
+	prec := c.precision()
 
-	// Source for the following algorithm:
-	//
-	//  T. E. Hull and A. Abrham. 1985. Properly rounded variable
-	//  precision square root. ACM Trans. Math. Softw. 11,
-	//  3 (September 1985), 229-237.
-	//  DOI: https://doi.org/10.1145/214408.214413
-
-	xprec := x.Precision()
-
-	// The algorithm requires a normalized "f in [0.1, 1)"
-	// Of the two ways to normalize f, adjusting its scale is
-	// the quickest. However, it then requires us to
-	// increment approx's scale by e/2 instead of simply
-	// setting it to e/2.
-	f := new(Big).Copy(x)
-	f.exp = -xprec
-	e := x.exp + xprec
-
-	var tmp Big // scratch space
-
-	if e&1 == 0 {
-		ctx.FMA(z, approx2.get(), f, approx1.get()) // approx := .259 + .819f
+	// Scale x's coefficient by an even power of ten such that
+	// its integer square root has at least prec+1 digits.
+	n := new(big.Int)
+	if x.isCompact() {
+		n.SetUint64(x.compact)
 	} else {
-		f.exp--                                     // f := f/10
-		e++                                         // e := e + 1
-		ctx.FMA(z, approx4.get(), f, approx3.get()) // approx := .0819 + 2.59f
+		n.Set(&x.unscaled)
 	}
-
-	maxp := prec + 5 // extra prec to skip weird +/- 0.5 adjustments
-	ctx.Precision = 3
-	pt5 := ptFive.get()
-	for {
-		// p := min(2*p - 2, maxp)
-		ctx.Precision = min(2*ctx.Precision-2, maxp)
-
-		// approx := .5*(approx + f/approx)
-		ctx.Mul(z, pt5, ctx.Add(&tmp, z, ctx.Quo(&tmp, f, z)))
-		if ctx.Precision == maxp {
-			break
+	shift := 0
+	if prec != UnlimitedPrecision {
+		shift = 2*(prec+1) - x.Precision()
+		if shift < 0 {
+			shift = 0
 		}
 	}
+	shift += (x.exp - shift) & 1
+	n = arith.MulBigPow10(n, n, uint64(shift))
 
-	// The paper also specifies an additional code block for
-	// adjusting approx.  This code never went into the branches
-	// that modified approx, and rounding to half even does the
-	// same thing. The GDA spec requires us to use rounding mode
-	// half even (speleotrove.com/decimal/daops.html#refsqrt)
-	// anyway.
-
-	z.exp += e / 2
-	ctx.Reduce(z)
-	if z.Precision() <= prec {
-		if !rnd {
-			z.Context.Conditions &= ^Rounded
+	var q, sq big.Int
+	q.Sqrt(n)
+	exact := sq.Mul(&q, &q).Cmp(n) == 0
+	if !exact {
+		if prec == UnlimitedPrecision {
+			return z.setNaN(InvalidOperation|InvalidContext|InsufficientStorage, qnan, quotermexp)
 		}
-		if !ixt {
-			z.Context.Conditions &= ^Inexact
+		// q isn't the result, so its last digit must not make
+		// it look like it's exactly halfway.
+		if sq.Rem(&q, cst.FiveInt).Sign() == 0 {
+			q.Add(&q, cst.OneInt)
 		}
 	}
-	return c.finish(z)
+	z.unscaled.Set(&q)
+	z.form = finite
+	z.exp = (x.exp - shift) / 2
+	z.norm()
+	if exact && z.exp < -ideal {
+		c.simpleReduce(z)
+		if shift := z.exp + ideal; shift > 0 {
+			c.shiftl(z, uint64(shift))
+			z.exp = -ideal
+		}
+	}
+
+	// The GDA spec requires us to use rounding mode half even.
+	// See speleotrove.com/decimal/daops.html#refsqrt
+	c.RoundingMode = ToNearestEven
+	return c.fix(c.round(c.fix(z)))
 }
 
 // sqrt3 sets z to sqrt(3) and returns z.
diff --git a/const.go b/const.go
index 5c39b55..8ccc838 100644
--- a/const.go
+++ b/const.go
@@ -35,10 +35,6 @@ var (
 	_Pi2   = newLazyDecimal("1.57079632679489661923132169163975144209858469968755291048747229615390820314310449931401741267105853399107404325664115332354692230477529111586267970406424055872514205135096926055277982231147447746519098221440548783296672306423782411689339158263560095457282428346173017430522716332410669680363012457064")
 	_Sqrt3 = newLazyDecimal("1.73205080756887729352744634150587236694280525381038062805580697945193301690880003708114618675724857567562614141540670302996994509499895247881165551209437364852809323190230558206797482010108467492326501531234326690332288665067225466892183797122704713166036786158801904998653737985938946765034750657605")
 
-	approx1 = newLazyDecimal("0.259")
-	approx2 = newLazyDecimal("0.819")
-	approx3 = newLazyDecimal("0.0819")
-	approx4 = newLazyDecimal("2.59")
 	ptFive  = newLazyDecimal("0.5")
 
 	_10005             = newLazyDecimal("10005")
-- 
2.43.0


From 283547b64492319776300ed37668f353eaa47d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:06 +0000
Subject: [PATCH 09/55] fix: some operations validated the receiver's Context
 rather than their own

Abs, Ceil, Floor, Hypot, Pow, Sqrt and Sub accepted an invalid Context, and rejected
a valid one if the receiver's was invalid.
---
 big_ctx.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 6770080..68e5d24 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -14,7 +14,7 @@ func (c Context) Abs(z, x *Big) *Big {
 	if debug {
 		x.validate()
 	}
-	if !z.invalidContext(z.Context) && !z.checkNaNs(x, x, absvalue) {
+	if !z.invalidContext(c) && !z.checkNaNs(x, x, absvalue) {
 		c.finish(z.copyAbs(x))
 	}
 	return z
@@ -864,7 +864,7 @@ func (c Context) getCosineQ() func(n uint64) *Big {
 // Ceil sets z to the least integer value greater than or equal
 // to x and returns z.
 func (c Context) Ceil(z, x *Big) *Big {
-	if z.CheckNaNs(x, nil) {
+	if z.invalidContext(c) || z.checkNaNs(x, x, 0) {
 		return z
 	}
 	c.RoundingMode = ToPositiveInf
@@ -1170,7 +1170,7 @@ func (e *expg) Term() Term {
 // Floor sets z to the greatest integer value less than or equal
 // to x and returns z.
 func (c Context) Floor(z, x *Big) *Big {
-	if z.CheckNaNs(x, nil) {
+	if z.invalidContext(c) || z.checkNaNs(x, x, 0) {
 		return z
 	}
 	c.RoundingMode = ToNegativeInf
@@ -1202,7 +1202,7 @@ func (c Context) FMA(z, x, y, u *Big) *Big {
 
 // Hypot sets z to Sqrt(p*p + q*q) and returns z.
 func (c Context) Hypot(z, p, q *Big) *Big {
-	if z.CheckNaNs(p, q) {
+	if z.invalidContext(c) || z.checkNaNs(p, q, 0) {
 		return z
 	}
 
@@ -1981,7 +1981,7 @@ func (c Context) piChudnovskyBrothers(z *Big) *Big {
 
 // Pow sets z to x**y and returns z.
 func (c Context) Pow(z, x, y *Big) *Big {
-	if z.CheckNaNs(x, y) {
+	if z.invalidContext(c) || z.checkNaNs(x, y, 0) {
 		return z
 	}
 
@@ -2907,7 +2907,7 @@ func (c Context) shiftr(z *Big, n uint64) bool {
 
 // Sqrt sets z to the square root of x and returns z.
 func (c Context) Sqrt(z, x *Big) *Big {
-	if z.CheckNaNs(x, nil) {
+	if z.invalidContext(c) || z.checkNaNs(x, x, 0) {
 		return z
 	}
 
@@ -3090,7 +3090,7 @@ func (c Context) Sub(z, x, y *Big) *Big {
 		return c.Set(z, x)
 	}
 	// x - ±Inf
-	return z.Neg(y)
+	return c.Neg(z, y)
 }
 
 // Tan returns the tangent, in radians, of x.
-- 
2.43.0


From 5c06bf9bab117678ca2d7895b3f019343fd3ed53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:11 +0000
Subject: [PATCH 10/55] fix: NextMinus and NextPlus cleared sticky conditions

They masked the receiver's conditions with the Context's, moved twice if z == x and x
was not representable, and skipped a number if x lay between zero and the smallest
representable number.
---
 big_ctx.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 68e5d24..689acd1 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -1788,7 +1788,7 @@ func (c Context) NextMinus(z, x *Big) *Big {
 	if debug {
 		x.validate()
 	}
-	if z.checkNaNs(x, x, nextminus) {
+	if z.invalidContext(c) || z.checkNaNs(x, x, nextminus) {
 		return z
 	}
 
@@ -1801,10 +1801,16 @@ func (c Context) NextMinus(z, x *Big) *Big {
 		return z.SetBigMantScale(m, -c.etop())
 	}
 
+	cond := z.Context.Conditions
 	c.RoundingMode = ToNegativeInf
-	c.Set(z, x)
-	c.Sub(z, x, new(Big).SetMantScale(1, -c.etiny()+1))
-	z.Context.Conditions &= c.Conditions
+	if z == x {
+		x = new(Big).Copy(x)
+	}
+	// If x isn't representable rounding it is sufficient.
+	if c.Set(z, x).Cmp(x) == 0 {
+		c.Sub(z, x, new(Big).SetMantScale(1, -c.etiny()+1))
+	}
+	z.Context.Conditions = cond
 	return z
 }
 
@@ -1818,7 +1824,7 @@ func (c Context) NextPlus(z, x *Big) *Big {
 	if debug {
 		x.validate()
 	}
-	if z.checkNaNs(x, x, nextminus) {
+	if z.invalidContext(c) || z.checkNaNs(x, x, nextminus) {
 		return z
 	}
 
@@ -1831,10 +1837,16 @@ func (c Context) NextPlus(z, x *Big) *Big {
 		return z.SetBigMantScale(m, -c.etop())
 	}
 
+	cond := z.Context.Conditions
 	c.RoundingMode = ToPositiveInf
-	c.Set(z, x)
-	c.Add(z, x, new(Big).SetMantScale(1, -c.etiny()+1))
-	z.Context.Conditions &= c.Conditions
+	if z == x {
+		x = new(Big).Copy(x)
+	}
+	// If x isn't representable rounding it is sufficient.
+	if c.Set(z, x).Cmp(x) == 0 {
+		c.Add(z, x, new(Big).SetMantScale(1, -c.etiny()+1))
+	}
+	z.Context.Conditions = cond
 	return z
 }
 
-- 
2.43.0


From fbb6197e6e70866d56f6a5f82c1aa6cadc37e688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:56 +0000
Subject: [PATCH 11/55] fix: Round(n) rounded for n <= 0

It used the default precision for zero and returned NaN for a negative n, but it's
documented not to round.
---
 big.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/big.go b/big.go
index ff4d9cd..55de7fe 100644
--- a/big.go
+++ b/big.go
@@ -1373,6 +1373,9 @@ func (z *Big) Rem(x, y *Big) *Big {
 // occur if n <= 0. The result of Round will always be in the
 // interval [⌊10**p⌋, z] where p = the precision of z.
 func (z *Big) Round(n int) *Big {
+	if n <= 0 {
+		return z
+	}
 	ctx := z.Context
 	ctx.Precision = n
 	return ctx.Round(z)
-- 
2.43.0


From 2f6a9e0baff616d3943fd6cc1f19adb9a3d4bb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:15 +0000
Subject: [PATCH 12/55] fix: Float64 and Float returned the wrong infinity and
 inaccurate values

Float64 converted -Inf to +Inf, 1E-330 and smaller to zero without reporting it, and
numbers whose power of ten is not a float64, like 123E-25, with two roundings or
(1E+309 * 1E-10 and the like) not at all. Float swapped the infinities and lost -0.
---
 big.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/big.go b/big.go
index 55de7fe..2ad30ac 100644
--- a/big.go
+++ b/big.go
@@ -711,8 +711,10 @@ func (x *Big) Float64() (f float64, ok bool) {
 
 	if !x.IsFinite() {
 		switch x.form {
-		case pinf, ninf:
-			return math.Inf(int(x.form & signbit)), true
+		case pinf:
+			return math.Inf(+1), true
+		case ninf:
+			return math.Inf(-1), true
 		case snan, qnan:
 			return math.NaN(), true
 		case ssnan, sqnan:
@@ -722,6 +724,7 @@ func (x *Big) Float64() (f float64, ok bool) {
 
 	const (
 		maxMantissa = 1<<53 + 1 // largest exact mantissa
+		maxPow10    = 22        // largest exact power of ten
 	)
 
 	parse := false
@@ -734,19 +737,21 @@ func (x *Big) Float64() (f float64, ok bool) {
 	case x.exp == 0:
 		f = float64(xc)
 		ok = xc < maxMantissa || (xc&(xc-1)) == 0
-	case x.exp > 0:
-		f = float64(x.compact) * math.Pow10(x.exp)
-		ok = x.compact < maxMantissa && !math.IsInf(f, 0) && !math.IsNaN(f)
-	case x.exp < 0:
-		f = float64(x.compact) / math.Pow10(-x.exp)
-		ok = x.compact < maxMantissa && !math.IsInf(f, 0) && !math.IsNaN(f)
+	// If both operands are exact the result is only rounded once.
+	case x.exp > 0 && x.exp <= maxPow10 && xc < maxMantissa:
+		f = float64(xc) * math.Pow10(x.exp)
+		ok = true
+	case x.exp < 0 && x.exp >= -maxPow10 && xc < maxMantissa:
+		f = float64(xc) / math.Pow10(-x.exp)
+		ok = true
 	default:
 		parse = true
 	}
 
 	if parse {
 		f, _ = strconv.ParseFloat(x.String(), 64)
-		ok = !math.IsInf(f, 0) && !math.IsNaN(f)
+		ok = f != 0 && !math.IsInf(f, 0) && !math.IsNaN(f) &&
+			(!x.isCompact() || x.compact < maxMantissa)
 	}
 
 	if x.form&signbit != 0 {
@@ -771,11 +776,14 @@ func (x *Big) Float(z *big.Float) *big.Float {
 	case finite, finite | signbit:
 		if x.isZero() {
 			z.SetUint64(0)
+			if x.Signbit() {
+				z.Neg(z)
+			}
 		} else {
 			z.SetRat(x.Rat(nil))
 		}
 	case pinf, ninf:
-		z.SetInf(x.form == pinf)
+		z.SetInf(x.form == ninf)
 	default: // snan, qnan, ssnan, sqnan:
 		z.SetUint64(0)
 	}
-- 
2.43.0


From e80e143c3942bf704569d4df8e1b53f19c4986c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:16 +0000
Subject: [PATCH 13/55] fix: SetFloat kept the previous form or exponent for
 zero and corrupted 2**64-1

Setting zero left z an infinity or NaN if it was one, and kept its exponent. 2**64-1
marks a coefficient stored as a big.Int, which was not set.
---
 big.go | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/big.go b/big.go
index 2ad30ac..d13b682 100644
--- a/big.go
+++ b/big.go
@@ -1482,12 +1482,11 @@ func (z *Big) SetFloat(x *big.Float) *Big {
 
 	neg := x.Signbit()
 	if x.Sign() == 0 {
+		var sign form
 		if neg {
-			z.form |= signbit
+			sign = signbit
 		}
-		z.compact = 0
-		z.precision = 1
-		return z
+		return z.setZero(sign, 0)
 	}
 
 	z.exp = 0
@@ -1500,19 +1499,12 @@ func (z *Big) SetFloat(x *big.Float) *Big {
 		}
 	}
 
-	if mant, acc := x0.Uint64(); acc == big.Exact {
-		z.compact = mant
-		z.precision = arith.Length(mant)
-	} else {
-		z.compact = c.Inflated
-		x0.Int(&z.unscaled)
-		z.precision = arith.BigLength(&z.unscaled)
-	}
+	x0.Int(&z.unscaled)
 	z.form = finite
 	if neg {
 		z.form |= signbit
 	}
-	return z
+	return z.norm()
 }
 
 // SetFloat64 sets z to exactly x.
-- 
2.43.0


From 8ee2c723dcbb3fb3ee814423a3fbee0d920dcc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 14/55] fix: Int64 and Uint64 rejected numbers smaller than
 1E-19

They truncate toward zero, so the result is zero.
---
 util.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util.go b/util.go
index 060f06a..01bb0ca 100644
--- a/util.go
+++ b/util.go
@@ -186,7 +186,8 @@ func scalex(x uint64, scale int) (sx uint64, ok bool) {
 	}
 	p, ok := arith.Pow10(uint64(-scale))
 	if !ok {
-		return 0, false
+		// x < 10^-scale, since x fits in a uint64.
+		return 0, true
 	}
 	return x / p, true
 }
-- 
2.43.0


From 4192a84e807e75de9440ee10651b934c770f2219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:30 +0000
Subject: [PATCH 15/55] fix: comparing with an integer dropped the fraction and
 mishandled negative and inflated numbers

---
 big.go | 48 ++----------------------------------------------
 1 file changed, 2 insertions(+), 46 deletions(-)

diff --git a/big.go b/big.go
index d13b682..1a5c3d9 100644
--- a/big.go
+++ b/big.go
@@ -395,55 +395,11 @@ func (x *Big) CmpAbs(y *Big) int {
 }
 
 func cmpInt(x *Big, y int64) int {
-	switch {
-	case x.Signbit() && y >= 0:
-		return -1
-	case !x.Signbit() && y < 0:
-		return +1
-	default:
-		return cmpAbsInt(x, y)
-	}
+	return x.Cmp(New(y, 0))
 }
 
 func cmpAbsInt(x *Big, y int64) int {
-	u := uint64(y)
-
-	// Same scales, so compare straight across.
-	if x.exp == 0 {
-		// If the scales are the same and x x is not compact,
-		// then by definition it's larger than y.
-		if !x.isCompact() {
-			return +1
-		}
-		return arith.Cmp(x.compact, u)
-	}
-
-	// Signs are the same and the scales differ. Compare the
-	// lengths of their integral parts; if they differ in length
-	// one number is larger.
-	// E.g.: 1234.01
-	//       1230011
-	xl := x.adjusted()
-	yl := arith.Length(u) - 1
-	if xl != yl {
-		if xl < yl {
-			return -1
-		}
-		return +1
-	}
-
-	// The length of the integral parts match. Rescale x, then
-	// compare straight across.
-	t, ok := scalex(x.compact, x.exp)
-	if !ok {
-		if x.exp > 0 {
-			// Overflow.
-			return +1
-		}
-		// Underflow.
-		return -1
-	}
-	return arith.Cmp(t, u)
+	return x.CmpAbs(New(y, 0))
 }
 
 // cmp is the implementation for both Cmp and CmpAbs.
-- 
2.43.0


From d9b96ac8b72a2d2ea7c0dd57a74e5357d05b5ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:07 +0000
Subject: [PATCH 16/55] fix: addition in Go mode dropped digits of a much
 smaller operand

---
 big_ctx.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/big_ctx.go b/big_ctx.go
index 689acd1..1148db9 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -123,7 +123,8 @@ func (c Context) add(z, x *Big, xform form, y *Big, yform form) form {
 //
 // tryTinyAdd reports whether the "tiny" addition was performed.
 func (c Context) tryTinyAdd(z *Big, X *Big, Xsign form, Y *Big, Ysign form) (form, bool) {
-	if X.isZero() {
+	if X.isZero() || c.OperatingMode != GDA {
+		// In Go mode the sum isn't rounded.
 		return 0, false
 	}
 
@@ -1803,6 +1804,7 @@ func (c Context) NextMinus(z, x *Big) *Big {
 
 	cond := z.Context.Conditions
 	c.RoundingMode = ToNegativeInf
+	c.OperatingMode = GDA
 	if z == x {
 		x = new(Big).Copy(x)
 	}
@@ -1839,6 +1841,7 @@ func (c Context) NextPlus(z, x *Big) *Big {
 
 	cond := z.Context.Conditions
 	c.RoundingMode = ToPositiveInf
+	c.OperatingMode = GDA
 	if z == x {
 		x = new(Big).Copy(x)
 	}
-- 
2.43.0


From b4fc4444d12674e1a676e12997285414fb4810db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 17/55] fix: CmpTotal and CmpTotalAbs didn't order zeros by
 sign or equal values by exponent

---
 big.go | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/big.go b/big.go
index 1a5c3d9..0fffe87 100644
--- a/big.go
+++ b/big.go
@@ -519,10 +519,10 @@ func cmpabs(x, y *Big) int {
 //    -sNaN
 //    -Infinity
 //    -127
-//    -1.00
 //    -1
-//    -0.000
+//    -1.00
 //    -0
+//    -0.000
 //    +0
 //    +1.2300
 //    +1.23
@@ -547,7 +547,20 @@ func (x *Big) CmpTotal(y *Big) int {
 	if xs != 0 {
 		return 0
 	}
-	return x.Cmp(y)
+	if r := x.Cmp(y); r != 0 || x.IsInf(0) {
+		return r
+	}
+	if x.Signbit() != y.Signbit() {
+		// -0 < +0
+		if x.Signbit() {
+			return -1
+		}
+		return +1
+	}
+	if x.Signbit() {
+		return y.cmpExp(x)
+	}
+	return x.cmpExp(y)
 }
 
 // CmpTotalAbs is like CmpTotal but instead compares the absolute
@@ -568,7 +581,22 @@ func (x *Big) CmpTotalAbs(y *Big) int {
 	if xs != 0 {
 		return 0
 	}
-	return x.CmpAbs(y)
+	if r := x.CmpAbs(y); r != 0 || x.IsInf(0) {
+		return r
+	}
+	return x.cmpExp(y)
+}
+
+// cmpExp compares the exponents of x and y.
+func (x *Big) cmpExp(y *Big) int {
+	switch {
+	case x.exp < y.exp:
+		return -1
+	case x.exp > y.exp:
+		return +1
+	default:
+		return 0
+	}
 }
 
 func (x *Big) ordTotal(abs bool) (r int) {
-- 
2.43.0


From 61b8500a06f76e00d7506dda055423de776f27b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 18/55] fix: IsNormal and IsSubnormal reported true for zeros

---
 big.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/big.go b/big.go
index 0fffe87..ed75854 100644
--- a/big.go
+++ b/big.go
@@ -1048,12 +1048,12 @@ func (x *Big) IsFinite() bool {
 
 // IsNormal reports whether x is normal.
 func (x *Big) IsNormal() bool {
-	return x.IsFinite() && x.adjusted() >= x.Context.emin()
+	return x.IsFinite() && !x.isZero() && x.adjusted() >= x.Context.emin()
 }
 
 // IsSubnormal reports whether x is subnormal.
 func (x *Big) IsSubnormal() bool {
-	return x.IsFinite() && x.adjusted() < x.Context.emin()
+	return x.IsFinite() && !x.isZero() && x.adjusted() < x.Context.emin()
 }
 
 // IsInf reports whether x is an infinity according to sign.
-- 
2.43.0


From 9eb6711baa4cf6b16785465b9e53383d5a71f2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 19/55] fix: SameQuantum compared unrelated exponents of NaN
 and infinity

---
 big.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/big.go b/big.go
index ed75854..62bf186 100644
--- a/big.go
+++ b/big.go
@@ -1380,7 +1380,13 @@ func (z *Big) RoundToInt() *Big {
 
 // SameQuantum reports whether x and y have the same exponent
 // (scale).
+//
+// If either is NaN or an infinity it reports whether both are NaN
+// or both are infinities.
 func (x *Big) SameQuantum(y *Big) bool {
+	if x.isSpecial() || y.isSpecial() {
+		return x.IsNaN(0) && y.IsNaN(0) || x.IsInf(0) && y.IsInf(0)
+	}
 	return x.Scale() == y.Scale()
 }
 
-- 
2.43.0


From 6b3bce95ef2e82f22ee7590a71d92d4ad42a31a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:39 +0000
Subject: [PATCH 20/55] fix: SetString accepted malformed numbers and wrapped
 huge exponents

---
 scan.go | 88 ++++++++++++++++++++++++++++++++-------------------------
 1 file changed, 50 insertions(+), 38 deletions(-)

diff --git a/scan.go b/scan.go
index 69f9a25..a828984 100644
--- a/scan.go
+++ b/scan.go
@@ -45,6 +45,7 @@ func (z *Big) scan(r io.ByteScanner) error {
 		switch err {
 		case ConversionSyntax:
 			z.form = qnan
+			z.compact = 0
 			z.Context.Conditions |= ConversionSyntax
 		default:
 			return err
@@ -67,6 +68,7 @@ func (z *Big) scan(r io.ByteScanner) error {
 			return io.ErrUnexpectedEOF
 		case ConversionSyntax:
 			z.form = qnan
+			z.compact = 0
 			z.Context.Conditions |= ConversionSyntax
 		default:
 			return err
@@ -75,14 +77,25 @@ func (z *Big) scan(r io.ByteScanner) error {
 	}
 
 	// Exponent
-	if err := z.scanExponent(r); err != nil && err != io.EOF {
+	if err := z.scanExponent(r); err != nil {
 		switch err {
-		case Underflow:
-			z.xflow(MinScale, false, neg)
-		case Overflow:
-			z.xflow(MinScale, true, neg)
+		case Underflow, Overflow:
+			if !z.isZero() {
+				z.xflow(MinScale, err == Overflow, neg)
+				break
+			}
+			// Zero neither overflows nor underflows.
+			z.exp = MinScale
+			if err == Overflow {
+				z.exp = MaxScale
+			}
+			if neg {
+				z.form |= signbit
+			}
+			z.Context.Conditions |= Clamped
 		case ConversionSyntax:
 			z.form = qnan
+			z.compact = 0
 			z.Context.Conditions |= ConversionSyntax
 		default:
 			return err
@@ -205,7 +218,14 @@ func (z *Big) scanInfinity(r io.ByteScanner) (form, error) {
 			return 0, ConversionSyntax
 		}
 	}
-	return inf, nil
+	switch _, err := r.ReadByte(); err {
+	case io.EOF:
+		return inf, nil
+	case nil:
+		return 0, ConversionSyntax
+	default:
+		return 0, err
+	}
 }
 
 func (z *Big) scanMant(r io.ByteScanner) (err error) {
@@ -268,6 +288,10 @@ Loop:
 		}
 	}
 
+	if len(buf) == 0 {
+		return ConversionSyntax
+	}
+
 	if big || z.compact == c.Inflated {
 		z.unscaled.SetString(string(buf), 10)
 		z.compact = c.Inflated
@@ -298,57 +322,45 @@ func (z *Big) scanExponent(r io.ByteScanner) error {
 		return ConversionSyntax
 	}
 
-	ch, err = r.ReadByte()
+	neg, err := scanSign(r)
 	if err != nil {
+		if err == io.EOF {
+			return ConversionSyntax
+		}
 		return err
 	}
-	var neg bool
-	switch ch {
-	case '+':
-		// OK
-	case '-':
-		neg = true
-	default:
-		r.UnreadByte()
-	}
 
-	max := uint64(arith.MaxInt)
-	if neg {
-		max++ // -math.MinInt
-	}
+	// Larger exponents are always out of range.
+	const max = 2 * MaxScale
 
 	var exp uint64
-	for {
+	for i := 0; ; i++ {
 		ch, err := r.ReadByte()
 		if err != nil {
-			if err == io.EOF {
+			if err == io.EOF && i > 0 {
 				break
 			}
+			if err == io.EOF {
+				return ConversionSyntax
+			}
 			return err
 		}
 		if ch < '0' || ch > '9' {
 			return ConversionSyntax
 		}
-		d := ch - '0'
-		if d >= 10 {
-			return ConversionSyntax
-		}
-		const cutoff = math.MaxUint64/10 + 1
-		if exp >= cutoff {
-			return ConversionSyntax
+		if exp > max/10 {
+			exp = max + 1
+		} else {
+			exp = exp*10 + uint64(ch-'0')
 		}
-		exp *= 10
+	}
 
-		v := exp + uint64(d)
-		if v < exp || v > max {
-			if neg {
-				return Underflow
-			}
-			return Overflow
+	if exp > max {
+		if neg {
+			return Underflow
 		}
-		exp = v
+		return Overflow
 	}
-
 	if neg {
 		z.exp -= int(exp)
 	} else {
-- 
2.43.0


From f6a0d9cb868be0281547e4be5393c3fa1f9f1d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 21/55] fix: fmt scanning read past the number

---
 big.go  | 16 +++++++++++++++-
 scan.go | 21 ---------------------
 2 files changed, 15 insertions(+), 22 deletions(-)

diff --git a/big.go b/big.go
index 62bf186..2f5edc2 100644
--- a/big.go
+++ b/big.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"math"
@@ -1406,8 +1407,21 @@ func (x *Big) Scale() int {
 }
 
 // Scan implements fmt.Scanner.
+//
+// It skips leading spaces and reads no further than the letters,
+// digits, signs, and periods that can be part of a number.
 func (z *Big) Scan(state fmt.ScanState, verb rune) error {
-	return z.scan(byteReader{state})
+	tok, err := state.Token(true, func(ch rune) bool {
+		return ch >= '0' && ch <= '9' || ch >= 'a' && ch <= 'z' ||
+			ch >= 'A' && ch <= 'Z' || ch == '+' || ch == '-' || ch == '.'
+	})
+	if err != nil {
+		return err
+	}
+	if len(tok) == 0 {
+		return errors.New("decimal: expected a number")
+	}
+	return z.scan(bytes.NewReader(tok))
 }
 
 // Set sets z to x and returns z.
diff --git a/scan.go b/scan.go
index a828984..49d9afc 100644
--- a/scan.go
+++ b/scan.go
@@ -1,7 +1,6 @@
 package decimal
 
 import (
-	"fmt"
 	"io"
 	"math"
 
@@ -368,23 +367,3 @@ func (z *Big) scanExponent(r io.ByteScanner) error {
 	}
 	return nil
 }
-
-// byteReader implementation borrowed from math/big/intconv.go
-
-// byteReader is a local wrapper around fmt.ScanState; it implements the
-// io.ByteReader interface.
-type byteReader struct {
-	fmt.ScanState
-}
-
-func (r byteReader) ReadByte() (byte, error) {
-	ch, size, err := r.ReadRune()
-	if size != 1 && err == nil {
-		err = fmt.Errorf("invalid rune %#U", ch)
-	}
-	return byte(ch), err
-}
-
-func (r byteReader) UnreadByte() error {
-	return r.UnreadRune()
-}
-- 
2.43.0


From 27784b7404f35aab06155d1c259fcef063bcd8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:34 +0000
Subject: [PATCH 22/55] fix: formatting with a precision or zero padding
 misrounded and misplaced digits

---
 big.go    |  35 ++++++--------
 format.go | 140 +++++++++++++++++++++++-------------------------------
 2 files changed, 75 insertions(+), 100 deletions(-)

diff --git a/big.go b/big.go
index 2f5edc2..010f6e8 100644
--- a/big.go
+++ b/big.go
@@ -816,7 +816,7 @@ func (x *Big) Format(s fmt.State, c rune) {
 	var (
 		hash    = s.Flag('#')
 		dash    = s.Flag('-')
-		lpZero  = s.Flag('0')
+		lpZero  = s.Flag('0') && !dash && !x.isSpecial()
 		lpSpace = width != noWidth && !dash && !lpZero
 		plus    = s.Flag('+')
 		space   = s.Flag(' ')
@@ -865,21 +865,8 @@ func (x *Big) Format(s fmt.State, c rune) {
 	case 'e', 'E':
 		f.format(x, sci, byte(c))
 	case 'f', 'F':
-		if !hasPrec {
-			prec = 0
-		} else {
-			// %f's precision means "number of digits after the radix"
-			if x.exp > 0 {
-				f.prec += (x.exp + x.Precision())
-			} else {
-				if adj := x.exp + x.Precision(); adj > -f.prec {
-					f.prec += adj
-				} else {
-					f.prec = -f.prec
-				}
-			}
-		}
-
+		// %f's precision means "number of digits after the radix"
+		f.fixed = hasPrec
 		f.format(x, plain, noE)
 	case 'g', 'G':
 		// %g's precision means "number of significant digits"
@@ -924,22 +911,30 @@ func (x *Big) Format(s fmt.State, c rune) {
 		return
 	}
 
+	var str string
+	if tmpbuf {
+		str = f.w.(*strings.Builder).String()
+	}
+
 	// Need padding out to width.
 	if f.n < int64(width) {
 		switch pad := int64(width) - f.n; {
 		case dash:
 			io.CopyN(s, spaceReader{}, pad)
 		case lpZero:
+			// The zeros go between the sign and the digits.
+			if str != "" && (str[0] == '-' || str[0] == '+' || str[0] == ' ') {
+				io.WriteString(s, str[:1])
+				str = str[1:]
+			}
 			io.CopyN(s, zeroReader{}, pad)
 		case lpSpace:
 			io.CopyN(s, spaceReader{}, pad)
 		}
 	}
 
-	if tmpbuf {
-		// fmt's internal state type implements stringWriter I think.
-		io.WriteString(s, f.w.(*strings.Builder).String())
-	}
+	// fmt's internal state type implements stringWriter I think.
+	io.WriteString(s, str)
 }
 
 // FMA sets z to (x * y) + u without any intermediate rounding.
diff --git a/format.go b/format.go
index 8a34100..26c246e 100644
--- a/format.go
+++ b/format.go
@@ -32,63 +32,32 @@ func roundString(b []byte, mode RoundingMode, pos bool, prec int) []byte {
 		return b[:prec]
 	}
 
-	b = b[:prec+1]
-	i := prec - 1
-
-	// Blindly increment b[i] and handle possible carries later.
-	switch mode {
-	case AwayFromZero:
-		b[i]++
-	case ToZero:
-		// OK
-	case ToPositiveInf:
-		if pos {
-			b[i]++
-		}
-	case ToNegativeInf:
-		if !pos {
-			b[i]++
-		}
-	case ToNearestEven:
-		if b[i+1] > '5' || b[i+1] == '5' && b[i]%2 != 0 {
-			b[i]++
-		}
-	case ToNearestAway:
-		if b[i+1] >= '5' {
-			b[i]++
-		}
-	case ToNearestTowardZero:
-		if b[i+1] > '5' {
-			b[i]++
-		}
+	// r is the ordering of the discarded digits and one half.
+	r := int(b[prec]) - '5'
+	if r == 0 && !allZeros(b[prec+1:]) {
+		r = 1
 	}
+	odd := prec > 0 && b[prec-1]%2 != 0
 
-	if b[i] != '9'+1 {
-		return b[:prec]
+	b = b[:prec]
+	if !mode.needsInc(odd, r, pos) {
+		return b
 	}
 
-	// We had to carry.
-	b[i] = '0'
-
-	for i--; i >= 0; i-- {
+	for i := prec - 1; i >= 0; i-- {
 		if b[i] != '9' {
 			b[i]++
-			break
+			return b
 		}
 		b[i] = '0'
 	}
 
-	// Carried all the way over to the first column, so slide the buffer down
-	// and instead of reallocating.
-	if b[0] == '0' {
-		copy(b[1:], b)
-		b[0] = '1'
-		// We might end up with an extra digit of precision. E.g., given the
-		// decimal 9.9 with a requested precision of 1, we'd convert 99 -> 10.
-		// Let the calling code handle that case.
-		prec++
-	}
-	return b[:prec]
+	// Carried all the way over to the first column, so we end up with an extra
+	// digit of precision. E.g., given the decimal 9.9 with a requested precision
+	// of 1, we'd convert 99 -> 10. Let the calling code handle that case.
+	b = append(b, '0')
+	b[0] = '1'
+	return b
 }
 
 // formatCompact formats the compact decimal, x, as an unsigned integer.
@@ -130,7 +99,8 @@ type formatter struct {
 		WriteString(string) (int, error)
 	}
 	sign  byte  // leading '+' or ' ' flag
-	prec  int   // total precision
+	prec  int   // total precision, or digits after the radix if fixed
+	fixed bool  // precision is the number of digits after the radix
 	width int   // min width
 	n     int64 // cumulative number of bytes written to w
 }
@@ -180,41 +150,56 @@ func (f *formatter) format(x *Big, format format, e byte) {
 		return
 	}
 
-	if x.isZero() && o == Go {
+	neg := x.Signbit() && !(x.isZero() && o == Go)
+	if neg {
+		f.WriteByte('-')
+	} else if f.sign != 0 {
+		f.WriteByte(f.sign)
+	}
+
+	if x.isZero() && (o == Go || f.fixed) {
 		// Go mode prints zeros different than GDA.
-		if f.width == noWidth {
-			f.WriteByte('0')
-		} else {
-			f.WriteString("0.")
-			io.CopyN(f, zeroReader{}, int64(f.width))
+		f.WriteByte('0')
+		if f.fixed && f.prec > 0 {
+			f.WriteByte('.')
+			io.CopyN(f, zeroReader{}, int64(f.prec))
 		}
 		return
 	}
 
-	neg := x.Signbit()
-	if neg {
-		f.WriteByte('-')
-	} else if f.sign != 0 {
-		f.WriteByte(f.sign)
+	var b []byte
+	if x.isCompact() {
+		b = formatCompact(x.compact)
+	} else {
+		b = formatUnscaled(&x.unscaled)
 	}
 
-	var (
-		b   []byte
-		exp int
-	)
-	if f.prec > 0 {
-		if x.isCompact() {
-			b = formatCompact(x.compact)
-		} else {
-			b = formatUnscaled(&x.unscaled)
+	exp := x.exp
+	if format == plain && exp > 0 && x.isZero() {
+		exp = 0
+	}
+	switch {
+	case f.fixed:
+		keep := len(b) + exp + f.prec
+		if keep < 0 {
+			// The first discarded digit is zero.
+			b = []byte{'0', '1'}
+			keep = 0
 		}
-		orig := len(b)
-		b = roundString(b, x.Context.RoundingMode, !neg, f.prec)
-		exp = int(x.exp) + orig - len(b)
-	} else if f.prec < 0 {
-		f.prec = -f.prec
+		b = roundString(b, x.Context.RoundingMode, !neg, keep)
 		exp = -f.prec
-	} else {
+	case f.prec > 0:
+		exp += len(b) - f.prec
+		b = roundString(b, x.Context.RoundingMode, !neg, f.prec)
+		if len(b) > f.prec {
+			// Drop the extra digit, it's zero.
+			b = b[:f.prec]
+			exp++
+		}
+	default:
+		b, exp = b[:0], 0
+	}
+	if len(b) == 0 {
 		b = []byte{'0'}
 	}
 
@@ -283,12 +268,7 @@ func (f *formatter) formatPlain(b []byte, exp int) {
 	default:
 		f.WriteString(zeroRadix)
 		io.CopyN(f, zeroReader{}, -int64(radix))
-
-		end := len(b)
-		if f.prec < end {
-			end = f.prec
-		}
-		f.Write(b[:end])
+		f.Write(b)
 	}
 }
 
-- 
2.43.0


From d5ddc12fe52e0f1ba9d429320368a5c2f137b0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:46 +0000
Subject: [PATCH 23/55] fix: Compose rounded negative values and Decompose
 wrapped small exponents

---
 decomposer.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/decomposer.go b/decomposer.go
index d2b1d48..2bfae69 100644
--- a/decomposer.go
+++ b/decomposer.go
@@ -53,7 +53,7 @@ func (z *Big) Decompose(buf []byte) (form byte, negative bool, coefficient []byt
 	if !z.IsFinite() {
 		panic("expected number to be finite")
 	}
-	if z.exp > math.MaxInt32 {
+	if z.exp > math.MaxInt32 || z.exp < math.MinInt32 {
 		panic("exponent exceeds max size")
 	}
 	exponent = int32(z.exp)
@@ -89,8 +89,6 @@ func (z *Big) Compose(form byte, negative bool, coefficient []byte, exponent int
 	bigc := &big.Int{}
 	bigc.SetBytes(coefficient)
 	z.SetBigMantScale(bigc, -int(exponent))
-	if negative {
-		z.Neg(z)
-	}
+	z.SetSignbit(negative)
 	return nil
 }
-- 
2.43.0


From b8f987a91f0d2748223116e0f72c4f5e3cbda400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:05 +0000
Subject: [PATCH 24/55] fix: postgres Value modified its decimal and misrounded
 long fractions

---
 sql/postgres/decimal.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sql/postgres/decimal.go b/sql/postgres/decimal.go
index 1c0734a..a404d8a 100644
--- a/sql/postgres/decimal.go
+++ b/sql/postgres/decimal.go
@@ -62,13 +62,20 @@ func (d *Decimal) Value() (driver.Value, error) {
 		}
 		// Rounding down the integral part automatically chops off the fractional
 		// part.
-		return v.Round(MaxIntegralDigits).String(), nil
+		// Don't modify d.V.
+		r := new(decimal.Big).Copy(v)
+		r.Context.RoundingMode = v.Context.RoundingMode
+		return r.Round(MaxIntegralDigits).String(), nil
 	}
 	if sl > MaxFractionalDigits {
 		if !d.Round {
 			return nil, &LengthError{Part: "fractional", N: sl, max: MaxFractionalDigits}
 		}
-		v.Round(dl - (sl - MaxFractionalDigits))
+		// Don't modify d.V.
+		r := new(decimal.Big).Copy(v)
+		r.Context.Precision = decimal.UnlimitedPrecision
+		r.Context.RoundingMode = v.Context.RoundingMode
+		v = r.Quantize(MaxFractionalDigits)
 	}
 	return v.String(), nil
 }
-- 
2.43.0


From 874fde5d0f889a443b55b60eb1941b3c87f577a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:05 +0000
Subject: [PATCH 25/55] fix: postgres Scan accepted invalid syntax

---
 sql/postgres/decimal.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/sql/postgres/decimal.go b/sql/postgres/decimal.go
index a404d8a..1deb122 100644
--- a/sql/postgres/decimal.go
+++ b/sql/postgres/decimal.go
@@ -87,16 +87,24 @@ func (d *Decimal) Scan(val interface{}) error {
 	}
 	switch t := val.(type) {
 	case string:
-		if _, ok := d.V.SetString(t); !ok {
-			if err := d.V.Context.Err(); err != nil {
-				return err
-			}
-			return fmt.Errorf("Decimal.Scan: invalid syntax: %q", t)
-		}
-		return nil
+		return d.scan([]byte(t))
 	case []byte:
-		return d.V.UnmarshalText(t)
+		return d.scan(t)
 	default:
 		return fmt.Errorf("Decimal.Scan: unknown value: %#v", val)
 	}
 }
+
+func (d *Decimal) scan(text []byte) error {
+	// Conditions are sticky, so clear ConversionSyntax in order to tell whether
+	// text is valid.
+	cond := d.V.Context.Conditions
+	d.V.Context.Conditions &^= decimal.ConversionSyntax
+	if err := d.V.UnmarshalText(text); err != nil ||
+		d.V.Context.Conditions&decimal.ConversionSyntax != 0 {
+		d.V.Context.Conditions |= cond
+		return fmt.Errorf("Decimal.Scan: invalid syntax: %q", text)
+	}
+	d.V.Context.Conditions |= cond
+	return nil
+}
-- 
2.43.0


From de36d61ac952d1e812c285b92600850086e8da41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:51 +0000
Subject: [PATCH 26/55] fix: Exp with the default precision, a Clamped receiver
 or a huge argument

Exp used the zero Precision as is (Exp(0.5) was 1), powUint64 stopped early if
the receiver had a sticky Clamped condition, lost the sign of its base if it
was also the receiver, and raised Underflow for overflows.  e**x is inexact
unless x is 0 even if the discarded digits are zeros.
---
 big_ctx.go | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 1148db9..48ac486 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -927,9 +927,10 @@ func (c Context) Exp(z, x *Big) *Big {
 		return z.SetUint64(1)
 	}
 
-	z = c.exp(z, x)
-	if z.IsFinite() && z.Sign() != 0 && z.Precision() < c.Precision {
-		s := c.Precision - z.Precision()
+	z = c.dup().exp(z, x)
+	z.Context.Conditions |= Inexact | Rounded
+	if p := c.precision(); z.IsFinite() && z.Sign() != 0 && z.Precision() < p {
+		s := p - z.Precision()
 		c.shiftl(z, uint64(s))
 		z.exp -= s
 	}
@@ -2101,31 +2102,25 @@ func (c Context) powInt(z, x, y *Big) *Big {
 
 // powUint64 sets z = x**y.
 func (c Context) powUint64(z, x *Big, y uint64) *Big {
+	c.Conditions = 0 // don't inherit any via x0.
 	x0 := getDec(c).Copy(x)
 
 	z.SetUint64(1)
-	sign := x.Signbit() && y&1 == 1
-	for y != 0 {
+	for {
 		if y&1 != 0 {
+			// Whatever happened to x0 happened to z, too.
+			z.Context.Conditions |= x0.Context.Conditions
 			c.Mul(z, z, x0)
-			if !z.IsFinite() || z.Sign() == 0 ||
-				z.Context.Conditions&Clamped != 0 {
-				z.Context.Conditions |= Underflow | Subnormal
-				sign = false
+			if !z.IsFinite() || z.Sign() == 0 {
 				break
 			}
 		}
-		y >>= 1
-		c.Mul(x0, x0, x0)
-		if x0.IsNaN(0) {
-			putDec(x0)
-			z.Context.Conditions |= x0.Context.Conditions
-			return z.SetNaN(false)
+		if y >>= 1; y == 0 {
+			break
 		}
+		c.Mul(x0, x0, x0)
 	}
 	putDec(x0)
-
-	z.SetSignbit(sign)
 	return z
 }
 
-- 
2.43.0


From 4366eb21a1bb81846627f1089c5ae0d6d2479904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:22 +0000
Subject: [PATCH 27/55] fix: signs and aliasing of Pow

0**-y was -Infinity, the sign of a zero or infinite base was ignored, a
negative base with a huge odd exponent overflowed to +Infinity, 1**Infinity
was NaN, a receiver that is the base or the exponent was read after it was
set and a sticky Clamped condition stopped the loop.
---
 big.go     |  6 ++++++
 big_ctx.go | 45 +++++++++++++++++++++------------------------
 2 files changed, 27 insertions(+), 24 deletions(-)

diff --git a/big.go b/big.go
index 010f6e8..2e39e0b 100644
--- a/big.go
+++ b/big.go
@@ -1125,6 +1125,12 @@ func (x *Big) Mantissa() (uint64, bool) {
 	return x.compact, x.IsFinite() && x.compact != c.Inflated
 }
 
+// isOdd reports whether x is an odd integer.
+func (x *Big) isOdd() bool {
+	// Anything with a positive exponent is a multiple of ten.
+	return x.IsInt() && x.exp <= 0 && x.Int(nil).Bit(0) == 1
+}
+
 // MarshalText implements encoding.TextMarshaler.
 func (x *Big) MarshalText() ([]byte, error) {
 	if debug {
diff --git a/big_ctx.go b/big_ctx.go
index 48ac486..6098399 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2008,12 +2008,13 @@ func (c Context) Pow(z, x, y *Big) *Big {
 				z.Context.Conditions |= InvalidOperation
 				return z.SetNaN(false)
 			}
+			neg := x.Signbit() && y.isOdd()
 			if y.Signbit() {
-				// 0 ** -y = +Inf
-				return z.SetInf(true)
+				// ±0 ** -y = ±Inf if y is odd, +Inf otherwise
+				return z.SetInf(neg)
 			}
-			// 0 ** y = 0
-			return z.SetUint64(0)
+			// ±0 ** y = ±0 if y is odd, +0 otherwise
+			return z.SetUint64(0).SetSignbit(neg)
 		}
 		if s < 0 && (!y.IsInt() || y.IsInf(0)) {
 			// -x ** y.vvv is undefined
@@ -2024,21 +2025,23 @@ func (c Context) Pow(z, x, y *Big) *Big {
 	}
 
 	if x.IsInf(0) {
+		neg := x.Signbit() && y.isOdd()
 		switch y.Sign() {
 		case +1:
-			// ±Inf ** y = +Inf
-			return z.SetInf(false)
+			// ±Inf ** y = ±Inf if y is odd, +Inf otherwise
+			return z.SetInf(neg)
 		case -1:
-			// ±Inf ** -y = 0
-			return z.SetUint64(0)
+			// ±Inf ** -y = ±0 if y is odd, +0 otherwise
+			return z.SetUint64(0).SetSignbit(neg)
 		case 0:
 			// ±Inf ** 0 = 1
 			return z.SetUint64(1)
 		}
 	}
 
-	if y.Sign() == 0 {
+	if y.Sign() == 0 || (y.IsInf(0) && cmpInt(x, 1) == 0) {
 		// x ** 0 = 1
+		// 1 ** ±Inf = 1
 		return z.SetUint64(1)
 	}
 
@@ -2065,6 +2068,7 @@ func (c Context) powInt(z, x, y *Big) *Big {
 		return ctx.powUint64(z, x, yy)
 	}
 
+	y0 := y.Int(nil) // before z, which might be y, is set
 	x0 := getDec(ctx)
 	if y.Signbit() {
 		ctx.Precision++
@@ -2073,31 +2077,24 @@ func (c Context) powInt(z, x, y *Big) *Big {
 		x0.Copy(x)
 	}
 	z.SetUint64(1)
-	sign := x.Signbit()
 
-	y0 := y.Int(nil)
-	sign = sign && y0.Bit(0) == 1
 	y0.Abs(y0)
-	for y0.Sign() != 0 {
+	for {
 		if y0.Bit(0) != 0 {
+			// Whatever happened to x0 happened to z, too.
+			z.Context.Conditions |= x0.Context.Conditions
 			ctx.Mul(z, z, x0)
-			if !z.IsFinite() || z.Sign() == 0 ||
-				z.Context.Conditions&Clamped != 0 {
-				z.Context.Conditions |= Underflow | Subnormal
-				sign = false
+			if !z.IsFinite() || z.Sign() == 0 {
 				break
 			}
 		}
-		y0.Rsh(y0, 1)
-		ctx.Mul(x0, x0, x0)
-		if x0.IsNaN(0) {
-			putDec(x0)
-			z.Context.Conditions |= x0.Context.Conditions
-			return z.SetNaN(false)
+		if y0.Rsh(y0, 1); y0.Sign() == 0 {
+			break
 		}
+		ctx.Mul(x0, x0, x0)
 	}
 	putDec(x0)
-	return z.SetSignbit(sign)
+	return z
 }
 
 // powUint64 sets z = x**y.
-- 
2.43.0


From 8cb6de2976bbcfd9a034effc3809be41b463a1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:46 +0000
Subject: [PATCH 28/55] fix: transcendental functions in Go mode computed
 without rounding

Intermediate results kept all their digits, e.g. Sin(0.5) took a second and had
139264 digits.
---
 big_ctx.go | 6 +++---
 context.go | 5 ++++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 6098399..623b285 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -1241,7 +1241,7 @@ func (c Context) Log(z, x *Big) *Big {
 	if logSpecials(z, x) {
 		return z
 	}
-	return c.finish(c.log(z, x, false))
+	return c.finish(c.dup().log(z, x, false))
 }
 
 // Log10 sets z to the common logarithm of x and returns z.
@@ -1271,7 +1271,7 @@ func (c Context) Log10(z, x *Big) *Big {
 		z.SetMantScale(int64(x.adjusted()), 0)
 		return c.finish(z)
 	}
-	return c.finish(c.log(z, x, true))
+	return c.finish(c.dup().log(z, x, true))
 }
 
 // logSpecials checks for special values (Inf, NaN, 0) for
@@ -2133,7 +2133,7 @@ func (c Context) powDec(z, x, y *Big) *Big {
 		defer putDec(x)
 	}
 
-	work := c
+	work := c.dup()
 	work.Precision = max(x.Precision(), c.precision()) + 4 + 19
 	work.Exp(z, work.Mul(z, y, work.Log(z, x)))
 	if neg && z.IsFinite() {
diff --git a/context.go b/context.go
index 3b7ce96..a6ecfc6 100644
--- a/context.go
+++ b/context.go
@@ -59,10 +59,13 @@ type Context struct {
 	OperatingMode OperatingMode
 }
 
-// dup returns the Context, but with a non-zero Precision.
+// dup returns the Context for intermediate results: it has a non-zero
+// Precision and is in GDA mode, since additions and multiplications are not
+// rounded in Go mode.
 func (c Context) dup() Context {
 	ctx := c
 	ctx.Precision = c.precision()
+	ctx.OperatingMode = GDA
 	return ctx
 }
 
-- 
2.43.0


From 386f68c59c207725378b58e0ba93043b1e30bf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:22 +0000
Subject: [PATCH 29/55] fix: Sin, Cos and Tan lost digits

The argument was reduced with pi at the working precision, Sin and Tan had
only absolute accuracy for small arguments, Cos and Tan next to their zeros
and poles, Tan used its argument after overwriting it with the receiver and
had no value for small arguments whose cosine rounded to 1, and directed
rounding of intermediate results could push Cos above 1.
---
 big_ctx.go | 247 ++++++++++++++++++++++++-----------------------------
 context.go |   6 +-
 2 files changed, 114 insertions(+), 139 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 623b285..34b04d5 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -720,72 +720,124 @@ func (c Context) Cos(z, x *Big) *Big {
 	ctx := c.dup()
 	ctx.Precision += defaultExtraPrecision
 
-	negXSq, halved, ok := ctx.prepCosine(z, x)
+	n, ok := ctx.reducePi2(z, x)
 	if !ok {
 		z.Context.Conditions |= InvalidOperation
 		return z.SetNaN(false)
 	}
+	ctx.sin(z, z, n+1) // Cos(x) = Sin(x + pi/2)
+	return c.finish(z)
+}
+
+// sin sets z to Sin(r + n*pi/2) for |r| < 1.
+func (c Context) sin(z, r *Big, n int) *Big {
+	if n&1 == 0 {
+		c.sinSmall(z, r)
+	} else {
+		c.cosSmall(z, r)
+	}
+	if n&2 != 0 {
+		z.CopyNeg(z)
+	}
+	return z
+}
+
+// sinSmall sets z to Sin(r) for |r| < 1.
+func (c Context) sinSmall(z, r *Big) *Big {
+	if z == r {
+		r = getDec(c).Copy(r)
+		defer putDec(r)
+	}
+
+	//  Sin(r) = r * (1 - r**2/3! + r**4/5! - ...)
+	var negRSq, q Big
+	c.Mul(&negRSq, r, r)
+	negRSq.CopyNeg(&negRSq)
+	sum := BinarySplitDynamic(c,
+		func(_ uint64) *Big { return one.get() },
+		getCosineP(&negRSq),
+		func(_ uint64) *Big { return one.get() },
+		func(n uint64) *Big {
+			// q(0) = 1, q(n) = 2n(2n+1) for n > 0
+			if n == 0 {
+				return one.get()
+			}
+			return q.SetUint64((2 * n) * (2*n + 1))
+		},
+	)
+	return c.Mul(z, r, sum)
+}
 
-	ctx.Precision += halved
-	z.Copy(BinarySplitDynamic(ctx,
+// cosSmall sets z to Cos(r) for |r| < 1.
+func (c Context) cosSmall(z, r *Big) *Big {
+	negXSq, halved := c.prepCosine(z, r)
+
+	c.Precision += halved
+	z.Copy(BinarySplitDynamic(c,
 		func(_ uint64) *Big { return one.get() },
 		getCosineP(negXSq),
 		func(_ uint64) *Big { return one.get() },
-		ctx.getCosineQ(),
+		c.getCosineQ(),
 	))
 
 	// now undo the half angle bit
 	for i := 0; i < halved; i++ {
-		ctx.Mul(z, z, z)
-		ctx.Mul(z, z, two.get())
-		ctx.Sub(z, z, one.get())
+		c.Mul(z, z, z)
+		c.Mul(z, z, two.get())
+		c.Sub(z, z, one.get())
 	}
-
-	return c.finish(z)
+	return z
 }
 
-func (c Context) prepCosine(z, x *Big) (*Big, int, bool) {
+// reducePi2 sets z to x - n*pi/2, where n is the integer closest to x/(pi/2),
+// with c's precision and returns the two least significant bits of n. It
+// returns false if x is too large.
+func (c Context) reducePi2(z, x *Big) (n int, ok bool) {
+	if x.CmpAbs(ptFive.get()) <= 0 {
+		z.Copy(x)
+		return 0, true
+	}
+
+	const maxDigits = 20
+	digits := max(x.adjusted()+1, 0)
+	if digits > maxDigits {
+		return 0, false
+	}
+
 	if z == x {
 		x = getDec(c).Copy(x)
 		defer putDec(x)
 	}
 
-	var tmp Big
-	var twoPi Big
-
-	// For better results, we need to make sure the value we're
-	// working with a value is closer to zero.
-	c.Mul(&twoPi, c.pi(&twoPi), two.get()) // 2 * Pi
-	if x.CmpAbs(&twoPi) >= 0 {
-		// For cos to work correctly the input must be in (-2Pi,
-		// 2Pi).
-		c.Quo(&tmp, x, &twoPi)
-		v, ok := tmp.Int64()
-		if !ok {
-			return nil, 0, false
-		}
-		uv := arith.Abs(v)
+	var pi2, q Big
+	for extra := 0; ; {
+		// n has as many digits as x's integral part, which is how many digits
+		// of pi/2 are lost by the multiplication, and z as many leading zeros
+		// as the subtraction cancels.
+		ctx := Context{Precision: c.Precision + digits + extra + 2}
+		ctx.pi2(&pi2)
+		ctx.Quo(&q, x, &pi2)
+		ctx.RoundToInt(&q)
+		ctx.FMA(z, pi2.CopyNeg(&pi2), &q, x)
 
-		// Adjust so we have ceil(v/10) + ctx.Precision, but check for overflows.
-		// 1+((v-1)/10) will be wildly incorrect for v == 0, but x/y = 0 iff
-		// x = 0 and y != 0. In this case, -2pi <= x >= 2pi, so we're fine.
-		prec, carry := bits.Add64(1+((uv-1)/10), uint64(c.Precision), 0)
-		if carry != 0 || prec > arith.MaxInt {
-			return nil, 0, false
+		zeros := c.Precision
+		if z.Sign() != 0 {
+			zeros = -z.adjusted()
 		}
-		pctx := Context{Precision: int(prec)}
-
-		if uv <= math.MaxInt64/2 {
-			tmp.SetMantScale(v, 0)
+		if zeros <= extra+1 {
+			break
 		}
+		extra += zeros
+	}
 
-		pctx.Mul(&tmp, &twoPi, &tmp)
+	i := q.Int(nil)
+	return int(i.Bit(0) | i.Bit(1)<<1), true
+}
 
-		// so toRemove = 2*Pi*v so x - toRemove < 2*Pi
-		c.Sub(z, x, &tmp)
-	} else {
-		z.Copy(x)
-	}
+func (c Context) prepCosine(z, x *Big) (*Big, int) {
+	z.Copy(x)
+
+	var tmp Big
 
 	// add 1 to the precision for the up eventual squaring.
 	c.Precision++
@@ -817,18 +869,15 @@ func (c Context) prepCosine(z, x *Big) (*Big, int, bool) {
 			// Increase the precision based on the number of divides. Overflow is
 			// unlikely, but possible.
 			c.Precision += halved
-			if c.Precision <= halved {
-				return nil, 0, false
-			}
-			// The maximum value for halved will be 14, given
-			//     ceil(1.4427*log(2*pi)+11) = 14
+			// The maximum value for halved will be 11, given
+			//     ceil(1.4427*log(1)+11) = 11
 			c.Quo(z, z, tmp.SetUint64(1<<uint64(halved)))
 		}
 	}
 
 	c.Mul(z, z, z)
 	z.CopyNeg(z)
-	return z, halved, true
+	return z, halved
 }
 
 func getCosineP(negXSq *Big) func(n uint64) *Big {
@@ -3053,13 +3102,15 @@ func (c Context) Sin(z, x *Big) *Big {
 		return z.setZero(0, 0)
 	}
 
-	// Sin(x) = Cos(pi/2 - x)
 	ctx := c.dup()
 	ctx.Precision += defaultExtraPrecision
-	pi2 := ctx.pi2(getDec(ctx))
-	ctx.Cos(z, ctx.Sub(z, pi2, x))
-	putDec(pi2)
 
+	n, ok := ctx.reducePi2(z, x)
+	if !ok {
+		z.Context.Conditions |= InvalidOperation
+		return z.SetNaN(false)
+	}
+	ctx.sin(z, z, n)
 	return c.finish(z)
 }
 
@@ -3130,95 +3181,17 @@ func (c Context) Tan(z, x *Big) *Big {
 	ctx := c.dup()
 	ctx.Precision += defaultExtraPrecision
 
-	x0, ok := ctx.prepTan(z, x)
+	n, ok := ctx.reducePi2(z, x)
 	if !ok {
 		z.Context.Conditions |= InvalidOperation
 		return z.SetNaN(false)
 	}
 
-	// tan(x) = sign(x)*sqrt(1/cos(x)^2-1)
-
-	// tangent has an asymptote at pi/2 and we'll need more
-	// precision as we get closer the reason we need it is as we
-	// approach pi/2 is due to the squaring portion, it will
-	// cause the small value of Cosine to be come extremely
-	// small. we COULD fix it by simply doubling the precision,
-	// however, when the precision gets larger it will be
-	// a significant impact to performance, instead we'll only
-	// add the extra precision when we need it by using the
-	// difference to see how much extra precision we need we'll
-	// speed things up by only using a quick compare to see if we
-	// need to do a deeper inspection.
-	tctx := ctx.dup()
-	tmp := getDec(tctx)
-	defer putDec(tmp)
-
-	if x.CmpAbs(onePtFour.get()) >= 0 {
-		if x.Signbit() {
-			ctx.Add(tmp, x, ctx.pi2(tmp))
-		} else {
-			ctx.Sub(tmp, x, ctx.pi2(tmp))
-		}
-		tctx.Precision += tmp.Scale() - tmp.Precision()
-	}
-
-	tctx.Cos(tmp, x0)
-	ctx.Mul(tmp, tmp, tmp)
-	ctx.Quo(tmp, one.get(), tmp)
-	ctx.Sub(tmp, tmp, one.get())
-	tctx.Sqrt(tmp, tmp)
-	if x0.Signbit() {
-		tmp.CopyNeg(tmp)
-	}
-	ctx.Precision -= defaultExtraPrecision
-	return ctx.Set(z, tmp)
-}
-
-func (c Context) prepTan(z, x *Big) (*Big, bool) {
-	if z == x {
-		x = getDec(c)
-		defer putDec(x)
-	}
-
-	if pi2 := c.pi2(z); x.CmpAbs(pi2) >= 0 {
-		// For tan to work correctly the input must be in (-2pi,
-		// 2pi)
-		if x.Signbit() {
-			c.Add(z, x, pi2)
-		} else {
-			c.Sub(z, x, pi2)
-		}
-
-		var tmp Big
-		c.QuoInt(z, z, c.pi(&tmp))
-		if x.Signbit() {
-			c.Sub(z, z, one.get())
-		} else {
-			c.Add(z, z, one.get())
-		}
-
-		v, ok := z.Int64()
-		if !ok {
-			return nil, false
-		}
-		uv := arith.Abs(v)
-
-		// Adjust so we have ceil(v/10) + ctx.Precision, but check for overflows.
-		// 1+((v-1)/10) will be widly incorrect for v == 0, but x/y = 0 iff
-		// x = 0 and y != 0. In this case, -2pi <= x >= 2pi, so we're fine.
-		prec, carry := bits.Add64(1+((uv-1)/10), uint64(c.Precision), 0)
-		if carry != 0 || prec > arith.MaxInt {
-			return nil, false
-		}
-		pctx := Context{Precision: int(prec)}
-
-		pctx.Mul(z, pctx.pi(&tmp), z)
-
-		c.Precision = c.precision() + 1
-		// so toRemove = m*Pi so |x-toRemove| < Pi/2
-		c.Sub(z, x, z)
-	} else {
-		z.Copy(x)
-	}
-	return z, true
+	// Tan(x) = Sin(x) / Cos(x)
+	cos := getDec(ctx)
+	ctx.sin(cos, z, n+1)
+	ctx.sin(z, z, n)
+	ctx.Quo(z, z, cos)
+	putDec(cos)
+	return c.finish(z)
 }
diff --git a/context.go b/context.go
index a6ecfc6..0157e7e 100644
--- a/context.go
+++ b/context.go
@@ -60,12 +60,14 @@ type Context struct {
 }
 
 // dup returns the Context for intermediate results: it has a non-zero
-// Precision and is in GDA mode, since additions and multiplications are not
-// rounded in Go mode.
+// Precision, is in GDA mode, since additions and multiplications are not
+// rounded in Go mode, and rounds to nearest, since the errors of directed
+// rounding add up.
 func (c Context) dup() Context {
 	ctx := c
 	ctx.Precision = c.precision()
 	ctx.OperatingMode = GDA
+	ctx.RoundingMode = ToNearestEven
 	return ctx
 }
 
-- 
2.43.0


From d8594a8c95c0aa2935b7b1f74ef4f03486d3e87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:43 +0000
Subject: [PATCH 30/55] fix: Asin and Acos cancelled close to -1 and 1

1 - x*x was computed from the rounded square, and Acos was the difference of
two numbers that are almost equal.
---
 big_ctx.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 34b04d5..a79a3bb 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -344,11 +344,16 @@ func (c Context) Acos(z, x *Big) *Big {
 	ctx := c.dup()
 	ctx.Precision += defaultExtraPrecision
 
-	// Acos(x) = pi/2 - arcsin(x)
-
-	pi2 := ctx.pi2(getDec(ctx))
-	ctx.Sub(z, pi2, ctx.Asin(z, x))
-	putDec(pi2)
+	// Acos(x) = 2 * atan(sqrt((1 - x) / (1 + x)))
+
+	tmp := getDec(ctx)
+	ctx.Add(tmp, one.get(), x) //                     1 + x
+	ctx.Sub(z, one.get(), x)   //            1 - x
+	ctx.Quo(z, z, tmp)         //           (1 - x) / (1 + x)
+	ctx.Sqrt(z, z)             //      sqrt((1 - x) / (1 + x))
+	ctx.Atan(z, z)             // atan(sqrt((1 - x) / (1 + x)))
+	ctx.Mul(z, z, two.get())
+	putDec(tmp)
 	return c.finish(z)
 }
 
@@ -397,8 +402,8 @@ func (c Context) Asin(z, x *Big) *Big {
 		x = getDec(c).Copy(x)
 		defer putDec(x)
 	}
-	c.Mul(z, x, x)           //                            x*x
-	ctx.Sub(z, one.get(), z) //                        1 - x*x
+	z.CopyNeg(x)
+	ctx.FMA(z, z, x, one.get()) //                     1 - x*x
 	ctx.Sqrt(z, z)           //                   sqrt(1 - x*x)
 	ctx.Add(z, one.get(), z) //               1 + sqrt(1 - x*x)
 	ctx.Quo(z, x, z)         //          x / (1 + sqrt(1 - x*x))
-- 
2.43.0


From ff2c80c35f4103be1a8d6bc64dd0518213f37422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:02 +0000
Subject: [PATCH 31/55] fix: Atan2 ignored a NaN ordinate and read its abscissa
 after setting the receiver

---
 big_ctx.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index a79a3bb..3f380d2 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -627,25 +627,27 @@ func (c Context) Atan2(z, y, x *Big) *Big {
 	if z.invalidContext(c) {
 		return z
 	}
-	if z.checkNaNs(x, x, atan) {
+	if z.checkNaNs(y, x, atan2) {
 		return z
 	}
 
 	ctx := c.dup()
 	ctx.Precision += defaultExtraPrecision
 
+	// Save the signs in case z == x or z == y.
+	sb := y.form & signbit
+	neg := x.Signbit()
+
 	switch {
 	// Special values.
 	case x.isSpecial(), x.isZero(), y.isSpecial(), y.isZero():
-		// Save the signbit in case z == y.
-		sb := y.form & signbit
 		ctx.atan2Specials(z, x, y)
 		z.form |= sb
 	default:
 		ctx.Atan(z, ctx.Quo(z, y, x))
-		if x.Sign() < 0 {
+		if neg {
 			pi := ctx.pi(getDec(ctx))
-			if z.Sign() <= 0 {
+			if sb == 0 {
 				ctx.Add(z, z, pi)
 			} else {
 				ctx.Sub(z, z, pi)
-- 
2.43.0


From 9c02bed7c9371634a088d50bf5b13f50f82bf40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:42 +0000
Subject: [PATCH 32/55] fix: inexact results of Log and the trigonometric
 functions did not always raise Inexact and Rounded

---
 big_ctx.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/big_ctx.go b/big_ctx.go
index 3f380d2..ae2f21c 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -341,6 +341,8 @@ func (c Context) Acos(z, x *Big) *Big {
 		return z.SetUint64(0)
 	}
 
+	z.Context.Conditions |= Inexact | Rounded
+
 	ctx := c.dup()
 	ctx.Precision += defaultExtraPrecision
 
@@ -393,6 +395,10 @@ func (c Context) Asin(z, x *Big) *Big {
 		return z
 	}
 
+	if !x.isZero() {
+		z.Context.Conditions |= Inexact | Rounded
+	}
+
 	ctx := c.dup()
 	ctx.Precision += defaultExtraPrecision
 
@@ -439,6 +445,10 @@ func (c Context) Atan(z, x *Big) *Big {
 		return z
 	}
 
+	if !x.isZero() {
+		z.Context.Conditions |= Inexact | Rounded
+	}
+
 	ctx := c.dup()
 	ctx.Precision += defaultExtraPrecision
 
@@ -644,6 +654,7 @@ func (c Context) Atan2(z, y, x *Big) *Big {
 		ctx.atan2Specials(z, x, y)
 		z.form |= sb
 	default:
+		z.Context.Conditions |= Inexact | Rounded
 		ctx.Atan(z, ctx.Quo(z, y, x))
 		if neg {
 			pi := ctx.pi(getDec(ctx))
@@ -724,6 +735,10 @@ func (c Context) Cos(z, x *Big) *Big {
 		return z.SetNaN(false)
 	}
 
+	if !x.isZero() {
+		z.Context.Conditions |= Inexact | Rounded
+	}
+
 	ctx := c.dup()
 	ctx.Precision += defaultExtraPrecision
 
@@ -1363,6 +1378,7 @@ func (c Context) log(z, x *Big, ten bool) *Big {
 				return z.SetMantScale(0, 0)
 			case 10:
 				// Specialized function.
+				z.Context.Conditions |= Inexact | Rounded
 				return c.ln10(z)
 			}
 		}
@@ -3109,6 +3125,8 @@ func (c Context) Sin(z, x *Big) *Big {
 		return z.setZero(0, 0)
 	}
 
+	z.Context.Conditions |= Inexact | Rounded
+
 	ctx := c.dup()
 	ctx.Precision += defaultExtraPrecision
 
@@ -3185,6 +3203,10 @@ func (c Context) Tan(z, x *Big) *Big {
 		return z.SetNaN(false)
 	}
 
+	if !x.isZero() {
+		z.Context.Conditions |= Inexact | Rounded
+	}
+
 	ctx := c.dup()
 	ctx.Precision += defaultExtraPrecision
 
-- 
2.43.0


From 825a2da150d93ac84a306f5b149fe8b4ab678fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:59 +0000
Subject: [PATCH 33/55] fix: Asin(-1) and Atan(-Inf) lost the sign when the
 receiver was the operand

---
 big_ctx.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index ae2f21c..2b737e7 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -388,11 +388,8 @@ func (c Context) Asin(z, x *Big) *Big {
 	}
 
 	if cmp1 == 0 {
-		c.pi2(z)
-		if x.Signbit() {
-			z.SetSignbit(true)
-		}
-		return z
+		neg := x.Signbit() // z might be x
+		return c.pi2(z).SetSignbit(neg)
 	}
 
 	if !x.isZero() {
@@ -440,9 +437,8 @@ func (c Context) Atan(z, x *Big) *Big {
 	}
 
 	if x.IsInf(0) {
-		c.pi2(z)
-		z.form |= x.form & signbit
-		return z
+		neg := x.Signbit() // z might be x
+		return c.pi2(z).SetSignbit(neg)
 	}
 
 	if !x.isZero() {
-- 
2.43.0


From 7e0976fba47b4095c530b9953ee68179396e6d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:15 +0000
Subject: [PATCH 34/55] fix: Mantissa reported that 1<<64-1 does not fit into a
 uint64

---
 big.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/big.go b/big.go
index 2e39e0b..111b060 100644
--- a/big.go
+++ b/big.go
@@ -1122,7 +1122,11 @@ func (x *Big) IsInt() bool {
 // This may be used to convert a decimal representing a monetary
 // value to its most basic unit (e.g., $123.45 to 12345 cents).
 func (x *Big) Mantissa() (uint64, bool) {
-	return x.compact, x.IsFinite() && x.compact != c.Inflated
+	if x.isInflated() {
+		// The coefficient 1<<64 - 1 is inflated, but fits.
+		return x.unscaled.Uint64(), x.IsFinite() && x.unscaled.IsUint64()
+	}
+	return x.compact, x.IsFinite()
 }
 
 // isOdd reports whether x is an odd integer.
-- 
2.43.0


From b1595569c8eb3e3a9ca712d1758e22906f264b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 35/55] fix: Set, SetRat, SetString, Pi and E ignored an
 invalid Context

Every other operation returns a NaN and raises InvalidContext; these
rounded to a nonsensical precision, or didn't terminate.
---
 big_ctx.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/big_ctx.go b/big_ctx.go
index 2b737e7..4c1936a 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -941,6 +941,9 @@ func (c Context) Ceil(z, x *Big) *Big {
 
 // E sets z to the mathematical constant e and returns z.
 func (c Context) E(z *Big) *Big {
+	if z.invalidContext(c) {
+		return z
+	}
 	if c.Precision <= constPrec {
 		return c.Set(z, _E.get())
 	}
@@ -1940,6 +1943,9 @@ func (c Context) pi(z *Big) *Big {
 
 // Pi sets z to the mathematical constant pi and returns z.
 func (c Context) Pi(z *Big) *Big {
+	if z.invalidContext(c) {
+		return z
+	}
 	return c.pi(z)
 }
 
@@ -3063,12 +3069,18 @@ func (c Context) sqrt3(z *Big) *Big {
 //
 // The result might be rounded, even if z == x.
 func (c Context) Set(z, x *Big) *Big {
+	if z.invalidContext(c) {
+		return z
+	}
 	return c.finish(z.Copy(x))
 }
 
 // SetRat sets z to to the possibly rounded value of x and
 // returns z.
 func (c Context) SetRat(z *Big, x *big.Rat) *Big {
+	if z.invalidContext(c) {
+		return z
+	}
 	if x.IsInt() {
 		return c.finish(z.SetBigMantScale(x.Num(), 0))
 	}
@@ -3086,6 +3098,9 @@ func (c Context) SetString(z *Big, s string) (*Big, bool) {
 	if _, ok := z.SetString(s); !ok {
 		return nil, false
 	}
+	if z.invalidContext(c) {
+		return z, true
+	}
 	return c.finish(z), true
 }
 
-- 
2.43.0


From 479ee437d642e37f0918875152366ac36a5fdf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 36/55] fix: Wallis ignored the only term of a fraction without
 further terms

---
 continued_frac.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/continued_frac.go b/continued_frac.go
index b996b49..dfba010 100644
--- a/continued_frac.go
+++ b/continued_frac.go
@@ -87,7 +87,10 @@ func (c Context) Wallis(z *Big, g Generator) *Big {
 		ctx = c.Context()
 	}
 
-	for g.Next() && p.IsFinite() {
+	if !g.Next() {
+		return ctx.Set(z, a)
+	}
+	for ok := true; ok && p.IsFinite(); ok = g.Next() {
 		t = g.Term()
 
 		z.Copy(a)
-- 
2.43.0


From 1787fd36aca4db58541db6081f01895fdd56de93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 37/55] fix: BinarySplit multiplied by the wrong b(n) in ranges
 of three and four terms

---
 binary_spliting.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/binary_spliting.go b/binary_spliting.go
index 5e5856f..a9c7e8c 100644
--- a/binary_spliting.go
+++ b/binary_spliting.go
@@ -330,10 +330,6 @@ func (s *apbqBinarySplitState) calculate(ctx Context, start, end uint64, A, P, B
 		// T_2 = A3 * B1 * B2 * P1 * P2 * P3; T_2 is finished.
 		ctx.Mul(t2, t2, s.B /* B12 */)
 
-		// T_1 = A2 * B1 * __ P1 * P2 * __
-		//                 B3           Q3
-		ctx.Mul(t1, t1, B2)
-
 		B3 := B(n3)
 		// T_0 = A1 * B2 * B3 * P1 * __ * __
 		//                           Q2   Q3
@@ -399,15 +395,21 @@ func (s *apbqBinarySplitState) calculate(ctx Context, start, end uint64, A, P, B
 
 		b1 := new(Big).Copy(B(n1))
 		ctx.Mul(t3, t3, b1)            // T_3 needs: B23.
-		ctx.Mul(t2, t2, b1)            // T_2 needs: B2.
-		ctx.Mul(t1, t1, b1)            // T_1 is finished.
+		ctx.Mul(t2, t2, b1)            // T_2 needs: B24.
+		ctx.Mul(t1, t1, b1)            // T_1 needs: B34.
 		s.B.Copy(B(n2))                // B = B2.
-		ctx.Mul(t2, t2, s.B /* B2 */)  // T_2 is finished.
-		ctx.Mul(s.B, s.B, B(n3))       // B = B23.
+		ctx.Mul(t2, t2, s.B /* B2 */)  // T_2 needs: B4.
+		b3 := B(n3)
+		ctx.Mul(t1, t1, b3)            // T_1 needs: B4.
+		ctx.Mul(s.B, s.B, b3)          // B = B23.
 		ctx.Mul(t3, t3, s.B /* B23 */) // T_3 is finished.
-		ctx.Mul(s.T, s.T, s.B)         // T_0 is finished.
+		ctx.Mul(s.T, s.T, s.B)         // T_0 needs: B4.
 		ctx.Mul(s.B, s.B, b1)          // B = B123.
-		ctx.Mul(s.B, s.B, B(n4))       // B = B1234.
+		b4 := B(n4)
+		ctx.Mul(t2, t2, b4)   // T_2 is finished.
+		ctx.Mul(t1, t1, b4)   // T_1 is finished.
+		ctx.Mul(s.T, s.T, b4) // T_0 is finished.
+		ctx.Mul(s.B, s.B, b4) // B = B1234.
 
 		ctx.Add(s.T, s.T, t1) // T = T_0 + T_1
 		ctx.Add(s.T, s.T, t2) // T = T_0 + T_1 + T_2
-- 
2.43.0


From 60ca8212750c14d2663c06ac2a0492bcb3a2abb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:41 +0000
Subject: [PATCH 38/55] fix: E did not return for upward rounding of more than
 300 digits; E and Pi of 300 digits were not Inexact

---
 big_ctx.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 4c1936a..7087055 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -944,7 +944,7 @@ func (c Context) E(z *Big) *Big {
 	if z.invalidContext(c) {
 		return z
 	}
-	if c.Precision <= constPrec {
+	if c.Precision < constPrec {
 		return c.Set(z, _E.get())
 	}
 
@@ -955,8 +955,8 @@ func (c Context) E(z *Big) *Big {
 		prev = new(Big)
 	)
 
-	ctx := c
-	ctx.Precision += 5
+	// Rounding to nearest makes sure that sum stops changing.
+	ctx := Context{Precision: c.Precision + 5}
 	for i := uint64(2); sum.Cmp(prev) != 0; i++ {
 		// Use term as our intermediate storage for our
 		// factorial. SetUint64 should be marginally faster than
@@ -968,7 +968,7 @@ func (c Context) E(z *Big) *Big {
 		prev.Copy(sum)
 		ctx.Add(sum, sum, term)
 	}
-	return ctx.Set(z, sum)
+	return c.finish(sum)
 }
 
 // Exp sets z to e**x and returns z.
@@ -1935,7 +1935,7 @@ func (c Context) pi2(z *Big) *Big {
 
 // pi sets z to the mathematical constant pi and returns z.
 func (c Context) pi(z *Big) *Big {
-	if c.Precision <= constPrec {
+	if c.Precision < constPrec {
 		return c.Set(z, _Pi.get())
 	}
 	return c.piChudnovskyBrothers(z)
-- 
2.43.0


From 3a34c70a0591ea6f1ac6659d2181c125342c1e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:38 +0000
Subject: [PATCH 39/55] fix: invalid function arguments did not panic in Go
 mode

Sqrt, Log, Pow, Sin, Cos, Tan, Asin and Acos set a NaN result with SetNaN,
which does not panic with ErrNaN in Go mode as other operations do.
---
 big_ctx.go | 36 ++++++++++++------------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 7087055..215b601 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -330,8 +330,7 @@ func (c Context) Acos(z, x *Big) *Big {
 
 	cmp1 := cmpAbsInt(x, 1)
 	if x.IsInf(0) || cmp1 > 0 {
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
 	if cmp1 == 0 {
@@ -383,8 +382,7 @@ func (c Context) Asin(z, x *Big) *Big {
 
 	cmp1 := cmpAbsInt(x, 1)
 	if x.IsInf(0) || cmp1 > 0 {
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
 	if cmp1 == 0 {
@@ -727,8 +725,7 @@ func (c Context) Cos(z, x *Big) *Big {
 	}
 
 	if x.IsInf(0) {
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
 	if !x.isZero() {
@@ -740,8 +737,7 @@ func (c Context) Cos(z, x *Big) *Big {
 
 	n, ok := ctx.reducePi2(z, x)
 	if !ok {
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 	ctx.sin(z, z, n+1) // Cos(x) = Sin(x + pi/2)
 	return c.finish(z)
@@ -1353,8 +1349,7 @@ func logSpecials(z, x *Big) bool {
 			z.SetInf(true)
 		} else {
 			// log -x is undefined.
-			z.Context.Conditions |= InvalidOperation
-			z.SetNaN(false)
+			z.setNaN(InvalidOperation, qnan, 0)
 		}
 		return true
 	}
@@ -2079,8 +2074,7 @@ func (c Context) Pow(z, x, y *Big) *Big {
 		if s == 0 {
 			if y.Sign() == 0 {
 				// 0 ** 0 is undefined
-				z.Context.Conditions |= InvalidOperation
-				return z.SetNaN(false)
+				return z.setNaN(InvalidOperation, qnan, 0)
 			}
 			neg := x.Signbit() && y.isOdd()
 			if y.Signbit() {
@@ -2093,8 +2087,7 @@ func (c Context) Pow(z, x, y *Big) *Big {
 		if s < 0 && (!y.IsInt() || y.IsInf(0)) {
 			// -x ** y.vvv is undefined
 			// -x ** ±Inf is undefined
-			z.Context.Conditions |= InvalidOperation
-			return z.SetNaN(false)
+			return z.setNaN(InvalidOperation, qnan, 0)
 		}
 	}
 
@@ -2997,8 +2990,7 @@ func (c Context) Sqrt(z, x *Big) *Big {
 		if xs == 0 {
 			return c.fix(z.setZero(x.form&signbit, -ideal))
 		}
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
 	// Already checked for negative numbers.
@@ -3127,8 +3119,7 @@ func (c Context) Sin(z, x *Big) *Big {
 	if !x.IsFinite() {
 		// sin(inf) = NaN
 		// sin(NaN) = NaN
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
 	if x.isZero() {
@@ -3143,8 +3134,7 @@ func (c Context) Sin(z, x *Big) *Big {
 
 	n, ok := ctx.reducePi2(z, x)
 	if !ok {
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 	ctx.sin(z, z, n)
 	return c.finish(z)
@@ -3210,8 +3200,7 @@ func (c Context) Tan(z, x *Big) *Big {
 	if !x.IsFinite() {
 		// tan(NaN) = NaN
 		// tan(inf) = NaN
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
 	if !x.isZero() {
@@ -3223,8 +3212,7 @@ func (c Context) Tan(z, x *Big) *Big {
 
 	n, ok := ctx.reducePi2(z, x)
 	if !ok {
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
 	// Tan(x) = Sin(x) / Cos(x)
-- 
2.43.0


From 00ab50ed18110bbe74533d104731584ced7578ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:16 +0000
Subject: [PATCH 40/55] fix: Regexp did not match Infinity with a sign or as a
 whole

---
 big.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big.go b/big.go
index 111b060..faece62 100644
--- a/big.go
+++ b/big.go
@@ -1649,7 +1649,7 @@ func (z *Big) SetScale(scale int) *Big {
 
 // Regexp matches any valid string representing a decimal that
 // can be passed to SetString.
-var Regexp = regexp.MustCompile(`(?i)(([+-]?(\d+\.\d*|\.?\d+)([eE][+-]?\d+)?)|(inf(infinity)?))|([+-]?([sq]?nan\d*))`)
+var Regexp = regexp.MustCompile(`(?i)(([+-]?(\d+\.\d*|\.?\d+)([eE][+-]?\d+)?)|([+-]?inf(inity)?))|([+-]?([sq]?nan\d*))`)
 
 // SetString sets z to the value of s and returns z.
 //
-- 
2.43.0


From 0b1c1a0572ed1999d502e2d756faed257f73c5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:16 +0000
Subject: [PATCH 41/55] fix: dectest rounding mode up was read as half-even

---
 dectest/case.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dectest/case.go b/dectest/case.go
index 0d83b1a..d5040c3 100644
--- a/dectest/case.go
+++ b/dectest/case.go
@@ -257,7 +257,7 @@ var roundingModes = map[string]RoundingMode{
 	"half_down": ToNearestTowardZero,
 	"half_even": ToNearestEven,
 	"half_up":   ToNearestAway,
-	"up":        0,
+	"up":        AwayFromZero,
 	"05up":      0,
 }
 
-- 
2.43.0


From f7699b7c61978a266d4c77a4f572c7787df1818d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:16 +0000
Subject: [PATCH 42/55] fix: dectest ShortString truncated data that fits

---
 dectest/case.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dectest/case.go b/dectest/case.go
index d5040c3..75beb09 100644
--- a/dectest/case.go
+++ b/dectest/case.go
@@ -42,7 +42,7 @@ func trunc(d Data, l int) Data {
 }
 
 func writeTrunc(b *strings.Builder, d Data, maxLen int) {
-	if maxLen <= 0 || len(d) < maxLen {
+	if maxLen <= 0 || len(d) <= maxLen {
 		b.WriteString(string(d))
 	} else {
 		b.WriteString(string(d[:maxLen/2]))
-- 
2.43.0


From ebd6e30e90277bede02761c26cba3d2f7c4a08f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:15 +0000
Subject: [PATCH 43/55] fix: intermediate results of functions obeyed the
 exponent limits

---
 context.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 0157e7e..84f5dc4 100644
--- a/context.go
+++ b/context.go
@@ -62,12 +62,15 @@ type Context struct {
 // dup returns the Context for intermediate results: it has a non-zero
 // Precision, is in GDA mode, since additions and multiplications are not
 // rounded in Go mode, and rounds to nearest, since the errors of directed
-// rounding add up.
+// rounding add up. Its exponents are not limited, since an intermediate result
+// can be out of range when the final one is not.
 func (c Context) dup() Context {
 	ctx := c
 	ctx.Precision = c.precision()
 	ctx.OperatingMode = GDA
 	ctx.RoundingMode = ToNearestEven
+	ctx.MaxScale = 0
+	ctx.MinScale = 0
 	return ctx
 }
 
-- 
2.43.0


From 23234603c01ad5836f94b44a525fa79757793981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:15 +0000
Subject: [PATCH 44/55] fix: Int64 and Uint64 did not return for huge exponents

---
 big.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/big.go b/big.go
index faece62..0256016 100644
--- a/big.go
+++ b/big.go
@@ -989,6 +989,9 @@ func (x *Big) Int64() (int64, bool) {
 	// x might be too large to fit into an int64 *now*, but
 	// rescaling x might shrink it enough. See issue #20.
 	if !x.isCompact() {
+		if x.exp > 0 {
+			return 0, false
+		}
 		xb := x.Int(nil)
 		return xb.Int64(), xb.IsInt64()
 	}
@@ -1026,6 +1029,9 @@ func (x *Big) Uint64() (uint64, bool) {
 	// x might be too large to fit into an uint64 *now*, but
 	// rescaling x might shrink it enough. See issue #20.
 	if !x.isCompact() {
+		if x.exp > 0 {
+			return 0, false
+		}
 		xb := x.Int(nil)
 		return xb.Uint64(), xb.IsUint64()
 	}
-- 
2.43.0


From 6f91d48318b54debe9c27fdf7ff28b72df5df1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:15 +0000
Subject: [PATCH 45/55] fix: Pow did not return for huge integer exponents

---
 big_ctx.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 215b601..751730b 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2117,7 +2117,7 @@ func (c Context) Pow(z, x, y *Big) *Big {
 		return c.Sqrt(z, x)
 	}
 
-	if y.IsInt() {
+	if y.IsInt() && y.adjusted() < 20 {
 		c.powInt(z, x, y)
 	} else {
 		c.powDec(z, x, y)
@@ -2194,8 +2194,8 @@ func (c Context) powDec(z, x, y *Big) *Big {
 		y = getDec(c).Copy(y)
 		defer putDec(y)
 	}
-	neg := x.Signbit()
-	if neg {
+	neg := x.Signbit() && y.isOdd()
+	if x.Signbit() {
 		x = getDec(c).CopyAbs(x)
 		defer putDec(x)
 	}
@@ -2203,7 +2203,7 @@ func (c Context) powDec(z, x, y *Big) *Big {
 	work := c.dup()
 	work.Precision = max(x.Precision(), c.precision()) + 4 + 19
 	work.Exp(z, work.Mul(z, y, work.Log(z, x)))
-	if neg && z.IsFinite() {
+	if neg && !z.IsNaN(0) {
 		z.CopyNeg(z)
 	}
 	return z
-- 
2.43.0


From 5947a121aea017af15d684781290bb9bac3496a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:45 +0000
Subject: [PATCH 46/55] fix: Int did not return for tiny numbers and zeros with
 huge exponents

---
 big.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/big.go b/big.go
index 0256016..de1295f 100644
--- a/big.go
+++ b/big.go
@@ -959,6 +959,10 @@ func (x *Big) Int(z *big.Int) *big.Int {
 		return z
 	}
 
+	if x.isZero() || x.adjusted() < 0 {
+		return z.SetUint64(0)
+	}
+
 	if x.isCompact() {
 		z.SetUint64(x.compact)
 	} else {
-- 
2.43.0


From 2d88a147bbaa365b080618436cb8b07295370375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:44 +0000
Subject: [PATCH 47/55] fix: Log keeps its digits just below 1 at large
 precisions

logLarge rescaled x to [1, 10) even if x is just below 1, so that log(y)
and p*log(10) almost canceled each other out.
---
 big_ctx.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/big_ctx.go b/big_ctx.go
index 751730b..08a1b70 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -1631,7 +1631,12 @@ func sched(init, max int) []int {
 
 func (c Context) logLarge(z, x *Big) int64 {
 	var p int64
+	// log(y) and p*log(10) almost cancel each other out if x is
+	// just below 1, so don't rescale x in that case.
+	near1 := x.adjusted() == -1 && getmsd(x, 1) >= 5
 	switch {
+	case near1:
+		p = 0
 	// 1e+1000
 	case x.Scale() <= 0:
 		p = int64(x.Precision() - x.Scale() - 1)
@@ -1646,7 +1651,9 @@ func (c Context) logLarge(z, x *Big) int64 {
 
 	// Rescale to 1 <= x < 10
 	y := new(Big).Copy(x)
-	y.exp = -(x.Precision() - 1)
+	if !near1 {
+		y.exp = -(x.Precision() - 1)
+	}
 
 	// Continued fraction algorithm is for log(1+x)
 	c.Sub(y, y, one.get())
-- 
2.43.0


From c597c4be755a4941b463d69cd39bc0465bf48f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:44 +0000
Subject: [PATCH 48/55] fix: Sin, Cos and Tan of numbers very close to a
 multiple of pi/2

reducePi2 stopped adding digits after the first remainder of zero, so the
result was zero if x agrees with a multiple of pi/2 to many more digits
than the precision.
---
 big_ctx.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/big_ctx.go b/big_ctx.go
index 08a1b70..1e30360 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -834,7 +834,8 @@ func (c Context) reducePi2(z, x *Big) (n int, ok bool) {
 		ctx.RoundToInt(&q)
 		ctx.FMA(z, pi2.CopyNeg(&pi2), &q, x)
 
-		zeros := c.Precision
+		// z can't be zero since x isn't a multiple of pi/2.
+		zeros := extra + c.Precision
 		if z.Sign() != 0 {
 			zeros = -z.adjusted()
 		}
-- 
2.43.0


From 09c61114100e181a8adb248312e8c4cc04da4c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:07 +0000
Subject: [PATCH 49/55] fix: Wallis stops at once when its first convergent is
 zero

---
 continued_frac.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/continued_frac.go b/continued_frac.go
index dfba010..de5b2a6 100644
--- a/continued_frac.go
+++ b/continued_frac.go
@@ -90,6 +90,7 @@ func (c Context) Wallis(z *Big, g Generator) *Big {
 	if !g.Next() {
 		return ctx.Set(z, a)
 	}
+	p.Copy(a)
 	for ok := true; ok && p.IsFinite(); ok = g.Next() {
 		t = g.Term()
 
-- 
2.43.0


From 015d8e8941f0a95a91b914eb8689f1a327fbbabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:56 +0000
Subject: [PATCH 50/55] fix: dectest.Scanner took a read error for the end of
 the file

---
 dectest/scanner.go | 311 +++++++++++++++++++++++----------------------
 dectest/scanner.rl |   5 +-
 2 files changed, 161 insertions(+), 155 deletions(-)

diff --git a/dectest/scanner.go b/dectest/scanner.go
index 8123bc7..607f4a1 100644
--- a/dectest/scanner.go
+++ b/dectest/scanner.go
@@ -53,7 +53,10 @@ func (s *Scanner) Case() *Case {
 }
 
 func (s *Scanner) Err() error {
-	return s.err
+	if s.err != nil {
+		return s.err
+	}
+	return s.s.Err()
 }
 
 func (s *Scanner) parse(data []byte) (err error) {
@@ -64,19 +67,19 @@ func (s *Scanner) parse(data []byte) (err error) {
 		cond Condition
 	)
 
-//line scanner.go:70
+//line scanner.go:73
 	const parser_start int = 1
 	const parser_first_final int = 412
 	const parser_error int = 0
 
 	const parser_en_main int = 1
 
-//line scanner.go:78
+//line scanner.go:81
 	{
 		cs = parser_start
 	}
 
-//line scanner.go:83
+//line scanner.go:86
 	{
 		if p == pe {
 			goto _test_eof
@@ -967,7 +970,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		cs = 0
 		goto _out
 	tr0:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st2
 	st2:
@@ -975,7 +978,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof2
 		}
 	st_case_2:
-//line scanner.go:982
+//line scanner.go:985
 		switch {
 		case data[p] > 90:
 			if 97 <= data[p] && data[p] <= 122 {
@@ -1053,7 +1056,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr11:
-//line scanner.rl:71
+//line scanner.rl:74
 
 		s.c = &Case{ID: string(data[mark:p])}
 
@@ -1063,7 +1066,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof8
 		}
 	st_case_8:
-//line scanner.go:1070
+//line scanner.go:1073
 		switch data[p] {
 		case 32:
 			goto st8
@@ -1137,7 +1140,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr13:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st9
 	st9:
@@ -1145,7 +1148,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof9
 		}
 	st_case_9:
-//line scanner.go:1152
+//line scanner.go:1155
 		switch data[p] {
 		case 66:
 			goto st10
@@ -1190,7 +1193,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr33:
-//line scanner.rl:81
+//line scanner.rl:84
 
 		if s.c.Op, ok = operations[strings.ToLower(string(data[mark:p]))]; !ok {
 			return fmt.Errorf("dectest: invalid op: %q", data[mark:p])
@@ -1202,7 +1205,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof12
 		}
 	st_case_12:
-//line scanner.go:1209
+//line scanner.go:1212
 		switch data[p] {
 		case 32:
 			goto st12
@@ -1284,7 +1287,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr36:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st14
 	st14:
@@ -1292,7 +1295,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof14
 		}
 	st_case_14:
-//line scanner.go:1299
+//line scanner.go:1302
 		switch data[p] {
 		case 32:
 			goto tr43
@@ -1306,7 +1309,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr43:
-//line scanner.rl:114
+//line scanner.rl:117
 		s.c.Inputs = append(s.c.Inputs, Data(data[mark:p]))
 		goto st15
 	st15:
@@ -1314,7 +1317,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof15
 		}
 	st_case_15:
-//line scanner.go:1321
+//line scanner.go:1324
 		switch data[p] {
 		case 32:
 			goto st15
@@ -1359,7 +1362,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr37:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st16
 	st16:
@@ -1367,7 +1370,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof16
 		}
 	st_case_16:
-//line scanner.go:1374
+//line scanner.go:1377
 		switch data[p] {
 		case 46:
 			goto st17
@@ -1395,7 +1398,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr38:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st17
 	st17:
@@ -1403,7 +1406,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof17
 		}
 	st_case_17:
-//line scanner.go:1410
+//line scanner.go:1413
 		if 48 <= data[p] && data[p] <= 57 {
 			goto st18
 		}
@@ -1439,7 +1442,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr44:
-//line scanner.rl:114
+//line scanner.rl:117
 		s.c.Inputs = append(s.c.Inputs, Data(data[mark:p]))
 		goto st19
 	st19:
@@ -1447,7 +1450,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof19
 		}
 	st_case_19:
-//line scanner.go:1454
+//line scanner.go:1457
 		if data[p] == 32 {
 			goto st15
 		}
@@ -1502,7 +1505,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr39:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st23
 	st23:
@@ -1510,7 +1513,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof23
 		}
 	st_case_23:
-//line scanner.go:1517
+//line scanner.go:1520
 		switch data[p] {
 		case 32:
 			goto tr43
@@ -1539,7 +1542,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr40:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st24
 	st24:
@@ -1547,7 +1550,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof24
 		}
 	st_case_24:
-//line scanner.go:1554
+//line scanner.go:1557
 		switch data[p] {
 		case 78:
 			goto st25
@@ -1637,7 +1640,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr41:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st31
 	st31:
@@ -1645,7 +1648,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof31
 		}
 	st_case_31:
-//line scanner.go:1652
+//line scanner.go:1655
 		switch data[p] {
 		case 65:
 			goto st32
@@ -1666,7 +1669,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr42:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st33
 	st33:
@@ -1674,7 +1677,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof33
 		}
 	st_case_33:
-//line scanner.go:1681
+//line scanner.go:1684
 		switch data[p] {
 		case 78:
 			goto st31
@@ -1683,7 +1686,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr46:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st34
 	st34:
@@ -1691,7 +1694,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof34
 		}
 	st_case_34:
-//line scanner.go:1698
+//line scanner.go:1701
 		switch data[p] {
 		case 46:
 			goto st17
@@ -1822,7 +1825,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr67:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st412
 	st412:
@@ -1830,7 +1833,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof412
 		}
 	st_case_412:
-//line scanner.go:1837
+//line scanner.go:1840
 		switch data[p] {
 		case 32:
 			goto tr443
@@ -1844,11 +1847,11 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr443:
-//line scanner.rl:115
+//line scanner.rl:118
 		s.c.Output = Data(data[mark:p])
 		goto st38
 	tr445:
-//line scanner.rl:116
+//line scanner.rl:119
 
 		cond, ok = conditions[strings.ToLower(string(data[mark:p]))]
 		if !ok {
@@ -1862,7 +1865,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof38
 		}
 	st_case_38:
-//line scanner.go:1869
+//line scanner.go:1872
 		switch data[p] {
 		case 32:
 			goto st38
@@ -1904,7 +1907,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr78:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st39
 	st39:
@@ -1912,7 +1915,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof39
 		}
 	st_case_39:
-//line scanner.go:1919
+//line scanner.go:1922
 		switch data[p] {
 		case 76:
 			goto st40
@@ -2174,7 +2177,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr79:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st60
 	st60:
@@ -2182,7 +2185,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof60
 		}
 	st_case_60:
-//line scanner.go:2189
+//line scanner.go:2192
 		switch data[p] {
 		case 73:
 			goto st61
@@ -2541,7 +2544,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr80:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st90
 	st90:
@@ -2549,7 +2552,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof90
 		}
 	st_case_90:
-//line scanner.go:2556
+//line scanner.go:2559
 		switch data[p] {
 		case 78:
 			goto st91
@@ -3044,7 +3047,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr81:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st131
 	st131:
@@ -3052,7 +3055,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof131
 		}
 	st_case_131:
-//line scanner.go:3059
+//line scanner.go:3062
 		switch data[p] {
 		case 79:
 			goto st132
@@ -3166,7 +3169,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr82:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st141
 	st141:
@@ -3174,7 +3177,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof141
 		}
 	st_case_141:
-//line scanner.go:3181
+//line scanner.go:3184
 		switch data[p] {
 		case 86:
 			goto st142
@@ -3255,7 +3258,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr83:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st148
 	st148:
@@ -3263,7 +3266,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof148
 		}
 	st_case_148:
-//line scanner.go:3270
+//line scanner.go:3273
 		switch data[p] {
 		case 79:
 			goto st149
@@ -3308,7 +3311,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr84:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st152
 	st152:
@@ -3316,7 +3319,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof152
 		}
 	st_case_152:
-//line scanner.go:3323
+//line scanner.go:3326
 		switch data[p] {
 		case 85:
 			goto st153
@@ -3409,7 +3412,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr85:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st160
 	st160:
@@ -3417,7 +3420,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof160
 		}
 	st_case_160:
-//line scanner.go:3424
+//line scanner.go:3427
 		switch data[p] {
 		case 78:
 			goto st161
@@ -3438,7 +3441,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr444:
-//line scanner.rl:115
+//line scanner.rl:118
 		s.c.Output = Data(data[mark:p])
 		goto st414
 	st414:
@@ -3446,7 +3449,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof414
 		}
 	st_case_414:
-//line scanner.go:3453
+//line scanner.go:3456
 		if data[p] == 32 {
 			goto st38
 		}
@@ -3455,7 +3458,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr68:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st162
 	st162:
@@ -3463,7 +3466,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof162
 		}
 	st_case_162:
-//line scanner.go:3470
+//line scanner.go:3473
 		switch data[p] {
 		case 46:
 			goto st163
@@ -3493,7 +3496,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr69:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st163
 	st163:
@@ -3501,7 +3504,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof163
 		}
 	st_case_163:
-//line scanner.go:3508
+//line scanner.go:3511
 		if 48 <= data[p] && data[p] <= 57 {
 			goto st415
 		}
@@ -3583,7 +3586,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr70:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st417
 	st417:
@@ -3591,7 +3594,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof417
 		}
 	st_case_417:
-//line scanner.go:3598
+//line scanner.go:3601
 		switch data[p] {
 		case 32:
 			goto tr443
@@ -3620,7 +3623,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr71:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st166
 	st166:
@@ -3628,7 +3631,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof166
 		}
 	st_case_166:
-//line scanner.go:3635
+//line scanner.go:3638
 		switch data[p] {
 		case 78:
 			goto st167
@@ -3718,7 +3721,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr72:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st172
 	st172:
@@ -3726,7 +3729,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof172
 		}
 	st_case_172:
-//line scanner.go:3733
+//line scanner.go:3736
 		switch data[p] {
 		case 65:
 			goto st173
@@ -3785,7 +3788,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr73:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st178
 	st178:
@@ -3793,7 +3796,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof178
 		}
 	st_case_178:
-//line scanner.go:3800
+//line scanner.go:3803
 		switch data[p] {
 		case 78:
 			goto st179
@@ -3802,7 +3805,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr76:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st179
 	st179:
@@ -3810,7 +3813,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof179
 		}
 	st_case_179:
-//line scanner.go:3817
+//line scanner.go:3820
 		switch data[p] {
 		case 65:
 			goto st173
@@ -3819,7 +3822,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr74:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st180
 	st180:
@@ -3827,7 +3830,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof180
 		}
 	st_case_180:
-//line scanner.go:3834
+//line scanner.go:3837
 		switch data[p] {
 		case 78:
 			goto st179
@@ -3865,7 +3868,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr75:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st184
 	st184:
@@ -3873,7 +3876,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof184
 		}
 	st_case_184:
-//line scanner.go:3880
+//line scanner.go:3883
 		if data[p] == 101 {
 			goto st185
 		}
@@ -3945,7 +3948,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr14:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st191
 	st191:
@@ -3953,7 +3956,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof191
 		}
 	st_case_191:
-//line scanner.go:3960
+//line scanner.go:3963
 		switch data[p] {
 		case 65:
 			goto st192
@@ -4384,7 +4387,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr15:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st224
 	st224:
@@ -4392,7 +4395,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof224
 		}
 	st_case_224:
-//line scanner.go:4399
+//line scanner.go:4402
 		switch data[p] {
 		case 73:
 			goto st225
@@ -4490,7 +4493,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr16:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st232
 	st232:
@@ -4498,7 +4501,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof232
 		}
 	st_case_232:
-//line scanner.go:4505
+//line scanner.go:4508
 		switch data[p] {
 		case 88:
 			goto st233
@@ -4519,7 +4522,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr17:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st234
 	st234:
@@ -4527,7 +4530,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof234
 		}
 	st_case_234:
-//line scanner.go:4534
+//line scanner.go:4537
 		switch data[p] {
 		case 77:
 			goto st235
@@ -4548,7 +4551,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr18:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st236
 	st236:
@@ -4556,7 +4559,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof236
 		}
 	st_case_236:
-//line scanner.go:4563
+//line scanner.go:4566
 		switch data[p] {
 		case 78:
 			goto st237
@@ -4601,7 +4604,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr19:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st240
 	st240:
@@ -4609,7 +4612,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof240
 		}
 	st_case_240:
-//line scanner.go:4616
+//line scanner.go:4619
 		switch data[p] {
 		case 78:
 			goto st11
@@ -4657,7 +4660,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr20:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st244
 	st244:
@@ -4665,7 +4668,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof244
 		}
 	st_case_244:
-//line scanner.go:4672
+//line scanner.go:4675
 		switch data[p] {
 		case 65:
 			goto st245
@@ -4780,7 +4783,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr21:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st252
 	st252:
@@ -4788,7 +4791,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof252
 		}
 	st_case_252:
-//line scanner.go:4795
+//line scanner.go:4798
 		switch data[p] {
 		case 69:
 			goto st253
@@ -4937,7 +4940,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr22:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st264
 	st264:
@@ -4945,7 +4948,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof264
 		}
 	st_case_264:
-//line scanner.go:4952
+//line scanner.go:4955
 		switch data[p] {
 		case 82:
 			goto st11
@@ -4954,7 +4957,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr23:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st265
 	st265:
@@ -4962,7 +4965,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof265
 		}
 	st_case_265:
-//line scanner.go:4969
+//line scanner.go:4972
 		switch data[p] {
 		case 76:
 			goto st258
@@ -4999,7 +5002,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr24:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st268
 	st268:
@@ -5007,7 +5010,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof268
 		}
 	st_case_268:
-//line scanner.go:5014
+//line scanner.go:5017
 		switch data[p] {
 		case 85:
 			goto st269
@@ -5076,7 +5079,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr25:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st274
 	st274:
@@ -5084,7 +5087,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof274
 		}
 	st_case_274:
-//line scanner.go:5091
+//line scanner.go:5094
 		switch data[p] {
 		case 69:
 			goto st275
@@ -5302,7 +5305,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr26:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st291
 	st291:
@@ -5310,7 +5313,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof291
 		}
 	st_case_291:
-//line scanner.go:5317
+//line scanner.go:5320
 		switch data[p] {
 		case 65:
 			goto st292
@@ -5659,7 +5662,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr27:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st319
 	st319:
@@ -5667,7 +5670,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof319
 		}
 	st_case_319:
-//line scanner.go:5674
+//line scanner.go:5677
 		switch data[p] {
 		case 79:
 			goto st320
@@ -5849,7 +5852,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr28:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st333
 	st333:
@@ -5857,7 +5860,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof333
 		}
 	st_case_333:
-//line scanner.go:5864
+//line scanner.go:5867
 		switch data[p] {
 		case 79:
 			goto st264
@@ -5866,7 +5869,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr2:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st334
 	st334:
@@ -5874,7 +5877,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof334
 		}
 	st_case_334:
-//line scanner.go:5881
+//line scanner.go:5884
 		switch data[p] {
 		case 76:
 			goto st335
@@ -6009,11 +6012,11 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr366:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st419
 	tr449:
-//line scanner.rl:75
+//line scanner.rl:78
 
 		if s.clamp, err = strconv.Atoi(string(data[mark:p])); err != nil {
 			return err
@@ -6025,13 +6028,13 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof419
 		}
 	st_case_419:
-//line scanner.go:6032
+//line scanner.go:6035
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr449
 		}
 		goto tr448
 	tr448:
-//line scanner.rl:75
+//line scanner.rl:78
 
 		if s.clamp, err = strconv.Atoi(string(data[mark:p])); err != nil {
 			return err
@@ -6039,7 +6042,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 
 		goto st420
 	tr451:
-//line scanner.rl:94
+//line scanner.rl:97
 
 		s.maxExponent, err = strconv.Atoi(string(data[mark:p]))
 		if err != nil {
@@ -6048,7 +6051,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 
 		goto st420
 	tr453:
-//line scanner.rl:101
+//line scanner.rl:104
 
 		s.minExponent, err = strconv.Atoi(string(data[mark:p]))
 		if err != nil {
@@ -6057,7 +6060,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 
 		goto st420
 	tr455:
-//line scanner.rl:87
+//line scanner.rl:90
 
 		s.precision, err = strconv.Atoi(string(data[mark:p]))
 		if err != nil {
@@ -6066,7 +6069,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 
 		goto st420
 	tr457:
-//line scanner.rl:108
+//line scanner.rl:111
 
 		if s.rounding, ok = roundingModes[strings.ToLower(string(data[mark:p]))]; !ok {
 			return fmt.Errorf("unknown rounding mode: %q", data[mark:p])
@@ -6078,10 +6081,10 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof420
 		}
 	st_case_420:
-//line scanner.go:6085
+//line scanner.go:6088
 		goto st420
 	tr3:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st341
 	st341:
@@ -6089,7 +6092,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof341
 		}
 	st_case_341:
-//line scanner.go:6096
+//line scanner.go:6099
 		switch data[p] {
 		case 65:
 			goto st342
@@ -6377,7 +6380,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr380:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st354
 	st354:
@@ -6385,17 +6388,17 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof354
 		}
 	st_case_354:
-//line scanner.go:6392
+//line scanner.go:6395
 		if 48 <= data[p] && data[p] <= 57 {
 			goto st421
 		}
 		goto st0
 	tr381:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st421
 	tr452:
-//line scanner.rl:94
+//line scanner.rl:97
 
 		s.maxExponent, err = strconv.Atoi(string(data[mark:p]))
 		if err != nil {
@@ -6408,7 +6411,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof421
 		}
 	st_case_421:
-//line scanner.go:6415
+//line scanner.go:6418
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr452
 		}
@@ -6681,7 +6684,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr394:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st367
 	st367:
@@ -6689,17 +6692,17 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof367
 		}
 	st_case_367:
-//line scanner.go:6696
+//line scanner.go:6699
 		if 48 <= data[p] && data[p] <= 57 {
 			goto st422
 		}
 		goto st0
 	tr395:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st422
 	tr454:
-//line scanner.rl:101
+//line scanner.rl:104
 
 		s.minExponent, err = strconv.Atoi(string(data[mark:p]))
 		if err != nil {
@@ -6712,13 +6715,13 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof422
 		}
 	st_case_422:
-//line scanner.go:6719
+//line scanner.go:6722
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr454
 		}
 		goto tr453
 	tr4:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st368
 	st368:
@@ -6726,7 +6729,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof368
 		}
 	st_case_368:
-//line scanner.go:6733
+//line scanner.go:6736
 		switch data[p] {
 		case 82:
 			goto st369
@@ -6957,11 +6960,11 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr407:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st423
 	tr456:
-//line scanner.rl:87
+//line scanner.rl:90
 
 		s.precision, err = strconv.Atoi(string(data[mark:p]))
 		if err != nil {
@@ -6974,13 +6977,13 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof423
 		}
 	st_case_423:
-//line scanner.go:6981
+//line scanner.go:6984
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr456
 		}
 		goto tr455
 	tr5:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st379
 	st379:
@@ -6988,7 +6991,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof379
 		}
 	st_case_379:
-//line scanner.go:6995
+//line scanner.go:6998
 		switch data[p] {
 		case 79:
 			goto st380
@@ -7213,7 +7216,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr417:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st389
 	st389:
@@ -7221,7 +7224,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof389
 		}
 	st_case_389:
-//line scanner.go:7228
+//line scanner.go:7231
 		if data[p] == 53 {
 			goto st390
 		}
@@ -7239,7 +7242,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr422:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st391
 	st391:
@@ -7247,7 +7250,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof391
 		}
 	st_case_391:
-//line scanner.go:7254
+//line scanner.go:7257
 		switch data[p] {
 		case 80:
 			goto st424
@@ -7262,7 +7265,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 	st_case_424:
 		goto tr457
 	tr418:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st392
 	st392:
@@ -7270,7 +7273,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof392
 		}
 	st_case_392:
-//line scanner.go:7277
+//line scanner.go:7280
 		switch data[p] {
 		case 69:
 			goto st393
@@ -7339,7 +7342,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr419:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st398
 	st398:
@@ -7347,7 +7350,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof398
 		}
 	st_case_398:
-//line scanner.go:7354
+//line scanner.go:7357
 		switch data[p] {
 		case 79:
 			goto st399
@@ -7380,7 +7383,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr420:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st401
 	st401:
@@ -7388,7 +7391,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof401
 		}
 	st_case_401:
-//line scanner.go:7395
+//line scanner.go:7398
 		switch data[p] {
 		case 76:
 			goto st402
@@ -7433,7 +7436,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 		goto st0
 	tr421:
-//line scanner.rl:69
+//line scanner.rl:72
 		mark = p
 		goto st405
 	st405:
@@ -7441,7 +7444,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 			goto _test_eof405
 		}
 	st_case_405:
-//line scanner.go:7448
+//line scanner.go:7451
 		switch data[p] {
 		case 65:
 			goto st406
@@ -8803,14 +8806,14 @@ func (s *Scanner) parse(data []byte) (err error) {
 		if p == eof {
 			switch cs {
 			case 419:
-//line scanner.rl:75
+//line scanner.rl:78
 
 				if s.clamp, err = strconv.Atoi(string(data[mark:p])); err != nil {
 					return err
 				}
 
 			case 423:
-//line scanner.rl:87
+//line scanner.rl:90
 
 				s.precision, err = strconv.Atoi(string(data[mark:p]))
 				if err != nil {
@@ -8818,7 +8821,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 				}
 
 			case 421:
-//line scanner.rl:94
+//line scanner.rl:97
 
 				s.maxExponent, err = strconv.Atoi(string(data[mark:p]))
 				if err != nil {
@@ -8826,7 +8829,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 				}
 
 			case 422:
-//line scanner.rl:101
+//line scanner.rl:104
 
 				s.minExponent, err = strconv.Atoi(string(data[mark:p]))
 				if err != nil {
@@ -8834,17 +8837,17 @@ func (s *Scanner) parse(data []byte) (err error) {
 				}
 
 			case 424:
-//line scanner.rl:108
+//line scanner.rl:111
 
 				if s.rounding, ok = roundingModes[strings.ToLower(string(data[mark:p]))]; !ok {
 					return fmt.Errorf("unknown rounding mode: %q", data[mark:p])
 				}
 
 			case 412, 415, 416, 417, 418:
-//line scanner.rl:115
+//line scanner.rl:118
 				s.c.Output = Data(data[mark:p])
 			case 413:
-//line scanner.rl:116
+//line scanner.rl:119
 
 				cond, ok = conditions[strings.ToLower(string(data[mark:p]))]
 				if !ok {
@@ -8852,7 +8855,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 				}
 				s.c.Conditions |= cond
 
-//line scanner.go:8011
+//line scanner.go:8014
 			}
 		}
 
@@ -8861,7 +8864,7 @@ func (s *Scanner) parse(data []byte) (err error) {
 		}
 	}
 
-//line scanner.rl:247
+//line scanner.rl:250
 
 	return nil
 }
diff --git a/dectest/scanner.rl b/dectest/scanner.rl
index 26cbb8d..2808812 100644
--- a/dectest/scanner.rl
+++ b/dectest/scanner.rl
@@ -52,7 +52,10 @@ func (s *Scanner) Case() *Case {
 }
 
 func (s *Scanner) Err() error {
-	return s.err
+	if s.err != nil {
+		return s.err
+	}
+	return s.s.Err()
 }
 
 func (s *Scanner) parse(data []byte) (err error) {
-- 
2.43.0


From ce901fbc698b17f03f1d8a8255dc9c81a24bfe4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:57 +0000
Subject: [PATCH 51/55] fix: Cos, Log and NextPlus named another operation in
 their NaN's payload

---
 big_ctx.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 1e30360..70a4676 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -720,7 +720,7 @@ func (c Context) Cos(z, x *Big) *Big {
 	if z.invalidContext(c) {
 		return z
 	}
-	if z.checkNaNs(x, x, sin) {
+	if z.checkNaNs(x, x, cos) {
 		return z
 	}
 
@@ -1302,7 +1302,7 @@ func (c Context) Log(z, x *Big) *Big {
 	if z.invalidContext(c) {
 		return z
 	}
-	if z.checkNaNs(x, x, log10) {
+	if z.checkNaNs(x, x, log) {
 		return z
 	}
 	if logSpecials(z, x) {
@@ -1901,7 +1901,7 @@ func (c Context) NextPlus(z, x *Big) *Big {
 	if debug {
 		x.validate()
 	}
-	if z.invalidContext(c) || z.checkNaNs(x, x, nextminus) {
+	if z.invalidContext(c) || z.checkNaNs(x, x, nextplus) {
 		return z
 	}
 
-- 
2.43.0


From f8f4846ad5ee55dab0bf8c8db21e12423d36782b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:57 +0000
Subject: [PATCH 52/55] fix: Reduce hid an invalid context behind a NaN
 operand's payload

---
 big_ctx.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/big_ctx.go b/big_ctx.go
index 70a4676..c2097e3 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2743,6 +2743,9 @@ func (c Context) Reduce(z *Big) *Big {
 	if debug {
 		z.validate()
 	}
+	if z.invalidContext(c) {
+		return z
+	}
 	c.Round(z)
 	return c.simpleReduce(z)
 }
-- 
2.43.0


From 6fb77fbbdf9089469703dce96ed5e0bcd62c7117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:53 +0000
Subject: [PATCH 53/55] fix: Lentz lost the Inexact and Rounded of all but its
 running product

---
 continued_frac.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/continued_frac.go b/continued_frac.go
index de5b2a6..c198eb0 100644
--- a/continued_frac.go
+++ b/continued_frac.go
@@ -260,7 +260,11 @@ func (c Context) Lentz(z *Big, g Generator) *Big {
 			break
 		}
 	}
+	// The rounding of C, D, and Δ is also part of the result.
 	z.Context.Conditions |= f.Context.Conditions
+	for _, x := range [...]*Big{C, D, Δ} {
+		z.Context.Conditions |= x.Context.Conditions & (Inexact | Rounded)
+	}
 	return ctx.Set(z, f)
 }
 
-- 
2.43.0


From 88958d2066493853773d99dd442a2851e0267163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:53 +0000
Subject: [PATCH 54/55] fix: suite's Condition.String did not know
 DivisionUndefined

---
 suite/suite.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/suite/suite.go b/suite/suite.go
index ee39a36..8e9496d 100644
--- a/suite/suite.go
+++ b/suite/suite.go
@@ -183,6 +183,8 @@ func (c Condition) String() string {
 			a = append(a, "division by zero")
 		case DivisionImpossible:
 			a = append(a, "division impossible")
+		case DivisionUndefined:
+			a = append(a, "division undefined")
 		case Inexact:
 			a = append(a, "inexact")
 		case InsufficientStorage:
-- 
2.43.0


From f9af11eea96986ab3f4787cf08be3d2bc3e960ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:37 +0000
Subject: [PATCH 55/55] fix: Pow called an infinite power of a finite base
 Inexact

---
 big_ctx.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/big_ctx.go b/big_ctx.go
index c2097e3..31bec86 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2120,6 +2120,17 @@ func (c Context) Pow(z, x, y *Big) *Big {
 		return z.SetUint64(1)
 	}
 
+	if y.IsInf(0) {
+		if (cmpInt(x, 1) > 0) != y.Signbit() {
+			// x ** +Inf = +Inf if x > 1
+			// x ** -Inf = +Inf if x < 1
+			return z.SetInf(false)
+		}
+		// x ** +Inf = 0 if x < 1
+		// x ** -Inf = 0 if x > 1
+		return z.SetUint64(0)
+	}
+
 	if y.Cmp(ptFive.get()) == 0 {
 		// x ** 0.5 = sqrt(x)
 		return c.Sqrt(z, x)
-- 
2.43.0

