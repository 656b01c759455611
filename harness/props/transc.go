package props

import (
	"math"
	"math/big"
	"strconv"
	"strings"

	"github.com/ericlagergren/decimal"

	"verif/pbt"
	"verif/ref"
)

// Transcendental functions: C21 (Exp, Log, Log10), C22 (Pow), C23
// (trigonometry); the special-value tables of C09.

// fnCase is one call of a function.
type fnCase struct {
	Fn    string `json:"fn"`
	Ctx   CtxJ   `json:"ctx"`
	X     Num    `json:"x"`
	Y     Num    `json:"y,omitempty"`
	Alias string `json:"alias,omitempty"` // zx, zy, xy, zxy
	Z     Num    `json:"z,omitempty"`
	ZC    uint32 `json:"zc,omitempty"`
	OC    CtxJ   `json:"oc"`
}

func binaryFn(fn string) bool { return fn == "Pow" || fn == "Atan2" || fn == "Hypot" }

func callFn(fn string, c decimal.Context, z, x, y *decimal.Big) *decimal.Big {
	switch fn {
	case "Exp":
		return c.Exp(z, x)
	case "Log":
		return c.Log(z, x)
	case "Log10":
		return c.Log10(z, x)
	case "Sin":
		return c.Sin(z, x)
	case "Cos":
		return c.Cos(z, x)
	case "Tan":
		return c.Tan(z, x)
	case "Asin":
		return c.Asin(z, x)
	case "Acos":
		return c.Acos(z, x)
	case "Atan":
		return c.Atan(z, x)
	case "Sqrt":
		return c.Sqrt(z, x)
	case "Pow":
		return c.Pow(z, x, y)
	case "Atan2":
		return c.Atan2(z, x, y)
	case "Hypot":
		return c.Hypot(z, x, y)
	case "Pi":
		return c.Pi(z)
	case "E":
		return c.E(z)
	}
	panic("no function " + fn)
}

// genFnShell fills in the receiver, the aliasing and foreign contexts.
func genFnShell(s *Src, f *fnCase) {
	if s.In(1, 3) {
		if binaryFn(f.Fn) {
			f.Alias = pbt.Pick(s, "zx", "zy", "xy", "zxy")
		} else {
			f.Alias = "zx"
		}
	}
	if !strings.Contains(f.Alias, "z") && s.In(1, 2) {
		f.Z = num(genNum(s, f.Ctx, dirtyOpt))
	}
	if s.In(1, 4) {
		f.ZC = uint32(s.N(1 << 13))
	}
	if s.In(1, 4) {
		f.OC = CtxJ{P: genPrec(s), M: s.N(7)}
		if s.In(1, 3) {
			f.OC.Emax, f.OC.Emin = 9, -9
		}
	}
}

// runFn executes the call, checking operand immutability.
func runFn(f fnCase, t *T) (got ref.Dec, fl ref.Cond, x, y ref.Dec) {
	x = f.X.dec()
	bx := mk(x, 0)
	bx.Context = f.OC.lib()
	by := bx
	if binaryFn(f.Fn) {
		y = x
		if !strings.Contains(f.Alias, "y") || f.Alias == "zy" {
			y = f.Y.dec()
			by = mk(y, 0)
			by.Context = f.OC.lib()
		}
	}
	z := new(decimal.Big)
	if f.Z != "" {
		z = mk(f.Z.dec(), 0)
	}
	switch f.Alias {
	case "zx", "zxy":
		z = bx
	case "zy":
		z = by
	}
	z.Context = f.OC.lib()
	z.Context.Conditions = decimal.Condition(f.ZC)
	zctx, octx := z.Context, f.OC.lib()
	if r := callFn(f.Fn, f.Ctx.lib(), z, bx, by); r != z {
		t.Failf("%s did not return its receiver", f.Fn)
	}
	for i, b := range []*decimal.Big{bx, by} {
		if b == z {
			continue
		}
		want := x
		if i == 1 && by != bx {
			want = y
		}
		if d := mustObs(t, "operand of "+f.Fn, b); !ref.Same(d, want) || d.Neg != want.Neg || b.Context != octx {
			t.Failf("%s modified an operand: %v became %v (context %+v)", f.Fn, want, d, b.Context)
		}
	}
	got = mustObs(t, f.Fn, z)
	fl = ref.Cond(z.Context.Conditions)
	zc := z.Context
	zc.Conditions = zctx.Conditions
	if zc != zctx {
		t.Failf("%s changed the receiver's context settings: %+v -> %+v", f.Fn, zctx, zc)
	}
	return
}

func (f fnCase) desc(x, y ref.Dec) string {
	a := x.String()
	if binaryFn(f.Fn) {
		a += ", " + y.String()
	}
	return f.Fn + "(" + a + ") prec=" + strconv.Itoa(f.Ctx.prec()) + " " + modeName(f.Ctx.M)
}

// --- special values -------------------------------------------------------

type special struct {
	kind string  // nan, inf, zero, value
	neg  bool    // sign of inf (and of zero where the table prescribes it)
	sign bool    // the sign of a zero is prescribed
	inv  bool    // InvalidOperation
	val  ref.Dec // kind value
}

func isOddInt(y ref.Dec) bool {
	if !y.IsFin() || y.IsZero() {
		return false
	}
	r := ref.StripZeros(y)
	return r.E == 0 && r.C.Bit(0) == 1
}

func isInt(y ref.Dec) bool { return y.IsFin() && (y.IsZero() || ref.StripZeros(y).E >= 0) }

func numIs(x ref.Dec, v int64) bool {
	return x.IsFin() && ref.CmpNum(x, ref.Dec{C: big.NewInt(v).Abs(big.NewInt(v)), Neg: v < 0}) == 0
}

// powTen reports whether x is a positive power of ten, and its exponent.
func powTen(x ref.Dec) (int, bool) {
	if !x.IsFin() || x.Neg || x.IsZero() {
		return 0, false
	}
	r := ref.StripZeros(x)
	return r.E, r.C.Cmp(ref.One) == 0
}

// specialOf is the table of special cases; ok is false if the result is an
// ordinary value.
func specialOf(fn string, x, y ref.Dec) (special, bool) {
	nan := special{kind: "nan", inv: true}
	inf := func(neg bool) special { return special{kind: "inf", neg: neg} }
	zero := special{kind: "zero"}
	sz := func(neg bool) special { return special{kind: "zero", neg: neg, sign: true} }
	val := func(v int64) special {
		d := ref.Dec{C: big.NewInt(v), Neg: v < 0}
		d.C.Abs(d.C)
		return special{kind: "value", val: d}
	}
	if x.IsNaN() || binaryFn(fn) && y.IsNaN() {
		return special{kind: "nan", inv: x.K == ref.SNaN || binaryFn(fn) && y.K == ref.SNaN}, true
	}
	isZ := func(d ref.Dec) bool { return d.IsFin() && d.IsZero() }
	one := func(neg bool) ref.Dec { return ref.Dec{C: ref.One, Neg: neg} }
	switch fn {
	case "Exp":
		switch {
		case x.K == ref.Inf && x.Neg:
			return zero, true
		case x.K == ref.Inf:
			return inf(false), true
		case x.IsZero():
			return val(1), true
		}
	case "Log", "Log10":
		switch {
		case isZ(x):
			return inf(true), true
		case x.Neg:
			return nan, true
		case x.K == ref.Inf:
			return inf(false), true
		}
		if e, ok := powTen(x); ok && (fn == "Log10" || e == 0) {
			if e == 0 {
				return zero, true
			}
			return val(int64(e)), true
		}
	case "Sin", "Cos", "Tan":
		switch {
		case x.K == ref.Inf:
			return nan, true
		case x.IsZero():
			if fn == "Cos" {
				return val(1), true
			}
			return zero, true
		}
	case "Asin", "Acos":
		if x.K == ref.Inf || ref.CmpNum(x.Abs(), one(false)) > 0 {
			return nan, true
		}
		if isZ(x) && fn == "Asin" || numIs(x, 1) && fn == "Acos" {
			return zero, true
		}
	case "Atan":
		if isZ(x) {
			return zero, true
		}
	case "Sqrt":
		switch {
		case isZ(x):
			return sz(x.Neg), true
		case x.Neg:
			return nan, true
		case x.K == ref.Inf:
			return inf(false), true
		}
	case "Hypot":
		switch {
		case x.K == ref.Inf || y.K == ref.Inf:
			return inf(false), true
		case x.IsZero() && y.IsZero():
			return zero, true
		}
	case "Atan2": // x is the ordinate
		switch {
		case isZ(x) && !y.Neg: // abscissa >= +0 or +Inf
			return sz(x.Neg), true
		case y.K == ref.Inf && !y.Neg && x.IsFin():
			return sz(x.Neg), true
		}
	case "Pow":
		switch {
		case isZ(x) && isZ(y):
			return nan, true
		case isZ(y):
			return val(1), true
		case isZ(x):
			neg := x.Neg && isOddInt(y)
			if y.Neg {
				return inf(neg), true
			}
			return sz(neg), true
		case x.Neg && (y.K == ref.Inf || !isInt(y)):
			return nan, true
		case x.K == ref.Inf:
			neg := x.Neg && isOddInt(y)
			if y.Neg {
				return sz(neg), true
			}
			return inf(neg), true
		case numIs(x, 1):
			return val(1), true
		case y.K == ref.Inf:
			big := ref.CmpNum(x, one(false)) > 0
			if big != y.Neg {
				return inf(false), true
			}
			return zero, true
		case numIs(x, -1):
			if isOddInt(y) {
				return val(-1), true
			}
			return val(1), true
		}
	}
	return special{}, false
}

func checkSpecial(f fnCase, t *T, w special, got ref.Dec, fl ref.Cond, x, y ref.Dec) {
	d := f.desc(x, y)
	ok, exact := false, true
	switch w.kind {
	case "nan":
		ok = got.K == ref.QNaN
	case "inf":
		ok = got.K == ref.Inf && got.Neg == w.neg
	case "zero":
		ok = got.IsFin() && got.IsZero() && (!w.sign || got.Neg == w.neg)
	case "value":
		r, rf := f.Ctx.ref().Fix(w.val)
		exact = rf&ref.Inexact == 0
		ok = got.IsFin() && ref.CmpNum(got, r) == 0 && got.Prec() <= f.Ctx.prec()
	}
	if !ok {
		t.Failf("%s = %v, want %+v", d, got, w)
	}
	if f.ZC&uint32(ref.InvalidOp) == 0 && (fl&ref.InvalidOp != 0) != w.inv {
		t.Failf("%s = %v: conditions [%v], want InvalidOperation: %v", d, got, fl, w.inv)
	}
	if ref.Cond(f.ZC)&^fl != 0 {
		t.Failf("%s dropped sticky conditions: had [%v], has [%v]", d, ref.Cond(f.ZC), fl)
	}
	if w.kind != "nan" && fl&^ref.Cond(f.ZC)&(ref.DivByZero|ref.DivImposs|ref.Overflow|ref.Underflow|ref.ConvSyntax) != 0 {
		t.Failf("%s = %v: unexpected conditions [%v]", d, got, fl&^ref.Cond(f.ZC))
	}
	if exact && fl&^ref.Cond(f.ZC)&ref.Inexact != 0 {
		t.Failf("%s = %v, which is exact, but is said to be Inexact [%v]", d, got, fl&^ref.Cond(f.ZC))
	}
}

var specialFns = []string{"Exp", "Log", "Log10", "Sin", "Cos", "Tan", "Asin", "Acos", "Atan", "Sqrt", "Pow", "Pow", "Pow", "Atan2", "Atan2", "Hypot"}

func genSpecialFn(s *Src) fnCase { return genSpecialOf(specialFns...)(s) }

func genSpecialOf(fns ...string) func(*Src) fnCase {
	return func(s *Src) fnCase { return specialFnCase(s, fns) }
}

func specialFnCase(s *Src, fns []string) fnCase {
	f := fnCase{Fn: pbt.Pick(s, fns...), Ctx: genCtx(s, ctxOpt{})}
	val := func() Num {
		var d ref.Dec
		switch s.N(6) {
		case 0:
			d = ref.MkZero(s.Bool(), s.Sym(6))
		case 1:
			d = ref.Dec{K: ref.Inf, Neg: s.Bool()}
		case 2:
			d = ref.Dec{K: pbt.Pick(s, ref.QNaN, ref.SNaN), Neg: s.Bool(), Pay: uint64(s.N(50))}
		case 3: // ±1, powers of ten, in any form
			k := s.N(22)
			d = ref.Dec{C: ref.Pow10(k), E: -k, Neg: s.Bool()}
			if s.In(1, 3) {
				d.E += s.Sym(30)
			}
		case 4: // small integers, odd and even, in any form; halves
			v := big.NewInt(int64(s.Range(1, 40)))
			k := s.N(22)
			d = ref.Dec{C: v.Mul(v, ref.Pow10(k)), E: -k, Neg: s.Bool()}
			if s.In(1, 4) {
				d.E -= 1
			}
		default:
			d = ref.Dec{C: genDigits(s, s.Range(1, 8)), E: -s.N(8), Neg: s.Bool()}
		}
		return num(d)
	}
	f.X = val()
	if binaryFn(f.Fn) {
		f.Y = val()
	}
	genFnShell(s, &f)
	return f
}

func specialFnRun(f fnCase, t *T) {
	t.Tag(f.Fn)
	x, y := f.X.dec(), f.Y
	var yd ref.Dec
	if y != "" {
		yd = y.dec()
	}
	if f.Fn == "Pow" && x.IsFin() && yd.IsFin() && yd.C != nil && !yd.IsZero() && yd.Adj() > 4 {
		return
	}
	if f.Fn == "Exp" && x.IsFin() && !x.IsZero() && x.Adj() > 5 {
		return
	}
	got, fl, x, yd := runFn(f, t)
	w, ok := specialOf(f.Fn, x, yd)
	if !ok {
		if got.K == ref.SNaN {
			t.Failf("%s is a signaling NaN", f.desc(x, yd))
		}
		if piMultiple(f, t, got, x, yd) {
			t.Nontrivial()
		}
		return
	}
	t.Nontrivial()
	t.Tag("result " + w.kind)
	checkSpecial(f, t, w, got, fl, x, yd)
}

// piMultiple checks the entries of the tables that are multiples of pi/4.
func piMultiple(f fnCase, t *T, got, x, y ref.Dec) bool {
	var k int64 // pi*k/4
	one := ref.Dec{C: ref.One}
	isZ := func(d ref.Dec) bool { return d.IsFin() && d.IsZero() }
	switch f.Fn {
	case "Atan":
		if x.K != ref.Inf {
			return false
		}
		k = 2
		if x.Neg {
			k = -2
		}
	case "Asin":
		if ref.CmpNum(x.Abs(), one) != 0 {
			return false
		}
		k = 2
		if x.Neg {
			k = -2
		}
	case "Acos":
		switch {
		case isZ(x):
			k = 2
		case numIs(x, -1):
			k = 4
		default:
			return false
		}
	case "Atan2":
		switch {
		case isZ(x): // and the abscissa is negative
			k = 4
		case isZ(y):
			k = 2
		case x.K == ref.Inf && y.K == ref.Inf:
			k = 1
			if y.Neg {
				k = 3
			}
		case x.K == ref.Inf:
			k = 2
		case y.K == ref.Inf: // negative
			k = 4
		default:
			return false
		}
		if x.Neg {
			k = -k
		}
	default:
		return false
	}
	a := ref.Fn("Pi", ref.Dec{}, ref.Dec{}, ref.PrecBits(f.Ctx.prec())+16)
	a.M = new(big.Int).Mul(a.M, big.NewInt(k))
	a.W += 2
	if f.Ctx.prec() > 290 { // pi is rounded before it is halved
		judgeApproxLim(f, t, got, a, x, y, 1100)
	} else {
		judgeApprox(f, t, got, a, x, y)
	}
	return true
}

// --- accuracy -------------------------------------------------------------

// judgeApprox checks got against the oracle's value: sign, number of digits
// and distance in units in the last place.
func judgeApprox(f fnCase, t *T, got ref.Dec, a ref.Approx, x, y ref.Dec) {
	lim := int64(1100)
	if nearest(f.Ctx.M) {
		lim = 600
	}
	judgeApproxLim(f, t, got, a, x, y, lim)
}

func judgeApproxLim(f fnCase, t *T, got ref.Dec, a ref.Approx, x, y ref.Dec, limit int64) {
	p := f.Ctx.prec()
	d := f.desc(x, y)
	if !got.IsFin() {
		t.Failf("%s = %v, want about %v", d, got, approxText(a, p))
	}
	if !f.Ctx.Go && got.Prec() > p {
		t.Failf("%s = %v has more than %d digits", d, got, p)
	}
	if got.IsZero() || got.Neg != (a.M.Sign() < 0) {
		t.Failf("%s = %v, want about %v", d, got, approxText(a, p))
	}
	m, adj := a.UlpDiff(got, p)
	for e := got.Adj(); e > adj; e-- {
		m.Quo(m, ref.Ten)
	}
	if m.Cmp(big.NewInt(limit)) > 0 {
		t.Failf("%s = %v is %v/1000 units in the last place from %v", d, got, m, approxText(a, p+5))
	}
	switch {
	case m.Cmp(big.NewInt(500)) <= 0:
		t.Tag("<=0.5ulp")
	default:
		t.Tag("<=1ulp")
	}
}

func nearest(m int) bool {
	switch decimal.RoundingMode(m) {
	case decimal.ToNearestEven, decimal.ToNearestAway, decimal.ToNearestTowardZero:
		return true
	}
	return false
}

func approxText(a ref.Approx, p int) string {
	e := a.Adj() - p
	n := new(big.Int).Set(a.M)
	den := new(big.Int).Lsh(ref.One, uint(a.W))
	if a.K-e >= 0 {
		n.Mul(n, ref.Pow10(a.K-e))
	} else {
		den.Mul(den, ref.Pow10(e-a.K))
	}
	n.Quo(n, den)
	return ref.Dec{C: new(big.Int).Abs(n), Neg: n.Sign() < 0, E: e}.String()
}

// beyond judges results whose exponent is outside of, or about as large as,
// the library's limits.
func beyond(f fnCase, t *T, got ref.Dec, fl ref.Cond, x, y ref.Dec) bool {
	arg, l, neg := x, big.NewFloat(1), false
	if f.Fn == "Pow" {
		arg, neg = y, x.Neg && isOddInt(y)
	}
	m := arg.Adj()
	if f.Fn == "Pow" {
		m += len(strconv.Itoa(x.Adj()))
	}
	if m < 15 {
		return false
	}
	if arg.Adj() > 40 {
		return true
	}
	if f.Fn == "Pow" {
		a := ref.Fn("Log", x.Abs(), ref.Dec{}, 60)
		l.SetInt(a.M)
		l.SetMantExp(l, -a.W)
	}
	n, d := arg.Ratio()
	v := new(big.Float).SetRat(new(big.Rat).SetFrac(n, d))
	lg, _ := v.Mul(v, l).Float64()
	switch lg /= math.Ln10; {
	case math.Abs(lg) < 9e17:
		return false
	case math.Abs(lg) < 1.1e18:
		return true
	}
	want, lost := ref.Overflow, ref.Dec{K: ref.Inf, Neg: neg}
	if lg < 0 {
		want, lost = 0, ref.Dec{C: new(big.Int), E: f.Ctx.ref().Etiny(), Neg: neg}
	}
	want |= ref.Inexact | ref.Rounded
	if !ref.Same(got, lost) || got.Neg != neg || fl&want != want {
		t.Failf("%s = %v [%v], want %v [%v]", f.desc(x, y), got, fl, lost, want)
	}
	t.Nontrivial()
	t.Tag("out of range")
	return true
}

const fnRule = "non-trivial: finite operands whose result is irrational or needs rounding, so that the accuracy oracle decides"

func fnRun(f fnCase, t *T) {
	t.Tag(f.Fn)
	if f.Ctx.prec() > 290 {
		t.Tag("prec>290")
	}
	got, fl, x, y := runFn(f, t)
	if w, ok := specialOf(f.Fn, x, y); ok {
		t.Tag("special")
		checkSpecial(f, t, w, got, fl, x, y)
		return
	}
	if piMultiple(f, t, got, x, y) {
		t.Nontrivial()
		return
	}
	switch f.Fn { // outside of the claimed domain
	case "Pow", "Exp":
		if beyond(f, t, got, fl, x, y) {
			return
		}
	case "Sin", "Cos", "Tan":
		// The limit of the argument reduction.
		if x.Adj() >= 20 && got.K == ref.QNaN && fl&ref.InvalidOp != 0 || x.Adj() > 60 {
			return
		}
	}
	ax, neg := x, false
	if f.Fn == "Pow" && x.Neg {
		ax, neg = x.Abs(), isOddInt(y)
	}
	a := ref.Fn(f.Fn, ax, y, ref.PrecBits(f.Ctx.prec())+16)
	if neg {
		a.M = new(big.Int).Neg(a.M)
	}
	t.Nontrivial()
	judgeApprox(f, t, got, a, x, y)
	want := ref.Inexact | ref.Rounded
	if fl&^want&^ref.Cond(f.ZC) != 0 || ref.Cond(f.ZC)&^fl != 0 {
		t.Failf("%s = %v: conditions [%v], receiver had [%v]", f.desc(x, y), got, fl, ref.Cond(f.ZC))
	}
	if f.Fn != "Pow" && f.Fn != "Hypot" && fl&want != want {
		t.Failf("%s = %v is irrational but the conditions are only [%v]", f.desc(x, y), got, fl)
	}
}

func genFnPrec(s *Src) int {
	if p, ok := s.Aux.(int); ok && p > 0 {
		return p
	}
	switch s.Weighted(10, 12, 5, 3, 1) {
	case 0:
		return s.Range(1, 12)
	case 1:
		return s.Range(13, 40)
	case 2:
		return pbt.Pick(s, 7, 16, 34, 19, 20)
	case 3:
		return s.Range(41, 110)
	default:
		return pbt.Pick(s, 299, 300, 301, 303, 290, 310, 297, 294)
	}
}

func genFnCtx(s *Src) CtxJ {
	c := CtxJ{P: genFnPrec(s), M: s.N(7)}
	if s.In(1, 3) {
		c.M = 0
	}
	if s.In(1, 30) {
		c.P = 0
	}
	return c
}

// genFnCoef: operand coefficients, mostly short or about as long as the
// precision.
func genFnCoef(s *Src, p int) *big.Int {
	n := pbt.Pick(s, 1, 2, 3, p, p+2, 2*p, 5)
	if s.In(1, 25) { // much longer than the result
		n = s.Range(1, 8*p+20)
	}
	c := genDigits(s, n)
	if s.In(1, 6) {
		c = new(big.Int).Sub(ref.Pow10(n), big.NewInt(int64(s.N(2))))
	}
	if c.Sign() == 0 {
		c = big.NewInt(1)
	}
	return c
}

func withAdj(c *big.Int, adj int, neg bool) ref.Dec {
	return ref.Dec{C: c, E: adj - ref.Digits(c) + 1, Neg: neg}
}

// nearExp is how many digits a near-coincidence extends to: mostly about the
// precision, sometimes far more.
func nearExp(s *Src, p int) int {
	if s.In(1, 8) {
		return s.Range(1, 6*p+10)
	}
	return s.Range(1, p+3)
}

// nearOne is 1 ± a few units of its last place.
func nearOne(s *Src, p int) ref.Dec {
	k := nearExp(s, p)
	c := new(big.Int).Add(ref.Pow10(k), big.NewInt(int64(s.Sym(9))))
	return ref.Dec{C: c, E: -k}
}

func genExpLog(s *Src) fnCase {
	f := fnCase{Fn: pbt.Pick(s, "Exp", "Log", "Log10"), Ctx: genFnCtx(s)}
	p := f.Ctx.prec()
	var x ref.Dec
	switch f.Fn {
	case "Exp":
		adj := pbt.Pick(s, 0, 0, 1, -1, -2, 2, 3, 4, -p/2, -p, -p-1, -p+1, -p-2)
		x = withAdj(genFnCoef(s, p), adj, s.Bool())
		if s.In(1, 12) { // large
			x = withAdj(genFnCoef(s, p), s.Range(5, pbt.Pick(s, 17, 17, 22)), s.Bool())
		}
		if s.In(1, 6) { // multiples of log(10): just around powers of ten
			n := nearExp(s, p)
			a := ref.Fn("Log", ref.Dec{C: ref.Ten}, ref.Dec{}, ref.PrecBits(n)+10)
			v := new(big.Int).Mul(a.M, ref.Pow10(n))
			v.Mul(v, big.NewInt(int64(s.Range(1, 12))))
			v.Rsh(v, uint(a.W))
			x = ref.Dec{C: v, E: -n, Neg: s.Bool()}
		}
	default:
		switch s.N(6) {
		case 0, 1:
			x = withAdj(genFnCoef(s, p), s.Sym(4), false)
		case 5: // powers of ten and their neighbours
			k := s.N(24)
			if s.In(1, 8) {
				k = s.N(200)
			}
			x = ref.Dec{C: ref.Pow10(k), E: s.Sym(k + 3)}
			if s.In(1, 3) {
				x.C = new(big.Int).Add(x.C, big.NewInt(int64(s.Sym(1))))
				if x.C.Sign() == 0 {
					x.C = big.NewInt(1)
				}
			}
			if s.In(1, 8) {
				x.E = s.Sym(1) * s.N(1000000000000000000)
			}
		case 2:
			x = nearOne(s, p)
		case 3:
			x = withAdj(genFnCoef(s, p), s.Sym(1000), false)
		case 4: // small integers and their reciprocals' neighbourhood
			x = ref.Dec{C: big.NewInt(int64(s.Range(1, 200))), E: -s.N(4)}
		}
	}
	f.X = num(x)
	genFnShell(s, &f)
	return f
}

func genPow(s *Src) fnCase {
	f := fnCase{Fn: "Pow", Ctx: genFnCtx(s)}
	p := f.Ctx.prec()
	x := withAdj(genFnCoef(s, p), s.Sym(5), false)
	var y ref.Dec
	switch s.N(6) {
	case 0:
		y = ref.Dec{C: big.NewInt(int64(s.N(40))), Neg: s.Bool()}
		x.Neg = s.Bool()
	case 1: // integers in other forms
		k := s.N(21)
		v := big.NewInt(int64(s.N(300)))
		y = ref.Dec{C: v.Mul(v, ref.Pow10(k)), E: -k, Neg: s.Bool()}
		x.Neg = s.Bool()
	case 2:
		y = ref.Dec{C: big.NewInt(int64(s.N(20000))), Neg: s.Bool()}
		x.Neg = s.Bool()
	case 3:
		x = nearOne(s, p)
		y = withAdj(genFnCoef(s, p), s.N(min(p+1, pbt.Pick(s, 8, 8, 8, 24))), s.Bool())
	case 4:
		y = withAdj(genFnCoef(s, p), s.Range(-4, 3), s.Bool())
	case 5: // halves, thirds-like, exact roots
		y = ref.Dec{C: big.NewInt(int64(pbt.Pick(s, 5, 25, 15, 75, 125))), E: -pbt.Pick(s, 1, 2, 3), Neg: s.Bool()}
		if s.Bool() {
			r := genDigits(s, s.Range(1, 6))
			x = ref.Dec{C: new(big.Int).Mul(r, r), E: 2 * s.Sym(3)}
			if r.Sign() == 0 {
				x.C = big.NewInt(4)
			}
		}
	}
	if s.In(1, 12) { // huge exponents
		if s.Bool() {
			x.E = s.Sym(1) * s.N(1000000000000000000)
		}
		if s.Bool() {
			y = withAdj(genFnCoef(s, p), s.N(22), s.Bool())
		}
	}
	f.X, f.Y = num(x), num(y)
	genFnShell(s, &f)
	if (x.E > 1000 || x.E < -1000) && f.Alias != "zy" && strings.Contains(f.Alias, "y") {
		f.Alias = ""
	}
	return f
}

func genTrig(names ...string) func(*Src) fnCase {
	return func(s *Src) fnCase {
		f := fnCase{Fn: pbt.Pick(s, names...), Ctx: genFnCtx(s)}
		p := f.Ctx.prec()
		adj := s.Range(-p-8, 4)
		if s.In(1, 2) {
			adj = s.Sym(3)
		}
		x := withAdj(genFnCoef(s, p), adj, s.Bool())
		switch f.Fn {
		case "Sin", "Cos", "Tan":
			if adj < 5 && s.In(1, 12) { // larger arguments
				x = withAdj(genFnCoef(s, p), s.Range(4, pbt.Pick(s, 12, 19, 19, 22)), s.Bool())
			}
			if s.In(1, 4) { // just around a multiple of pi/2
				n := nearExp(s, p)
				a := ref.Fn("Pi", ref.Dec{}, ref.Dec{}, ref.PrecBits(n+20)+10)
				v := new(big.Int).Mul(a.M, ref.Pow10(n))
				v.Mul(v, big.NewInt(int64(s.Range(1, pbt.Pick(s, 9, 9, 1000, 1000000000000000000)))))
				v.Rsh(v, uint(a.W+1))
				v.Add(v, big.NewInt(int64(s.Sym(2))))
				x = ref.Dec{C: v, E: -n, Neg: s.Bool()}
			}
		case "Asin", "Acos":
			if x.Adj() >= 0 {
				x = withAdj(x.C, -1-s.N(p+5), x.Neg)
			}
			if s.In(1, 3) { // close to ±1
				k := nearExp(s, p)
				c := new(big.Int).Sub(ref.Pow10(k), big.NewInt(int64(s.N(9))))
				x = ref.Dec{C: c, E: -k, Neg: s.Bool()}
			}
		case "Atan2", "Hypot":
			y := withAdj(genFnCoef(s, p), s.Range(-p-8, 4), s.Bool())
			if s.Bool() {
				y = withAdj(genFnCoef(s, p), x.Adj()+s.Sym(1), s.Bool())
			}
			f.Y = num(y)
		}
		f.X = num(x)
		genFnShell(s, &f)
		return f
	}
}

// bigPrec raises the precision of a generated case to exercise the code that
// only runs there (constants beyond 300 digits, the ~750-digit switch).
func bigPrec(g func(*Src) fnCase, ps ...int) func(*Src) fnCase {
	return func(s *Src) fnCase {
		// Half of the operands are as long as the precision, too.
		p := pbt.Pick(s, ps...) + s.Sym(3)
		if s.Bool() {
			s.Aux = p
			defer func() { s.Aux = nil }()
		}
		f := g(s)
		f.Ctx.P = p
		return f
	}
}

func init() {
	fnAssume := append([]string{"the multi-precision oracle in harness/ref/trans.go is right (cross-validated against mpmath, tools/transcross.py)"}, assume[1:]...)
	chk := func(name string, q, th int, g func(*Src) fnCase) pbt.Sub {
		return pbt.Check[fnCase]{Name: name, Rule: fnRule, Quick: q, Thorough: th, Gen: g, Run: fnRun}
	}
	special := func(n int, fns ...string) pbt.Sub {
		return pbt.Check[fnCase]{Name: "specials", Rule: "non-trivial: the table of special cases decides the result", Quick: n, Thorough: n * 20, Gen: genSpecialOf(fns...), Run: specialFnRun}
	}
	pbt.Register(&pbt.Prop{ID: "C21", Assumptions: fnAssume, Subs: []pbt.Sub{
		chk("values", 900000, 15000000, genExpLog),
		chk("long", 1200, 10000, bigPrec(genExpLog, 304, 400, 520, 748, 755, 900, 1200)),
		chk("verylong", 16, 1000, bigPrec(genExpLog, 2000, 3300)),
		special(300000, "Exp", "Log", "Log10"),
	}})
	pbt.Register(&pbt.Prop{ID: "C22", Assumptions: fnAssume, Subs: []pbt.Sub{
		chk("values", 700000, 8000000, genPow),
		chk("long", 1500, 10000, bigPrec(genPow, 304, 400, 520, 760, 1100)),
		chk("verylong", 16, 1000, bigPrec(genPow, 2000, 3300)),
		special(300000, "Pow"),
	}})
	pbt.Register(&pbt.Prop{ID: "C23", Assumptions: fnAssume, Subs: []pbt.Sub{
		chk("sincostan", 600000, 10000000, genTrig("Sin", "Cos", "Tan")),
		chk("inverse", 450000, 8000000, genTrig("Atan", "Asin", "Acos", "Atan2")),
		chk("long", 2500, 20000, bigPrec(genTrig("Sin", "Cos", "Tan", "Atan", "Asin", "Acos", "Atan2"), 304, 400, 520, 800, 1200)),
		chk("verylong", 40, 2000, bigPrec(genTrig("Sin", "Cos", "Tan", "Atan", "Asin", "Acos", "Atan2"), 2000, 3280, 3300)),
		special(300000, "Sin", "Cos", "Tan", "Asin", "Acos", "Atan", "Atan2", "Atan2"),
	}})
}
