package props

import (
	"math/big"
	"strconv"

	"github.com/ericlagergren/decimal"

	"verif/pbt"
	"verif/ref"
)

// C07, functions: elementary functions near and beyond the limits of the
// exponent range.

const rangeRule = "non-trivial: the true result is not representable and is beyond the limits, subnormal or within a factor of 1000 of a limit"

func genFnRange(s *Src) fnCase {
	f := fnCase{Fn: pbt.Pick(s, "Exp", "Exp", "Exp", "Pow", "Pow", "Pow", "Pow", "Log", "Log10", "Sin", "Cos", "Tan", "Asin", "Acos", "Atan", "Atan2", "Hypot", "Hypot"), Ctx: CtxJ{P: s.Range(1, 40), M: s.N(7)}}
	p := f.Ctx.prec()
	switch s.N(6) {
	case 0: // the limits of the library
	case 1:
		f.Ctx.P, f.Ctx.Emax, f.Ctx.Emin = 16, 384, -383
	case 2:
		f.Ctx.Emax, f.Ctx.Emin = s.Range(1, 20), -s.Range(1, 20)
	case 3:
		f.Ctx.Emax, f.Ctx.Emin = p+s.N(100), -s.Range(1, 100)
	case 4:
		f.Ctx.Emax, f.Ctx.Emin = s.Range(1000, 100000), -s.Range(1000, 100000)
	case 5:
		f.Ctx.Emax, f.Ctx.Emin = p+s.N(9), -p-s.N(9)
	}
	switch f.Fn {
	case "Sin", "Cos", "Tan", "Asin", "Acos", "Atan", "Atan2":
		if f.Ctx.Emin == 0 || f.Ctx.Emin < -400 {
			f.Ctx.Emax, f.Ctx.Emin = s.Range(1, 300), -s.Range(1, 300)
		}
	}
	p = f.Ctx.prec()
	rc := f.Ctx.ref()
	// A target for the decimal exponent of the result.
	target := func() *big.Int {
		t := int64(pbt.Pick(s, rc.Emax, rc.Emax, rc.Emin, rc.Emin, rc.Etiny(), rc.Etiny()))
		switch s.N(8) {
		case 0:
			t *= 2
		case 1:
			t = int64(s.Sym(3)) * t / 3
		case 2:
			t += t / 50
		default:
			t += int64(s.Sym(4))
		}
		return big.NewInt(t)
	}
	// v*10**-k / 10**k to n significant digits
	round := func(v *big.Int, k, n int) ref.Dec {
		d := ref.Dec{C: new(big.Int).Abs(v), E: -k, Neg: v.Sign() < 0}
		if x := ref.Digits(d.C) - n; x > 0 {
			d.C, _ = ref.RoundOff(d.C, x, false, 0)
			d.E += x
		}
		return d
	}
	const w = 60
	switch f.Fn {
	case "Exp": // x = (target + [0,1)) * ln 10
		a := ref.Fn("Log", ref.Dec{C: ref.Ten}, ref.Dec{}, ref.PrecBits(w))
		v := new(big.Int).Mul(target(), ref.Pow10(w))
		v.Add(v, new(big.Int).Mul(big.NewInt(int64(s.N(1000))), ref.Pow10(w-3)))
		v.Mul(v, a.M)
		v.Rsh(v, uint(a.W))
		f.X = num(round(v, w, s.Range(1, 40)))
		if s.In(1, 8) {
			f.X = num(withAdj(genFnCoef(s, p), s.Range(1, 25), s.Bool()))
		}
	case "Pow": // y = (target + [0,1)) / log10(x)
		x := withAdj(genFnCoef(s, p), s.Sym(4), s.Bool())
		if s.In(1, 4) {
			x = withAdj(genFnCoef(s, 3), pbt.Pick(s, rc.Emax, rc.Emin, rc.Emax/2, rc.Emin/2, rc.Emax/3, -rc.Emax), s.Bool())
		}
		if s.In(1, 6) {
			x = nearOne(s, p)
		}
		if s.In(1, 12) { // exact powers of ten
			x = ref.Dec{C: ref.Pow10(s.N(4)), E: s.Sym(5), Neg: s.Bool()}
		}
		ax := x.Abs()
		if numIs(ax, 1) {
			f.X, f.Y = num(x), num(ref.Dec{C: big.NewInt(5)})
			break
		}
		l := ref.Fn("Log10", ax, ref.Dec{}, 200)
		v := new(big.Int).Mul(target(), big.NewInt(1000))
		v.Add(v, big.NewInt(int64(s.N(1000))))
		v.Mul(v, ref.Pow10(w-3))
		v.Lsh(v, uint(l.W))
		v.Quo(v, l.M)
		y := round(v, w, s.Range(1, 25))
		if x.Neg || s.Bool() { // an integer
			y, _ = ref.Ctx{P: 60, Emax: maxExp, Emin: minExp}.ToIntegral(y)
		}
		if y.E > 0 && y.E < 30 && s.Bool() {
			y.C, y.E = new(big.Int).Mul(y.C, ref.Pow10(y.E)), 0
		}
		f.X, f.Y = num(x), num(y)
	case "Hypot":
		adj := pbt.Pick(s, rc.Emax, rc.Emin, rc.Etiny(), rc.Emax/2, rc.Emin/2, rc.Etiny()/2) / 2 * s.Range(1, 2)
		x := withAdj(genFnCoef(s, p), adj+s.Sym(3), s.Bool())
		if s.In(1, 8) {
			x = genNum(s, f.Ctx, numOpt{})
		}
		y := withAdj(genFnCoef(s, p), x.Adj()+s.Sym(3), s.Bool())
		f.X, f.Y = num(x), num(y)
	case "Sin", "Cos", "Tan", "Asin", "Acos", "Atan", "Atan2":
		adj := pbt.Pick(s, rc.Emin, rc.Etiny(), rc.Emin/2, 0, 0)
		x := withAdj(genFnCoef(s, p), adj+s.Sym(3), s.Bool())
		if f.Fn == "Asin" || f.Fn == "Acos" {
			if x.Adj() >= 0 {
				x = withAdj(x.C, -1, x.Neg)
			}
			if f.Fn == "Acos" && s.In(1, 2) { // close to 1
				k := max(1, min(200, -rc.Etiny()*s.Range(1, 2)+s.Sym(4)))
				x = ref.Dec{C: new(big.Int).Sub(ref.Pow10(k), big.NewInt(int64(s.N(9)))), E: -k}
			}
		}
		f.X = num(x)
		if f.Fn == "Atan2" {
			f.Y = num(withAdj(genFnCoef(s, p), s.Sym(3), s.Bool()))
		}
	default: // near one: subnormal results
		k := max(1, min(60, -pbt.Pick(s, rc.Emin, rc.Etiny(), rc.Emin-1, rc.Emin+1)+s.Sym(3)))
		c := new(big.Int).Add(ref.Pow10(k), big.NewInt(int64(s.Sym(99))))
		f.X = num(ref.Dec{C: c, E: -k})
		if s.In(1, 3) {
			f.X = num(withAdj(genFnCoef(s, p), pbt.Pick(s, rc.Emax, rc.Emin, rc.Emax*2, rc.Emin*2), false))
		}
		if rc.Emax < 7 && s.In(1, 4) { // a result around 10**(emax+1)
			k, _ := ref.Pow10(rc.Emax + 1).Float64()
			if f.Fn == "Log" {
				k /= 2.302585092994
			}
			f.X = num(withAdj(genFnCoef(s, p), s.Sym(1)*int(k)+s.Sym(2+int(k/50)), false))
		}
		if c.Sign() == 0 {
			f.X = num(ref.Dec{C: big.NewInt(7)})
		}
	}
	genFnShell(s, &f)
	return f
}

func rangeRun(f fnCase, t *T) {
	t.Tag(f.Fn)
	x, y := f.X.dec(), ref.Dec{}
	if f.Y != "" {
		y = f.Y.dec()
	}
	if f.Alias == "xy" || f.Alias == "zxy" {
		if x.E > 0 || x.E < -200 || x.Adj() > 4 { // x**x
			return
		}
	}
	got, fl, x, y := runFn(f, t)
	d := f.desc(x, y) + " emax=" + strconv.Itoa(f.Ctx.Emax) + " emin=" + strconv.Itoa(f.Ctx.Emin)
	if _, ok := specialOf(f.Fn, x, y); ok {
		t.Tag("special")
		return
	}
	rc := f.Ctx.ref()
	p := f.Ctx.prec()
	ax, neg := x, false
	if f.Fn == "Pow" && x.Neg {
		ax, neg = x.Abs(), isOddInt(y)
	}
	// The true value, as p+25 digits: v <= |value| < v+1 units of 10**e.
	var v *big.Int
	var e int
	if f.Fn == "Hypot" {
		if ax.Adj()-y.Adj() > 200 || y.Adj()-ax.Adj() > 200 || max(ax.Adj(), -ax.Adj()) > maxExp/2-500 { // squares out of range
			return
		}
		w := ref.Ctx{P: 2*(p+60) + 1000, Emax: 4 * maxExp, Emin: 4 * minExp}
		a, _ := w.Mul(x, x)
		b, _ := w.Mul(y, y)
		a, _ = w.Add(a, b)
		w.P = p + 25
		w.M = decimal.ToZero
		r, _ := w.Sqrt(a)
		v, e = new(big.Int).Mul(r.C, ref.Pow10(p+25-r.Prec())), r.E-(p+25-r.Prec())
	} else if est := adjEstimate(f.Fn, ax, y); est > 2000000000000000000 || est < -2000000000000000000 {
		v, e = ref.Pow10(p+25), 2*maxExp
		if est < 0 {
			e = 2*minExp - 2*p
		}
		t.Tag("far out")
	} else {
		a := ref.Fn(f.Fn, ax, y, ref.PrecBits(p+40))
		if a.M.Sign() < 0 {
			neg = true
		}
		e = a.Adj() - (p + 24)
		v = new(big.Int).Abs(a.M)
		den := new(big.Int).Lsh(ref.One, uint(a.W))
		if a.K-e >= 0 {
			v.Mul(v, ref.Pow10(a.K-e))
		} else {
			den.Mul(den, ref.Pow10(e-a.K))
		}
		v.Quo(v, den)
	}
	// Results between the rounded values of v less and v plus a tenth of a unit
	// in the last place (of the precision or, if that is more, of the smallest
	// exponent) are accurate enough.
	off := ref.Pow10(24)
	if n := rc.Etiny() - e; n > 25 { // the result's unit is 10**etiny
		off = ref.Pow10(min(n, p+60) - 1)
	}
	if f.Fn == "Hypot" {
		off = new(big.Int).Mul(off, big.NewInt(25))
	}
	lo := ref.Dec{C: new(big.Int).Sub(v, off), E: e, Neg: neg}
	up := off
	if g, ok := powTen(got.Abs()); ok && g > e+p+24 { // units of the next decade
		up = new(big.Int).Mul(off, ref.Ten)
	}
	hi := ref.Dec{C: new(big.Int).Add(v, up), E: e, Neg: neg}
	if lo.C.Sign() <= 0 {
		lo.C = big.NewInt(1)
	}
	if f.Fn == "Pow" || f.Fn == "Hypot" { // may be exact
		lo.C.Add(lo.C, ref.One)
	}
	wl, fll := rc.Fix(lo)
	wh, flh := rc.Fix(hi)
	_, flm := rc.Fix(ref.Dec{C: new(big.Int).Add(v, ref.One), E: e, Neg: neg})
	if fll&(ref.Overflow|ref.Subnormal) != 0 || flh&(ref.Overflow|ref.Subnormal) != 0 || wl.IsFin() && (wl.Adj()-rc.Emin < 3 || rc.Emax-wl.Adj() < 3) {
		t.Nontrivial()
	}
	switch {
	case fll&ref.Overflow != 0:
		t.Tag("overflow")
	case wl.IsZero():
		t.Tag("zero")
	case fll&ref.Subnormal != 0:
		t.Tag("subnormal")
	}
	if !nearest(f.Ctx.M) && (fll|flh)&ref.Overflow == 0 { // either neighbour
		z, a := rc, rc
		z.M, a.M = decimal.ToZero, decimal.AwayFromZero
		var f1, f2 ref.Cond
		wl, f1 = z.Fix(lo)
		wh, f2 = a.Fix(hi)
		fll, flh = fll&f1&f2, flh|f1|f2
	}
	if flh&ref.Overflow != 0 && got.K == ref.Inf { // in every rounding mode
		wh = ref.MkInf(neg)
	}
	g, a, b := got.Abs(), wl.Abs(), wh.Abs()
	if got.IsNaN() || got.Neg != neg || ref.CmpNum(g, a) < 0 || ref.CmpNum(g, b) > 0 {
		t.Failf("%s = %v, want %v to %v", d, got, wl, wh)
	}
	if got.IsFin() && (got.Prec() > p || got.E < rc.Etiny() || got.Adj() > rc.Emax) {
		t.Failf("%s = %v has too many digits or an exponent outside the limits", d, got)
	}
	may := fll | flh | flm | ref.Inexact | ref.Rounded
	must := fll & flm & flh &^ ref.Underflow // may be exact at the working precision
	if f.Fn == "Pow" || f.Fn == "Hypot" {
		must &^= ref.Inexact | ref.Rounded
	}
	prev := ref.Cond(f.ZC)
	if fl&^prev&^may != 0 || prev&^fl != 0 || must&^fl != 0 {
		t.Failf("%s = %v: conditions [%v], want [%v] to [%v]; receiver had [%v]", d, got, fl, must, may, prev)
	}
}

// adjEstimate is roughly the decimal exponent of the result.
func adjEstimate(fn string, x, y ref.Dec) float64 {
	switch fn {
	case "Exp":
		if x.Adj() > 25 {
			if x.Neg {
				return -1e30
			}
			return 1e30
		}
		v, _ := bigFloat(x).Float64()
		return v / 2.302585
	case "Pow":
		a := ref.Fn("Log10", x, ref.Dec{}, 80)
		l := new(big.Float).SetMantExp(new(big.Float).SetInt(a.M), -a.W)
		v, _ := l.Mul(l, bigFloat(y)).Float64()
		return v
	}
	return 0
}

// bigFloat is d, or something just as large or tiny.
func bigFloat(d ref.Dec) *big.Float {
	e := d.E
	if a := d.Adj(); a > 5000 || a < -5000 {
		e += max(-5000, min(5000, a)) - a
	}
	f, _, err := big.ParseFloat(d.Signed().String()+"e"+strconv.Itoa(e), 10, 64, big.ToNearestEven)
	if err != nil {
		panic(err)
	}
	return f
}
