package props

import (
	"bytes"
	"math"
	"math/big"
	"strconv"

	"github.com/ericlagergren/decimal"

	"verif/pbt"
	"verif/ref"
)

// C15 integers and rationals, C16 binary floating point, C17 Compose and
// Decompose.

func init() {
	reg := func(id string, subs ...pbt.Sub) {
		pbt.Register(&pbt.Prop{ID: id, Assumptions: assume, Subs: subs})
	}
	reg("C15",
		pbt.Check[convCase]{Name: "from-decimal", Rule: "non-trivial: non-zero with a non-zero exponent, or more than 18 digits",
			Quick: 4000000, Thorough: 60000000, Gen: genConv, Run: convRun},
		pbt.Check[setRatCase]{Name: "set-rat", Rule: "non-trivial: not an integer",
			Quick: 2000000, Thorough: 40000000, Gen: genSetRat, Run: setRatRun},
		pbt.Check[intoCase]{Name: "to-decimal", Rule: "non-trivial: at least 64 bits, or the extreme values of a type",
			Quick: 3000000, Thorough: 40000000, Gen: genInto, Run: intoRun})
	reg("C16",
		pbt.Check[convCase]{Name: "to-float", Rule: "non-trivial: not exactly representable",
			Quick: 3000000, Thorough: 60000000, Gen: genToFloat, Run: toFloatRun},
		pbt.Check[floatCase]{Name: "from-float", Rule: "non-trivial: a fraction, or above 2^53",
			Quick: 1000000, Thorough: 20000000, Gen: genFromFloat, Run: fromFloatRun},
		pbt.Check[bigFloatCase]{Name: "big-float", Rule: "non-trivial: finite and not zero",
			Quick: 600000, Thorough: 10000000, Gen: genBigFloat, Run: bigFloatRun})
	reg("C17",
		pbt.Check[composeCase]{Name: "round-trip", Rule: "non-trivial: a coefficient of more than eight bytes, a dirty receiver, or a special value",
			Quick: 5000000, Thorough: 80000000, Gen: genCompose, Run: composeRun},
		pbt.Check[rawParts]{Name: "parts", Rule: "non-trivial: leading zero bytes, or an exponent near the limits",
			Quick: 4000000, Thorough: 60000000, Gen: genParts, Run: partsRun})
}

// --- C15 ------------------------------------------------------------------

type convCase struct {
	X     Num   `json:"x"`
	XC    CtxJ  `json:"xc"`
	Path  int   `json:"path,omitempty"`
	Dirty int64 `json:"dirty,omitempty"` // 0: nil receiver
	Prec  uint  `json:"prec,omitempty"`  // of the big.Float receiver
	Mode  int   `json:"mode,omitempty"`
}

var limits64 = []string{"9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551615", "18446744073709551616", "18446744073709551614", "9223372036854775806"}

func genConv(s *Src) convCase {
	c := convCase{XC: genAnyCtx(s), Path: s.N(3)}
	if s.Bool() {
		c.Dirty = int64(s.Range(1, 1000000000))
	}
	var d ref.Dec
	switch s.Weighted(5, 4, 3, 1) {
	case 0:
		d = genNum(s, CtxJ{P: genPrec(s)}, numOpt{zero: 5})
	case 1: // near the limits of 64 bit integers, in any representation
		v, _ := new(big.Int).SetString(pbt.Pick(s, limits64...), 10)
		e := 0
		switch s.N(3) {
		case 1: // a fraction
			e = -s.Range(1, 25)
			v.Mul(v, ref.Pow10(-e))
			v.Add(v, big.NewInt(int64(s.Sym(2))))
		case 2: // cut off digits
			e = s.Range(1, 3)
			v.Quo(v, ref.Pow10(e))
			v.Add(v, big.NewInt(int64(s.Sym(1))))
		}
		d = ref.Dec{Neg: s.Bool(), C: v, E: e}
	case 2: // few digits, exponents around 18
		v := genDigits(s, s.Range(1, 4))
		d = ref.Dec{Neg: s.Bool(), C: v, E: s.Range(14, 21)}
	case 3:
		v := genCoef(s, 20)
		d = ref.Dec{Neg: s.Bool(), C: v, E: s.Sym(1) * pbt.Pick(s, 100, 500, 3000)}
		if s.In(1, 3) { // too large to be written out
			d.E = s.Sym(1) * s.Range(10000, 1000000000000000000)
		}
	}
	c.X = num(d)
	return c
}

// trunc is the integral part of d.
func trunc(d ref.Dec) *big.Int {
	v := new(big.Int)
	if d.E >= 0 {
		v.Mul(d.C, ref.Pow10(d.E))
	} else if -d.E < ref.Digits(d.C)+1 {
		v.Quo(d.C, ref.Pow10(-d.E))
	}
	if d.Neg {
		v.Neg(v)
	}
	return v
}

func ratOf(d ref.Dec) *big.Rat {
	r := new(big.Rat).SetInt(d.C)
	if d.E >= 0 {
		r.Mul(r, new(big.Rat).SetInt(ref.Pow10(d.E)))
	} else {
		r.Quo(r, new(big.Rat).SetInt(ref.Pow10(-d.E)))
	}
	if d.Neg {
		r.Neg(r)
	}
	return r
}

func convRun(c convCase, t *T) {
	d := c.X.dec()
	x := bigOf(d, c.Path, c.XC)
	if !d.IsZero() && (d.E != 0 || ref.Digits(d.C) > 18) {
		t.Nontrivial()
	}
	if d.E > 5000 || d.E < -5000 {
		t.Tag("huge exponent")
		tiny := d.E < 0 || d.IsZero()
		if v, ok := x.Int64(); ok != tiny || ok && v != 0 {
			t.Failf("Int64(%v) = %d, %v", d, v, ok)
		}
		if v, ok := x.Uint64(); ok != tiny && !(tiny && d.Neg) || ok && v != 0 {
			t.Failf("Uint64(%v) = %d, %v", d, v, ok)
		}
		if g := x.IsInt(); g != (d.E > 0 || d.IsZero()) {
			t.Failf("IsInt(%v) = %v", d, g)
		}
		if tiny {
			if g := x.Int(nil); g.Sign() != 0 {
				t.Failf("Int(%v) = %v", d, g)
			}
		}
		checkUnchanged(t, "x", x, d, c.XC)
		return
	}
	want := trunc(d)
	var zi *big.Int
	var zr *big.Rat
	if c.Dirty != 0 {
		zi = big.NewInt(-c.Dirty)
		zi.Lsh(zi, uint(c.Dirty%200))
		zr = new(big.Rat).SetFrac64(c.Dirty, 1234567)
	}
	gi := x.Int(zi)
	if zi != nil && gi != zi {
		t.Failf("Int did not return its receiver")
	}
	if gi.Cmp(want) != 0 {
		t.Failf("Int(%v) = %v, want %v", d, gi, want)
	}
	if v, ok := x.Int64(); ok != want.IsInt64() || ok && v != want.Int64() {
		t.Failf("Int64(%v) = %d, %v; the integral part is %v", d, v, ok, want)
	}
	wantU := want.IsUint64() && !d.Neg
	if v, ok := x.Uint64(); (ok != wantU && !(d.Neg && want.Sign() == 0)) || ok && v != want.Uint64() {
		t.Failf("Uint64(%v) = %d, %v; the integral part is %v", d, v, ok, want)
	}
	if want.IsInt64() {
		t.Tag("int64")
	} else if want.IsUint64() {
		t.Tag("uint64")
	} else {
		t.Tag("big")
	}
	gr := x.Rat(zr)
	if zr != nil && gr != zr {
		t.Failf("Rat did not return its receiver")
	}
	if w := ratOf(d); gr.Cmp(w) != 0 {
		t.Failf("Rat(%v) = %v, want %v", d, gr, w)
	}
	// the result is the caller's: changing it leaves x alone
	gi.Add(gi, big.NewInt(12345)).Lsh(gi, 3)
	gr.Num().Add(gr.Num(), big.NewInt(77))
	gr.Denom().Add(gr.Denom(), big.NewInt(5))
	checkUnchanged(t, "x", x, d, c.XC)
	// no shared constant was handed out
	if one := new(big.Int).SetInt64(1); decimal.New(1, 0).Rat(nil).Denom().Cmp(one) != 0 || decimal.New(15, 0).Rat(nil).Denom().Cmp(one) != 0 {
		t.Failf("writing to the result of Rat(%v) changed a shared constant", d)
	}
	if big20 := mk(ref.MkDec(false, ref.Pow10(25), 0), 0); big20.Rat(nil).Denom().Cmp(ref.One) != 0 {
		t.Failf("writing to the result of Rat(%v) changed a shared constant", d)
	}
}

type setRatCase struct {
	Num string `json:"num"`
	Den string `json:"den"`
	Ctx CtxJ   `json:"ctx"`
	Via int    `json:"via,omitempty"`
	Z   Num    `json:"z,omitempty"`
	ZC  uint32 `json:"zc,omitempty"`
}

func genSetRat(s *Src) setRatCase {
	c := setRatCase{Ctx: genCtx(s, ctxOpt{limited: 15, unlimited: 3}), Via: s.N(2)}
	p := c.Ctx.prec()
	n := genCoef(s, p)
	if s.Bool() {
		n.Neg(n)
	}
	d := genCoef(s, p)
	switch s.N(4) {
	case 0:
		d = big.NewInt(1)
	case 1: // terminating
		d = new(big.Int).Lsh(ref.One, uint(s.N(40)))
		d.Mul(d, new(big.Int).Exp(ref.Five, big.NewInt(int64(s.N(30))), nil))
	}
	if d.Sign() == 0 {
		d = big.NewInt(3)
	}
	c.Num, c.Den = n.String(), d.String()
	if s.Bool() {
		c.Z = num(genNum(s, c.Ctx, dirtyOpt))
	}
	if s.In(1, 4) {
		c.ZC = uint32(s.N(1 << 13))
	}
	return c
}

func setRatRun(c setRatCase, t *T) {
	n, _ := new(big.Int).SetString(c.Num, 10)
	d, _ := new(big.Int).SetString(c.Den, 10)
	r := new(big.Rat).SetFrac(n, d)
	z := new(decimal.Big)
	if c.Z != "" {
		z = mk(c.Z.dec(), 0)
	}
	if !r.IsInt() {
		t.Nontrivial()
	}
	nn, dd := new(big.Int).Set(r.Num()), new(big.Int).Set(r.Denom())
	ctx := c.Ctx.lib()
	if c.Via == 0 {
		z.Context = ctx
	}
	z.Context.Conditions = decimal.Condition(c.ZC)
	if c.Via == 0 {
		z.SetRat(r)
	} else {
		ctx.SetRat(z, r)
	}
	num := ref.MkDec(nn.Sign() < 0, new(big.Int).Abs(nn), 0)
	den := ref.MkDec(false, dd, 0)
	rc := c.Ctx.ref()
	var want ref.Dec
	var f ref.Cond
	if dd.Cmp(ref.One) == 0 {
		want, f = rc.Fix(num)
	} else {
		want, f = rc.Quo(num, den)
	}
	got := mustObs(t, "SetRat", z)
	if !ref.Same(got, want) {
		t.Failf("SetRat(%v/%v) prec=%d %s = %v, want %v", nn, dd, c.Ctx.prec(), modeName(c.Ctx.M), got, want)
	}
	if z.Context.Conditions != f|ref.Cond(c.ZC) {
		t.Failf("SetRat(%v/%v) prec=%d %s = %v: conditions are [%v], want [%v]", nn, dd, c.Ctx.prec(), modeName(c.Ctx.M), got, z.Context.Conditions, f|ref.Cond(c.ZC))
	}
	if r.Num().Cmp(nn) != 0 || r.Denom().Cmp(dd) != 0 {
		t.Failf("SetRat modified its argument: %v/%v became %v", nn, dd, r)
	}
	tagFlags(t, f)
}

type intoCase struct {
	How   int    `json:"how"`
	V     string `json:"v"`
	Scale int    `json:"scale,omitempty"`
	Z     Num    `json:"z,omitempty"`
	Ctx   CtxJ   `json:"ctx"`
	Own   bool   `json:"own,omitempty"` // the value is the receiver's own big coefficient
}

func genInto(s *Src) intoCase {
	c := intoCase{How: s.N(4), Ctx: genAnyCtx(s), Scale: s.Sym(40)}
	if s.In(1, 10) {
		c.Scale = s.Sym(1) * pbt.Pick(s, 1000000, 1<<31, 1<<40)
	}
	if s.Bool() {
		c.Z = num(genNum(s, CtxJ{P: 25}, dirtyOpt))
	}
	var v *big.Int
	switch c.How {
	case 0, 1: // SetMantScale, New
		v = big.NewInt(int64(s.U64()))
		switch s.N(4) {
		case 0:
			v = big.NewInt(pbt.Pick[int64](s, math.MinInt64, math.MaxInt64, math.MinInt64+1, -1, 0, 1))
		case 1:
			v = big.NewInt(int64(s.Sym(1000)))
		}
	case 2:
		v = new(big.Int).SetUint64(s.U64())
		switch s.N(3) {
		case 0:
			v = new(big.Int).SetUint64(pbt.Pick(s, uint64(math.MaxUint64), math.MaxUint64-1, 1<<63, 0, 1))
		case 1:
			v = big.NewInt(int64(s.N(100000)))
		}
		c.Scale = 0
	case 3:
		v = genCoef(s, genPrec(s))
		if s.Bool() {
			v.Neg(v)
		}
		c.Own = s.In(1, 6)
	}
	c.V = v.String()
	return c
}

func intoRun(c intoCase, t *T) {
	v, _ := new(big.Int).SetString(c.V, 10)
	z := new(decimal.Big)
	if c.Z != "" {
		z = mk(c.Z.dec(), 0)
	}
	z.Context = c.Ctx.lib()
	ctx := z.Context
	arg := new(big.Int).Set(v)
	var ret *decimal.Big
	switch c.How {
	case 0:
		ret = z.SetMantScale(v.Int64(), c.Scale)
	case 1:
		z = decimal.New(v.Int64(), c.Scale)
		ctx = decimal.Context{}
		ret = z
	case 2:
		ret = z.SetUint64(v.Uint64())
	case 3:
		if c.Own { // as documented: "in case value == z.unscaled"
			_, u := decimal.Raw(z)
			u.Set(v)
			ret = z.SetBigMantScale(u, c.Scale)
		} else {
			ret = z.SetBigMantScale(arg, c.Scale)
			if arg.Cmp(v) != 0 {
				t.Failf("SetBigMantScale modified its argument")
			}
			arg.Add(arg, big.NewInt(99)).Lsh(arg, 5) // must be a copy
		}
	}
	if v.BitLen() >= 63 {
		t.Nontrivial()
	}
	if ret != z {
		t.Failf("the setter did not return its receiver")
	}
	want := ref.MkDec(v.Sign() < 0, new(big.Int).Abs(v), -c.Scale)
	if got := mustObs(t, "setter", z); !ref.Same(got, want) {
		t.Failf("setter %d of %v with scale %d gives %v", c.How, v, c.Scale, got)
	}
	if z.Context != ctx {
		t.Failf("setter %d changed the context: %+v", c.How, z.Context)
	}
}

// --- C16 ------------------------------------------------------------------

func genToFloat(s *Src) convCase {
	c := convCase{XC: genAnyCtx(s), Path: s.N(3), Prec: uint(pbt.Pick(s, 53, 0, 24, 64, 100, 200)), Mode: s.N(6)}
	if s.Bool() {
		c.Dirty = int64(s.Range(1, 1000000000))
	}
	var d ref.Dec
	switch s.Weighted(4, 4, 4, 3, 1) {
	case 0:
		d = genNum(s, CtxJ{P: genPrec(s)}, numOpt{zero: 4, special: 4})
	case 1: // around 2^53 with a small exponent: the exact paths
		v := new(big.Int).Lsh(ref.One, uint(s.Range(52, 56)))
		v.Add(v, big.NewInt(int64(s.Sym(50))))
		if s.Bool() {
			v = new(big.Int).SetUint64(s.U64() >> uint(s.Range(0, 14)))
		}
		d = ref.Dec{Neg: s.Bool(), C: v, E: s.Sym(25)}
	case 2: // midpoints of two floats, exactly or nearly
		f := math.Float64frombits(s.U64() & (1<<63 - 1))
		if math.IsNaN(f) || math.IsInf(f, 0) || f == 0 || s.Bool() {
			f = math.Ldexp(float64(1<<52+s.U64()%(1<<52)), s.Sym(90))
		}
		if s.In(1, 8) {
			f = math.Float64frombits(s.U64() % (1 << 52)) // denormal
		}
		d = midpoint(f)
		switch s.N(4) {
		case 1:
			k := s.Range(1, 20)
			d.C = new(big.Int).Mul(d.C, ref.Pow10(k))
			d.C.Add(d.C, big.NewInt(int64(s.Sym(1))))
			d.E -= k
		case 2: // cut to a few digits
			n := s.Range(15, 22)
			if k := ref.Digits(d.C) - n; k > 0 {
				d.C = new(big.Int).Quo(d.C, ref.Pow10(k))
				d.E += k
			}
		}
		d.Neg = s.Bool()
	case 3: // the ends of the range
		d = ref.Dec{Neg: s.Bool(), C: genDigits(s, s.Range(1, 22)), E: pbt.Pick(s, 308, -308, -324, -340, 300) - s.N(20)}
	case 4:
		d = ref.Dec{Neg: s.Bool(), C: genDigits(s, s.Range(1, 30)), E: s.Sym(2000)}
	}
	c.X = num(d)
	return c
}

// midpoint is the number halfway between f and the next float.
func midpoint(f float64) ref.Dec {
	m, e := math.Frexp(f)
	v := big.NewInt(int64(math.Ldexp(m, 53)))
	e -= 53
	if e < -1074 { // denormal
		v.Rsh(v, uint(-1074-e))
		e = -1074
	}
	v.Lsh(v, 1)
	v.Add(v, ref.One)
	e--
	if e >= 0 {
		return ref.MkDec(false, v.Lsh(v, uint(e)), 0)
	}
	v.Mul(v, new(big.Int).Exp(ref.Five, big.NewInt(int64(-e)), nil))
	return ref.MkDec(false, v, e)
}

func toFloatRun(c convCase, t *T) {
	d := c.X.dec()
	x := bigOf(d, c.Path, c.XC)
	f, ok := x.Float64()
	switch {
	case d.IsNaN():
		if !math.IsNaN(f) || math.Signbit(f) != d.Neg || !ok {
			t.Failf("Float64(%v) = %v, %v", d, f, ok)
		}
		return
	case d.K == ref.Inf:
		if !math.IsInf(f, 0) || math.Signbit(f) != d.Neg || !ok {
			t.Failf("Float64(%v) = %v, %v", d, f, ok)
		}
	default:
		s := d.C.String() + "e" + strconv.Itoa(d.E)
		w, err := strconv.ParseFloat(s, 64)
		if d.Neg {
			w = math.Copysign(w, -1)
		}
		if f != w || math.Signbit(f) != math.Signbit(w) {
			t.Failf("Float64(%v) = %v, want %v", d, f, w)
		}
		if ok && (err != nil || w == 0 && !d.IsZero()) {
			t.Failf("Float64(%v) = %v, true although it is out of range", d, f)
		}
		exact := false
		if !math.IsInf(w, 0) {
			exact = new(big.Rat).SetFloat64(w).Cmp(ratOf(d)) == 0
		}
		if !exact {
			t.Nontrivial()
		} else if b := uint(d.C.BitLen()); !ok && (b <= 53 && d.E >= -22 && d.E <= 22 ||
			d.E == 0 && b <= 64 && d.C.TrailingZeroBits() == b-1 || d.IsZero()) {
			t.Failf("Float64(%v) = %v, false although it fits", d, f)
		}
	}
	// Float
	var z *big.Float
	if c.Dirty != 0 {
		z = new(big.Float).SetPrec(c.Prec).SetMode(big.RoundingMode(c.Mode)).SetInt64(-c.Dirty)
		if c.Prec == 0 {
			z = new(big.Float)
		}
	}
	g := x.Float(z)
	if z != nil && g != z {
		t.Failf("Float did not return its receiver")
	}
	var w big.Float
	if z != nil && c.Prec != 0 {
		w.SetPrec(c.Prec).SetMode(big.RoundingMode(c.Mode))
	}
	switch {
	case d.K == ref.Inf:
		w.SetInf(d.Neg)
	case d.IsZero():
		if d.Neg {
			w.Neg(&w)
		}
	default:
		w.SetRat(ratOf(d))
	}
	if g.Cmp(&w) != 0 || g.Signbit() != w.Signbit() {
		t.Failf("Float(%v) with precision %d = %v, want %v", d, w.Prec(), g, &w)
	}
	checkUnchanged(t, "x", x, d, c.XC)
}

type floatCase struct {
	Bits uint64 `json:"bits"`
	Z    Num    `json:"z,omitempty"`
}

func genFromFloat(s *Src) floatCase {
	var c floatCase
	switch s.N(6) {
	case 0:
		c.Bits = s.U64()
	case 1:
		c.Bits = s.U64() % (1 << 52) >> uint(s.N(52))
	case 2:
		c.Bits = math.Float64bits(float64(s.U64()>>uint(s.N(64))) * float64(1-2*s.N(2)))
	case 3:
		c.Bits = math.Float64bits(math.Ldexp(float64(s.Range(1, 1000)), s.Sym(120)))
	case 4:
		c.Bits = math.Float64bits(float64(s.Sym(100000)) / 8)
	case 5:
		c.Bits = pbt.Pick(s, 0, 1<<63, math.Float64bits(math.Inf(1)), math.Float64bits(math.Inf(-1)), math.Float64bits(math.NaN()), math.Float64bits(math.NaN())|1<<63, 1, 1<<63|1, math.Float64bits(math.MaxFloat64), 1<<52, 1<<52-1)
	}
	if s.Bool() {
		c.Bits ^= 1 << 63
	}
	if s.Bool() {
		c.Z = num(genNum(s, CtxJ{P: 25}, dirtyOpt))
	}
	return c
}

func fromFloatRun(c floatCase, t *T) {
	f := math.Float64frombits(c.Bits)
	z := new(decimal.Big)
	if c.Z != "" {
		z = mk(c.Z.dec(), 0)
	}
	if z.SetFloat64(f) != z {
		t.Failf("SetFloat64 did not return its receiver")
	}
	got := mustObs(t, "SetFloat64", z)
	neg := math.Signbit(f)
	switch {
	case math.IsNaN(f):
		if got.K != ref.QNaN || got.Neg != neg {
			t.Failf("SetFloat64(%v, sign %v) = %v", f, neg, got)
		}
		return
	case math.IsInf(f, 0):
		if got.K != ref.Inf || got.Neg != neg {
			t.Failf("SetFloat64(%v) = %v", f, got)
		}
		return
	}
	if got.K != ref.Fin || got.Neg != neg || ratOf(got).Cmp(new(big.Rat).SetFloat64(f)) != 0 {
		t.Failf("SetFloat64(%v) = %v is not exact", f, got)
	}
	if f != math.Trunc(f) || math.Abs(f) > 1<<53 {
		t.Nontrivial()
	}
	// and back
	if g, _ := z.Float64(); g != f || math.Signbit(g) != neg {
		t.Failf("SetFloat64(%v).Float64() = %v", f, g)
	}
}

type bigFloatCase struct {
	Mant string `json:"mant"`
	Exp  int    `json:"exp"`
	Prec uint   `json:"prec"`
	Inf  bool   `json:"inf,omitempty"`
	Neg  bool   `json:"neg,omitempty"`
	Z    Num    `json:"z,omitempty"`
}

func genBigFloat(s *Src) bigFloatCase {
	c := bigFloatCase{Prec: uint(s.Range(1, 300)), Exp: s.Sym(200), Neg: s.Bool()}
	v := new(big.Int)
	for i := s.N(5); i >= 0; i-- {
		v.Lsh(v, 64).Or(v, new(big.Int).SetUint64(s.U64()))
	}
	if s.In(1, 4) {
		v = big.NewInt(int64(s.N(1000)))
	}
	c.Mant = v.String()
	c.Inf = s.In(1, 30)
	if s.In(1, 50) {
		c.Exp *= 10
	}
	if s.Bool() {
		c.Z = num(genNum(s, CtxJ{P: 25}, dirtyOpt))
	}
	return c
}

func bigFloatRun(c bigFloatCase, t *T) {
	m, _ := new(big.Int).SetString(c.Mant, 10)
	x := new(big.Float).SetPrec(c.Prec).SetInt(m)
	x.SetMantExp(x, c.Exp)
	if c.Inf {
		x.SetInf(false)
	}
	if c.Neg {
		x.Neg(x)
	}
	old := new(big.Float).Copy(x)
	z := new(decimal.Big)
	if c.Z != "" {
		z = mk(c.Z.dec(), 0)
	}
	if z.SetFloat(x) != z {
		t.Failf("SetFloat did not return its receiver")
	}
	got := mustObs(t, "SetFloat", z)
	if old.Cmp(x) != 0 || old.Prec() != x.Prec() || old.Signbit() != x.Signbit() {
		t.Failf("SetFloat modified its argument")
	}
	if c.Inf {
		if got.K != ref.Inf || got.Neg != c.Neg {
			t.Failf("SetFloat(%v) = %v", x, got)
		}
		return
	}
	r, _ := x.Rat(nil)
	if x.Sign() != 0 {
		t.Nontrivial()
	}
	if got.K != ref.Fin || got.Neg != c.Neg || ratOf(got).Cmp(r) != 0 {
		t.Failf("SetFloat(%v) = %v is not exact", x, got)
	}
}

// --- C17 ------------------------------------------------------------------

type composeCase struct {
	X    Num  `json:"x"`
	XC   CtxJ `json:"xc"`
	Path int  `json:"path,omitempty"`
	Buf  int  `json:"buf"` // capacity of the buffer, -1: nil
	Z    Num  `json:"z,omitempty"`
	ZC   CtxJ `json:"zc"`
}

func genCompose(s *Src) composeCase {
	c := composeCase{XC: genAnyCtx(s), ZC: genAnyCtx(s), Path: s.N(3), Buf: pbt.Pick(s, -1, 0, 4, 7, 8, 9, 16, 64)}
	d := genNum(s, CtxJ{P: genPrec(s)}, numOpt{special: 10, zero: 8})
	if d.IsFin() && s.In(1, 10) {
		d.E = pbt.Pick(s, math.MaxInt32, math.MinInt32, math.MaxInt32-1, math.MinInt32+1, math.MaxInt32+1, math.MinInt32-1, 1<<40)
	}
	if d.IsFin() && d.Neg && d.IsZero() {
		d.Neg = false // a negative zero decomposes into zero: not claimed
	}
	if d.IsNaN() {
		d = ref.Dec{K: d.K} // sign, kind and payload of a NaN are not part of the format
	}
	c.X = num(d)
	if s.Bool() {
		c.Z = num(genNum(s, CtxJ{P: 25}, dirtyOpt))
	}
	return c
}

func composeRun(c composeCase, t *T) {
	d := c.X.dec()
	x := bigOf(d, c.Path, c.XC)
	var buf []byte
	if c.Buf >= 0 {
		buf = make([]byte, c.Buf)
		for i := range buf {
			buf[i] = 0xAA
		}
	}
	if d.IsFin() && (d.E > math.MaxInt32 || d.E < math.MinInt32) {
		func() {
			defer func() {
				if recover() == nil {
					t.Failf("Decompose(%v) did not panic although the exponent does not fit", d)
				}
			}()
			x.Decompose(buf)
		}()
		return
	}
	form, neg, coef, exp := x.Decompose(buf)
	if c.Z != "" || !d.IsFin() || d.C.BitLen() > 64 {
		t.Nontrivial()
	}
	checkUnchanged(t, "x", x, d, c.XC)
	if d.IsFin() {
		if form != 0 || neg != d.Neg || new(big.Int).SetBytes(coef).Cmp(d.C) != 0 || int(exp) != d.E {
			t.Failf("Decompose(%v) = %d, %v, %x, %d", d, form, neg, coef, exp)
		}
	} else if d.K == ref.Inf {
		if form != 1 || neg != d.Neg {
			t.Failf("Decompose(%v) = %d, %v", d, form, neg)
		}
	} else if form != 2 {
		t.Failf("Decompose(%v) = %d", d, form)
	}
	// the coefficient is the caller's
	cp := append([]byte(nil), coef...)
	for i := range coef {
		coef[i] ^= 0xFF
	}
	checkUnchanged(t, "x, after writing to the coefficient,", x, d, c.XC)
	z := new(decimal.Big)
	if c.Z != "" {
		z = mk(c.Z.dec(), 0)
	}
	z.Context = c.ZC.lib()
	if err := z.Compose(form, neg, cp, exp); err != nil {
		t.Failf("Compose(%d, %v, %x, %d): %v", form, neg, cp, exp, err)
	}
	got := mustObs(t, "Compose", z)
	if d.IsNaN() {
		if got.K != ref.QNaN || got.Pay != 0 {
			t.Failf("Compose(Decompose(%v)) = %v", d, got)
		}
	} else if !ref.Same(got, d) || got.Neg != d.Neg {
		t.Failf("Compose(Decompose(%v)) = %v", d, got)
	}
	if z.Context != c.ZC.lib() {
		t.Failf("Compose changed the context: %+v", z.Context)
	}
	for i := range cp {
		cp[i] ^= 0x55 // must not be shared
	}
	if again := mustObs(t, "Compose", z); !ref.Same(again, got) {
		t.Failf("writing to the coefficient changed the composed value %v to %v", got, again)
	}
}

type rawParts struct {
	Form byte   `json:"form"`
	Neg  bool   `json:"neg,omitempty"`
	Coef []byte `json:"coef"`
	Exp  int32  `json:"exp"`
	Z    Num    `json:"z,omitempty"`
}

func genParts(s *Src) rawParts {
	c := rawParts{Neg: s.Bool(), Exp: int32(s.Sym(1000))}
	if s.In(1, 10) {
		c.Form = byte(s.N(256))
	} else if s.In(1, 10) {
		c.Form = byte(s.N(4))
	}
	for i, n := 0, s.N(4)*s.N(3); i < n; i++ {
		c.Coef = append(c.Coef, 0)
	}
	for i, n := 0, s.N(20); i < n; i++ {
		c.Coef = append(c.Coef, byte(s.N(256)))
	}
	if s.In(1, 6) {
		c.Exp = pbt.Pick(s, int32(math.MaxInt32), math.MinInt32, math.MaxInt32-1, math.MinInt32+1)
	}
	if s.In(1, 6) {
		c.Coef = append(c.Coef, bytes.Repeat([]byte{255}, s.N(20))...)
	}
	if s.Bool() {
		c.Z = num(genNum(s, CtxJ{P: 25}, dirtyOpt))
	}
	return c
}

func partsRun(c rawParts, t *T) {
	z := new(decimal.Big)
	var before ref.Dec
	if c.Z != "" {
		before = c.Z.dec()
		z = mk(before, 0)
	}
	in := append([]byte(nil), c.Coef...)
	err := z.Compose(c.Form, c.Neg, in, c.Exp)
	if !bytes.Equal(in, c.Coef) {
		t.Failf("Compose modified the coefficient")
	}
	if (err != nil) != (c.Form > 2) {
		t.Failf("Compose with form %d: error %v", c.Form, err)
	}
	if err != nil {
		return
	}
	got := mustObs(t, "Compose", z)
	switch c.Form {
	case 1:
		if got.K != ref.Inf || got.Neg != c.Neg {
			t.Failf("Compose(Inf, %v) = %v", c.Neg, got)
		}
		return
	case 2:
		if got.K != ref.QNaN {
			t.Failf("Compose(NaN) = %v", got)
		}
		return
	}
	if len(c.Coef) > 0 && c.Coef[0] == 0 || c.Exp > 1<<30 || c.Exp < -1<<30 {
		t.Nontrivial()
	}
	want := ref.MkDec(c.Neg, new(big.Int).SetBytes(c.Coef), int(c.Exp))
	if !ref.Same(got, want) || got.Neg != want.Neg {
		t.Failf("Compose(0, %v, %x, %d) = %v, want %v", c.Neg, c.Coef, c.Exp, got, want)
	}
	f, n, co, e := z.Decompose(nil)
	if f != 0 || n != (c.Neg && !want.IsZero()) && !(want.IsZero()) || new(big.Int).SetBytes(co).Cmp(want.C) != 0 || e != c.Exp {
		t.Failf("Decompose(Compose(0, %v, %x, %d)) = %d, %v, %x, %d", c.Neg, c.Coef, c.Exp, f, n, co, e)
	}
}
