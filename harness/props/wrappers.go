package props

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/ericlagergren/decimal"
	dmath "github.com/ericlagergren/decimal/math"
	"github.com/ericlagergren/decimal/misc"

	"verif/pbt"
	"verif/ref"
)

// C32: the functions of the math and misc packages and the methods of Big do
// what the methods of Context and Big they stand for do.

func init() {
	pbt.Register(&pbt.Prop{ID: "C32", Assumptions: assume, Subs: []pbt.Sub{
		pbt.Check[wrapCase]{Name: "math", Rule: "non-trivial: the precision is not the default one, or the operand is special",
			Quick: 120000, Thorough: 3000000, Gen: func(s *Src) wrapCase { return genWrap(s, wrapMath) }, Run: wrapRun},
		pbt.Check[wrapCase]{Name: "misc", Rule: "non-trivial: the precision is not the default one, or an operand is special or negative",
			Quick: 1500000, Thorough: 40000000, Gen: func(s *Src) wrapCase { return genWrap(s, wrapMisc) }, Run: wrapRun},
		pbt.Check[wrapCase]{Name: "methods", Rule: "non-trivial: the precision is not the default one, or an operand is special",
			Quick: 1500000, Thorough: 40000000, Gen: func(s *Src) wrapCase { return genWrap(s, wrapBig) }, Run: wrapRun},
		pbt.Check[fracCase]{Name: "fractions", Rule: "non-trivial: at least three terms are evaluated",
			Quick: 60000, Thorough: 1500000, Gen: genFrac, Run: wrapFracRun},
		pbt.Check[splitCase]{Name: "splitting", Rule: "non-trivial: at least five terms, so that the range is split",
			Quick: 60000, Thorough: 1500000, Gen: genSplit, Run: wrapSplitRun},
	}})
}

type wrapCase struct {
	Fn    string `json:"fn"`
	Ctx   CtxJ   `json:"ctx"`
	X     Num    `json:"x"`
	Y     Num    `json:"y"`
	U     Num    `json:"u"`
	N     int    `json:"n,omitempty"`
	Z     Num    `json:"z,omitempty"`
	ZC    uint32 `json:"zc,omitempty"`
	Alias bool   `json:"alias,omitempty"` // z is x
}

type (
	wB = decimal.Big
	// wrapper and the method it stands for; results other than z are described.
	wrapPair struct {
		name string
		a, b func(z, x, y, u *wB, n int) any
	}
)

func wz1(w func(z, x *wB) *wB, m func(c decimal.Context, z, x *wB) *wB) (a, b func(z, x, y, u *wB, n int) any) {
	return func(z, x, y, u *wB, n int) any { return w(z, x) },
		func(z, x, y, u *wB, n int) any { return m(z.Context, z, x) }
}

func wz2(w func(z, x, y *wB) *wB, m func(c decimal.Context, z, x, y *wB) *wB) (a, b func(z, x, y, u *wB, n int) any) {
	return func(z, x, y, u *wB, n int) any { return w(z, x, y) },
		func(z, x, y, u *wB, n int) any { return m(z.Context, z, x, y) }
}

func pair(name string, a, b func(z, x, y, u *wB, n int) any) wrapPair { return wrapPair{name, a, b} }

func pair1(name string, w func(z, x *wB) *wB, m func(c decimal.Context, z, x *wB) *wB) wrapPair {
	a, b := wz1(w, m)
	return pair(name, a, b)
}

func pair2(name string, w func(z, x, y *wB) *wB, m func(c decimal.Context, z, x, y *wB) *wB) wrapPair {
	a, b := wz2(w, m)
	return pair(name, a, b)
}

var wrapMath = []wrapPair{
	pair1("math.Acos", dmath.Acos, decimal.Context.Acos),
	pair1("math.Asin", dmath.Asin, decimal.Context.Asin),
	pair1("math.Atan", dmath.Atan, decimal.Context.Atan),
	pair2("math.Atan2", dmath.Atan2, decimal.Context.Atan2),
	pair1("math.Ceil", dmath.Ceil, decimal.Context.Ceil),
	pair1("math.Cos", dmath.Cos, decimal.Context.Cos),
	pair("math.E", func(z, x, y, u *wB, n int) any { return dmath.E(z) }, func(z, x, y, u *wB, n int) any { return z.Context.E(z) }),
	pair1("math.Exp", dmath.Exp, decimal.Context.Exp),
	pair1("math.Floor", dmath.Floor, decimal.Context.Floor),
	pair2("math.Hypot", dmath.Hypot, decimal.Context.Hypot),
	pair1("math.Log", dmath.Log, decimal.Context.Log),
	pair1("math.Log10", dmath.Log10, decimal.Context.Log10),
	pair("math.Pi", func(z, x, y, u *wB, n int) any { return dmath.Pi(z) }, func(z, x, y, u *wB, n int) any { return z.Context.Pi(z) }),
	pair2("math.Pow", dmath.Pow, decimal.Context.Pow),
	pair1("math.Sin", dmath.Sin, decimal.Context.Sin),
	pair1("math.Sqrt", dmath.Sqrt, decimal.Context.Sqrt),
	pair1("math.Tan", dmath.Tan, decimal.Context.Tan),
}

func anyZ(f func(z, x, y, u *wB, n int) *wB) func(z, x, y, u *wB, n int) any {
	return func(z, x, y, u *wB, n int) any { return f(z, x, y, u, n) }
}

// extremum is the model of Max and its relatives: the first of the values
// that no other one exceeds.
func extremum(abs bool, sign int) func(z, x, y, u *wB, n int) any {
	return func(z, x, y, u *wB, n int) any {
		l := []*wB{x, y, u}[:1+(n&3)%3]
		m := l[0]
		for _, v := range l[1:] {
			a, _ := obs(v)
			b, _ := obs(m)
			if abs {
				a.Neg, b.Neg = false, false
			}
			if ref.Cmp(a, b)*sign > 0 {
				m = v
			}
		}
		return m
	}
}

func variadic(f func(...*wB) *wB) func(z, x, y, u *wB, n int) any {
	return func(z, x, y, u *wB, n int) any { return f([]*wB{x, y, u}[:1+(n&3)%3]...) }
}

var wrapMisc = []wrapPair{
	pair("misc.Canonical", anyZ(func(z, x, y, u *wB, n int) *wB { return misc.Canonical(z, x) }), anyZ(func(z, x, y, u *wB, n int) *wB { return z.Canonical(x) })),
	pair("misc.CmpTotal", func(z, x, y, u *wB, n int) any { return misc.CmpTotal(x, y) }, func(z, x, y, u *wB, n int) any { return x.CmpTotal(y) }),
	pair("misc.CmpTotalAbs", func(z, x, y, u *wB, n int) any { return misc.CmpTotalAbs(x, y) }, func(z, x, y, u *wB, n int) any { return x.CmpTotalAbs(y) }),
	pair("misc.CopyAbs", anyZ(func(z, x, y, u *wB, n int) *wB { return misc.CopyAbs(z, x) }), anyZ(func(z, x, y, u *wB, n int) *wB { return z.CopyAbs(x) })),
	pair("misc.CopyNeg", anyZ(func(z, x, y, u *wB, n int) *wB { return misc.CopyNeg(z, x) }), anyZ(func(z, x, y, u *wB, n int) *wB { return z.CopyNeg(x) })),
	pair("misc.Mantissa", func(z, x, y, u *wB, n int) any { return fmt.Sprint(misc.Mantissa(x)) }, func(z, x, y, u *wB, n int) any { return fmt.Sprint(x.Mantissa()) }),
	pair("misc.Max", variadic(misc.Max), extremum(false, 1)),
	pair("misc.MaxAbs", variadic(misc.MaxAbs), extremum(true, 1)),
	pair("misc.Min", variadic(misc.Min), extremum(false, -1)),
	pair("misc.MinAbs", variadic(misc.MinAbs), extremum(true, -1)),
	pair1("misc.NextMinus", misc.NextMinus, decimal.Context.NextMinus),
	pair1("misc.NextPlus", misc.NextPlus, decimal.Context.NextPlus),
	pair("misc.SameQuantum", func(z, x, y, u *wB, n int) any { return misc.SameQuantum(x, y) }, func(z, x, y, u *wB, n int) any { return x.SameQuantum(y) }),
	pair("misc.SetSignbit", anyZ(func(z, x, y, u *wB, n int) *wB { return misc.SetSignbit(z, n&1 != 0) }), anyZ(func(z, x, y, u *wB, n int) *wB { return z.SetSignbit(n&1 != 0) })),
}

func meth(name string, a, b func(z, x, y, u *wB, n int) *wB) wrapPair {
	return pair(name, anyZ(a), anyZ(b))
}

var wrapBig = []wrapPair{
	meth("Big.Abs", func(z, x, y, u *wB, n int) *wB { return z.Abs(x) }, func(z, x, y, u *wB, n int) *wB { return z.Context.Abs(z, x) }),
	meth("Big.Add", func(z, x, y, u *wB, n int) *wB { return z.Add(x, y) }, func(z, x, y, u *wB, n int) *wB { return z.Context.Add(z, x, y) }),
	meth("Big.FMA", func(z, x, y, u *wB, n int) *wB { return z.FMA(x, y, u) }, func(z, x, y, u *wB, n int) *wB { return z.Context.FMA(z, x, y, u) }),
	meth("Big.Mul", func(z, x, y, u *wB, n int) *wB { return z.Mul(x, y) }, func(z, x, y, u *wB, n int) *wB { return z.Context.Mul(z, x, y) }),
	meth("Big.Neg", func(z, x, y, u *wB, n int) *wB { return z.Neg(x) }, func(z, x, y, u *wB, n int) *wB { return z.Context.Neg(z, x) }),
	meth("Big.Quantize", func(z, x, y, u *wB, n int) *wB { return z.Copy(x).Quantize(n) }, func(z, x, y, u *wB, n int) *wB { return z.Context.Quantize(z.Copy(x), n) }),
	meth("Big.Quo", func(z, x, y, u *wB, n int) *wB { return z.Quo(x, y) }, func(z, x, y, u *wB, n int) *wB { return z.Context.Quo(z, x, y) }),
	meth("Big.QuoInt", func(z, x, y, u *wB, n int) *wB { return z.QuoInt(x, y) }, func(z, x, y, u *wB, n int) *wB { return z.Context.QuoInt(z, x, y) }),
	pair("Big.QuoRem", func(z, x, y, u *wB, n int) any {
		r := new(wB)
		q, s := z.QuoRem(x, y, r)
		if q != z || s != r {
			return "QuoRem did not return its receivers"
		}
		d, _ := obs(r)
		return d.String()
	}, func(z, x, y, u *wB, n int) any {
		r := new(wB)
		z.Context.QuoRem(z, x, y, r)
		d, _ := obs(r)
		return d.String()
	}),
	meth("Big.Reduce", func(z, x, y, u *wB, n int) *wB { return z.Copy(x).Reduce() }, func(z, x, y, u *wB, n int) *wB { return z.Context.Reduce(z.Copy(x)) }),
	meth("Big.Rem", func(z, x, y, u *wB, n int) *wB { return z.Rem(x, y) }, func(z, x, y, u *wB, n int) *wB { return z.Context.Rem(z, x, y) }),
	meth("Big.Round", func(z, x, y, u *wB, n int) *wB { return z.Copy(x).Round(1 + n&31) }, func(z, x, y, u *wB, n int) *wB {
		c := z.Context
		c.Precision = 1 + n&31
		return c.Round(z.Copy(x))
	}),
	meth("Big.RoundToInt", func(z, x, y, u *wB, n int) *wB { return z.Copy(x).RoundToInt() }, func(z, x, y, u *wB, n int) *wB { return z.Context.RoundToInt(z.Copy(x)) }),
	meth("Big.Set", func(z, x, y, u *wB, n int) *wB { return z.Set(x) }, func(z, x, y, u *wB, n int) *wB { return z.Context.Set(z, x) }),
	meth("Big.Sub", func(z, x, y, u *wB, n int) *wB { return z.Sub(x, y) }, func(z, x, y, u *wB, n int) *wB { return z.Context.Sub(z, x, y) }),
	pair("Max", func(z, x, y, u *wB, n int) any { return decimal.Max(x, y) }, func(z, x, y, u *wB, n int) any { return extremum(false, 1)(z, x, y, u, 1) }),
	pair("Min", variadic(decimal.Min), extremum(false, -1)),
	pair("MaxAbs", variadic(decimal.MaxAbs), extremum(true, 1)),
	pair("MinAbs", variadic(decimal.MinAbs), extremum(true, -1)),
}

func genWrap(s *Src, list []wrapPair) wrapCase {
	p := pbt.Pick(s, list...)
	c := wrapCase{Fn: p.name, ZC: uint32(s.N(2) * s.N(1<<13)), N: s.Sym(40), Alias: s.In(1, 4)}
	fns := strings.HasPrefix(p.name, "math.")
	switch {
	case fns && !strings.Contains("math.Ceil math.Floor", p.name):
		c.Ctx = CtxJ{P: s.Range(0, 40), M: s.N(7)}
	default:
		c.Ctx = genCtx(s, ctxOpt{limited: 20, unlimited: 4})
		if c.Ctx.P == Unl && (strings.HasPrefix(p.name, "misc.Next") || p.name == "Big.Quo") {
			c.Ctx.P = 20
		}
	}
	o := numOpt{special: 8, zero: 8, espan: 25}
	if fns {
		o.espan = 3
	}
	arg := func() ref.Dec {
		d := genNum(s, CtxJ{P: c.Ctx.prec()}, o)
		if fns && d.IsFin() && !d.IsZero() {
			d.E = -ref.Digits(d.C) + s.Range(-3, 2)
			if strings.Contains("math.Asin math.Acos", p.name) {
				d.E = -ref.Digits(d.C) - s.N(3)
			}
			d.Neg = d.Neg && s.Bool()
		}
		return d
	}
	x := arg()
	c.X, c.Y, c.U = num(x), num(arg()), num(arg())
	if !fns && s.Bool() {
		c.Y = num(relatedTo(s, x, c.Ctx, o))
	}
	if c.Ctx.P == Unl { // exact sums of numbers far apart are long
		for _, n := range []*Num{&c.Y, &c.U} {
			if d := n.dec(); d.IsFin() && x.IsFin() && (d.E-x.E > 1000 || d.E-x.E < -1000) {
				d.E = x.E + s.Sym(30)
				*n = num(d)
			}
		}
	}
	if strings.Contains(p.name, "Min") || strings.Contains(p.name, "Max") {
		for _, n := range []*Num{&c.X, &c.Y, &c.U} { // NaNs are not ordered
			if n.dec().IsNaN() {
				*n = "5E1"
			}
		}
	}
	if s.Bool() {
		c.Z = num(genNum(s, c.Ctx, dirtyOpt))
	}
	return c
}

func wrapRun(c wrapCase, t *T) {
	var p *wrapPair
	for _, l := range [][]wrapPair{wrapMath, wrapMisc, wrapBig} {
		for i := range l {
			if l[i].name == c.Fn {
				p = &l[i]
			}
		}
	}
	t.Tag(c.Fn)
	v := [3]ref.Dec{c.X.dec(), c.Y.dec(), c.U.dec()}
	if c.Ctx.P != 0 || v[0].K != ref.Fin {
		t.Nontrivial()
	}
	type result struct {
		z    ref.Dec
		ctx  decimal.Context
		ret  any
		args [3]ref.Dec
	}
	eval := func(f func(z, x, y, u *wB, n int) any) (r result) {
		z := new(decimal.Big)
		if c.Z != "" {
			z = mk(c.Z.dec(), 0)
		}
		var b [3]*decimal.Big
		for i := range b {
			b[i] = mk(v[i], 0)
		}
		if c.Alias {
			z = b[0]
		}
		z.Context = c.Ctx.lib()
		z.Context.Conditions = decimal.Condition(c.ZC)
		r.ret = f(z, b[0], b[1], b[2], c.N)
		if rb, ok := r.ret.(*decimal.Big); ok {
			switch rb {
			case z:
				r.ret = "z"
			case b[0]:
				r.ret = "x"
			case b[1]:
				r.ret = "y"
			case b[2]:
				r.ret = "u"
			default:
				r.ret = "another decimal"
			}
		}
		r.z, r.ctx = mustObs(t, c.Fn, z), z.Context
		for i := range b {
			r.args[i] = mustObs(t, c.Fn, b[i])
		}
		return r
	}
	a, b := eval(p.a), eval(p.b)
	same := same4(a.z, b.z) && a.ctx == b.ctx && a.ret == b.ret
	for i := range a.args {
		same = same && same4(a.args[i], b.args[i])
	}
	if !same {
		t.Failf("%s(%v, %v, %v) n=%d prec=%d %s: %v [%v] returning %v, arguments then %v; the operation it stands for: %v [%v] returning %v, arguments then %v", c.Fn, v[0], v[1], v[2], c.N, c.Ctx.prec(), modeName(c.Ctx.M), a.z, a.ctx.Conditions, a.ret, a.args, b.z, b.ctx.Conditions, b.ret, b.args)
	}
}

func wrapFracRun(c fracCase, t *T) {
	run := func(deprecated bool) ref.Dec {
		var terms []decimal.Term
		for i := range c.A {
			terms = append(terms, decimal.Term{A: mk(ref.MustParse(c.A[i]), 0), B: mk(ref.MustParse(c.B[i]), 0)})
		}
		g := &fracGen{c: &c, terms: terms, t: t}
		var gen decimal.Generator = g
		switch {
		case c.How == 1 && c.Own:
			gen = ctxLentzGen{ctxGen{g}}
		case c.How == 1:
			gen = ctxGen{g}
		case c.Own:
			gen = lentzGen{g}
		}
		z := new(decimal.Big)
		if c.Z != "" {
			z = mk(c.Z.dec(), 0)
		}
		z.Context = c.Ctx.lib()
		switch {
		case c.Algo == "Lentz" && deprecated:
			dmath.Lentz(z, gen)
		case c.Algo == "Lentz":
			z.Context.Lentz(z, gen)
		case deprecated:
			dmath.Wallis(z, gen)
		default:
			z.Context.Wallis(z, gen)
		}
		if g.calls > 3 {
			t.Nontrivial()
		}
		return mustObs(t, c.Algo, z)
	}
	if len(c.A) == 1 && ref.MustParse(c.B[0]).IsZero() {
		return
	}
	if a, b := run(true), run(false); !same4(a, b) {
		t.Failf("math.%s of a=%v b=%v (loop %d) with %d digits = %v, Context.%s gives %v", c.Algo, c.A, c.B, c.Loop, c.Ctx.P, a, c.Algo, b)
	}
}

func wrapSplitRun(c splitCase, t *T) {
	if c.N <= 0 {
		return
	}
	if c.N >= 5 {
		t.Nontrivial()
	}
	f := func(vals []int) func(n uint64) *decimal.Big {
		return func(n uint64) *decimal.Big { return decimal.New(int64(vals[n-c.Start]), 0) }
	}
	z := new(decimal.Big)
	ctx := CtxJ{P: c.Prec, M: c.M}.lib()
	if dmath.BinarySplit(z, ctx, c.Start, c.Start+uint64(c.N), f(c.A), f(c.P), f(c.B), f(c.Q)) != z {
		t.Failf("math.BinarySplit did not return its receiver")
	}
	w := decimal.BinarySplit(new(decimal.Big), ctx, c.Start, c.Start+uint64(c.N), f(c.A), f(c.P), f(c.B), f(c.Q))
	a, b := mustObs(t, "math.BinarySplit", z), mustObs(t, "BinarySplit", w)
	if !same4(a, b) {
		t.Failf("math.BinarySplit(%d, %d) of a=%v p=%v b=%v q=%v = %v, BinarySplit gives %v", c.Start, c.Start+uint64(c.N), c.A, c.P, c.B, c.Q, a, b)
	}
	// the dynamic form, on a geometric series
	q := int64(3 + c.N%7)
	one := func(n uint64) *decimal.Big { return decimal.New(1, 0) }
	ratio := func(n uint64) *decimal.Big { return decimal.New(q, 0) }
	ctx.Precision = 20 + c.N
	d1, d2 := dmath.BinarySplitDynamic(ctx, one, one, one, ratio), decimal.BinarySplitDynamic(ctx, one, one, one, ratio)
	a, b = mustObs(t, "math.BinarySplitDynamic", d1), mustObs(t, "BinarySplitDynamic", d2)
	if !same4(a, b) {
		t.Failf("math.BinarySplitDynamic of sum %d**-n with %d digits = %v, BinarySplitDynamic gives %v, want about %v", q, ctx.Precision, a, b, big.NewRat(1, q-1))
	}
}
