package props

import (
	"math"
	"math/big"

	"github.com/ericlagergren/decimal"

	"verif/pbt"
	"verif/ref"
)

// C10 numerical comparison, C11 total ordering, C27 predicates.

type pairCase struct {
	X    Num  `json:"x"`
	Y    Num  `json:"y"`
	W    Num  `json:"w,omitempty"`
	Path int  `json:"path,omitempty"`
	Same bool `json:"same,omitempty"` // the same object on both sides
	XC   CtxJ `json:"xc"`
	YC   CtxJ `json:"yc"`
}

// genPair makes pairs that are often equal or nearly equal in value.
func genPair(special int) func(*Src) pairCase {
	return func(s *Src) pairCase {
		c := CtxJ{P: genPrec(s)}
		o := numOpt{special: special, zero: 8}
		x := genNum(s, c, o)
		return pairCase{X: num(x), Y: num(relatedTo(s, x, c, o)), W: num(relatedTo(s, x, c, numOpt{zero: 8})),
			Path: s.N(3), Same: s.In(1, 30), XC: genAnyCtx(s), YC: genAnyCtx(s)}
	}
}

func genAnyCtx(s *Src) CtxJ {
	if s.In(2, 3) {
		return CtxJ{}
	}
	c := genCtx(s, ctxOpt{limited: 50})
	c.Go = s.In(1, 5)
	return c
}

func relatedTo(s *Src, x ref.Dec, c CtxJ, o numOpt) ref.Dec {
	y := genNum(s, c, o)
	if !x.IsFin() || s.In(1, 4) {
		if y.K == x.K && s.Bool() {
			y.Pay = x.Pay
		}
		return y
	}
	k := s.N(45)
	y = ref.Dec{Neg: x.Neg != s.In(1, 5), C: x.C, E: x.E}
	if x.IsZero() {
		y.E += s.Sym(30)
		return y
	}
	switch s.N(5) {
	case 0: // same value, longer coefficient
		y.C = new(big.Int).Mul(x.C, ref.Pow10(k))
		y.E -= k
	case 1: // differs in some digit
		y.C = new(big.Int).Mul(x.C, ref.Pow10(k))
		y.E -= k
		y.C.Add(y.C, new(big.Int).Mul(big.NewInt(int64(s.Sym(1))), ref.Pow10(s.N(k+1))))
	case 2: // neighbour
		y.C = new(big.Int).Add(x.C, big.NewInt(int64(s.Sym(2))))
		if y.C.Sign() < 0 {
			y.C = new(big.Int)
		}
	case 3: // same digits, other magnitude
		y.E += s.Sym(3)
		if s.In(1, 4) {
			y.E += s.Sym(1) * pbt.Pick(s, 100, 100000, 1000000000, 1000000000000)
		}
	case 4: // same adjusted exponent, other digits
		v := genCoef(s, c.prec())
		if v.Sign() == 0 {
			v = big.NewInt(1)
		}
		y = ref.Dec{Neg: x.Neg, C: v, E: x.E + ref.Digits(x.C) - ref.Digits(v)}
	}
	return y
}

func bigOf(d ref.Dec, path int, c CtxJ) *decimal.Big {
	z := mk(d, path)
	z.Context = c.lib()
	return z
}

func checkUnchanged(t *T, what string, b *decimal.Big, d ref.Dec, c CtxJ) {
	if o := mustObs(t, what, b); !ref.Same(o, d) || o.Neg != d.Neg || o.Pay != d.Pay || b.Context != c.lib() {
		t.Failf("%s was modified: %v became %v (context %+v)", what, d, o, b.Context)
	}
}

func cmpRun(p pairCase, t *T) {
	x, y, w := p.X.dec(), p.Y.dec(), p.W.dec()
	bx, by, bw := bigOf(x, p.Path, p.XC), bigOf(y, p.Path, p.YC), bigOf(w, 0, p.XC)
	if p.Same {
		by, y, p.YC = bx, x, p.XC
	}
	defer func() {
		checkUnchanged(t, "x", bx, x, p.XC)
		checkUnchanged(t, "y", by, y, p.YC)
	}()
	sgn := func(b *decimal.Big, d ref.Dec) {
		want := 1
		switch {
		case d.IsNaN() || d.IsFin() && d.IsZero():
			want = 0
		case d.Neg:
			want = -1
		}
		if !d.IsNaN() && b.Sign() != want {
			t.Failf("Sign(%v) = %d, want %d", d, b.Sign(), want)
		}
		if b.Signbit() != d.Neg {
			t.Failf("Signbit(%v) = %v", d, b.Signbit())
		}
	}
	sgn(bx, x)
	sgn(by, y)
	if x.IsNaN() || y.IsNaN() {
		t.Tag("nan")
		return
	}
	want, wantAbs := ref.CmpNum(x, y), ref.CmpNum(x.Abs(), y.Abs())
	if x.E != y.E && x.IsFin() && y.IsFin() && !x.IsZero() && !y.IsZero() {
		t.Nontrivial()
		if wantAbs == 0 {
			t.Tag("equal, other exponent")
		}
	}
	for _, q := range []struct {
		n         string
		got, want int
	}{{"Cmp", bx.Cmp(by), want}, {"reversed Cmp", by.Cmp(bx), -want}, {"CmpAbs", bx.CmpAbs(by), wantAbs}, {"reversed CmpAbs", by.CmpAbs(bx), -wantAbs}} {
		if q.got != q.want {
			t.Failf("%s(%v, %v) = %d, want %d", q.n, x, y, q.got, q.want)
		}
	}
	list, decs := []*decimal.Big{bx, by, bw}, []ref.Dec{x, y, w}
	ext := func(n string, got *decimal.Big, k int, abs bool, dir int) {
		idx := -1
		for i, b := range list[:k] {
			if b == got {
				idx = i
			}
		}
		if idx < 0 {
			t.Failf("%s returned something that is not an argument", n)
		}
		for _, d := range decs[:k] {
			a, b := decs[idx], d
			if abs {
				a, b = a.Abs(), b.Abs()
			}
			if ref.CmpNum(a, b)*dir < 0 {
				t.Failf("%s of %v returned %v", n, decs[:k], decs[idx])
			}
		}
	}
	ext("Max", decimal.Max(bx, by), 2, false, 1)
	ext("Min", decimal.Min(list...), 3, false, -1)
	ext("MaxAbs", decimal.MaxAbs(list...), 3, true, 1)
	ext("MinAbs", decimal.MinAbs(list...), 3, true, -1)
	ext("Min", decimal.Min(list[:2]...), 2, false, -1)
}

func totalRank(d ref.Dec) int {
	r := 0
	switch d.K {
	case ref.SNaN:
		r = 2
	case ref.QNaN:
		r = 3
	}
	if d.Neg {
		r = -r
	}
	return r
}

// totalCmp is the total ordering of the specification, NaN payloads aside.
func totalCmp(x, y ref.Dec) int {
	a, b := totalRank(x), totalRank(y)
	if a != b {
		if a < b {
			return -1
		}
		return 1
	}
	if a != 0 {
		return 0
	}
	if x.IsFin() && y.IsFin() && x.IsZero() && y.IsZero() && x.Neg != y.Neg {
		if x.Neg {
			return -1
		}
		return 1
	}
	if c := ref.CmpNum(x, y); c != 0 || !x.IsFin() {
		return c
	}
	e := 0
	switch {
	case x.E < y.E:
		e = -1
	case x.E > y.E:
		e = 1
	}
	if x.Neg {
		e = -e
	}
	return e
}

func totalRun(p pairCase, t *T) {
	x, y, w := p.X.dec(), p.Y.dec(), p.W.dec()
	bx, by, bw := bigOf(x, p.Path, p.XC), bigOf(y, p.Path, p.YC), bigOf(w, 0, p.XC)
	if p.Same {
		by, y, p.YC = bx, x, p.XC
	}
	want, wantAbs := totalCmp(x, y), totalCmp(x.Abs(), y.Abs())
	if x.K != y.K || x.IsFin() && y.IsFin() && ref.CmpNum(x, y) == 0 && x.E != y.E || x.K != ref.Fin {
		t.Nontrivial()
	}
	for _, q := range []struct {
		n         string
		got, want int
	}{{"CmpTotal", bx.CmpTotal(by), want}, {"reversed CmpTotal", by.CmpTotal(bx), -want},
		{"CmpTotalAbs", bx.CmpTotalAbs(by), wantAbs}, {"reversed CmpTotalAbs", by.CmpTotalAbs(bx), -wantAbs}} {
		if q.got != q.want {
			t.Failf("%s(%v, %v) = %d, want %d", q.n, x, y, q.got, q.want)
		}
	}
	// transitivity over three values
	a, b, c := bx.CmpTotal(by), by.CmpTotal(bw), bx.CmpTotal(bw)
	if a <= 0 && b <= 0 && c > 0 || a >= 0 && b >= 0 && c < 0 || a == 0 && b == 0 && c != 0 {
		t.Failf("CmpTotal is not transitive on %v, %v, %v: %d %d %d", x, y, w, a, b, c)
	}
	if !x.IsNaN() && !y.IsNaN() {
		if n := bx.Cmp(by); n != 0 && n != bx.CmpTotal(by) {
			t.Failf("CmpTotal(%v, %v) = %d contradicts Cmp = %d", x, y, bx.CmpTotal(by), n)
		}
	}
	checkUnchanged(t, "x", bx, x, p.XC)
	checkUnchanged(t, "y", by, y, p.YC)
}

func predRun(p pairCase, t *T) {
	x, y := p.X.dec(), p.Y.dec()
	bx, by := bigOf(x, p.Path, p.XC), bigOf(y, p.Path, p.YC)
	c := p.XC.ref()
	fin := x.IsFin()
	nz := fin && !x.IsZero()
	integer := isInt(x)
	sub := nz && x.Adj() < c.Emin
	if fin && x.E < 0 || sub {
		t.Nontrivial()
	}
	b := func(n string, got, want bool) {
		if got != want {
			t.Failf("%s is %v for %v (emin %d), want %v", n, got, x, c.Emin, want)
		}
	}
	b("IsInt", bx.IsInt(), integer)
	b("IsFinite", bx.IsFinite(), fin)
	b("IsInf(0)", bx.IsInf(0), x.K == ref.Inf)
	b("IsInf(+1)", bx.IsInf(1), x.K == ref.Inf && !x.Neg)
	b("IsInf(-1)", bx.IsInf(-1), x.K == ref.Inf && x.Neg)
	b("IsNaN(0)", bx.IsNaN(0), x.IsNaN())
	b("IsNaN(+1)", bx.IsNaN(1), x.K == ref.QNaN)
	b("IsNaN(-1)", bx.IsNaN(-1), x.K == ref.SNaN)
	b("IsSubnormal", bx.IsSubnormal(), sub)
	b("IsNormal", bx.IsNormal(), nz && !sub)
	sign := "+"
	if x.Neg {
		sign = "-"
	}
	cl := ""
	switch {
	case x.K == ref.QNaN:
		cl = "NaN"
	case x.K == ref.SNaN:
		cl = "sNaN"
	case x.K == ref.Inf:
		cl = sign + "Infinity"
	case x.IsZero():
		cl = sign + "Zero"
	case sub:
		cl = sign + "Subnormal"
	default:
		cl = sign + "Normal"
	}
	t.Tag(cl)
	if g := bx.Class(); g != cl {
		t.Failf("Class(%v) (emin %d) = %q, want %q", x, c.Emin, g, cl)
	}
	var sq bool
	if x.IsFin() && y.IsFin() {
		sq = x.E == y.E
	} else {
		sq = x.IsNaN() && y.IsNaN() || x.K == ref.Inf && y.K == ref.Inf
	}
	if g := bx.SameQuantum(by); g != sq || by.SameQuantum(bx) != sq {
		t.Failf("SameQuantum(%v, %v) = %v, want %v", x, y, g, sq)
	}
	if fin {
		if g := bx.Precision(); g != ref.Digits(x.C) {
			t.Failf("Precision(%v) = %d", x, g)
		}
		if g := bx.Scale(); g != -x.E {
			t.Failf("Scale(%v) = %d", x, g)
		}
		if m, ok := bx.Mantissa(); ok != x.C.IsUint64() || ok && m != x.C.Uint64() {
			t.Failf("Mantissa(%v) = %d, %v", x, m, ok)
		}
		// the storage behind Raw holds the coefficient
		cm, un := decimal.Raw(bx)
		if *cm == math.MaxUint64 {
			if un.Cmp(x.C) != 0 {
				t.Failf("Raw(%v): unscaled is %v", x, un)
			}
		} else if !x.C.IsUint64() || *cm != x.C.Uint64() {
			t.Failf("Raw(%v): compact is %d", x, *cm)
		}
	} else {
		if m, ok := bx.Mantissa(); ok {
			t.Failf("Mantissa(%v) = %d, true", x, m)
		}
		if x.IsNaN() && uint64(bx.Payload()) != x.Pay {
			t.Failf("Payload(%v) = %d", x, bx.Payload())
		}
	}
	checkUnchanged(t, "x", bx, x, p.XC)
	checkUnchanged(t, "y", by, y, p.YC)
}

func genPred(s *Src) pairCase {
	xc := genAnyCtx(s)
	if s.Bool() {
		xc = genCtx(s, ctxOpt{limited: 100})
	}
	o := numOpt{special: 12, zero: 8}
	x := genNum(s, xc, o)
	if x.IsFin() && s.In(1, 3) { // integers in disguise and near misses
		v := genDigits(s, s.Range(1, 22))
		k := s.N(44)
		v.Mul(v, ref.Pow10(k))
		x = ref.Dec{Neg: x.Neg, C: v, E: -k + s.Sym(1)}
	}
	y := genNum(s, xc, o)
	if s.Bool() && x.IsFin() && y.IsFin() {
		y.E = x.E
	}
	return pairCase{X: num(x), Y: num(y), Path: s.N(3), XC: xc, YC: genAnyCtx(s)}
}

func init() {
	reg := func(id string, subs ...pbt.Sub) { pbt.Register(&pbt.Prop{ID: id, Assumptions: assume, Subs: subs}) }
	reg("C10", pbt.Check[pairCase]{Name: "cmp", Rule: "non-trivial: both operands finite and non-zero with different exponents",
		Quick: 8000000, Thorough: 80000000, Gen: genPair(6), Run: cmpRun})
	reg("C11", pbt.Check[pairCase]{Name: "total", Rule: "non-trivial: different kinds, equal values with different exponents, or NaN",
		Quick: 8000000, Thorough: 80000000, Gen: genPair(25), Run: totalRun})
	reg("C27", pbt.Check[pairCase]{Name: "predicates", Rule: "non-trivial: negative exponent or subnormal",
		Quick: 6000000, Thorough: 60000000, Gen: genPred, Run: predRun})
}
