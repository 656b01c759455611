package props

import (
	"math/big"
	"strings"

	"github.com/ericlagergren/decimal"

	"verif/pbt"
	"verif/ref"
)

const arithRule = "non-trivial: first operand finite and non-zero, and the model reports Rounded, Overflow, Underflow, Subnormal or Clamped, or an operand is inflated (coefficient above 64 bits)"

var assume = []string{
	"the reference model in harness/ref is right (cross-validated against CPython's decimal over about 1.6 million cases, tools/pycross.py)",
	"random search: the property is decided for the generated cases only",
}

func arithRun(a Arith, t *T) {
	r := runArith(a, t)
	if r.x.IsFin() && !r.x.IsZero() && (r.flags&(ref.Rounded|ref.Overflow|ref.Underflow|ref.Subnormal|ref.Clamped) != 0 || r.inflated()) {
		t.Nontrivial()
	}
	t.Tag(a.Op)
	tagFlags(t, r.flags)
	if a.Alias != "" {
		t.Tag("aliased")
	}
	if strings.HasPrefix(a.Op, "Next") && r.got.IsZero() && r.want.IsZero() {
		r.got.Neg = r.want.Neg
	}
	judge(a, r, t, true)
}

func (r outcome) inflated() bool {
	for _, d := range []ref.Dec{r.x, r.y, r.u} {
		if d.C != nil && d.IsFin() && !d.C.IsUint64() {
			return true
		}
	}
	return false
}

// arithCheck is the common differential check: library vs. model.
func arithCheck(name string, quick, thorough int, gen func(*Src) Arith) pbt.Sub {
	return pbt.Check[Arith]{Name: name, Rule: arithRule, Quick: quick, Thorough: thorough, Gen: gen, Run: arithRun}
}

func genOps(names []string, co ctxOpt, no numOpt) func(*Src) Arith {
	return func(s *Src) Arith {
		a := Arith{Op: pbt.Pick(s, names...), Ctx: genCtx(s, co)}
		o := ops[a.Op]
		xo := no
		if o.Arity > 1 && !a.Ctx.limited() && s.In(1, 12) {
			xo.espan = 3 * a.Ctx.prec()
		}
		a.X = num(genNum(s, a.Ctx, xo))
		if o.Arity > 1 {
			a.Y = num(genNum(s, a.Ctx, no))
		}
		if o.Arity > 2 {
			a.U = num(genNum(s, a.Ctx, no))
		}
		switch a.Op {
		case "Quantize":
			a.N = genScale(s, a)
		case "RoundN":
			x := a.X.dec()
			n := 1
			if x.IsFin() {
				n = x.Prec()
			}
			switch s.Weighted(6, 3, 1) {
			case 0:
				a.N = s.Range(1, n+2)
			case 1:
				a.N = n + s.Sym(2)
			case 2:
				a.N = s.Sym(3)
			}
		}
		genShell(s, &a, dirtyOpt)
		return a
	}
}

// genScale picks a target scale around the digits of the operand.
func genScale(s *Src, a Arith) int {
	x := a.X.dec()
	if !x.IsFin() {
		return s.Sym(20)
	}
	p, n := a.Ctx.prec(), x.Prec()
	switch s.Weighted(6, 3, 2, 1) {
	case 0: // within the digits
		return -(x.E + s.N(n+2))
	case 1: // makes the coefficient about p digits long
		return -(x.Adj() - p + 1 + s.Sym(3))
	case 2:
		return -x.E + s.N(p+4)
	default:
		return s.Sym(p + 40)
	}
}

// relate makes the operands of a two-operand case interact: nearly cancelling,
// exactly tying or straddling the precision.
func genAddSub(s *Src) Arith {
	a := genOps([]string{"Add", "Sub"}, ctxOpt{limited: 20, unlimited: 6}, numOpt{zero: 8})(s)
	x := a.X.dec()
	if !s.In(1, 2) || x.IsZero() {
		return a
	}
	p := a.Ctx.prec()
	y := a.Y.dec()
	if a.Ctx.P == Unl && s.In(1, 300) {
		// more digits than the table of powers of ten
		y.E = x.E + pbt.Pick(s, -1, 1)*s.Range(99000, 230000)
		if !y.IsZero() {
			a.Ctx.Emax, a.Ctx.Emin = 0, 0
			a.X, a.Y = num(x), num(y)
			return a
		}
	}
	switch s.N(6) {
	case 5: // the exact sum lies at a machine-word boundary
		w := genWord(s)
		k := s.N(6)
		x.C = bigBelow(s, new(big.Int).Add(w, ref.One))
		x.C.Quo(x.C, ref.Pow10(k))
		if s.In(1, 5) {
			x.C = big.NewInt(int64(s.N(10)))
		}
		y = ref.Dec{Neg: x.Neg, C: new(big.Int).Mul(x.C, ref.Pow10(k)), E: x.E - k}
		y.C.Sub(w, y.C)
		if y.C.Sign() < 0 {
			y.C.Neg(y.C)
			y.Neg = !y.Neg
		}
		if a.Op == "Sub" {
			y.Neg = !y.Neg
		}
	case 0: // y = ±(x ± small): cancellation
		y = ref.Dec{Neg: s.Bool(), C: new(big.Int).Add(x.C, big.NewInt(int64(s.Sym(3)))), E: x.E}
		if y.C.Sign() < 0 {
			y.C.Neg(y.C)
		}
	case 1: // y decides a tie: x has p digits, y is about half a unit
		x.C = genDigits(s, p)
		if x.C.Sign() == 0 {
			x.C.SetInt64(1)
		}
		n := ref.Digits(x.C)
		x.C.Mul(x.C, ref.Pow10(p-n))
		x.C.Add(x.C, big.NewInt(int64(s.N(2))))
		k := s.Range(1, 25)
		h := new(big.Int).Mul(ref.Five, ref.Pow10(k-1))
		h.Add(h, big.NewInt(int64(s.Sym(1))))
		y = ref.Dec{Neg: s.Bool(), C: h, E: x.E - k}
	case 2: // y just outside of x's digits
		y.E = x.E - ref.Digits(y.C) - s.N(p+3)
	case 3: // same value, other exponent
		k := s.N(24)
		y = ref.Dec{Neg: !x.Neg, C: new(big.Int).Mul(x.C, ref.Pow10(k)), E: x.E - k}
		if s.Bool() {
			y.C.Add(y.C, ref.One)
		}
	case 4: // a power of ten minus something far below: the borrow runs through
		x.C = ref.Pow10(s.N(p))
		x.C = new(big.Int).Set(x.C)
		y = ref.Dec{Neg: !x.Neg, C: big.NewInt(int64(s.Range(1, 9))), E: x.E - p - s.Sym(3)}
	}
	a.X, a.Y = num(x), num(y)
	if s.Bool() {
		a.X, a.Y = a.Y, a.X
	}
	return a
}

// genFarAdd uses operands whose exponents are so far apart that the smaller
// one only matters for the rounding direction.
func genFarAdd(s *Src) Arith {
	a := genOps([]string{"Add", "Sub"}, ctxOpt{}, numOpt{})(s)
	x, y := a.X.dec(), a.Y.dec()
	if !y.IsZero() {
		y.E = x.E - pbt.Pick(s, 100, 1000, 5000, 40)*s.Range(1, 3) - s.N(50)
	}
	a.X, a.Y = num(x), num(y)
	if s.Bool() {
		a.X, a.Y = a.Y, a.X
	}
	return a
}

// genWord is a number next to the limit of a machine word.
func genWord(s *Src) *big.Int {
	v := new(big.Int).Lsh(ref.One, uint(pbt.Pick(s, 64, 64, 64, 63, 128, 32, 65)))
	return v.Add(v, big.NewInt(int64(pbt.Pick(s, -1, -1, 0, 1, -2, s.Sym(20)))))
}

// bigBelow is a number in [0, n).
func bigBelow(s *Src, n *big.Int) *big.Int {
	v := new(big.Int)
	for i := n.BitLen()/64 + 1; i >= 0; i-- {
		v.Lsh(v, 64).Or(v, new(big.Int).SetUint64(s.U64()))
	}
	return v.Mod(v, n)
}

// genMul adds products at machine-word boundaries.
func genMul(s *Src) Arith {
	a := genOps([]string{"Mul"}, ctxOpt{limited: 20, unlimited: 6}, numOpt{zero: 6})(s)
	if !s.In(1, 6) {
		return a
	}
	x, y := a.X.dec(), a.Y.dec()
	x.C, y.C = genFactors(s)
	a.X, a.Y = num(x), num(y)
	return a
}

// genFactors are two numbers whose product lies at a machine-word boundary.
func genFactors(s *Src) (x, y *big.Int) {
	if s.Bool() { // 1<<64 - 1 exactly
		x, y = big.NewInt(1), big.NewInt(1)
		for _, f := range []int64{3, 5, 17, 257, 641, 65537, 6700417} {
			if s.Bool() {
				x.Mul(x, big.NewInt(f))
			} else {
				y.Mul(y, big.NewInt(f))
			}
		}
		return x, y
	}
	w := genWord(s)
	x = genDigits(s, s.Range(1, 25))
	if s.Bool() {
		x.Lsh(ref.One, uint(s.N(70)))
	}
	if x.Sign() == 0 {
		x.SetInt64(2)
	}
	y = new(big.Int).Quo(w, x)
	return x, y.Add(y, big.NewInt(int64(s.N(2))))
}

// genFMA makes the addend interact with the product.
func genFMA(s *Src) Arith {
	a := genOps([]string{"FMA"}, ctxOpt{limited: 20, unlimited: 6}, numOpt{zero: 6})(s)
	x, y, u := a.X.dec(), a.Y.dec(), a.U.dec()
	p := a.Ctx.prec()
	if !s.In(2, 3) {
		return a
	}
	if s.In(1, 8) {
		x.C, y.C = genFactors(s)
		a.X, a.Y = num(x), num(y)
	}
	pr := new(big.Int).Mul(x.C, y.C)
	switch s.N(4) {
	case 3: // the sum lies at a machine-word boundary
		u = ref.Dec{Neg: x.Neg != y.Neg, C: new(big.Int).Sub(genWord(s), pr), E: x.E + y.E}
		if u.C.Sign() < 0 {
			u.C.Neg(u.C)
			u.Neg = !u.Neg
		}
	case 0: // the rounded product cancels, only the tail is left
		m := ref.Digits(pr)
		k := 0
		if m > p {
			k = m - p
		}
		u = ref.Dec{Neg: x.Neg == y.Neg, C: new(big.Int).Quo(pr, ref.Pow10(k)), E: x.E + y.E + k}
		u.C.Add(u.C, big.NewInt(int64(s.N(2))))
	case 1: // the addend sits just below the product's digits
		u.E = x.E + y.E - ref.Digits(u.C) - s.N(4)
	case 2: // the addend is much larger
		u.E = x.E + y.E + s.N(2*p+3)
	}
	a.U = num(u)
	return a
}

// genQuo produces exact, terminating, tie and repeating quotients.
func genQuo(s *Src) Arith {
	a := genOps([]string{"Quo"}, ctxOpt{limited: 25, unlimited: 0}, numOpt{zero: 5})(s)
	x, y := a.X.dec(), a.Y.dec()
	p := a.Ctx.prec()
	if y.IsZero() || !s.In(1, 2) {
		return a
	}
	switch s.N(5) {
	case 4: // remainders next to half a machine word
		q := genDigits(s, p)
		r := new(big.Int).Lsh(ref.One, uint(pbt.Pick(s, 63, 63, 64, 62, 31)))
		r.Add(r, big.NewInt(int64(s.Sym(2))))
		y.C = new(big.Int).Add(r, pbt.Pick(s, big.NewInt(int64(s.Range(1, 5))), new(big.Int).Add(r, big.NewInt(int64(s.Sym(2)))), bigBelow(s, r)))
		x.C = q.Mul(q, y.C)
		x.C.Add(x.C, r)
	case 0: // exact
		q := genCoef(s, p)
		x.C = new(big.Int).Mul(q, y.C)
	case 1: // tie: x = y * (2q+1) / 2
		q := genDigits(s, p)
		q.Mul(q, ref.Ten).Add(q, ref.Five)
		x.C = q.Mul(q, y.C)
		if s.In(1, 2) {
			x.C = new(big.Int).Mul(x.C, ref.Pow10(s.N(20)))
			x.C.Add(x.C, big.NewInt(int64(s.Sym(1))))
		}
		if x.C.Sign() < 0 {
			x.C.Neg(x.C)
		}
	case 2: // 99...9 carries
		x.C = new(big.Int).Mul(y.C, ref.Pow10(p+s.N(3)))
		x.C.Sub(x.C, big.NewInt(int64(s.Range(1, 3))))
		if x.C.Sign() < 0 {
			x.C.Neg(x.C)
		}
	case 3: // terminating with many digits
		y.C = new(big.Int).Exp(big.NewInt(int64(pbt.Pick(s, 2, 5, 8, 125))), big.NewInt(int64(s.N(30))), nil)
	}
	a.X, a.Y = num(x), num(y)
	return a
}

// genUnlQuo: quotients at unlimited precision; terminating ones must be exact.
func genUnlQuo(s *Src) Arith {
	a := Arith{Op: "Quo", Ctx: CtxJ{P: Unl, M: s.N(7)}}
	y := new(big.Int).Exp(big.NewInt(2), big.NewInt(int64(s.N(20))), nil)
	y.Mul(y, new(big.Int).Exp(ref.Five, big.NewInt(int64(s.N(8))), nil))
	if s.In(1, 4) {
		y.Mul(y, big.NewInt(int64(pbt.Pick(s, 3, 7, 9, 11))))
	}
	x := genDigits(s, s.Range(1, 40))
	if s.In(1, 3) {
		x.Mul(x, y)
	}
	a.X = num(ref.Dec{Neg: s.Bool(), C: x, E: s.Sym(20)})
	a.Y = num(ref.Dec{Neg: s.Bool(), C: y, E: s.Sym(20)})
	genShell(s, &a, dirtyOpt)
	return a
}

// genIntDiv: integer quotients near the precision limit.
func genIntDiv(names ...string) func(*Src) Arith {
	return func(s *Src) Arith {
		a := genOps(names, ctxOpt{limited: 10}, numOpt{zero: 5})(s)
		x, y := a.X.dec(), a.Y.dec()
		if y.IsZero() || x.IsZero() || !s.In(1, 2) {
			return a
		}
		p := a.Ctx.prec()
		switch s.N(3) {
		case 0: // quotient of exactly p or p+1 digits
			q := new(big.Int).Add(ref.Pow10(p), big.NewInt(int64(s.Sym(2))))
			x.C = q.Mul(q, y.C)
			x.C.Add(x.C, big.NewInt(int64(s.Sym(1))))
			if x.C.Sign() < 0 {
				x.C.Neg(x.C)
			}
			x.E = y.E
		case 1: // nearly a multiple
			q := genDigits(s, s.Range(1, p))
			x.C = q.Mul(q, y.C)
			x.C.Add(x.C, big.NewInt(int64(s.Sym(1))))
			if x.C.Sign() < 0 {
				x.C.Neg(x.C)
			}
			k := s.N(6)
			x.C.Mul(x.C, ref.Pow10(k))
			x.E = y.E - k
		case 2:
			x.E = y.E + s.Sym(p+2)
		}
		a.X, a.Y = num(x), num(y)
		return a
	}
}

// genSqrt: perfect squares, near-squares and ties.
func genSqrt(s *Src) Arith {
	a := genOps([]string{"Sqrt"}, ctxOpt{limited: 10}, numOpt{zero: 4})(s)
	if !s.In(2, 3) {
		return a
	}
	p := a.Ctx.prec()
	r := genDigits(s, s.Range(1, p))
	switch s.N(4) {
	case 1: // (m + 1/2)**2, the rounding tie
		r = genDigits(s, p)
		r.Mul(r, ref.Ten).Add(r, ref.Five)
	case 2:
		r = new(big.Int).Sub(ref.Pow10(s.Range(1, p+1)), big.NewInt(int64(s.N(3))))
	}
	c := new(big.Int).Mul(r, r)
	k := 2 * s.N(p+3)
	if s.In(1, 2) {
		c.Mul(c, ref.Pow10(k))
		c.Add(c, big.NewInt(int64(s.Sym(2))))
		if c.Sign() < 0 {
			c.Neg(c)
		}
	}
	a.X = num(ref.Dec{C: c, E: s.Sym(p + 4)})
	return a
}

type qrCase struct {
	Arith
	R string `json:"r"` // what the remainder receiver is: "", "x", "y"
}

// quoRemRun checks QuoRem against QuoInt and Rem of the model, and the
// division identity.
func quoRemRun(q qrCase, t *T) {
	a := q.Arith
	x, y := a.X.dec(), a.Y.dec()
	bx, by := mk(x, a.Path), mk(y, a.Path)
	if strings.Contains(a.Alias, "xy") {
		by, y = bx, x
	}
	z, r := new(decimal.Big), new(decimal.Big)
	if a.Z != "" {
		z = mk(a.Z.dec(), 0)
		r = mk(a.Z.dec(), 0)
	}
	switch {
	case a.Alias == "zx" || a.Alias == "zxy":
		z = bx
	case a.Alias == "zy":
		z = by
	}
	switch {
	case q.R == "x" && z != bx:
		r = bx
	case q.R == "y" && z != by:
		r = by
	}
	z.Context, r.Context = a.Ctx.lib(), a.Ctx.lib()
	z.Context.Conditions = decimal.Condition(a.ZC)
	z1, r1 := z.QuoRem(bx, by, r)
	if z1 != z || r1 != r {
		t.Failf("QuoRem did not return its receivers")
	}
	gz, gr := mustObs(t, "quotient", z), mustObs(t, "remainder", r)
	if bx != z && bx != r {
		if d := mustObs(t, "x", bx); !ref.Same(d, x) {
			t.Failf("QuoRem modified x: %v became %v", x, d)
		}
	}
	if by != z && by != r {
		if d := mustObs(t, "y", by); !ref.Same(d, y) {
			t.Failf("QuoRem modified y: %v became %v", y, d)
		}
	}
	c := a.Ctx.ref()
	wz, f1 := c.QuoInt(x, y)
	wr, f2 := c.Rem(x, y)
	if wz.K == ref.Fin && !wz.IsZero() {
		t.Nontrivial()
	}
	tagFlags(t, f1|f2)
	switch {
	case x.IsFin() && y.IsFin() && y.IsZero():
		if !ref.Same(gz, wz) {
			t.Failf("QuoRem(%v, %v): quotient %v, want %v", x, y, gz, wz)
		}
		if x.IsZero() && !gr.IsNaN() {
			t.Failf("QuoRem(%v, %v): remainder %v, want NaN", x, y, gr)
		}
		if !x.IsZero() && (gr.IsFin() || gr.Neg != x.Neg && !gr.IsNaN()) {
			t.Failf("QuoRem(%v, %v): remainder %v", x, y, gr)
		}
		// both results say what went wrong
		want := ref.DivByZero
		if x.IsZero() {
			want = ref.DivUndef | ref.InvalidOp
		}
		if zc := ref.Cond(z.Context.Conditions); zc&want == 0 {
			t.Failf("QuoRem(%v, %v): the quotient's conditions are [%v]", x, y, zc)
		}
		if rc := ref.Cond(r.Context.Conditions); rc&want == 0 {
			t.Failf("QuoRem(%v, %v): the remainder's conditions are [%v]", x, y, rc)
		}
		return
	case x.K == ref.Inf && !y.IsNaN():
		if gz.K != wz.K || wz.K == ref.Inf && gz.Neg != wz.Neg {
			t.Failf("QuoRem(%v, %v): quotient %v, want %v", x, y, gz, wz)
		}
		if !gr.IsNaN() && (wz.IsNaN() || gr.K != ref.Inf || gr.Neg != x.Neg) {
			t.Failf("QuoRem(%v, %v): remainder %v", x, y, gr)
		}
		if zc := ref.Cond(z.Context.Conditions); wz.IsNaN() && zc&ref.InvalidOp == 0 {
			t.Failf("QuoRem(%v, %v): the quotient's conditions are [%v]", x, y, zc)
		}
		return
	case y.K == ref.Inf && x.IsFin():
		if !gz.IsZero() || gz.Neg != (x.Neg != y.Neg) || !ref.Same(gr, wr) {
			t.Failf("QuoRem(%v, %v) = (%v, %v), want a zero and %v", x, y, gz, gr, wr)
		}
		return
	}
	if !ref.Same(gz, wz) || !ref.Same(gr, wr) {
		t.Failf("QuoRem(%v, %v) prec=%d %s = (%v, %v), want (%v, %v)", x, y, a.Ctx.prec(), modeName(a.Ctx.M), gz, gr, wz, wr)
	}
	if got, want := ref.Cond(z.Context.Conditions), (f1 | ref.Cond(a.ZC)); got != want {
		t.Failf("QuoRem(%v, %v) prec=%d: quotient conditions [%v], want [%v]", x, y, a.Ctx.prec(), got, want)
	}
	if got := ref.Cond(r.Context.Conditions); got != f2 && x.IsFin() && y.IsFin() {
		t.Failf("QuoRem(%v, %v) prec=%d: remainder conditions [%v], want [%v]", x, y, a.Ctx.prec(), got, f2)
	}
}

type hypotCase struct {
	Ctx   CtxJ   `json:"ctx"`
	P     Num    `json:"p"`
	Q     Num    `json:"q"`
	Alias string `json:"alias,omitempty"`
	Z     Num    `json:"z,omitempty"`
}

func hypotRun(h hypotCase, t *T) {
	p, q := h.P.dec(), h.Q.dec()
	bp, bq := mk(p, 0), mk(q, 0)
	if strings.Contains(h.Alias, "pq") {
		bq, q = bp, p
	}
	z := new(decimal.Big)
	if h.Z != "" {
		z = mk(h.Z.dec(), 0)
	}
	switch {
	case strings.Contains(h.Alias, "zp"):
		z = bp
	case strings.Contains(h.Alias, "zq"):
		z = bq
	}
	h.Ctx.lib().Hypot(z, bp, bq)
	got := mustObs(t, "Hypot", z)
	if bp != z {
		if d := mustObs(t, "p", bp); !ref.Same(d, p) {
			t.Failf("Hypot modified p: %v became %v", p, d)
		}
	}
	switch {
	case p.IsNaN() || q.IsNaN():
		if !got.IsNaN() {
			t.Failf("Hypot(%v, %v) = %v, want NaN", p, q, got)
		}
		return
	case p.K == ref.Inf || q.K == ref.Inf:
		if got.K != ref.Inf || got.Neg {
			t.Failf("Hypot(%v, %v) = %v, want Infinity", p, q, got)
		}
		return
	}
	prec := h.Ctx.prec()
	// |got - sqrt(p²+q²)| <= 0.8 ulp (1.3 in the directed modes), decided by squaring the bounds
	e := 2 * p.E
	if 2*q.E < e {
		e = 2 * q.E
	}
	sum := new(big.Int).Mul(new(big.Int).Mul(p.C, p.C), ref.Pow10(2*p.E-e))
	sum.Add(sum, new(big.Int).Mul(new(big.Int).Mul(q.C, q.C), ref.Pow10(2*q.E-e)))
	if sum.Sign() == 0 {
		if !got.IsZero() {
			t.Failf("Hypot(%v, %v) = %v, want 0", p, q, got)
		}
		return
	}
	t.Nontrivial()
	if !got.IsFin() || got.Neg || got.Prec() > prec {
		t.Failf("Hypot(%v, %v) prec=%d = %v", p, q, prec, got)
	}
	u := got.Adj() - prec + 1 // exponent of one ulp
	m := u
	if got.E < m {
		m = got.E
	}
	g := new(big.Int).Mul(got.C, ref.Pow10(got.E-m))
	m-- // tenths
	g.Mul(g, big.NewInt(10))
	tenths := int64(13)
	if h.Ctx.M == int(decimal.ToNearestEven) || h.Ctx.M == int(decimal.ToNearestAway) || h.Ctx.M == int(decimal.ToNearestTowardZero) {
		tenths = 8
	}
	d := new(big.Int).Mul(big.NewInt(tenths), ref.Pow10(u-m-1))
	cmpSq := func(v *big.Int) int { // v*10^m squared against sum*10^e
		if v.Sign() < 0 {
			return -1
		}
		s := new(big.Int).Mul(v, v)
		a, b := s, sum
		if 2*m > e {
			a = new(big.Int).Mul(s, ref.Pow10(2*m-e))
		} else {
			b = new(big.Int).Mul(sum, ref.Pow10(e-2*m))
		}
		return a.Cmp(b)
	}
	if cmpSq(new(big.Int).Sub(g, d)) > 0 || cmpSq(new(big.Int).Add(g, d)) < 0 {
		t.Failf("Hypot(%v, %v) prec=%d %s = %v is more than %d/10 ulp off", p, q, prec, modeName(h.Ctx.M), got, tenths)
	}
}

// mixSpecials replaces the operands of one case in thirty by zeros, infinities
// and NaNs.
func mixSpecials(g func(*Src) Arith) func(*Src) Arith {
	return func(s *Src) Arith {
		a := g(s)
		if !s.In(1, 30) {
			return a
		}
		no := numOpt{special: 30, zero: 15}
		arity := ops[a.Op].Arity
		a.X = num(genNum(s, a.Ctx, no))
		if arity > 1 {
			a.Y = num(genNum(s, a.Ctx, no))
		}
		if arity > 2 {
			a.U = num(genNum(s, a.Ctx, no))
		}
		return a
	}
}

func init() {
	reg := func(id, title string, subs ...pbt.Sub) {
		pbt.Register(&pbt.Prop{ID: id, Title: title, Level: "exploration", Assumptions: assume, Subs: subs})
	}
	std, lim := ctxOpt{limited: 20, unlimited: 6}, ctxOpt{limited: 20}
	reg("C01", "Add and Sub are exact sums rounded once",
		arithCheck("random", 4800000, 30000000, mixSpecials(genOps([]string{"Add", "Sub"}, std, numOpt{zero: 8}))),
		arithCheck("related", 6000000, 40000000, mixSpecials(genAddSub)),
		arithCheck("far", 1200000, 8000000, genFarAdd),
		arithCheck("huge", 600, 6000, genHuge("Add", "Sub")))
	reg("C02", "Mul and FMA round the exact product and product-sum once",
		arithCheck("mul", 6000000, 40000000, mixSpecials(genMul)),
		arithCheck("fma", 6000000, 40000000, mixSpecials(genFMA)),
		arithCheck("huge", 600, 6000, genHuge("Mul", "FMA")))
	reg("C03", "Quo is the correctly rounded quotient with the ideal exponent",
		arithCheck("random", 4800000, 30000000, mixSpecials(genOps([]string{"Quo"}, lim, numOpt{zero: 8}))),
		arithCheck("structured", 6000000, 40000000, mixSpecials(genQuo)),
		arithCheck("unlimited", 1200000, 6000000, genUnlQuo),
		arithCheck("huge", 400, 4000, genHuge("Quo")))
	reg("C04", "QuoInt, Rem and QuoRem satisfy the division identity",
		arithCheck("quoint", 4000000, 25000000, mixSpecials(genIntDiv("QuoInt"))),
		arithCheck("rem", 4000000, 25000000, mixSpecials(genIntDiv("Rem"))),
		pbt.Check[qrCase]{Name: "quorem", Rule: "non-trivial: finite non-zero integer quotient", Quick: 4000000, Thorough: 60000000,
			Gen: func(s *Src) qrCase {
				a := genIntDiv("Rem")(s)
				if s.In(1, 12) {
					a.X = num(genNum(s, a.Ctx, numOpt{special: 50, zero: 40}))
					a.Y = num(genNum(s, a.Ctx, numOpt{special: 50, zero: 40}))
				}
				return qrCase{Arith: a, R: pbt.Pick(s, "", "", "x", "y")}
			}, Run: quoRemRun},
		arithCheck("huge", 400, 4000, genHuge("QuoInt", "Rem")))
	reg("C05", "Quantize, Round, RoundToInt, Ceil, Floor and Reduce",
		arithCheck("quantize", 4800000, 30000000, genOps([]string{"Quantize"}, lim, numOpt{zero: 5, special: 2})),
		arithCheck("round", 3200000, 20000000, genOps([]string{"Round", "RoundN", "Set"}, std, numOpt{zero: 5, special: 2})),
		arithCheck("integral", 4000000, 25000000, genOps([]string{"RoundToInt", "Ceil", "Floor"}, lim, numOpt{zero: 5, special: 2})),
		arithCheck("reduce", 2400000, 15000000, genOps([]string{"Reduce"}, lim, numOpt{zero: 5, special: 2})),
		arithCheck("huge", 600, 6000, genHuge("Quantize", "Round", "RoundN", "RoundToInt", "Ceil", "Floor", "Reduce", "Set")))
	reg("C06", "Sqrt is correctly rounded and Hypot is within one and a third ulp",
		arithCheck("sqrt", 4800000, 30000000, mixSpecials(genSqrt)),
		arithCheck("sqrt-huge", 400, 4000, genHuge("Sqrt")),
		pbt.Check[hypotCase]{Name: "hypot", Rule: "non-trivial: the sum of squares is not zero", Quick: 2000000, Thorough: 30000000,
			Gen: func(s *Src) hypotCase {
				h := hypotCase{Ctx: genCtx(s, ctxOpt{})}
				no := numOpt{zero: 5, special: 4}
				h.P = num(genNum(s, h.Ctx, no))
				h.Q = num(genNum(s, h.Ctx, no))
				if s.In(1, 3) {
					h.Alias = pbt.Pick(s, "zp", "zq", "pq", "zp pq")
				}
				if s.In(1, 3) {
					h.Z = num(genNum(s, h.Ctx, dirtyOpt))
				}
				return h
			}, Run: hypotRun})
	reg("C07", "results respect the exponent range: overflow, underflow, subnormals, clamping",
		arithCheck("ops", 6000000, 40000000, mixSpecials(genRange("Add", "Sub", "Mul", "Quo", "FMA", "Set", "Abs", "Neg", "Round", "Rem"))),
		arithCheck("unary", 2000000, 12000000, mixSpecials(genRange("Set", "Round", "RoundN", "Quantize", "Reduce", "Sqrt"))),
		pbt.Check[Arith]{Name: "formats", Rule: arithRule, Quick: 1000000, Thorough: 10000000, Run: formatRun,
			Gen: mixSpecials(genRangeIn(ctxOpt{formats: true}, "Add", "Sub", "Mul", "Quo", "FMA", "Set", "Abs", "Neg", "Round", "Rem", "QuoInt", "Sqrt", "Quantize", "Reduce", "NextPlus", "NextMinus"))},
		pbt.Check[fnCase]{Name: "functions", Rule: rangeRule, Quick: 400000, Thorough: 20000000, Gen: genFnRange, Run: rangeRun})
	reg("C26", "NextPlus and NextMinus are the adjacent representable numbers",
		arithCheck("next", 4000000, 25000000, genOps([]string{"NextPlus", "NextMinus"}, ctxOpt{limited: 60}, numOpt{zero: 8, special: 6})),
		pbt.Check[nextCase]{Name: "adjacent", Rule: "non-trivial: finite result", Quick: 4000000, Thorough: 60000000, Gen: genNext, Run: nextRun})
}

// genRange makes results fall around the limits of the exponent range.
func genRange(names ...string) func(*Src) Arith {
	return genRangeIn(ctxOpt{limited: 100}, names...)
}

func genRangeIn(co ctxOpt, names ...string) func(*Src) Arith {
	return func(s *Src) Arith {
		a := genOps(names, co, numOpt{zero: 6})(s)
		if a.Ctx.P == 0 {
			a.Ctx.P = 16
		}
		c := a.Ctx.ref()
		o := ops[a.Op]
		if o.Arity < 2 || !s.In(3, 4) {
			return a
		}
		x, y := a.X.dec(), a.Y.dec()
		// steer the exponent of the result
		var goal int
		switch s.N(4) {
		case 0:
			goal = c.Emax + s.Sym(2)
		case 1:
			goal = c.Emin + s.Sym(2)
		case 2:
			goal = c.Etiny() + s.Sym(3)
		case 3:
			goal = c.Emin - s.N(c.P+2)
		}
		if goal < -20000 || goal > 20000 {
			return a
		}
		switch a.Op {
		case "Mul", "FMA":
			y.E = goal - x.Adj() - ref.Digits(y.C) + 1
		case "Quo":
			y.E = x.Adj() - goal - ref.Digits(y.C) + 1
		case "Add", "Sub":
			x.E = goal - ref.Digits(x.C) + 1
			y.E = goal - ref.Digits(y.C) + 1 - s.N(c.P+2)
		default:
			return a
		}
		if y.E > 100000 || y.E < -100000 || x.E > 100000 || x.E < -100000 {
			return a
		}
		a.X, a.Y = num(x), num(y)
		if a.Op == "FMA" {
			u := a.U.dec()
			u.E = goal - ref.Digits(u.C) + 1 - s.Sym(c.P+2)
			a.U = num(u)
		}
		return a
	}
}

// genHuge: few cases with thousands of digits, which exercise the growing
// table of powers of ten and the multi-word paths.
func genHuge(names ...string) func(*Src) Arith {
	return func(s *Src) Arith {
		a := Arith{Op: pbt.Pick(s, names...)}
		a.Ctx = CtxJ{P: s.Range(200, 3000), M: s.N(7)}
		o := ops[a.Op]
		one := func() Num {
			n := s.Range(100, 5000)
			var c *big.Int
			switch s.N(4) {
			case 0:
				c = new(big.Int).Sub(ref.Pow10(n), big.NewInt(int64(s.N(2))))
			case 1:
				c = new(big.Int).Mul(genDigits(s, s.Range(1, 40)), ref.Pow10(n))
			case 2:
				c = genDigits(s, s.Range(1, 40))
			default: // repeat a block: cheap in choices
				b := genDigits(s, 18)
				c = new(big.Int)
				for i := 0; i < n/18; i++ {
					c.Mul(c, ref.Pow10(18)).Add(c, b)
				}
			}
			e := s.Sym(3000)
			if s.In(1, 10) {
				e = s.Sym(20000)
			}
			return num(ref.Dec{Neg: s.Bool(), C: c, E: e})
		}
		a.X = one()
		if o.Arity > 1 {
			a.Y = one()
		}
		if o.Arity > 2 {
			a.U = one()
		}
		switch a.Op {
		case "Quantize":
			a.N = genScale(s, a)
		case "RoundN":
			a.N = s.Range(1, a.X.dec().Prec()+2)
		}
		genShell(s, &a, dirtyOpt)
		return a
	}
}

type nextCase struct {
	Ctx CtxJ `json:"ctx"`
	X   Num  `json:"x"`
}

func genNext(s *Src) nextCase {
	c := genCtx(s, ctxOpt{limited: 70})
	return nextCase{c, num(genNum(s, c, numOpt{zero: 8}))}
}

// nextRun: for a representable x, NextMinus(NextPlus(x)) == x and there is
// nothing between them.
func nextRun(n nextCase, t *T) {
	ctx := n.Ctx.lib()
	rc := n.Ctx.ref()
	d, _ := rc.Fix(n.X.dec())
	if !d.IsFin() {
		return
	}
	x := mk(d, 0)
	up := ctx.NextPlus(new(decimal.Big), x)
	dn := ctx.NextMinus(new(decimal.Big), x)
	if up.Cmp(x) <= 0 || dn.Cmp(x) >= 0 {
		t.Failf("NextPlus(%v) = %v, NextMinus = %v: not on both sides", d, up, dn)
	}
	if up.IsFinite() && dn.IsFinite() {
		t.Nontrivial()
	}
	if b := ctx.NextMinus(new(decimal.Big), up); b.Cmp(x) != 0 {
		t.Failf("NextMinus(NextPlus(%v)) = %v", d, mustObs(t, "b", b))
	}
	if b := ctx.NextPlus(new(decimal.Big), dn); b.Cmp(x) != 0 {
		t.Failf("NextPlus(NextMinus(%v)) = %v", d, mustObs(t, "b", b))
	}
	for _, v := range []*decimal.Big{up, dn} {
		if !v.IsFinite() {
			continue
		}
		o := mustObs(t, "next", v)
		if r, _ := rc.Fix(o); ref.CmpNum(r, o) != 0 {
			t.Failf("neighbour %v of %v is not representable", o, d)
		}
	}
}
