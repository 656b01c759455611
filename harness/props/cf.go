package props

import (
	"math"
	"math/big"

	"github.com/ericlagergren/decimal"

	"verif/pbt"
	"verif/ref"
)

// C24: constants, continued fractions and binary splitting.

func init() {
	pbt.Register(&pbt.Prop{ID: "C24", Assumptions: assume, Subs: []pbt.Sub{
		pbt.Check[fnCase]{Name: "constants", Rule: fnRule,
			Quick: 60000, Thorough: 600000, Gen: genConstant, Run: fnRun},
		pbt.Check[fracCase]{Name: "fractions", Rule: "non-trivial: at least three terms are evaluated",
			Quick: 300000, Thorough: 6000000, Gen: genFrac, Run: fracRun},
		pbt.Check[fracCase]{Name: "fractions-signed", Rule: "non-trivial: a numerator or denominator of a convergent is zero, or a term negative",
			Quick: 200000, Thorough: 6000000, Gen: genSignedFrac, Run: signedFracRun},
		pbt.Check[splitCase]{Name: "split", Rule: "non-trivial: at least five terms, so that the range is split",
			Quick: 120000, Thorough: 3000000, Gen: genSplit, Run: splitRun},
		pbt.Check[dynCase]{Name: "split-dynamic", Rule: "non-trivial: more than 20 terms are needed",
			Quick: 60000, Thorough: 1500000, Gen: genDyn, Run: dynRun},
	}})
}

func genConstant(s *Src) fnCase {
	f := fnCase{Fn: pbt.Pick(s, "Pi", "E"), Ctx: CtxJ{P: s.Range(1, 60), M: s.N(7)}, X: "0E0"}
	switch s.N(40) {
	case 0, 1, 2:
		f.Ctx.P = s.Range(280, 330)
	case 3:
		f.Ctx.P = s.Range(300, 1200)
	case 4, 5, 6, 7, 8:
		f.Ctx.P = s.Range(61, 300)
	case 9:
		f.Ctx.P = 0
	}
	genFnShell(s, &f)
	return f
}

// --- continued fractions --------------------------------------------------

type fracCase struct {
	Algo  string   `json:"algo"`
	A     []string `json:"a"` // A[0] is not used
	B     []string `json:"b"`
	Loop  int      `json:"loop,omitempty"` // repeat the last Loop terms for ever (0: a finite fraction)
	Ctx   CtxJ     `json:"ctx"`
	How   int      `json:"how"` // 0: z's context, 1: Contexter
	Own   bool     `json:"own,omitempty"`
	Guard int      `json:"guard,omitempty"`
	Z     Num      `json:"z,omitempty"`
}

func genFrac(s *Src) fracCase {
	c := fracCase{Algo: pbt.Pick(s, "Lentz", "Wallis"), Ctx: CtxJ{P: s.Range(6, 45), M: s.N(7)}, How: s.N(2), Own: s.Bool()}
	if s.In(1, 5) {
		c.Ctx.P = s.Range(46, 120)
	}
	n := s.Range(1, 4)
	if s.Bool() {
		n = s.Range(1, 25)
	}
	if s.Bool() {
		c.Loop = s.Range(1, n)
		if n == 1 {
			c.Loop = 1
		}
	}
	term := func() string {
		v := s.Range(1, 40)
		switch s.N(3) {
		case 1:
			return ref.MkDec(false, big.NewInt(int64(v*10+s.N(10))), -1).String()
		case 2:
			return ref.MkDec(false, big.NewInt(int64(v*100+s.N(100))), -2).String()
		}
		return ref.MkDec(false, big.NewInt(int64(v)), 0).String()
	}
	for i := 0; i < n; i++ {
		c.A = append(c.A, term())
		c.B = append(c.B, term())
	}
	if s.In(1, 6) {
		c.B[0] = "0E0"
	}
	if s.Bool() {
		c.Z = num(genNum(s, c.Ctx, dirtyOpt))
	}
	return c
}

const maxTerms = 400

type fracGen struct {
	c     *fracCase
	terms []decimal.Term
	i     int
	calls int
	last  bool // Next was called before Term
	t     *T
}

func (g *fracGen) Next() bool {
	g.last = true
	if g.calls >= maxTerms {
		return false
	}
	return g.i < len(g.terms) || g.c.Loop > 0
}

func (g *fracGen) Term() decimal.Term {
	if !g.last {
		g.t.Failf("%s called Term without a preceding call to Next", g.c.Algo)
	}
	g.last = false
	if g.i >= len(g.terms) {
		if g.c.Loop == 0 {
			g.t.Failf("%s called Term although Next returned false", g.c.Algo)
		}
		g.i = len(g.terms) - g.c.Loop
	}
	g.i++
	g.calls++
	return g.terms[g.i-1]
}

type (
	ctxGen      struct{ *fracGen }
	lentzGen    struct{ *fracGen }
	ctxLentzGen struct{ ctxGen }
)

func (g ctxGen) Context() decimal.Context { return g.fracGen.c.Ctx.lib() }

func (g *fracGen) storage() []*decimal.Big {
	var r []*decimal.Big
	for i := 0; i < 5; i++ {
		r = append(r, decimal.WithContext(g.c.Ctx.lib()))
	}
	return r
}
func (g lentzGen) Lentz() (f, d, cc, dd, eps *decimal.Big) {
	r := g.storage()
	return r[0], r[1], r[2], r[3], decimal.New(1, g.fracGen.c.Ctx.P)
}
func (g lentzGen) Wallis() (a, a1, b, b1, p, eps *decimal.Big) {
	r := g.storage()
	return r[0], r[1], r[2], r[3], r[4], decimal.New(1, g.fracGen.c.Ctx.P)
}
func (g ctxLentzGen) Lentz() (f, d, cc, dd, eps *decimal.Big) { return lentzGen{g.fracGen}.Lentz() }
func (g ctxLentzGen) Wallis() (a, a1, b, b1, p, eps *decimal.Big) {
	return lentzGen{g.fracGen}.Wallis()
}

func bf() *big.Float { return new(big.Float).SetPrec(600) }

func bfDec(d ref.Dec) *big.Float {
	f := bf().SetInt(d.C)
	if d.E < 0 {
		f.Quo(f, bf().SetInt(ref.Pow10(-d.E)))
	} else {
		f.Mul(f, bf().SetInt(ref.Pow10(d.E)))
	}
	if d.Neg {
		f.Neg(f)
	}
	return f
}

// fracEval evaluates c and checks what does not depend on its value; z is nil
// if c has no value.
func fracEval(c fracCase, t *T) (av, bv []ref.Dec, g *fracGen, z *decimal.Big) {
	var terms []decimal.Term
	for i := range c.A {
		av = append(av, ref.MustParse(c.A[i]))
		bv = append(bv, ref.MustParse(c.B[i]))
		terms = append(terms, decimal.Term{A: mk(av[i], 0), B: mk(bv[i], 0)})
	}
	if len(terms) == 1 && bv[0].IsZero() {
		return av, bv, nil, nil
	}
	g = &fracGen{c: &c, terms: terms, t: t}
	var gen decimal.Generator = g
	switch {
	case c.How == 1 && c.Own:
		gen = ctxLentzGen{ctxGen{g}}
	case c.How == 1:
		gen = ctxGen{g}
	case c.Own:
		gen = lentzGen{g}
	}
	z = new(decimal.Big)
	if c.Z != "" {
		z = mk(c.Z.dec(), 0)
	}
	ctx := c.Ctx.lib()
	if c.How == 0 {
		z.Context = ctx
	}
	var r *decimal.Big
	if c.Algo == "Lentz" {
		r = ctx.Lentz(z, gen)
	} else {
		r = ctx.Wallis(z, gen)
	}
	if r != z {
		t.Failf("%s did not return its receiver", c.Algo)
	}
	for i := range terms {
		if !same4(mustObs(t, "term", terms[i].A), av[i]) || !same4(mustObs(t, "term", terms[i].B), bv[i]) {
			t.Failf("%s modified term %d", c.Algo, i)
		}
	}
	return av, bv, g, z
}

// --- fractions with terms of either sign ------------------------------------

func genSignedFrac(s *Src) fracCase {
	c := fracCase{Algo: pbt.Pick(s, "Lentz", "Lentz", "Wallis"), Ctx: CtxJ{P: s.Range(6, 45), M: s.N(7)}, How: s.N(2), Own: s.Bool()}
	if s.In(1, 3) {
		c.Ctx.P = s.Range(46, 120)
	}
	span := pbt.Pick(s, 2, 3, 9)
	term := func(zero bool) string {
		v := s.Sym(span)
		if v == 0 && !zero {
			v = 1
		}
		e := 0
		if s.In(1, 6) {
			v, e = v*10, -1
			if s.Bool() {
				v += 5
			}
		}
		return ref.MkDec(v < 0, big.NewInt(int64(max(v, -v))), e).String()
	}
	for n := s.Range(2, 7); n > 0; n-- {
		c.A = append(c.A, term(false))
		c.B = append(c.B, term(true))
	}
	if s.Bool() {
		c.Z = num(genNum(s, c.Ctx, dirtyOpt))
	}
	return c
}

// convergents returns the numerators and denominators of the convergents.
func convergents(a, b []*big.Rat) (p, q []*big.Rat) {
	p1, q1 := big.NewRat(1, 1), new(big.Rat)
	pk, qk := b[0], big.NewRat(1, 1)
	p, q = append(p, pk), append(q, qk)
	for i := 1; i < len(a); i++ {
		np := new(big.Rat).Mul(pk, b[i])
		np.Add(np, new(big.Rat).Mul(p1, a[i]))
		nq := new(big.Rat).Mul(qk, b[i])
		nq.Add(nq, new(big.Rat).Mul(q1, a[i]))
		p1, q1, pk, qk = pk, qk, np, nq
		p, q = append(p, pk), append(q, qk)
	}
	return p, q
}

// signedFracRun compares a finite fraction with its exact value. The limit
// of its error comes from the change of the exact numerator and denominator
// when each term changes a little.
func signedFracRun(c fracCase, t *T) {
	var a, b []*big.Rat
	for i := range c.A {
		a = append(a, ratOf(ref.MustParse(c.A[i])))
		b = append(b, ratOf(ref.MustParse(c.B[i])))
	}
	p, q := convergents(a, b)
	n := len(a)
	if q[n-1].Sign() == 0 {
		t.Tag("infinite")
		return
	}
	near := func(x, y *big.Rat) bool { // x/y is close to 1
		d := new(big.Rat).Sub(x, y)
		d.Mul(d, big.NewRat(1000, 1))
		return d.Abs(d).Cmp(new(big.Rat).Abs(y)) <= 0
	}
	for i := 1; i < n; i++ {
		if p[i].Sign() == 0 || q[i].Sign() == 0 || a[i].Sign() < 0 || b[i].Sign() < 0 {
			t.Nontrivial()
		}
		if q[i].Sign() == 0 || q[i-1].Sign() == 0 {
			if c.Algo == "Wallis" { // it ends at an infinite convergent
				t.Tag("infinite convergent")
				return
			}
			continue
		}
		// neither algorithm is asked to tell very close convergents apart
		x, y := new(big.Rat).Quo(p[i], q[i]), new(big.Rat).Quo(p[i-1], q[i-1])
		if near(x, y) || c.Algo == "Wallis" && near(new(big.Rat).Add(x, big.NewRat(1, 1)), new(big.Rat).Add(y, big.NewRat(1, 1))) {
			t.Tag("close convergents")
			return
		}
	}
	val := new(big.Rat).Quo(p[n-1], q[n-1])
	fv, _ := val.Float64()
	fv = math.Abs(fv)
	h := new(big.Rat).SetFrac(big.NewInt(1), ref.Pow10(25))
	sens := fv
	for i := 0; i < 2*n; i++ {
		l := b
		if i >= n {
			l = a
		}
		old := l[i%n]
		m := new(big.Rat).Abs(old)
		if i < n && m.Cmp(big.NewRat(1, 1)) < 0 {
			m.SetInt64(1)
		}
		l[i%n] = new(big.Rat).Add(old, m.Mul(m, h))
		pp, qq := convergents(a, b)
		if qq[n-1].Sign() == 0 {
			return
		}
		l[i%n] = old
		for _, v := range []*big.Rat{new(big.Rat).Quo(pp[n-1], q[n-1]), new(big.Rat).Quo(p[n-1], qq[n-1])} {
			f, _ := v.Sub(v, val).Float64()
			sens += math.Abs(f) * 1e25
		}
	}
	if sens > 1e4 {
		t.Tag("ill-conditioned")
		return
	}
	_, _, _, z := fracEval(c, t)
	if z == nil {
		return
	}
	got := mustObs(t, c.Algo, z)
	if !got.IsFin() {
		t.Failf("%s of %v / %v = %v, want %s prec=%d", c.Algo, c.A, c.B, got, val.FloatString(20), c.Ctx.P)
	}
	d, _ := new(big.Rat).Sub(ratOf(got), val).Float64()
	stand := 0.0
	if c.Ctx.P <= 60 { // what stands in for zero is 1e-59
		stand = 1e-58 * sens
	}
	if cond := ref.Cond(z.Context.Conditions); math.Abs(d) > stand && cond&ref.Inexact == 0 {
		t.Failf("%s of a=%v b=%v = %v, want %s: conditions [%v] prec=%d", c.Algo, c.A, c.B, got, val.FloatString(c.Ctx.P+3), cond, c.Ctx.P)
	}
	if lim := float64(20*n)*math.Pow(10, float64(1-c.Ctx.P))*sens + stand; math.Abs(d) > lim {
		t.Failf("%s of a=%v b=%v = %v, want %s (off by %.3g, limit %.3g) prec=%d", c.Algo, c.A, c.B, got, val.FloatString(c.Ctx.P+3), d, lim, c.Ctx.P)
	}
	if got.Prec() > c.Ctx.P {
		t.Failf("%s = %v has more than %d digits", c.Algo, got, c.Ctx.P)
	}
}

func fracRun(c fracCase, t *T) {
	av, bv, g, z := fracEval(c, t)
	if z == nil {
		return
	}
	n := g.calls
	if n > 3 {
		t.Nontrivial()
	}
	// the exact convergents of all evaluated terms, and for an infinite
	// fraction of enough of them: with positive terms successive convergents
	// enclose the value.
	idx := func(i int) int {
		if i < len(av) {
			return i
		}
		return len(av) - c.Loop + (i-len(av))%c.Loop
	}
	total := len(av)
	if c.Loop > 0 {
		total = 3000
	}
	a, a1, b, b1 := bfDec(bv[0]), bf().SetInt64(1), bf().SetInt64(1), bf()
	val, prev := bf().Copy(a), bf()
	u := math.Pow(10, float64(1-c.Ctx.P))
	var errD, errC, errF float64
	fD, fC := 0.0, 1e60
	if f, _ := bfDec(bv[0]).Float64(); f != 0 {
		fC = f
	}
	diff := bf()
	for i := 1; i < total; i++ {
		A, B := bfDec(av[idx(i)]), bfDec(bv[idx(i)])
		a, a1 = bf().Add(bf().Mul(a, B), bf().Mul(a1, A)), a
		b, b1 = bf().Add(bf().Mul(b, B), bf().Mul(b1, A)), b
		prev, val = val, bf().Quo(a, b)
		if i < n {
			// bounds of the relative rounding errors of D, C and f
			fa, _ := A.Float64()
			fb, _ := B.Float64()
			rho := fa * fD / (fa*fD + fb)
			errD = rho*errD + 2*u
			rc := (fa / fC) / (fb + fa/fC)
			errC = rc*(errC+u) + u
			fD = 1 / (fb + fa*fD)
			fC = fb + fa/fC
			errF += errD + errC + 2*u
		}
		if c.Loop > 0 && i >= n {
			diff.Sub(val, prev)
			diff.Quo(diff, val)
			if f, _ := diff.Float64(); math.Abs(f) < u*1e-6 {
				break
			}
			if i == total-1 {
				return // converges too slowly to be judged
			}
		}
	}
	if n >= maxTerms && c.Loop > 0 { // cut off: not claimed
		t.Tag("cut off")
		return
	}
	if c.Loop == 0 && n < len(av) {
		t.Tag("stopped early")
	}
	got := mustObs(t, c.Algo, z)
	if !got.IsFin() {
		t.Failf("%s of %v / %v (loop %d) = %v", c.Algo, c.A, c.B, c.Loop, got)
	}
	diff.Sub(bfDec(got), val)
	fd, _ := diff.Float64()
	// val has many more digits than the result
	if cond := ref.Cond(z.Context.Conditions); fd != 0 && math.Abs(fd) > 1e-30*math.Pow(10, float64(-c.Ctx.P)) && cond&ref.Inexact == 0 {
		t.Failf("%s of %v / %v (loop %d) = %v prec=%d is not exact but its conditions are [%v]", c.Algo, c.A, c.B, c.Loop, got, c.Ctx.P, cond)
	}
	fv, _ := val.Float64()
	var lim float64
	if c.Algo == "Wallis" {
		lim = (4*float64(n)+3)*u*math.Abs(fv) + 2*math.Pow(10, float64(-c.Ctx.P))
	} else {
		lim = (errF+2*u)*math.Abs(fv) + 20*math.Pow(10, float64(-c.Ctx.P))*math.Abs(fv)
		if c.Ctx.P <= 60 { // what stands in for zero is 1e-59
			lim += 1e-58
		}
	}
	if math.Abs(fd) > lim {
		t.Failf("%s of a=%v b=%v (loop %d) after %d terms = %v, want %s (off by %.3g, limit %.3g) prec=%d", c.Algo, c.A, c.B, c.Loop, n, got, val.Text('g', c.Ctx.P+3), fd, lim, c.Ctx.P)
	}
	if got.Prec() > c.Ctx.P {
		t.Failf("%s = %v has more than %d digits", c.Algo, got, c.Ctx.P)
	}
}

// --- binary splitting -----------------------------------------------------

type splitCase struct {
	Start uint64 `json:"start"`
	N     int    `json:"n"` // stop - start; zero and negative values must panic
	A     []int  `json:"a"`
	P     []int  `json:"p"`
	B     []int  `json:"b"`
	Q     []int  `json:"q"`
	Prec  int    `json:"prec"`
	M     int    `json:"m"`
	Z     Num    `json:"z,omitempty"`
	Reuse bool   `json:"reuse,omitempty"` // results are only valid until the next call
}

func genSplit(s *Src) splitCase {
	c := splitCase{Start: uint64(s.N(5)), N: s.Range(1, 9), Prec: s.Range(380, 420), M: s.N(7), Reuse: s.Bool()}
	if s.In(1, 3) {
		c.N = s.Range(1, 32)
	}
	if s.In(1, 6) {
		c.Start = s.U64() >> uint(s.N(64))
		if c.Start > math.MaxUint64/2 {
			c.Start /= 4
		}
	}
	if s.In(1, 20) {
		c.N = -s.N(3)
		if uint64(-c.N) > c.Start {
			c.N = 0
		}
	}
	v := func(zero bool) int {
		k := s.Range(1, pbt.Pick(s, 9, 99, 999))
		if s.In(1, 4) {
			k = -k
		}
		if zero && s.In(1, 12) {
			k = 0
		}
		return k
	}
	for i := 0; i < c.N; i++ {
		c.A, c.P, c.B, c.Q = append(c.A, v(true)), append(c.P, v(true)), append(c.B, v(false)), append(c.Q, v(false))
	}
	if s.Bool() {
		c.Z = num(genNum(s, CtxJ{P: 25}, dirtyOpt))
	}
	return c
}

func splitRun(c splitCase, t *T) {
	fn := func(name string, vals []int) decimal.SplitFunc {
		var buf decimal.Big
		var one []*decimal.Big
		for _, v := range vals {
			one = append(one, decimal.New(int64(v), 0))
		}
		return func(n uint64) *decimal.Big {
			if n < c.Start || n-c.Start >= uint64(len(vals)) {
				t.Failf("BinarySplit(%d, %d) evaluated %s(%d)", c.Start, c.Start+uint64(c.N), name, n)
			}
			k := n - c.Start
			if c.Reuse {
				return buf.SetMantScale(int64(vals[k]), 0)
			}
			if d := mustObs(t, name, one[k]); ref.CmpNum(d, ref.New(int64(vals[k]), 0)) != 0 {
				t.Failf("BinarySplit modified %s(%d): %v instead of %d", name, n, d, vals[k])
			}
			return one[k]
		}
	}
	z := new(decimal.Big)
	if c.Z != "" {
		z = mk(c.Z.dec(), 0)
	}
	cj := CtxJ{P: c.Prec, M: c.M}
	A, P, B, Q := fn("a", c.A), fn("p", c.P), fn("b", c.B), fn("q", c.Q)
	if c.N <= 0 {
		defer func() {
			if p := recover(); p == nil {
				t.Failf("BinarySplit(%d, %d) did not panic", c.Start, c.Start+uint64(c.N))
			} else if _, ok := p.(string); !ok {
				panic(p)
			}
		}()
		decimal.BinarySplit(z, cj.lib(), c.Start, c.Start+uint64(c.N), A, P, B, Q)
		return
	}
	if decimal.BinarySplit(z, cj.lib(), c.Start, c.Start+uint64(c.N), A, P, B, Q) != z {
		t.Failf("BinarySplit did not return its receiver")
	}
	if c.N >= 5 {
		t.Nontrivial()
	}
	sum := new(big.Rat)
	pq := big.NewRat(1, 1)
	for i := range c.A {
		pq.Mul(pq, big.NewRat(int64(c.P[i]), int64(c.Q[i])))
		term := big.NewRat(int64(c.A[i]), int64(c.B[i]))
		sum.Add(sum, term.Mul(term, pq))
	}
	got := mustObs(t, "BinarySplit", z)
	want, _ := cj.ref().Quo(ref.NewBig(sum.Num(), 0), ref.NewBig(sum.Denom(), 0))
	if !got.IsFin() || ref.CmpNum(got, want) != 0 {
		t.Failf("BinarySplit(%d, %d) of a=%v p=%v b=%v q=%v = %v, want %v", c.Start, c.Start+uint64(c.N), c.A, c.P, c.B, c.Q, got, want)
	}
}

// dynCase is the series sum a(n) p(0)...p(n) / (b(n) q(0)...q(n)) with
// p(n)/q(n) < 1 from some n on.
type dynCase struct {
	P0   int `json:"p0"`
	P    int `json:"p"`
	Q0   int `json:"q0"`
	Q    int `json:"q"`
	Grow int `json:"grow,omitempty"` // q(n) = q + grow*n
	A0   int `json:"a0"`
	A1   int `json:"a1,omitempty"` // a(n) = a0 + a1*n
	Alt  int `json:"alt,omitempty"`
	B    int `json:"b"`
	Prec int `json:"prec"`
}

func genDyn(s *Src) dynCase {
	c := dynCase{P0: s.Range(1, 9), P: s.Range(1, 9), Q0: s.Range(1, 9), A0: s.Range(1, 20), A1: s.N(3), B: s.Range(1, 9), Prec: s.Range(8, 120), Alt: s.N(2)}
	c.Q = c.P*pbt.Pick(s, 2, 3, 4, 10, 100) + s.N(3)
	c.Grow = s.N(4)
	return c
}

func dynRun(c dynCase, t *T) {
	mkf := func(f func(n uint64) int64) decimal.SplitFunc {
		return func(n uint64) *decimal.Big { return decimal.New(f(n), 0) }
	}
	a := func(n uint64) int64 { return int64(c.A0) + int64(c.A1)*int64(n) }
	p := func(n uint64) int64 {
		if n == 0 {
			return int64(c.P0)
		}
		if c.Alt == 1 {
			return -int64(c.P)
		}
		return int64(c.P)
	}
	q := func(n uint64) int64 {
		if n == 0 {
			return int64(c.Q0)
		}
		return int64(c.Q) + int64(c.Grow)*int64(n)
	}
	b := func(n uint64) int64 { return int64(c.B) }
	ctx := decimal.Context{Precision: c.Prec + 4}
	z := decimal.BinarySplitDynamic(ctx, mkf(a), mkf(p), mkf(b), mkf(q))
	// the sum in fixed point
	w := uint(PrecBits10(c.Prec) + 64)
	sum := new(big.Int)
	pq := new(big.Int).Lsh(ref.One, w)
	n := uint64(0)
	for ; n < 5000; n++ {
		pq.Mul(pq, big.NewInt(p(n)))
		pq.Quo(pq, big.NewInt(q(n)))
		term := new(big.Int).Mul(pq, big.NewInt(a(n)))
		term.Quo(term, big.NewInt(b(n)))
		if pq.Sign() == 0 {
			break
		}
		sum.Add(sum, term)
	}
	if n > 20 {
		t.Nontrivial()
	}
	got := mustObs(t, "BinarySplitDynamic", z)
	if !got.IsFin() {
		t.Failf("BinarySplitDynamic(%+v) = %v", c, got)
	}
	val := ref.Approx{M: sum, W: int(w)}
	m, _ := val.UlpDiff(got, c.Prec)
	if m.Cmp(big.NewInt(1000)) > 0 {
		t.Failf("BinarySplitDynamic(%+v) with %d digits = %v is %v/1000 units in digit %d from %v", c, ctx.Precision, got, m, c.Prec, approxText(val, c.Prec+6))
	}
}

// PrecBits10 is the number of bits of p digits.
func PrecBits10(p int) int { return ref.PrecBits(p) }
