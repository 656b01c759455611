// Package props states the properties as executable checks.
package props

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/ericlagergren/decimal"

	"verif/pbt"
	"verif/ref"
)

type Src = pbt.Src
type T = pbt.T

const (
	Unl     = -1               // CtxJ.P: unlimited precision
	maxExp  = decimal.MaxScale // library-wide exponent bound
	minExp  = decimal.MinScale //
	allCond = decimal.Condition(1<<13 - 1)
)

// CtxJ is a serialisable context. P == 0 is the library's zero value (default
// precision), P == -1 unlimited. Emax/Emin == 0 is the zero value (library
// maximum).
type CtxJ struct {
	P    int  `json:"p"`
	M    int  `json:"m"`
	Emax int  `json:"emax,omitempty"`
	Emin int  `json:"emin,omitempty"`
	Go   bool `json:"go,omitempty"`
}

func (c CtxJ) lib() decimal.Context {
	d := decimal.Context{Precision: c.P, RoundingMode: decimal.RoundingMode(c.M), MaxScale: c.Emax, MinScale: c.Emin}
	if c.P == Unl {
		d.Precision = decimal.UnlimitedPrecision
	}
	if c.Go {
		d.OperatingMode = decimal.Go
	}
	return d
}

func (c CtxJ) ref() ref.Ctx {
	r := ref.Ctx{P: c.P, M: decimal.RoundingMode(c.M), Emax: c.Emax, Emin: c.Emin}
	switch c.P {
	case Unl:
		r.P = 0
	case 0:
		r.P = decimal.DefaultPrecision
	}
	if r.Emax == 0 {
		r.Emax = maxExp
	}
	if r.Emin == 0 {
		r.Emin = minExp
	}
	return r
}

// prec is the effective number of digits.
func (c CtxJ) prec() int {
	switch c.P {
	case 0:
		return decimal.DefaultPrecision
	case Unl:
		return 30
	}
	return c.P
}

func (c CtxJ) limited() bool { return c.Emax != 0 || c.Emin != 0 }

// Num is a serialisable datum (ref.Dec text form).
type Num string

func (n Num) dec() ref.Dec { return ref.MustParse(string(n)) }
func num(d ref.Dec) Num    { return Num(d.String()) }

// mk builds a library value equal to d, through one of several public
// construction paths.
func mk(d ref.Dec, path int) *decimal.Big {
	return mkInto(new(decimal.Big), d, path)
}

func mkInto(z *decimal.Big, d ref.Dec, path int) *decimal.Big {
	switch d.K {
	case ref.Inf:
		z.SetInf(d.Neg)
		return z
	case ref.QNaN, ref.SNaN:
		if d.Pay != 0 {
			ctx := z.Context
			z.Context = decimal.Context{}
			s := "NaN"
			if d.K == ref.SNaN {
				s = "sNaN"
			}
			z.SetString(fmt.Sprintf("%s%d", s, d.Pay))
			z.Context = ctx
		} else {
			z.SetNaN(d.K == ref.SNaN)
		}
		if d.Neg {
			z.SetSignbit(true)
		}
		return z
	}
	switch {
	case path == 1 && d.C.IsInt64():
		z.SetMantScale(d.C.Int64(), -d.E)
	case path == 2 && d.C.IsUint64():
		z.SetUint64(d.C.Uint64()).SetScale(-d.E)
	default:
		z.SetBigMantScale(d.C, -d.E)
	}
	if d.Neg {
		z.SetSignbit(true)
	}
	return z
}

// obs reads a library value back as a datum, checking that the cached
// precision agrees with the coefficient.
func obs(z *decimal.Big) (ref.Dec, error) {
	d := ref.Dec{Neg: z.Signbit()}
	switch {
	case z.IsNaN(+1):
		d.K, d.Pay = ref.QNaN, uint64(z.Payload())
		return d, nil
	case z.IsNaN(-1):
		d.K, d.Pay = ref.SNaN, uint64(z.Payload())
		return d, nil
	case z.IsInf(0):
		d.K = ref.Inf
		return d, nil
	}
	c := z
	if s := z.Scale(); s < -1e9 || s > 1e9 { // outside of Decompose's domain
		c = new(decimal.Big).Copy(z).SetScale(0)
	}
	_, _, coef, _ := c.Decompose(nil)
	d.C = new(big.Int).SetBytes(coef)
	d.E = -z.Scale()
	if p := z.Precision(); p != ref.Digits(d.C) {
		return d, fmt.Errorf("Precision() reports %d for the value %v (coefficient of %d digits)", p, d, ref.Digits(d.C))
	}
	return d, nil
}

func mustObs(t *T, what string, z *decimal.Big) ref.Dec {
	d, err := obs(z)
	if err != nil {
		t.Failf("%s: %v", what, err)
	}
	return d
}

// --- generators -----------------------------------------------------------

func genDigits(s *Src, n int) *big.Int {
	v := new(big.Int)
	for n > 0 {
		k := n
		if k > 18 {
			k = 18
		}
		c := s.U64() % ref.Pow10(k).Uint64()
		v.Mul(v, ref.Pow10(k)).Add(v, new(big.Int).SetUint64(c))
		n -= k
	}
	return v
}

func genLen(s *Src, p int) int {
	var n int
	switch s.Weighted(4, 4, 3, 3, 1) {
	case 0:
		n = s.Range(1, p+2)
	case 1:
		n = p + s.Sym(2)
	case 2:
		n = s.Range(17, 22)
	case 3:
		n = s.Range(1, 9)
	case 4:
		n = 2*p + s.Sym(3)
	}
	if n < 1 {
		n = 1
	}
	if n > 4000 {
		n = 4000
	}
	return n
}

// genCoef generates a coefficient with dense boundaries for precision p.
func genCoef(s *Src, p int) *big.Int {
	add := func(v *big.Int, k int) *big.Int {
		v = new(big.Int).Add(v, big.NewInt(int64(k)))
		if v.Sign() < 0 {
			v.Neg(v)
		}
		return v
	}
	switch s.Weighted(4, 8, 3, 3, 3, 4, 4) {
	case 0:
		return big.NewInt(int64(s.N(100)))
	case 1:
		return genDigits(s, genLen(s, p))
	case 2: // 99..9 and neighbours
		return add(ref.Pow10(genLen(s, p)), -1+s.Sym(1))
	case 3: // 50..0, 10..0 and neighbours
		v := new(big.Int).Mul(big.NewInt(int64(pbt.Pick(s, 5, 1, 2, 25))), ref.Pow10(genLen(s, p)-1))
		return add(v, s.Sym(1))
	case 4: // powers of two around the machine-word boundaries
		v := new(big.Int).Lsh(ref.One, uint(pbt.Pick(s, 64, 63, 32, 128, 31, 65)))
		switch s.N(6) {
		case 5: // a tenth of them, and then any digits
			v.Quo(v, ref.Ten)
			k := s.Range(1, 4)
			return add(v, s.Sym(2)).Mul(v, ref.Pow10(k)).Add(v, genDigits(s, k))
		case 4: // with zeros
			return add(v, s.Sym(3)).Mul(v, ref.Pow10(s.Range(1, 5)))
		}
		return add(v, s.Sym(3))
	case 5: // trailing zeros
		v := genDigits(s, s.Range(1, p+1))
		return v.Mul(v, ref.Pow10(s.N(2*p+4)))
	default: // p digits followed by a tail that decides the rounding
		v := genDigits(s, p)
		if s.In(1, 3) {
			v = add(ref.Pow10(p), -1)
		} else if s.In(1, 3) {
			v.Or(v, ref.One)
		}
		k := s.Range(1, 6)
		if s.In(1, 4) {
			k = s.Range(7, 24)
		}
		half := new(big.Int).Mul(ref.Five, ref.Pow10(k-1))
		tail := add(half, pbt.Pick(s, 0, -1, 1))
		if s.In(1, 5) {
			tail = add(ref.Pow10(k), -1)
		}
		if s.In(1, 5) {
			tail = big.NewInt(int64(s.N(2)))
		}
		return v.Mul(v, ref.Pow10(k)).Add(v, tail)
	}
}

type numOpt struct {
	special int // weight (of 100) of Inf/NaN
	zero    int // weight (of 100) of zeros
	espan   int // exponents in [-espan, espan] (default p+4)
}

func genExp(s *Src, c CtxJ, digits, span int) int {
	p := c.prec()
	if span == 0 {
		span = p + 4
	}
	var e int
	if c.limited() {
		r := c.ref()
		switch s.Weighted(3, 2, 5, 5) {
		case 0:
			e = s.Sym(3)
		case 1:
			e = s.Sym(span)
		case 2: // adjusted exponent near Emin / etiny
			if c.Emin == 0 {
				e = s.Sym(span)
			} else {
				e = r.Emin - digits + 1 + s.Sym(p+3)
			}
		case 3:
			if c.Emax == 0 {
				e = s.Sym(span)
			} else {
				e = r.Emax - digits + 1 + s.Sym(4)
			}
		}
	} else {
		switch s.Weighted(4, 6, 2, 1) {
		case 0:
			e = s.Sym(3)
		case 1:
			e = s.Sym(span)
		case 2:
			e = s.Sym(60)
		case 3:
			e = s.Sym(400)
		}
	}
	return e
}

func genNum(s *Src, c CtxJ, o numOpt) ref.Dec {
	w := s.N(100)
	// the common case is the low range so that shrinking prefers it
	switch {
	case w >= 100-o.special:
		d := ref.Dec{Neg: s.Bool()}
		d.K = pbt.Pick(s, ref.Inf, ref.Inf, ref.QNaN, ref.SNaN)
		if d.K != ref.Inf && s.In(1, 2) {
			d.Pay = uint64(s.Range(1, 1000))
		}
		return d
	case w >= 100-o.special-o.zero:
		return ref.MkZero(s.Bool(), genExp(s, c, 1, o.espan))
	}
	v := genCoef(s, c.prec())
	return ref.Dec{Neg: s.Bool(), C: v, E: genExp(s, c, ref.Digits(v), o.espan)}
}

// genPrec generates an effective precision.
func genPrec(s *Src) int {
	switch s.Weighted(5, 6, 4, 2, 1) {
	case 0:
		return s.Range(1, 8)
	case 1:
		return s.Range(9, 25)
	case 2:
		return pbt.Pick(s, 7, 16, 34, 19, 20)
	case 3:
		return s.Range(26, 60)
	default:
		return s.Range(61, 130)
	}
}

type ctxOpt struct {
	limited   int  // weight (of 100) of exponent-limited contexts
	unlimited int  // weight (of 100) of unlimited precision
	formats   bool // only the predefined contexts
}

func genCtx(s *Src, o ctxOpt) CtxJ {
	if o.formats {
		return formats[s.Weighted(4, 4, 4, 1)].ctx
	}
	c := CtxJ{P: genPrec(s), M: s.N(7)}
	if s.In(1, 25) {
		c.P = 0
	}
	w := s.N(100)
	switch {
	case w >= 100-o.unlimited:
		c.P = Unl
	case w >= 100-o.unlimited-o.limited:
		switch s.N(6) {
		case 0:
			c.P, c.Emax, c.Emin = 7, 96, -95
		case 1:
			c.P, c.Emax, c.Emin = 16, 384, -383
		case 2:
			c.P, c.Emax, c.Emin = 34, 6144, -6143
		case 3:
			p := c.prec()
			c.Emax = p + s.N(6)
			c.Emin = -(p + s.N(6))
		case 4:
			c.Emax = c.prec() + s.N(100)
			c.Emin = -s.Range(1, 100)
		case 5:
			c.Emax = c.prec() + s.N(1000)
			c.Emin = -c.Emax
			if s.In(1, 3) {
				c.Emin = 0
			}
		}
	}
	return c
}

// --- operations -----------------------------------------------------------

// Op is one library operation with its model.
type Op struct {
	Name    string
	Arity   int
	InPlace bool // the receiver is the operand
	Call    func(c decimal.Context, z, x, y, u *decimal.Big, n int) *decimal.Big
	Method  func(z, x, y, u *decimal.Big, n int) *decimal.Big
	Model   func(c ref.Ctx, x, y, u ref.Dec, n int) (ref.Dec, ref.Cond)
}

var ops = map[string]*Op{}

func init() {
	type B = decimal.Big
	type C = decimal.Context
	def := func(o Op) { ops[o.Name] = &o }
	bin := func(name string, call func(C, *B, *B, *B) *B, meth func(*B, *B, *B) *B, model func(ref.Ctx, ref.Dec, ref.Dec) (ref.Dec, ref.Cond)) {
		def(Op{Name: name, Arity: 2,
			Call:   func(c C, z, x, y, u *B, n int) *B { return call(c, z, x, y) },
			Method: func(z, x, y, u *B, n int) *B { return meth(z, x, y) },
			Model:  func(c ref.Ctx, x, y, u ref.Dec, n int) (ref.Dec, ref.Cond) { return model(c, x, y) }})
	}
	un := func(name string, call func(C, *B, *B) *B, meth func(*B, *B) *B, model func(ref.Ctx, ref.Dec) (ref.Dec, ref.Cond)) {
		o := Op{Name: name, Arity: 1,
			Call:  func(c C, z, x, y, u *B, n int) *B { return call(c, z, x) },
			Model: func(c ref.Ctx, x, y, u ref.Dec, n int) (ref.Dec, ref.Cond) { return model(c, x) }}
		if meth != nil {
			o.Method = func(z, x, y, u *B, n int) *B { return meth(z, x) }
		}
		def(o)
	}
	bin("Add", C.Add, (*B).Add, ref.Ctx.Add)
	bin("Sub", C.Sub, (*B).Sub, ref.Ctx.Sub)
	bin("Mul", C.Mul, (*B).Mul, ref.Ctx.Mul)
	bin("Quo", C.Quo, (*B).Quo, ref.Ctx.Quo)
	bin("QuoInt", C.QuoInt, (*B).QuoInt, ref.Ctx.QuoInt)
	bin("Rem", C.Rem, (*B).Rem, ref.Ctx.Rem)
	def(Op{Name: "FMA", Arity: 3,
		Call:   func(c C, z, x, y, u *B, n int) *B { return c.FMA(z, x, y, u) },
		Method: func(z, x, y, u *B, n int) *B { return z.FMA(x, y, u) },
		Model:  func(c ref.Ctx, x, y, u ref.Dec, n int) (ref.Dec, ref.Cond) { return c.FMA(x, y, u) }})
	un("Set", C.Set, (*B).Set, func(c ref.Ctx, x ref.Dec) (ref.Dec, ref.Cond) {
		if x.K != ref.Fin { // a copy: no NaN processing
			return x, 0
		}
		return c.Fix(x)
	})
	un("Abs", C.Abs, (*B).Abs, func(c ref.Ctx, x ref.Dec) (ref.Dec, ref.Cond) {
		if x.IsNaN() {
			return c.Plus(x)
		}
		return c.Plus(x.Abs())
	})
	un("Neg", C.Neg, (*B).Neg, func(c ref.Ctx, x ref.Dec) (ref.Dec, ref.Cond) {
		if x.IsNaN() {
			return c.Plus(x)
		}
		r := x.Negated()
		if x.IsZero() { // 0 - x
			r.Neg = c.M == decimal.ToNegativeInf && !x.Neg
		}
		return c.Plus(r)
	})
	un("Sqrt", C.Sqrt, nil, ref.Ctx.Sqrt)
	un("NextPlus", C.NextPlus, nil, ref.Ctx.NextPlus)
	un("NextMinus", C.NextMinus, nil, ref.Ctx.NextMinus)
	un("Ceil", C.Ceil, nil, func(c ref.Ctx, x ref.Dec) (ref.Dec, ref.Cond) {
		c.M = decimal.ToPositiveInf
		return c.ToIntegral(x)
	})
	un("Floor", C.Floor, nil, func(c ref.Ctx, x ref.Dec) (ref.Dec, ref.Cond) {
		c.M = decimal.ToNegativeInf
		return c.ToIntegral(x)
	})
	def(Op{Name: "Quantize", Arity: 1, InPlace: true,
		Call:   func(c C, z, x, y, u *B, n int) *B { return c.Quantize(z, n) },
		Method: func(z, x, y, u *B, n int) *B { return z.Quantize(n) },
		Model:  func(c ref.Ctx, x, y, u ref.Dec, n int) (ref.Dec, ref.Cond) { return c.Quantize(x, -n) }})
	def(Op{Name: "Round", Arity: 1, InPlace: true,
		Call:  func(c C, z, x, y, u *B, n int) *B { return c.Round(z) },
		Model: func(c ref.Ctx, x, y, u ref.Dec, n int) (ref.Dec, ref.Cond) { return c.Fix(x) }})
	def(Op{Name: "RoundN", Arity: 1, InPlace: true, // n >= 1
		Method: func(z, x, y, u *B, n int) *B { return z.Round(n) },
		Model: func(c ref.Ctx, x, y, u ref.Dec, n int) (ref.Dec, ref.Cond) {
			if n <= 0 {
				return x, 0
			}
			c.P = n
			return c.Fix(x)
		}})
	def(Op{Name: "RoundToInt", Arity: 1, InPlace: true,
		Call:   func(c C, z, x, y, u *B, n int) *B { return c.RoundToInt(z) },
		Method: func(z, x, y, u *B, n int) *B { return z.RoundToInt() },
		Model:  func(c ref.Ctx, x, y, u ref.Dec, n int) (ref.Dec, ref.Cond) { return c.ToIntegral(x) }})
	def(Op{Name: "Reduce", Arity: 1, InPlace: true,
		Call:   func(c C, z, x, y, u *B, n int) *B { return c.Reduce(z) },
		Method: func(z, x, y, u *B, n int) *B { return z.Reduce() },
		Model: func(c ref.Ctx, x, y, u ref.Dec, n int) (ref.Dec, ref.Cond) {
			r, f := c.Plus(x)
			return ref.StripZeros(r), f
		}})
}

// Arith is one application of an operation.
type Arith struct {
	Op    string `json:"op"`
	Ctx   CtxJ   `json:"ctx"`
	X     Num    `json:"x"`
	Y     Num    `json:"y,omitempty"`
	U     Num    `json:"u,omitempty"`
	N     int    `json:"n,omitempty"`
	Alias string `json:"alias,omitempty"` // e.g. "zx", "zxy", "xy"
	Via   int    `json:"via,omitempty"`   // 1: Context method with a foreign receiver context
	Z     Num    `json:"z,omitempty"`     // previous value of the receiver
	ZC    uint32 `json:"zc,omitempty"`    // conditions already in the receiver
	OC    CtxJ   `json:"oc"`              // context carried by the operands
	Path  int    `json:"path,omitempty"`
}

func aliasPatterns(arity int) []string {
	switch arity {
	case 1:
		return []string{"", "zx"}
	case 2:
		return []string{"", "zx", "zy", "xy", "zxy"}
	}
	return []string{"", "zx", "zy", "zu", "xy", "xu", "yu", "zxy", "zxu", "zyu", "xyu", "zxyu"}
}

// genShell fills everything of an Arith except operands.
func genShell(s *Src, a *Arith, dirty numOpt) {
	o := ops[a.Op]
	a.Path = s.N(3)
	if o.InPlace {
		if o.Call != nil && (o.Method == nil || s.In(1, 3)) {
			a.Via = 1
		}
		if s.In(1, 3) {
			a.ZC = uint32(s.N(1 << 13))
		}
		return
	}
	if o.Method == nil || s.In(1, 3) {
		a.Via = 1
	}
	if s.In(2, 5) {
		a.Alias = pbt.Pick(s, aliasPatterns(o.Arity)...)
	}
	if !strings.Contains(a.Alias, "z") && s.In(1, 2) {
		a.Z = num(genNum(s, a.Ctx, dirty))
	}
	if s.In(1, 3) {
		a.ZC = uint32(s.N(1 << 13))
	}
	if s.In(1, 4) {
		a.OC = CtxJ{P: genPrec(s), M: s.N(7)}
		if s.In(1, 3) {
			a.OC.Emax, a.OC.Emin = 9, -9
		}
	}
}

var dirtyOpt = numOpt{special: 25, zero: 10}

// outcome of running an Arith against the library.
type outcome struct {
	got, want   ref.Dec
	gotF, wantF ref.Cond
	flags       ref.Cond // flags of this operation alone (model)
	x, y, u     ref.Dec
}

// runArith executes the case on the library and on the model and checks
// operand immutability; the caller judges value and conditions.
func runArith(a Arith, t *T) outcome {
	o := ops[a.Op]
	var r outcome
	r.x = a.X.dec()
	has := func(b byte) bool { return strings.IndexByte(a.Alias, b) >= 0 }
	if a.Y != "" {
		r.y = a.Y.dec()
	} else if o.Arity >= 2 {
		r.y = r.x
	}
	if a.U != "" {
		r.u = a.U.dec()
	} else if o.Arity >= 3 {
		r.u = r.x
	}
	type slot struct {
		n byte
		d ref.Dec
	}
	slots := []slot{{'x', r.x}, {'y', r.y}, {'u', r.u}}[:o.Arity]
	// aliased operands share the value of the first one in the group
	first := -1
	for i := range slots {
		if has(slots[i].n) {
			if first < 0 {
				first = i
			} else {
				slots[i].d = slots[first].d
			}
		}
	}
	r.x = slots[0].d
	if o.Arity > 1 {
		r.y = slots[1].d
	}
	if o.Arity > 2 {
		r.u = slots[2].d
	}
	z := new(decimal.Big)
	if a.Z != "" {
		z = mk(a.Z.dec(), 0)
	}
	bigs := make([]*decimal.Big, 3)
	var shared *decimal.Big
	for i, sl := range slots {
		inGroup := has(sl.n)
		switch {
		case o.InPlace:
			z = mk(sl.d, a.Path)
			bigs[i] = z
		case inGroup && shared != nil:
			bigs[i] = shared
		default:
			bigs[i] = mk(sl.d, a.Path)
			bigs[i].Context = a.OC.lib()
			if inGroup {
				shared = bigs[i]
				if has('z') {
					z = shared
				}
			}
		}
	}
	ctx := a.Ctx.lib()
	if a.Via == 0 {
		z.Context = ctx
	} else {
		z.Context = decimal.Context{}
		if a.OC.P != 0 {
			z.Context = a.OC.lib()
		}
	}
	z.Context.Conditions = decimal.Condition(a.ZC)
	zctx := z.Context
	type before struct {
		b   *decimal.Big
		d   ref.Dec
		ctx decimal.Context
	}
	var olds []before
	for i := range slots {
		if bigs[i] != z {
			olds = append(olds, before{bigs[i], slots[i].d, bigs[i].Context})
		}
	}
	var ret *decimal.Big
	if a.Via == 1 {
		ret = o.Call(ctx, z, bigs[0], bigs[1], bigs[2], a.N)
	} else {
		ret = o.Method(z, bigs[0], bigs[1], bigs[2], a.N)
	}
	if ret != z {
		t.Failf("%s did not return its receiver", a.Op)
	}
	for _, b := range olds {
		d := mustObs(t, "operand after "+a.Op, b.b)
		if !ref.Same(d, b.d) || d.Neg != b.d.Neg || b.b.Context != b.ctx {
			t.Failf("%s modified an operand: %v became %v (context %+v -> %+v)", a.Op, b.d, d, b.ctx, b.b.Context)
		}
	}
	r.got = mustObs(t, a.Op, z)
	r.gotF = z.Context.Conditions
	zc := z.Context
	zc.Conditions = zctx.Conditions
	if zc != zctx {
		t.Failf("%s changed the receiver's context settings: %+v -> %+v", a.Op, zctx, zc)
	}
	r.want, r.flags = o.Model(a.Ctx.ref(), r.x, r.y, r.u, a.N)
	r.wantF = r.flags | ref.Cond(a.ZC)
	return r
}

func modeName(m int) string { return decimal.RoundingMode(m).String() }

// judge compares value and conditions.
func judge(a Arith, r outcome, t *T, flagsToo bool) {
	sign := r.got.Neg == r.want.Neg
	if a.Op == "FMA" && (r.u.K == ref.SNaN || r.u.IsNaN() && !r.x.IsNaN() && !r.y.IsNaN()) { // Inf*0 + NaN, NaN*y + sNaN: not decided
		sign = true
	}
	if !ref.Same(r.got, r.want) || !sign {
		t.Failf("%s(%s) prec=%d %s emax=%d emin=%d: got %v, want %v", a.Op, r.args(ops[a.Op]), a.Ctx.prec(), modeName(a.Ctx.M), a.Ctx.Emax, a.Ctx.Emin, r.got, r.want)
	}
	if flagsToo && r.gotF != r.wantF {
		t.Failf("%s(%s) prec=%d %s emax=%d emin=%d = %v: conditions are [%v], want [%v] (receiver had [%v])", a.Op, r.args(ops[a.Op]), a.Ctx.prec(), modeName(a.Ctx.M), a.Ctx.Emax, a.Ctx.Emin, r.got, r.gotF, r.wantF, ref.Cond(a.ZC))
	}
}

func (r outcome) args(o *Op) string {
	s := []string{r.x.String()}
	if o.Arity > 1 {
		s = append(s, r.y.String())
	}
	if o.Arity > 2 {
		s = append(s, r.u.String())
	}
	return strings.Join(s, ", ")
}

func tagFlags(t *T, f ref.Cond) {
	for _, x := range []struct {
		c ref.Cond
		n string
	}{{ref.Inexact, "inexact"}, {ref.Overflow, "overflow"}, {ref.Underflow, "underflow"}, {ref.Subnormal, "subnormal"}, {ref.Clamped, "clamped"}, {ref.InvalidOp, "invalid"}, {ref.DivByZero, "div-by-zero"}, {ref.DivImposs, "div-impossible"}} {
		if f&x.c != 0 {
			t.Tag(x.n)
		}
	}
}
