// Package ref is an independent reference model of General Decimal Arithmetic
// (version 1.70) written over math/big.Int: every operation computes an exact
// integer/rational result and applies one rounding and one range adjustment at
// the very end. It shares no code with the library under test; it only uses the
// library's *names* for rounding modes and conditions.
package ref

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
	"sync"

	"github.com/ericlagergren/decimal"
)

type Kind uint8

const (
	Fin Kind = iota
	Inf
	QNaN
	SNaN
)

// Dec is a decimal datum: (-1)^Neg * C * 10^E, or a special value.
type Dec struct {
	K   Kind
	Neg bool
	C   *big.Int // coefficient, >= 0 (Fin only)
	E   int      // exponent (Fin only)
	Pay uint64   // payload (NaN only)
}

type Cond = decimal.Condition

const (
	Clamped    = decimal.Clamped
	DivByZero  = decimal.DivisionByZero
	DivImposs  = decimal.DivisionImpossible
	DivUndef   = decimal.DivisionUndefined
	Inexact    = decimal.Inexact
	InsuffStor = decimal.InsufficientStorage
	InvalidCtx = decimal.InvalidContext
	InvalidOp  = decimal.InvalidOperation
	Overflow   = decimal.Overflow
	Rounded    = decimal.Rounded
	Subnormal  = decimal.Subnormal
	Underflow  = decimal.Underflow
	ConvSyntax = decimal.ConversionSyntax
)

// Ctx is an arithmetic context. P == 0 means unlimited precision.
type Ctx struct {
	P          int
	M          decimal.RoundingMode
	Emax, Emin int
	NoRound    bool // Go operating mode: lossless add/sub/mul
}

func (c Ctx) Etiny() int { return c.Emin - (c.P - 1) }
func (c Ctx) Etop() int  { return c.Emax - (c.P - 1) }

var (
	Zero = big.NewInt(0)
	One  = big.NewInt(1)
	Two  = big.NewInt(2)
	Five = big.NewInt(5)
	Ten  = big.NewInt(10)
)

var pow struct {
	sync.Mutex
	tab []*big.Int
}

// Pow10 returns 10**n (shared; do not modify).
func Pow10(n int) *big.Int {
	if n < 0 {
		panic("ref.Pow10: negative")
	}
	if n > 6000 {
		return new(big.Int).Exp(Ten, big.NewInt(int64(n)), nil)
	}
	pow.Lock()
	defer pow.Unlock()
	if pow.tab == nil {
		pow.tab = []*big.Int{big.NewInt(1)}
	}
	for len(pow.tab) <= n {
		pow.tab = append(pow.tab, new(big.Int).Mul(pow.tab[len(pow.tab)-1], Ten))
	}
	return pow.tab[n]
}

// Digits returns the number of decimal digits of v >= 0 (1 for zero).
func Digits(v *big.Int) int {
	if v.Sign() == 0 {
		return 1
	}
	bl := v.BitLen()
	// lower bound on the number of digits
	est := int(float64(bl-1)*0.30102999566398119) - 1
	if est < 0 {
		est = 0
	}
	for v.CmpAbs(Pow10(est+1)) >= 0 {
		est++
	}
	return est + 1
}

func New(c int64, e int) Dec {
	d := Dec{E: e, C: big.NewInt(c)}
	if c < 0 {
		d.Neg = true
		d.C.Neg(d.C)
	}
	return d
}
func NewBig(c *big.Int, e int) Dec {
	d := Dec{E: e, C: new(big.Int).Abs(c)}
	d.Neg = c.Sign() < 0
	return d
}
func MkDec(neg bool, c *big.Int, e int) Dec { return Dec{Neg: neg, C: c, E: e} }
func MkInf(neg bool) Dec                    { return Dec{K: Inf, Neg: neg} }
func MkNaN() Dec                            { return Dec{K: QNaN} }
func MkZero(neg bool, e int) Dec            { return Dec{Neg: neg, C: new(big.Int), E: e} }
func (d Dec) IsNaN() bool                   { return d.K == QNaN || d.K == SNaN }
func (d Dec) IsFin() bool                   { return d.K == Fin }
func (d Dec) IsZero() bool                  { return d.K == Fin && d.C.Sign() == 0 }
func (d Dec) Prec() int                     { return Digits(d.C) }
func (d Dec) Adj() int                      { return d.E + Digits(d.C) - 1 }
func (d Dec) Signed() *big.Int {
	v := new(big.Int).Set(d.C)
	if d.Neg {
		v.Neg(v)
	}
	return v
}

// Negated returns -d (sign flipped, whatever d is).
func (d Dec) Negated() Dec { d.Neg = !d.Neg; return d }
func (d Dec) Abs() Dec     { d.Neg = false; return d }

// String is a lossless text form: [-]<coef>E<exp>, [-]Inf, [-]NaN<p>, [-]sNaN<p>.
func (d Dec) String() string {
	s := ""
	if d.Neg {
		s = "-"
	}
	switch d.K {
	case Fin:
		return s + d.C.String() + "E" + strconv.Itoa(d.E)
	case Inf:
		return s + "Inf"
	case QNaN:
		if d.Pay != 0 {
			return s + "NaN" + strconv.FormatUint(d.Pay, 10)
		}
		return s + "NaN"
	default:
		if d.Pay != 0 {
			return s + "sNaN" + strconv.FormatUint(d.Pay, 10)
		}
		return s + "sNaN"
	}
}

// Parse inverts String.
func Parse(s string) (Dec, error) {
	var d Dec
	if strings.HasPrefix(s, "-") {
		d.Neg = true
		s = s[1:]
	}
	pay := func(t string) error {
		if t == "" {
			return nil
		}
		v, err := strconv.ParseUint(t, 10, 64)
		d.Pay = v
		return err
	}
	switch {
	case s == "Inf":
		d.K = Inf
		return d, nil
	case strings.HasPrefix(s, "NaN"):
		d.K = QNaN
		return d, pay(s[3:])
	case strings.HasPrefix(s, "sNaN"):
		d.K = SNaN
		return d, pay(s[4:])
	}
	i := strings.IndexByte(s, 'E')
	if i < 0 {
		return d, fmt.Errorf("bad Dec %q", s)
	}
	c, ok := new(big.Int).SetString(s[:i], 10)
	if !ok || c.Sign() < 0 {
		return d, fmt.Errorf("bad Dec %q", s)
	}
	e, err := strconv.Atoi(s[i+1:])
	d.C, d.E = c, e
	return d, err
}

func MustParse(s string) Dec {
	d, err := Parse(s)
	if err != nil {
		panic(err)
	}
	return d
}

// Same reports whether two data are identical (sign, coefficient, exponent,
// kind); NaN payloads and NaN signs are ignored.
func Same(a, b Dec) bool {
	if a.K != b.K {
		return false
	}
	switch a.K {
	case Fin:
		return a.Neg == b.Neg && a.E == b.E && a.C.Cmp(b.C) == 0
	case Inf:
		return a.Neg == b.Neg
	}
	return true
}

// roundUp decides whether magnitude q (the kept part) is to be incremented,
// given the discarded part's comparison with one half (half: -1,0,1) and that
// the discarded part is non-zero.
func roundUp(m decimal.RoundingMode, neg, odd bool, half int) bool {
	switch m {
	case decimal.ToNearestEven:
		return half > 0 || half == 0 && odd
	case decimal.ToNearestAway:
		return half >= 0
	case decimal.ToNearestTowardZero:
		return half > 0
	case decimal.ToZero:
		return false
	case decimal.AwayFromZero:
		return true
	case decimal.ToNegativeInf:
		return neg
	case decimal.ToPositiveInf:
		return !neg
	}
	panic("ref: bad rounding mode")
}

// RoundOff drops n >= 0 digits of coefficient v, rounding; it reports
// whether the discarded digits were non-zero.
func RoundOff(v *big.Int, n int, neg bool, m decimal.RoundingMode) (*big.Int, bool) {
	if n <= 0 {
		return new(big.Int).Set(v), false
	}
	if v.Sign() == 0 {
		return new(big.Int), false
	}
	var q, r *big.Int
	half := -1
	if d := Digits(v); n > d+1 {
		q, r = new(big.Int), v // certainly less than half
	} else {
		p := Pow10(n)
		q, r = new(big.Int).QuoRem(v, p, new(big.Int))
		if r.Sign() == 0 {
			return q, false
		}
		half = new(big.Int).Lsh(r, 1).Cmp(p)
	}
	if roundUp(m, neg, q.Bit(0) == 1, half) {
		q.Add(q, One)
	}
	return q, true
}

func (c Ctx) overflow(neg bool) Dec {
	toInf := false
	switch c.M {
	case decimal.ToNearestEven, decimal.ToNearestAway, decimal.ToNearestTowardZero, decimal.AwayFromZero:
		toInf = true
	case decimal.ToZero:
	case decimal.ToPositiveInf:
		toInf = !neg
	case decimal.ToNegativeInf:
		toInf = neg
	}
	if toInf || c.P == 0 {
		return MkInf(neg)
	}
	m := new(big.Int).Sub(Pow10(c.P), One)
	return Dec{Neg: neg, C: m, E: c.Etop()}
}

// Fix rounds an exact finite result to the context and applies the exponent
// range, returning the datum and the conditions raised (GDA 1.70 / IEEE 754).
func (c Ctx) Fix(d Dec) (Dec, Cond) {
	if d.K != Fin {
		return d, 0
	}
	if c.C0(d) {
		e := d.E
		if e > c.Emax {
			e = c.Emax
		}
		if c.P != 0 && e < c.Etiny() {
			e = c.Etiny()
		}
		if e != d.E {
			return MkZero(d.Neg, e), Clamped
		}
		return MkZero(d.Neg, e), 0
	}
	var cond Cond
	adj := d.Adj()
	if c.P == 0 || c.NoRound {
		if adj > c.Emax {
			return c.overflow(d.Neg), Overflow | Inexact | Rounded
		}
		if adj < c.Emin {
			cond |= Subnormal
		}
		return d, cond
	}
	sub := adj < c.Emin
	target := adj - c.P + 1 // exponent that leaves exactly P digits
	if sub {
		cond |= Subnormal
		target = c.Etiny()
	}
	r := d
	if d.E < target {
		q, inexact := RoundOff(d.C, target-d.E, d.Neg, c.M)
		cond |= Rounded
		if inexact {
			cond |= Inexact
		}
		r = Dec{Neg: d.Neg, C: q, E: target}
		if q.Sign() != 0 && Digits(q) > c.P { // carry: 99..9 -> 100..0
			r.C = new(big.Int).Quo(q, Ten)
			r.E++
		}
		if sub && inexact {
			cond |= Underflow
		}
		if r.IsZero() {
			cond |= Clamped
		}
	}
	if !r.IsZero() && r.Adj() > c.Emax {
		return c.overflow(d.Neg), cond | Overflow | Inexact | Rounded
	}
	return r, cond
}

func (c Ctx) C0(d Dec) bool { return d.C.Sign() == 0 }

// nan2 implements operand-NaN propagation.
func nan(xs ...Dec) (Dec, Cond, bool) {
	for _, x := range xs {
		if x.K == SNaN {
			return Dec{K: QNaN, Neg: x.Neg}, InvalidOp, true
		}
	}
	for _, x := range xs {
		if x.K == QNaN {
			return Dec{K: QNaN, Neg: x.Neg}, 0, true
		}
	}
	return Dec{}, 0, false
}

const exactGap = 12000

// exactAdd returns x+y for finite operands, exactly when the exponent gap is
// moderate; otherwise a value that rounds identically at precision <= prec.
func exactAdd(x, y Dec, c Ctx) Dec {
	hi, lo := x, y
	if hi.E < lo.E {
		hi, lo = lo, hi
	}
	if gap := hi.E - lo.E; gap > exactGap && !c.NoRound && c.P != 0 {
		// Large gap: classic normalisation.
		if hi.IsZero() || lo.IsZero() {
			nz, z := hi, lo
			if hi.IsZero() {
				nz, z = lo, hi
			}
			e := min(nz.E, z.E)
			if nz.IsZero() {
				neg := x.Neg && y.Neg || x.Neg != y.Neg && c.M == decimal.ToNegativeInf
				return MkZero(neg, e)
			}
			if e < nz.E { // pad with zeros, to at most P+1 digits
				lim := nz.Adj() - c.P - 1
				if e < lim {
					e = lim
				}
				if e < nz.E {
					return Dec{Neg: nz.Neg, C: new(big.Int).Mul(nz.C, Pow10(nz.E-e)), E: e}
				}
			}
			return nz
		}
		if lo.Adj() < hi.E-3 && lo.Adj() < hi.Adj()-c.P-3 {
			// lo is a pure sticky contribution.
			e := min(hi.E, hi.Adj()-c.P) - 3
			v := new(big.Int).Mul(hi.Signed(), Pow10(hi.E-e))
			if lo.Neg {
				v.Sub(v, One)
			} else {
				v.Add(v, One)
			}
			return NewBig(v, e)
		}
		panic("ref: exponent gap too large for the model")
	}
	e := lo.E
	a := new(big.Int).Mul(hi.Signed(), Pow10(hi.E-e))
	a.Add(a, lo.Signed())
	if a.Sign() == 0 {
		neg := x.Neg && y.Neg
		if x.Neg != y.Neg {
			neg = c.M == decimal.ToNegativeInf
		}
		return MkZero(neg, e)
	}
	return NewBig(a, e)
}

func (c Ctx) Add(x, y Dec) (Dec, Cond) {
	if d, f, ok := nan(x, y); ok {
		return d, f
	}
	if x.K == Inf || y.K == Inf {
		if x.K == Inf && y.K == Inf && x.Neg != y.Neg {
			return MkNaN(), InvalidOp
		}
		if x.K == Inf {
			return x, 0
		}
		return y, 0
	}
	return c.Fix(exactAdd(x, y, c))
}

func (c Ctx) Sub(x, y Dec) (Dec, Cond) {
	if d, f, ok := nan(x, y); ok {
		return d, f
	}
	return c.Add(x, y.Negated())
}

func exactMul(x, y Dec) Dec {
	return Dec{Neg: x.Neg != y.Neg, C: new(big.Int).Mul(x.C, y.C), E: x.E + y.E}
}

func (c Ctx) Mul(x, y Dec) (Dec, Cond) {
	if d, f, ok := nan(x, y); ok {
		return d, f
	}
	if x.K == Inf || y.K == Inf {
		if x.IsZero() || y.IsZero() {
			return MkNaN(), InvalidOp
		}
		return MkInf(x.Neg != y.Neg), 0
	}
	return c.Fix(exactMul(x, y))
}

// FMA is x*y + u with a single rounding.
func (c Ctx) FMA(x, y, u Dec) (Dec, Cond) {
	if d, f, ok := nan(x, y); ok {
		if u.K == SNaN {
			f |= InvalidOp
		}
		return d, f
	}
	if x.K == Inf || y.K == Inf {
		if x.IsZero() || y.IsZero() {
			return MkNaN(), InvalidOp
		}
		return c.Add(MkInf(x.Neg != y.Neg), u)
	}
	if d, f, ok := nan(u); ok {
		return d, f
	}
	if u.K == Inf {
		return u, 0
	}
	return c.Fix(exactAdd(exactMul(x, y), u, c))
}

// Quo is division: correctly rounded; exact results take the exponent closest
// to the ideal one (x.E - y.E) that keeps the value exact.
func (c Ctx) Quo(x, y Dec) (Dec, Cond) {
	if d, f, ok := nan(x, y); ok {
		return d, f
	}
	neg := x.Neg != y.Neg
	if x.K == Inf {
		if y.K == Inf {
			return MkNaN(), InvalidOp
		}
		return MkInf(neg), 0
	}
	if y.K == Inf {
		return MkZero(neg, c.Etiny()), Clamped
	}
	if y.IsZero() {
		if x.IsZero() {
			return MkNaN(), InvalidOp | DivUndef
		}
		return MkInf(neg), DivByZero
	}
	ideal := x.E - y.E
	if x.IsZero() {
		return c.Fix(MkZero(neg, ideal))
	}
	if c.P == 0 {
		// exact quotient if it terminates
		g := new(big.Int).GCD(nil, nil, x.C, y.C)
		n := new(big.Int).Quo(x.C, g)
		d := new(big.Int).Quo(y.C, g)
		k := 0
		t := new(big.Int).Set(d)
		a, b := strip(t, Two), strip(t, Five)
		if t.Cmp(One) != 0 {
			return MkNaN(), InvalidOp | InvalidCtx | InsuffStor
		}
		k = max(a, b)
		q := n.Mul(n, Pow10(k))
		q.Quo(q, d)
		r := Dec{Neg: neg, C: q, E: ideal - k}
		r, _ = TowardExp(r, ideal)
		return c.Fix(r)
	}
	// produce at least P+2 significant digits
	shift := c.P + 3 + Digits(y.C) - Digits(x.C)
	if shift < 0 {
		shift = 0
	}
	n := new(big.Int).Mul(x.C, Pow10(shift))
	q, r := n.QuoRem(n, y.C, new(big.Int))
	d := Dec{Neg: neg, C: q, E: ideal - shift}
	if r.Sign() != 0 {
		d.C.Mul(d.C, Ten).Add(d.C, One) // sticky digit
		d.E--
		return c.Fix(d)
	}
	d, _ = TowardExp(d, ideal)
	return c.Fix(d)
}

func strip(t, p *big.Int) int {
	n := 0
	r := new(big.Int)
	q := new(big.Int)
	for {
		q.QuoRem(t, p, r)
		if r.Sign() != 0 {
			return n
		}
		t.Set(q)
		n++
	}
}

// TowardExp removes trailing zeros of d while d.E < e.
func TowardExp(d Dec, e int) (Dec, int) {
	n := 0
	q, r := new(big.Int), new(big.Int)
	c := new(big.Int).Set(d.C)
	for d.E < e && c.Sign() != 0 {
		q.QuoRem(c, Ten, r)
		if r.Sign() != 0 {
			break
		}
		c.Set(q)
		d.E++
		n++
	}
	d.C = c
	return d, n
}

// exactDivMod returns the truncated integer quotient and remainder of finite
// non-zero y: x = q*y + r, r has exponent min(x.E,y.E) and the sign of x.
func exactDivMod(x, y Dec) (q *big.Int, r Dec) {
	e := min(x.E, y.E)
	xn := new(big.Int).Mul(x.C, Pow10(x.E-e))
	yn := new(big.Int).Mul(y.C, Pow10(y.E-e))
	q, rr := new(big.Int).QuoRem(xn, yn, new(big.Int))
	return q, Dec{Neg: x.Neg, C: rr, E: e}
}

// tooMany reports that the integer quotient certainly exceeds the precision.
func (c Ctx) tooMany(x, y Dec) bool {
	return c.P != 0 && !x.IsZero() && x.Adj()-y.Adj() > c.P+1
}

func (c Ctx) QuoInt(x, y Dec) (Dec, Cond) {
	if d, f, ok := nan(x, y); ok {
		return d, f
	}
	neg := x.Neg != y.Neg
	if x.K == Inf {
		if y.K == Inf {
			return MkNaN(), InvalidOp
		}
		return MkInf(neg), 0
	}
	if y.K == Inf {
		return MkZero(neg, 0), 0
	}
	if y.IsZero() {
		if x.IsZero() {
			return MkNaN(), InvalidOp | DivUndef
		}
		return MkInf(neg), DivByZero
	}
	if c.tooMany(x, y) {
		return MkNaN(), DivImposs
	}
	q, _ := exactDivMod(x, y)
	if c.P != 0 && Digits(q) > c.P {
		return MkNaN(), DivImposs
	}
	return Dec{Neg: neg, C: q, E: 0}, 0
}

func (c Ctx) Rem(x, y Dec) (Dec, Cond) {
	if d, f, ok := nan(x, y); ok {
		return d, f
	}
	if x.K == Inf {
		return MkNaN(), InvalidOp
	}
	if y.K == Inf {
		return c.Fix(x)
	}
	if y.IsZero() {
		if x.IsZero() {
			return MkNaN(), InvalidOp | DivUndef
		}
		return MkNaN(), InvalidOp | DivByZero
	}
	if c.tooMany(x, y) {
		return MkNaN(), DivImposs
	}
	q, r := exactDivMod(x, y)
	if c.P != 0 && Digits(q) > c.P {
		return MkNaN(), DivImposs
	}
	return c.Fix(r)
}

// Quantize rescales x to exponent e.
func (c Ctx) Quantize(x Dec, e int) (Dec, Cond) {
	if d, f, ok := nan(x); ok {
		return d, f
	}
	if x.K == Inf {
		return MkNaN(), InvalidOp
	}
	if e > c.Emax || c.P != 0 && e < c.Etiny() {
		return MkNaN(), InvalidOp
	}
	if x.IsZero() {
		return MkZero(x.Neg, e), 0
	}
	if c.P != 0 && x.Adj()-e+1 > c.P {
		return MkNaN(), InvalidOp
	}
	if x.Adj() > c.Emax {
		return MkNaN(), InvalidOp
	}
	var r Dec
	var cond Cond
	if x.E >= e {
		r = Dec{Neg: x.Neg, C: new(big.Int).Mul(x.C, Pow10(x.E-e)), E: e}
	} else {
		q, in := RoundOff(x.C, e-x.E, x.Neg, c.M)
		r = Dec{Neg: x.Neg, C: q, E: e}
		cond |= Rounded
		if in {
			cond |= Inexact
		}
	}
	if !r.IsZero() {
		if c.P != 0 && r.Prec() > c.P {
			return MkNaN(), InvalidOp
		}
		if r.Adj() > c.Emax {
			return MkNaN(), InvalidOp
		}
		if r.Adj() < c.Emin {
			cond |= Subnormal
		}
	}
	return r, cond
}

// ToIntegral rounds x to an integer (exponent 0) if its exponent is negative.
func (c Ctx) ToIntegral(x Dec) (Dec, Cond) {
	if d, f, ok := nan(x); ok {
		return d, f
	}
	if x.K == Inf || x.E >= 0 {
		return x, 0
	}
	q, in := RoundOff(x.C, -x.E, x.Neg, c.M)
	cond := Rounded
	if in {
		cond |= Inexact
	}
	if x.IsZero() {
		cond = 0
	}
	return Dec{Neg: x.Neg, C: q, E: 0}, cond
}

// Plus rounds x to the context.
func (c Ctx) Plus(x Dec) (Dec, Cond) {
	if d, f, ok := nan(x); ok {
		return d, f
	}
	return c.Fix(x)
}

// StripZeros removes every trailing zero (zero becomes 0E0).
func StripZeros(x Dec) Dec {
	if x.K != Fin {
		return x
	}
	if x.IsZero() {
		return MkZero(x.Neg, 0)
	}
	x, _ = TowardExp(x, 1<<62)
	return x
}

// Sqrt: correctly rounded, ties-to-even; exact results take the exponent
// closest to floor(x.E/2).
func (c Ctx) Sqrt(x Dec) (Dec, Cond) {
	if d, f, ok := nan(x); ok {
		return d, f
	}
	ideal := floorDiv(x.E, 2)
	if x.K == Fin && x.IsZero() {
		return c.Fix(MkZero(x.Neg, ideal))
	}
	if x.Neg {
		return MkNaN(), InvalidOp
	}
	if x.K == Inf {
		return MkInf(false), 0
	}
	c.M = decimal.ToNearestEven
	// scale so that the integer root has at least P+2 digits
	e := x.E
	k := 2*(c.P+3) - Digits(x.C)
	if k < 0 {
		k = 0
	}
	if (e-k)&1 != 0 {
		k++
	}
	n := new(big.Int).Mul(x.C, Pow10(k))
	r := new(big.Int).Sqrt(n)
	exact := new(big.Int).Mul(r, r).Cmp(n) == 0
	d := Dec{C: r, E: (e - k) / 2}
	if !exact {
		d.C.Mul(d.C, Ten).Add(d.C, One)
		d.E--
	} else {
		d, _ = TowardExp(d, ideal)
	}
	return c.Fix(d)
}

func floorDiv(a, b int) int {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// Cmp compares two non-NaN data numerically.
func Cmp(x, y Dec) int {
	if x.K == Inf || y.K == Inf {
		return ord(x) - ord(y)
	}
	return cmpFin(x, y)
}

func ord(x Dec) int {
	if x.K != Inf {
		return 0
	}
	if x.Neg {
		return -1
	}
	return 1
}

func sgn(x Dec) int {
	if x.IsZero() {
		return 0
	}
	if x.Neg {
		return -1
	}
	return 1
}

func cmpFin(x, y Dec) int {
	sx, sy := sgn(x), sgn(y)
	if sx != sy {
		if sx < sy {
			return -1
		}
		return 1
	}
	if sx == 0 {
		return 0
	}
	if ax, ay := x.Adj(), y.Adj(); ax != ay {
		if ax < ay {
			return -sx
		}
		return sx
	}
	e := min(x.E, y.E)
	a := new(big.Int).Mul(x.C, Pow10(x.E-e))
	b := new(big.Int).Mul(y.C, Pow10(y.E-e))
	return a.Cmp(b) * sx
}

// CmpNum is Cmp normalised to -1,0,1.
func CmpNum(x, y Dec) int {
	r := Cmp(x, y)
	switch {
	case r < 0:
		return -1
	case r > 0:
		return 1
	}
	return 0
}

// CmpTotal is the GDA compare-total ordering.
func CmpTotal(x, y Dec) int {
	if x.Neg != y.Neg {
		if x.Neg {
			return -1
		}
		return 1
	}
	s := 1
	if x.Neg {
		s = -1
	}
	rank := func(d Dec) int {
		switch d.K {
		case QNaN:
			return 3
		case SNaN:
			return 2
		case Inf:
			return 1
		}
		return 0
	}
	if a, b := rank(x), rank(y); a != b {
		if a < b {
			return -s
		}
		return s
	}
	switch x.K {
	case Inf:
		return 0
	case QNaN, SNaN:
		switch {
		case x.Pay < y.Pay:
			return -s
		case x.Pay > y.Pay:
			return s
		}
		return 0
	}
	if r := CmpNum(x, y); r != 0 {
		return r
	}
	switch {
	case x.E < y.E:
		return -s
	case x.E > y.E:
		return s
	}
	return 0
}

// Class is the GDA class operation.
func (c Ctx) Class(x Dec) string {
	switch x.K {
	case QNaN:
		return "NaN"
	case SNaN:
		return "sNaN"
	}
	s := "+"
	if x.Neg {
		s = "-"
	}
	switch {
	case x.K == Inf:
		return s + "Infinity"
	case x.IsZero():
		return s + "Zero"
	case x.Adj() < c.Emin:
		return s + "Subnormal"
	}
	return s + "Normal"
}

// NextPlus / NextMinus.
func (c Ctx) NextPlus(x Dec) (Dec, Cond) {
	if d, f, ok := nan(x); ok {
		return d, f
	}
	big9 := func(neg bool) Dec {
		return Dec{Neg: neg, C: new(big.Int).Sub(Pow10(c.P), One), E: c.Etop()}
	}
	if x.K == Inf {
		if !x.Neg {
			return x, 0
		}
		return big9(true), 0
	}
	c.M = decimal.ToPositiveInf
	// The smallest representable number strictly greater than x.
	f, _ := c.Fix(x)
	if f.K == Inf || CmpNum(f, x) > 0 {
		return f, 0
	}

	if f.IsZero() {
		return New(1, c.Etiny()), 0
	}
	// f == x: take one step up.
	e := max(f.Adj()-c.P+1, c.Etiny())
	v := new(big.Int).Mul(f.C, Pow10(f.E-e))
	if !f.Neg {
		r, _ := c.Fix(Dec{C: v.Add(v, One), E: e})
		return r, 0
	}
	if v.Cmp(Pow10(c.P-1)) == 0 && e > c.Etiny() {
		v.Mul(v, Ten)
		e--
	}
	return Dec{Neg: true, C: v.Sub(v, One), E: e}, 0
}

func (c Ctx) NextMinus(x Dec) (Dec, Cond) {
	if d, f, ok := nan(x); ok {
		return d, f
	}
	d, f := c.NextPlus(x.Negated())
	if d.IsNaN() { // an invalid context
		return d, f
	}
	return d.Negated(), f
}

// SciString is the GDA to-scientific-string conversion of a finite or special
// value.
func SciString(d Dec) string {
	s := ""
	if d.Neg {
		s = "-"
	}
	switch d.K {
	case Inf:
		return s + "Infinity"
	case QNaN, SNaN:
		t := "NaN"
		if d.K == SNaN {
			t = "sNaN"
		}
		if d.Pay != 0 {
			t += strconv.FormatUint(d.Pay, 10)
		}
		return s + t
	}
	c := d.C.String()
	adj := d.E + len(c) - 1
	if d.E <= 0 && adj >= -6 {
		if d.E == 0 {
			return s + c
		}
		p := len(c) + d.E
		if p <= 0 {
			return s + "0." + strings.Repeat("0", -p) + c
		}
		return s + c[:p] + "." + c[p:]
	}
	r := s + c[:1]
	if len(c) > 1 {
		r += "." + c[1:]
	}
	r += "E"
	if adj >= 0 {
		r += "+"
	}
	return r + strconv.Itoa(adj)
}

// PlainString is positional notation without exponent.
func PlainString(d Dec) string {
	s := ""
	if d.Neg {
		s = "-"
	}
	c := d.C.String()
	if d.E >= 0 {
		return s + c + strings.Repeat("0", d.E)
	}
	p := len(c) + d.E
	if p <= 0 {
		return s + "0." + strings.Repeat("0", -p) + c
	}
	return s + c[:p] + "." + c[p:]
}
