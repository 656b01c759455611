package ref

import (
	"math/big"
	"math/bits"
	"sync"
)

// Transcendental functions in binary fixed point. Each fx function returns
// value*2**w rounded somehow, off by at most a few units.

// Approx is M * 2**-W * 10**K with |error in M| <= 8.
type Approx struct {
	M    *big.Int
	W, K int
}

func fxDiv(n, d *big.Int, w int) *big.Int {
	v := new(big.Int).Lsh(n, uint(w))
	return v.Quo(v, d)
}

// rat returns the value of the finite d as a fraction.
// Ratio is the finite d as a fraction.
func (d Dec) Ratio() (n, m *big.Int) { return d.rat() }

func (d Dec) rat() (n, m *big.Int) {
	n, m = new(big.Int).Set(d.C), big.NewInt(1)
	if d.Neg {
		n.Neg(n)
	}
	if d.E >= 0 {
		n.Mul(n, Pow10(d.E))
	} else {
		m = Pow10(-d.E)
	}
	return
}

func shr(x *big.Int, n int) *big.Int { // truncating, sign-symmetric
	if n < 0 {
		return new(big.Int).Lsh(x, uint(-n))
	}
	if x.Sign() < 0 {
		v := new(big.Int).Neg(x)
		v.Rsh(v, uint(n))
		return v.Neg(v)
	}
	return new(big.Int).Rsh(x, uint(n))
}

func fxMul(a, b *big.Int, w int) *big.Int { return shr(new(big.Int).Mul(a, b), w) }

type fxCache struct {
	mu sync.Mutex
	w  int
	v  *big.Int
	f  func(w int) *big.Int
}

func (c *fxCache) get(w int) *big.Int {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.v == nil || c.w < w {
		c.w = w + w/2 + 64
		c.v = c.f(c.w)
	}
	return new(big.Int).Rsh(c.v, uint(c.w-w))
}

// arcInv returns atan(1/n) or atanh(1/n).
func arcInv(n int64, w int, hyper bool) *big.Int {
	w += 32
	t := new(big.Int).Lsh(One, uint(w))
	t.Quo(t, big.NewInt(n))
	n2 := big.NewInt(n * n)
	s := new(big.Int).Set(t)
	for k := int64(3); t.Sign() != 0; k += 2 {
		t.Quo(t, n2)
		u := new(big.Int).Quo(t, big.NewInt(k))
		if !hyper && k&2 != 0 {
			s.Sub(s, u)
		} else {
			s.Add(s, u)
		}
	}
	return s.Rsh(s, 32)
}

func lin(w int, hyper bool, terms ...int64) *big.Int {
	s := new(big.Int)
	for i := 0; i < len(terms); i += 2 {
		s.Add(s, new(big.Int).Mul(big.NewInt(terms[i]), arcInv(terms[i+1], w+16, hyper)))
	}
	return s.Rsh(s, 16)
}

var (
	eC    = fxCache{f: func(w int) *big.Int { return fxExp(new(big.Int).Lsh(One, uint(w)), w) }}
	piC   = fxCache{f: func(w int) *big.Int { return lin(w, false, 16, 5, -4, 239) }}
	ln10C = fxCache{f: func(w int) *big.Int { return lin(w, true, 46, 31, 34, 49, 20, 161) }}
	ln2C  = fxCache{f: func(w int) *big.Int { return lin(w, true, 18, 26, -2, 4801, 8, 8749) }}
)

// fxExp returns exp(r) for 0 <= r < 4 or so.
func fxExp(r *big.Int, w int) *big.Int {
	s := 4
	for s*s < w {
		s++
	}
	g := w + 2*s + 32
	t := new(big.Int).Lsh(r, uint(g-w))
	t.Rsh(t, uint(s))
	sum := new(big.Int).Lsh(One, uint(g))
	term := new(big.Int).Set(sum)
	for k := int64(1); ; k++ {
		term.Mul(term, t)
		term.Rsh(term, uint(g))
		term.Quo(term, big.NewInt(k))
		if term.Sign() == 0 {
			break
		}
		sum.Add(sum, term)
	}
	for ; s > 0; s-- {
		sum.Mul(sum, sum)
		sum.Rsh(sum, uint(g))
	}
	return sum.Rsh(sum, uint(g-w))
}

// expOf returns exp of the number whose fixed-point values arg provides.
func expOf(arg func(w int) *big.Int, w int) Approx {
	a := arg(8)
	kb := a.BitLen() + 8
	g := w + kb + 32
	x := arg(g)
	l := ln10C.get(g)
	k := new(big.Int)
	r := new(big.Int)
	k.DivMod(x, l, r) // r in [0, l)
	e := fxExp(shr(r, g-w-16), w+16)
	return Approx{e.Rsh(e, 16), w, int(k.Int64())}
}

// fxLn returns ln(n/d), n/d > 0.
func fxLn(n, d *big.Int, w int) *big.Int {
	// m = n/d / 2**j in [0.7, 1.42)
	j := n.BitLen() - d.BitLen()
	g := w + 64 + bits.Len(uint(abs(j)))
	num, den := n, d
	if j > 0 {
		den = new(big.Int).Lsh(d, uint(j))
	} else if j < 0 {
		num = new(big.Int).Lsh(n, uint(-j))
	}
	// num/den in (1/2, 2)
	if new(big.Int).Mul(num, big.NewInt(10)).Cmp(new(big.Int).Mul(den, big.NewInt(7))) < 0 {
		num = new(big.Int).Lsh(num, 1)
		j--
	} else if new(big.Int).Mul(num, big.NewInt(10)).Cmp(new(big.Int).Mul(den, big.NewInt(14))) > 0 {
		den = new(big.Int).Lsh(den, 1)
		j++
	}
	s := 2
	for s*s*4 < w {
		s++
	}
	g += 2 * s
	var y *big.Int
	// ln m = 2 atanh((m-1)/(m+1)), after s square roots of m
	m := fxDiv(num, den, g)
	one := new(big.Int).Lsh(One, uint(g))
	for i := 0; i < s; i++ {
		m.Lsh(m, uint(g))
		m.Sqrt(m)
	}
	y = fxDiv(new(big.Int).Sub(m, one), new(big.Int).Add(m, one), g)
	y2 := fxMul(y, y, g)
	sum := new(big.Int).Set(y)
	t := new(big.Int).Set(y)
	for k := int64(3); ; k += 2 {
		t = fxMul(t, y2, g)
		if t.Sign() == 0 {
			break
		}
		sum.Add(sum, new(big.Int).Quo(t, big.NewInt(k)))
	}
	sum.Lsh(sum, uint(1+s))
	sum.Add(sum, new(big.Int).Mul(ln2C.get(g), big.NewInt(int64(j))))
	return shr(sum, g-w)
}

// lnDec returns ln(x), x > 0.
func lnDec(x Dec, w int) *big.Int {
	if abs(x.E) <= 3000 {
		n, d := x.rat()
		return fxLn(n, d, w)
	}
	adj := x.Adj()
	l := fxLn(x.C, Pow10(x.Prec()-1), w+70)
	l.Add(l, new(big.Int).Mul(ln10C.get(w+70), big.NewInt(int64(adj))))
	return shr(l, 70)
}

func abs(i int) int {
	if i < 0 {
		return -i
	}
	return i
}

// fxSinCos returns sin and cos of n/d.
func fxSinCos(n, d *big.Int, w int) (s, c *big.Int) {
	ib := max(0, n.BitLen()-d.BitLen()+1)
	g := w + 48
	gg := g + ib + 8
	x := fxDiv(n, d, gg)
	half := piC.get(gg) // pi
	half.Rsh(half, 1)
	q, r := new(big.Int), new(big.Int)
	// nearest multiple of pi/2
	q.Add(x, new(big.Int).Rsh(half, 1))
	q.Div(q, half)
	r.Sub(x, new(big.Int).Mul(q, half))
	r = shr(r, gg-g)
	r2 := fxMul(r, r, g)
	one := new(big.Int).Lsh(One, uint(g))
	ser := func(t *big.Int, k int64) *big.Int {
		sum := new(big.Int).Set(t)
		for neg := true; ; neg = !neg {
			t = fxMul(t, r2, g)
			t = new(big.Int).Quo(t, big.NewInt((k+1)*(k+2)))
			k += 2
			if t.Sign() == 0 {
				return sum
			}
			if neg {
				sum.Sub(sum, t)
			} else {
				sum.Add(sum, t)
			}
		}
	}
	sn, cs := ser(r, 1), ser(one, 0)
	switch new(big.Int).And(q, big.NewInt(3)).Int64() {
	case 1:
		sn, cs = cs, new(big.Int).Neg(sn)
	case 2:
		sn, cs = new(big.Int).Neg(sn), new(big.Int).Neg(cs)
	case 3:
		sn, cs = new(big.Int).Neg(cs), sn
	}
	return shr(sn, g-w), shr(cs, g-w)
}

// fxAtan returns atan of the fixed-point y with |y| <= 1 (w bits).
func fxAtan(y *big.Int, w int) *big.Int {
	s := 2
	for s*s*4 < w {
		s++
	}
	g := w + 2*s + 48
	y = new(big.Int).Lsh(y, uint(g-w))
	one := new(big.Int).Lsh(One, uint(g))
	for i := 0; i < s; i++ {
		q := new(big.Int).Mul(y, y)
		q.Add(q, new(big.Int).Lsh(One, uint(2*g)))
		q.Sqrt(q)
		y = fxDiv(y, q.Add(q, one), g)
	}
	y2 := fxMul(y, y, g)
	sum := new(big.Int).Set(y)
	t := new(big.Int).Set(y)
	for k, neg := int64(3), true; ; k, neg = k+2, !neg {
		t = fxMul(t, y2, g)
		if t.Sign() == 0 {
			break
		}
		u := new(big.Int).Quo(t, big.NewInt(k))
		if neg {
			sum.Sub(sum, u)
		} else {
			sum.Add(sum, u)
		}
	}
	sum.Lsh(sum, uint(s))
	return shr(sum, g-w)
}

// fxAtanRat returns atan(n/d), d > 0.
func fxAtanRat(n, d *big.Int, w int) *big.Int {
	if n.CmpAbs(d) <= 0 {
		return shr(fxAtan(fxDiv(n, d, w+8), w+8), 8)
	}
	a := fxAtan(fxDiv(d, new(big.Int).Abs(n), w+8), w+8)
	h := piC.get(w + 8)
	a.Sub(h.Rsh(h, 1), a)
	if n.Sign() < 0 {
		a.Neg(a)
	}
	return shr(a, 8)
}

// Fn evaluates the named function to an approximation with at least need
// significant bits.
func Fn(name string, x, y Dec, need int) Approx {
	for w := need + 40; ; w = w + need + 200 {
		a := fn(name, x, y, w)
		if a.M.BitLen() >= need+12 {
			return a
		}
		if w > 200000 {
			return a
		}
	}
}

func fn(name string, x, y Dec, w int) Approx {
	var n, d *big.Int
	if x.C != nil && name != "Log" && name != "Log10" && name != "Pow" {
		n, d = x.rat()
	}
	fix := func(m *big.Int) Approx { return Approx{m, w, 0} }
	switch name {
	case "Exp":
		return expOf(func(w int) *big.Int { return fxDiv(n, d, w) }, w)
	case "Log":
		return fix(lnDec(x, w))
	case "Log10":
		return fix(fxDiv(lnDec(x, w+16), ln10C.get(w+16), w))
	case "Pow": // x > 0
		yn, yd := y.rat()
		b := max(0, yn.BitLen()-yd.BitLen()+1)
		return expOf(func(w int) *big.Int {
			g := w + b + 16
			l := lnDec(x, g)
			l.Mul(l, yn)
			l.Quo(l, yd)
			return shr(l, g-w)
		}, w)
	case "Sin":
		s, _ := fxSinCos(n, d, w)
		return fix(s)
	case "Cos":
		_, c := fxSinCos(n, d, w)
		return fix(c)
	case "Tan":
		// |tan| can be huge near the poles: extra bits where cos is small
		g := w + 64
		for {
			s, c := fxSinCos(n, d, g)
			if c.BitLen()*2 > g+w+32 || g > 400000 {
				if c.Sign() == 0 {
					panic("ref: tan pole")
				}
				return fix(fxDiv(s, c, w))
			}
			g *= 2
		}
	case "Atan":
		return fix(fxAtanRat(n, d, w))
	case "Asin":
		// atan(x / sqrt((1-x)(1+x)))
		g := w + 32
		p := new(big.Int).Mul(new(big.Int).Sub(d, n), new(big.Int).Add(d, n))
		q := fxDiv(p, new(big.Int).Mul(d, d), 2*g)
		q.Sqrt(q)
		if q.Sign() == 0 {
			h := piC.get(w + 1)
			h.Rsh(h, 2)
			if n.Sign() < 0 {
				h.Neg(h)
			}
			return fix(h)
		}
		return fix(fxAtanRat(fxDiv(n, d, g), q, w))
	case "Acos":
		g := w + 32
		q := fxDiv(new(big.Int).Sub(d, n), new(big.Int).Add(d, n), 2*g)
		q.Sqrt(q)
		one := new(big.Int).Lsh(One, uint(g))
		return fix(shr(fxAtanRat(q, one, w+8), 7))
	case "Atan2": // x is the ordinate, y the abscissa; both non-zero finite
		yn, yd := y.rat()
		num := new(big.Int).Mul(n, yd)
		den := new(big.Int).Mul(d, yn)
		if den.Sign() < 0 {
			num.Neg(num)
			den.Neg(den)
		}
		a := fxAtanRat(num, den, w+8)
		if y.Neg {
			if x.Neg {
				a.Sub(a, piC.get(w+8))
			} else {
				a.Add(a, piC.get(w+8))
			}
		}
		return fix(shr(a, 8))
	case "Hypot":
		a := Dec{C: new(big.Int).Mul(x.C, x.C), E: 2 * x.E}
		b := Dec{C: new(big.Int).Mul(y.C, y.C), E: 2 * y.E}
		an, ad := a.rat()
		bn, bd := b.rat()
		num := new(big.Int).Add(new(big.Int).Mul(an, bd), new(big.Int).Mul(bn, ad))
		r := fxDiv(num, new(big.Int).Mul(ad, bd), 2*w)
		return fix(r.Sqrt(r))
	case "Pi":
		return fix(piC.get(w))
	case "E":
		return fix(eC.get(w))
	}
	panic(name)
}

// PrecBits is the number of bits that hold p decimal digits.
func PrecBits(p int) int { return p*3322/1000 + 8 }

// UlpDiff returns the distance between z and a in thousandths of a unit in the
// last place of a p-digit number of a's magnitude, and the adjusted exponent
// of a.
func (a Approx) UlpDiff(z Dec, p int) (milli *big.Int, adj int) {
	adj = a.Adj()
	ue := adj - p + 1
	// |z - a| * 1000 / 10**ue
	// = |C 10^E - M 2^-W 10^K| * 1000 * 10^-ue
	n := new(big.Int).Set(z.C)
	if z.Neg {
		n.Neg(n)
	}
	lo := min(z.E, a.K, ue)
	if abs(z.E) > 1<<61 || z.E-lo > 100000 || a.K-lo > 100000 || ue-lo > 100000 {
		return new(big.Int).Lsh(One, 62), adj
	}
	n.Mul(n, Pow10(z.E-lo))
	n.Lsh(n, uint(a.W))
	n.Sub(n, new(big.Int).Mul(a.M, Pow10(a.K-lo)))
	n.Abs(n)
	n.Mul(n, big.NewInt(1000))
	den := new(big.Int).Lsh(Pow10(ue-lo), uint(a.W))
	return n.Quo(n, den), adj
}

// Adj is the adjusted exponent of a.
func (a Approx) Adj() int {
	m := new(big.Int).Abs(a.M)
	if m.Sign() == 0 {
		return 0
	}
	// floor(log10(m / 2^W))
	e := int(float64(m.BitLen()-a.W) * 0.30103)
	for e += 2; ; e-- {
		// m >= 10^e * 2^W ?
		l, r := new(big.Int).Set(m), new(big.Int).Lsh(One, uint(a.W))
		if e >= 0 {
			r.Mul(r, Pow10(e))
		} else {
			l.Mul(l, Pow10(-e))
		}
		if l.Cmp(r) >= 0 {
			return e + a.K
		}
	}
}
