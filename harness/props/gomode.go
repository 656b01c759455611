package props

import (
	"errors"
	"fmt"
	"math/big"
	"strings"

	"github.com/ericlagergren/decimal"

	"verif/pbt"
	"verif/ref"
)

// C25: the Go operating mode.

func init() {
	pbt.Register(&pbt.Prop{ID: "C25", Assumptions: assume, Subs: []pbt.Sub{
		pbt.Check[Arith]{Name: "lossless", Rule: "non-trivial: the exact result has more digits than the precision, or the same call in the GDA mode gives NaN",
			Quick: 1500000, Thorough: 40000000, Gen: genGoExact, Run: goExactRun},
		pbt.Check[Arith]{Name: "rounded", Rule: "non-trivial: the result is inexact in the GDA mode, or NaN",
			Quick: 800000, Thorough: 20000000, Gen: genGoRounded, Run: goRoundedRun},
		pbt.Check[fnCase]{Name: "functions", Rule: fnRule,
			Quick: 60000, Thorough: 1500000, Gen: genGoFn, Run: goFnRun},
		pbt.Check[goText]{Name: "text", Rule: "non-trivial: a special value, a zero or scientific notation",
			Quick: 800000, Thorough: 20000000, Gen: genGoText, Run: goTextRun},
	}})
}

func genGoArith(s *Src, names ...string) Arith {
	a := Arith{Op: pbt.Pick(s, names...)}
	a.Ctx = genCtx(s, ctxOpt{unlimited: 4})
	a.Ctx.Emax, a.Ctx.Emin = 0, 0
	a.Ctx.Go = true
	o := ops[a.Op]
	if a.Ctx.P == Unl && (a.Op == "Sqrt" || a.Op == "Quo" || strings.HasPrefix(a.Op, "Next")) {
		a.Ctx.P = 20
	}
	no := numOpt{special: 6, zero: 8, espan: 40}
	x := genNum(s, a.Ctx, no)
	a.X = num(x)
	if o.Arity > 1 {
		y := relatedTo(s, x, a.Ctx, no)
		if y.IsFin() && x.IsFin() && (y.E-x.E > 3000 || x.E-y.E > 3000) {
			y.E = x.E + s.Sym(30)
		}
		a.Y = num(y)
	}
	if o.Arity > 2 {
		u := genNum(s, a.Ctx, no)
		if u.IsFin() && x.IsFin() && s.Bool() {
			u.E = x.E + s.Sym(20)
		}
		a.U = num(u)
	}
	genShell(s, &a, dirtyOpt)
	a.Via = 0
	if o.Method == nil {
		a.Via = 1
	}
	switch a.Op {
	case "Quantize":
		a.N = -x.E + s.Sym(30)
		if !x.IsFin() {
			a.N = s.Sym(10)
		}
	case "RoundN":
		a.N = s.Range(1, 40)
	}
	return a
}

func genGoExact(s *Src) Arith {
	return genGoArith(s, "Add", "Add", "Sub", "Sub", "Mul", "Mul", "FMA", "Set", "Abs", "Neg")
}

func genGoRounded(s *Src) Arith {
	a := genGoArith(s, "Quo", "Quo", "QuoInt", "Rem", "Sqrt", "Ceil", "Floor", "Quantize", "RoundN", "RoundToInt", "Round", "NextPlus", "NextMinus")
	if strings.HasPrefix(a.Op, "Round") && a.Op != "RoundToInt" && a.X.dec().IsNaN() { // left alone
		a.X = "0E0"
	}
	return a
}

// goRun performs the call in the Go mode; the panic value is returned.
func goRun(a Arith, t *T) (got ref.Dec, x, y, u ref.Dec, pan any) {
	o := ops[a.Op]
	v := [3]ref.Dec{a.X.dec(), datum(a.Y), datum(a.U)}
	has := func(b byte) bool { return strings.IndexByte(a.Alias, b) >= 0 }
	first := -1
	for i := 0; i < o.Arity; i++ {
		if has("xyu"[i]) {
			if first < 0 {
				first = i
			} else {
				v[i] = v[first]
			}
		}
	}
	z := new(decimal.Big)
	if a.Z != "" {
		z = mk(a.Z.dec(), 0)
	}
	var b [3]*decimal.Big
	var shared *decimal.Big
	for i := range b {
		if i < o.Arity && has("xyu"[i]) && shared != nil {
			b[i] = shared
			continue
		}
		b[i] = mk(v[i], a.Path)
		if i < o.Arity && has("xyu"[i]) {
			shared = b[i]
			if has('z') {
				z = shared
			}
		}
	}
	if o.InPlace {
		z = b[0]
	}
	ctx := a.Ctx.lib()
	z.Context = ctx
	func() {
		defer func() { pan = recover() }()
		if a.Via == 1 {
			o.Call(ctx, z, b[0], b[1], b[2], a.N)
		} else {
			o.Method(z, b[0], b[1], b[2], a.N)
		}
	}()
	for i := range b {
		if b[i] != z {
			if d := mustObs(t, "operand of "+a.Op, b[i]); !same4(d, v[i]) {
				t.Failf("%s in the Go mode modified an operand: %v became %v", a.Op, v[i], d)
			}
		}
	}
	if pan == nil {
		got = mustObs(t, a.Op, z)
	}
	return got, v[0], v[1], v[2], pan
}

// goNaN judges the panic; done means that there is no result to compare.
func goNaN(a Arith, t *T, want ref.Dec, fl ref.Cond, pan any, what string) (done bool) {
	if want.IsNaN() && a.Op != "Set" {
		t.Nontrivial()
		t.Tag("nan")
		if pan == nil {
			t.Failf("%s in the Go mode did not panic, it is NaN", what)
		}
	}
	if pan == nil {
		return false
	}
	e, ok := pan.(error)
	var en decimal.ErrNaN
	if !ok || !errors.As(e, &en) {
		panic(pan)
	}
	if !want.IsNaN() || a.Op == "Set" {
		t.Failf("%s in the Go mode panicked with %q, want %v", what, e, want)
	}
	if m := e.Error(); fl&ref.InvalidOp != 0 && a.Op != "FMA" && !strings.Contains(m, "invalid operation") {
		t.Failf("%s in the Go mode panicked with %q, which does not say [%v]", what, m, fl)
	}
	return true
}

func goExactRun(a Arith, t *T) {
	got, x, y, u, pan := goRun(a, t)
	c := a.Ctx.ref()
	p := c.P
	c.P = 0
	o := ops[a.Op]
	want, fl := o.Model(c, x, y, u, a.N)
	r := outcome{x: x, y: y, u: u}
	what := fmt.Sprintf("%s(%s) with precision %d", a.Op, r.args(o), p)
	if goNaN(a, t, want, fl, pan, what) {
		return
	}
	t.Tag(a.Op)
	if want.IsFin() && p > 0 && want.Prec() > p {
		t.Nontrivial()
	}
	if !sameNum(got, want) {
		t.Failf("%s in the Go mode = %v, want exactly %v", what, got, want)
	}
}

// sameNum: same value; quantum and the sign of zero are not compared.
func sameNum(a, b ref.Dec) bool {
	if a.K != b.K {
		return false
	}
	switch a.K {
	case ref.Fin:
		return ref.CmpNum(a, b) == 0
	case ref.Inf:
		return a.Neg == b.Neg
	}
	return true
}

func goRoundedRun(a Arith, t *T) {
	got, x, y, u, pan := goRun(a, t)
	o := ops[a.Op]
	want, fl := o.Model(a.Ctx.ref(), x, y, u, a.N)
	r := outcome{x: x, y: y, u: u}
	what := fmt.Sprintf("%s(%s) n=%d prec=%d %s", a.Op, r.args(o), a.N, a.Ctx.prec(), modeName(a.Ctx.M))
	if goNaN(a, t, want, fl, pan, what) {
		return
	}
	t.Tag(a.Op)
	if fl&ref.Inexact != 0 {
		t.Nontrivial()
	}
	if a.Op == "Rem" && fl&ref.Inexact != 0 {
		// A remainder is not rounded where the dividend, copied by a lossless
		// operation, would not be.
		c := a.Ctx
		c.P = Unl
		if exact, _ := o.Model(c.ref(), x, y, u, a.N); sameNum(got, exact) {
			return
		}
	}
	if !sameNum(got, want) {
		t.Failf("%s in the Go mode = %v, want %v", what, got, want)
	}
}

func genGoFn(s *Src) fnCase {
	var f fnCase
	switch s.N(4) {
	case 0:
		f = genExpLog(s)
	case 1:
		f = genPow(s)
	case 2:
		f = genTrig("Sin", "Cos", "Tan")(s)
	case 3:
		f = genTrig("Asin", "Acos", "Atan", "Atan2")(s)
	}
	if s.In(1, 8) {
		f.X = num(genNum(s, f.Ctx, numOpt{special: 60, zero: 40}))
	}
	if s.In(1, 8) && f.Y != "" {
		f.Y = num(genNum(s, f.Ctx, numOpt{special: 60, zero: 40}))
	}
	if f.Ctx.P > 60 {
		f.Ctx.P = 60
	}
	f.Ctx.Go = true
	return f
}

func goFnRun(f fnCase, t *T) {
	x := f.X.dec()
	y := datum(f.Y)
	if w, ok := specialOf(f.Fn, x, y); ok && w.kind == "nan" {
		t.Nontrivial()
		t.Tag("nan")
		z := decimal.WithContext(f.Ctx.lib())
		var pan any
		func() {
			defer func() { pan = recover() }()
			callFn(f.Fn, f.Ctx.lib(), z, mk(x, 0), mk(y, 0))
		}()
		what := f.desc(x, y)
		if pan == nil {
			t.Failf("%s in the Go mode did not panic, it is NaN", what)
		}
		e, ok := pan.(decimal.ErrNaN)
		if !ok {
			panic(pan)
		}
		if !x.IsNaN() && !y.IsNaN() && !strings.Contains(e.Error(), "invalid operation") {
			t.Failf("%s in the Go mode panicked with %q, which does not say that the operation is invalid", what, e.Error())
		}
		return
	}
	switch f.Fn {
	case "Sin", "Cos", "Tan":
		if x.IsFin() && x.Adj() >= 20 { // the limit of the argument reduction, a panic
			return
		}
	}
	f.Alias, f.ZC = "", 0
	f.OC = f.Ctx
	got, _, x, y := runFn(f, t)
	if w, ok := specialOf(f.Fn, x, y); ok {
		switch {
		case w.kind == "inf" && !(got.K == ref.Inf && got.Neg == w.neg),
			w.kind == "zero" && !(got.IsFin() && got.IsZero()):
			t.Failf("%s in the Go mode = %v, want %s", f.desc(x, y), got, w.kind)
		case w.kind == "value" && !sameNum(got, w.val):
			t.Failf("%s in the Go mode = %v, want %v", f.desc(x, y), got, w.val)
		}
		return
	}
	if piMultiple(f, t, got, x, y) {
		t.Nontrivial()
		return
	}
	switch f.Fn {
	case "Pow":
		if y.Adj() > 5 {
			return
		}
	case "Sin", "Cos", "Tan":
		if x.Adj() > 12 {
			return
		}
	case "Exp":
		if x.Adj() > 6 {
			return
		}
	}
	ax, neg := x, false
	if f.Fn == "Pow" && x.Neg {
		ax, neg = x.Abs(), isOddInt(y)
	}
	a := ref.Fn(f.Fn, ax, y, ref.PrecBits(f.Ctx.prec())+16)
	if neg {
		a.M = new(big.Int).Neg(a.M)
	}
	if a.Adj() > 100000000 || a.Adj() < -100000000 {
		return
	}
	t.Nontrivial()
	judgeApproxLim(f, t, got, a, x, y, 1100)
}

type goText struct {
	X Num `json:"x"`
}

func genGoText(s *Src) goText {
	return goText{X: num(genNum(s, CtxJ{P: genPrec(s)}, numOpt{special: 20, zero: 15, espan: 30}))}
}

func goTextRun(c goText, t *T) {
	d := c.X.dec()
	x := mk(d, 0)
	x.Context.OperatingMode = decimal.Go
	var want string
	switch {
	case d.IsNaN():
		want = "NaN"
	case d.K == ref.Inf && d.Neg:
		want = "-Inf"
	case d.K == ref.Inf:
		want = "+Inf"
	case d.IsZero():
		want = "0"
	default:
		want = strings.Replace(ref.SciString(d), "E", "e", 1)
	}
	if d.K != ref.Fin || d.IsZero() || strings.Contains(want, "e") {
		t.Nontrivial()
	}
	b, err := x.MarshalText()
	if err != nil {
		t.Failf("MarshalText of %v in the Go mode: %v", d, err)
	}
	for name, got := range map[string]string{"String": x.String(), "%v": fmt.Sprintf("%v", x), "%s": fmt.Sprintf("%s", x), "MarshalText": string(b)} {
		if got != want {
			t.Failf("%s of %v in the Go mode = %q, want %q", name, d, got, want)
		}
	}
	if d.IsNaN() {
		return
	}
	z := decimal.WithContext(decimal.Context{OperatingMode: decimal.Go, Precision: decimal.UnlimitedPrecision})
	if _, ok := z.SetString(want); !ok {
		t.Failf("SetString does not accept %q, which the Go mode prints", want)
	}
	if g := mustObs(t, "SetString", z); !sameNum(g, d) {
		t.Failf("SetString(%q) in the Go mode = %v, want %v", want, g, d)
	}
}
