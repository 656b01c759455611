package props

import (
	"fmt"
	"math"
	"math/big"
	"strings"

	"github.com/ericlagergren/decimal"

	"verif/pbt"
	"verif/ref"
)

// C08: conditions are sticky, belong to the receiver, and Err reports exactly
// the trapped ones. C09: special values.

func init() {
	pbt.Register(&pbt.Prop{ID: "C08", Assumptions: assume, Subs: []pbt.Sub{
		pbt.Check[condSeq]{Name: "sequence", Rule: "non-trivial: at least two different conditions were raised, at least one of them trapped and one not",
			Quick: 1500000, Thorough: 40000000, Gen: genCondSeq, Run: condSeqRun},
		pbt.Check[stickyCase]{Name: "sticky", Rule: "non-trivial: the call raises a condition, and the receiver holds one that it does not raise",
			Quick: 1500000, Thorough: 40000000, Gen: genSticky, Run: stickyRun},
		pbt.Check[condText]{Name: "text", Rule: "non-trivial: at least two bits set",
			Quick: 200000, Thorough: 2000000, Gen: func(s *Src) condText {
				return condText{uint32(s.U64()) & uint32(pbt.Pick(s, 1<<13-1, 1<<20-1, 1<<32-1))}
			}, Run: condTextRun},
	}})
	names := []string{"Add", "Sub", "Mul", "Quo", "QuoInt", "Rem", "FMA", "Set", "Abs", "Neg", "Sqrt", "Ceil", "Floor", "Quantize", "Round", "RoundToInt", "Reduce", "NextPlus", "NextMinus"}
	gen := genOps(names, ctxOpt{limited: 20, unlimited: 5}, numOpt{special: 45, zero: 25})
	pbt.Register(&pbt.Prop{ID: "C09", Assumptions: assume, Subs: []pbt.Sub{
		pbt.Check[Arith]{Name: "arithmetic", Rule: "non-trivial: an operand is an infinity, a NaN or zero",
			Quick: 3000000, Thorough: 60000000,
			Gen: func(s *Src) Arith {
				a := gen(s)
				genShell(s, &a, dirtyOpt)
				if a.Ctx.P == Unl && (a.Op == "Sqrt" || a.Op == "Quo" || strings.HasPrefix(a.Op, "Next")) {
					a.Ctx.P = 20
				}
				return a
			},
			Run: specialRun},
		pbt.Check[fnCase]{Name: "functions", Rule: "non-trivial: the table of special cases decides the result",
			Quick: 800000, Thorough: 15000000, Gen: genSpecialFn, Run: specialFnRun},
	}})
}

type condSeq struct {
	Ctx   CtxJ    `json:"ctx"`
	Traps uint32  `json:"traps"`
	Ops   []Arith `json:"ops"`
}

var condOps = []string{"Add", "Sub", "Mul", "Quo", "QuoInt", "Rem", "FMA", "Set", "Abs", "Neg", "Sqrt", "Ceil", "Floor", "NextPlus", "NextMinus"}

func genCondSeq(s *Src) condSeq {
	c := condSeq{Ctx: genCtx(s, ctxOpt{limited: 60})}
	switch s.N(3) {
	case 0:
		c.Traps = uint32(s.N(1 << 13))
	case 1:
		c.Traps = uint32(^(decimal.Inexact | decimal.Rounded | decimal.Subnormal))
	case 2:
		c.Traps = 1 << s.N(13)
	}
	for n := s.Range(1, 6); n > 0; n-- {
		a := Arith{Op: pbt.Pick(s, condOps...), Ctx: c.Ctx, Via: s.N(2), Path: s.N(3)}
		o := ops[a.Op]
		if o.Method == nil {
			a.Via = 1
		}
		no := numOpt{special: 12, zero: 12}
		a.X = num(genNum(s, c.Ctx, no))
		if o.Arity > 1 {
			a.Y = num(genNum(s, c.Ctx, no))
		}
		if o.Arity > 2 {
			a.U = num(genNum(s, c.Ctx, no))
		}
		c.Ops = append(c.Ops, a)
	}
	return c
}

func condSeqRun(c condSeq, t *T) {
	ctx := c.Ctx.lib()
	ctx.Traps = decimal.Condition(c.Traps)
	z := decimal.WithContext(ctx)
	var want ref.Cond
	for i, a := range c.Ops {
		o := ops[a.Op]
		bx, by, bu := (*decimal.Big)(nil), (*decimal.Big)(nil), (*decimal.Big)(nil)
		var dx, dy, du ref.Dec
		dx, bx = a.X.dec(), mk(a.X.dec(), a.Path)
		if o.Arity > 1 {
			dy, by = a.Y.dec(), mk(a.Y.dec(), a.Path)
		}
		if o.Arity > 2 {
			du, bu = a.U.dec(), mk(a.U.dec(), a.Path)
		}
		if a.Via == 1 {
			o.Call(ctx, z, bx, by, bu, 0)
		} else {
			o.Method(z, bx, by, bu, 0)
		}
		_, f := o.Model(c.Ctx.ref(), dx, dy, du, 0)
		want |= f
		if z.Context.Conditions != want {
			t.Failf("after operation %d (%s(%s, %s, %s)): conditions are [%v], want [%v]", i, a.Op, a.X, a.Y, a.U, z.Context.Conditions, want)
		}
		for _, b := range []*decimal.Big{bx, by, bu} {
			if b != nil && b.Context != (decimal.Context{}) {
				t.Failf("%s changed the context of an operand: %+v", a.Op, b.Context)
			}
		}
		err := z.Context.Err()
		trapped := want & ref.Cond(c.Traps)
		if (err != nil) != (trapped != 0) {
			t.Failf("after %s: conditions [%v], traps [%v]: Err() = %v", a.Op, want, decimal.Condition(c.Traps), err)
		}
		if err != nil {
			if got, ok := err.(decimal.Condition); !ok || got != trapped {
				t.Failf("after %s: Err() = %v, want exactly the trapped conditions [%v]", a.Op, err, trapped)
			}
			if err.Error() != condNames(trapped) {
				t.Failf("Err().Error() = %q, want %q", err.Error(), condNames(trapped))
			}
		}
	}
	tagFlags(t, want)
	if w := want & ref.Cond(c.Traps); w != 0 && w != want {
		t.Nontrivial()
	}
}

var condName = []string{"clamped", "conversion syntax", "division by zero", "division impossible", "division undefined", "inexact", "insufficient storage", "invalid context", "invalid operation", "overflow", "rounded", "subnormal", "underflow"}

func condNames(c decimal.Condition) string {
	var s []string
	for i, n := range condName {
		if c&(1<<i) != 0 {
			s = append(s, n)
		}
	}
	return strings.Join(s, ", ")
}

type condText struct {
	C uint32 `json:"c"`
}

func condTextRun(c condText, t *T) {
	v := decimal.Condition(c.C)
	s := v.String()
	if v.Error() != s {
		t.Failf("Condition(%d): Error() = %q but String() = %q", c.C, v.Error(), s)
	}
	known := condNames(v & allCond)
	if v&^allCond == 0 {
		if s != known {
			t.Failf("Condition(%#x).String() = %q, want %q", c.C, s, known)
		}
	} else if !strings.HasPrefix(s, known) {
		t.Failf("Condition(%#x).String() = %q, want it to name %q", c.C, s, known)
	}
	if v&(v-1) != 0 {
		t.Nontrivial()
	}
}

func specialRun(a Arith, t *T) {
	r := runArith(a, t)
	for _, d := range []ref.Dec{r.x, r.y, r.u} {
		if d.K != ref.Fin || d.C != nil && d.IsZero() {
			t.Nontrivial()
			t.Tag("special operand")
		}
	}
	t.Tag(a.Op)
	tagFlags(t, r.flags)
	if strings.HasPrefix(a.Op, "Next") && r.got.IsZero() && r.want.IsZero() {
		r.got.Neg = r.want.Neg
	}
	judge(a, r, t, true)
}

// stickyCase is one call of anything that reports conditions, made with a new
// receiver and with one that has already raised some.
type stickyCase struct {
	Op    string `json:"op"`
	Ctx   CtxJ   `json:"ctx"`
	X     Num    `json:"x"`
	Y     Num    `json:"y,omitempty"`
	U     Num    `json:"u,omitempty"`
	N     int    `json:"n,omitempty"`
	S     string `json:"s,omitempty"`
	ZC    uint32 `json:"zc"`
	RC    uint32 `json:"rc,omitempty"`
	Traps uint32 `json:"traps,omitempty"`
	Via   int    `json:"via,omitempty"`
}

var (
	stickyOps  = []string{"Add", "Sub", "Mul", "Quo", "QuoInt", "Rem", "FMA", "Set", "Abs", "Neg", "Sqrt", "Ceil", "Floor", "NextPlus", "NextMinus", "Quantize", "Round", "RoundN", "RoundToInt", "Reduce"}
	stickyFns  = []string{"Exp", "Log", "Log10", "Sin", "Cos", "Tan", "Asin", "Acos", "Atan", "Pow", "Atan2", "Hypot", "Pi", "E"}
	stickyText = []string{"SetString", "Context.SetString", "UnmarshalText", "UnmarshalJSON", "Sscan"}
	stickyElse = []string{"QuoRem", "QuoRem", "SetRat", "CheckNaNs", "Lentz", "Copy", "CopyAbs", "CopyNeg", "CopySign", "Canonical",
		"SetUint64", "SetMantScale", "SetBigMantScale", "SetFloat64", "SetInf", "SetNaN", "SetScale", "SetSignbit", "Compose", "String", "Cmp"}
)

func genSticky(s *Src) stickyCase {
	c := stickyCase{Ctx: genCtx(s, ctxOpt{limited: 50})}
	no := numOpt{special: 12, zero: 12}
	c.X, c.Y, c.U = num(genNum(s, c.Ctx, no)), num(genNum(s, c.Ctx, no)), num(genNum(s, c.Ctx, no))
	switch s.Weighted(5, 2, 4, 4) {
	case 0:
		c.Op = pbt.Pick(s, stickyOps...)
		o := ops[c.Op]
		if o.Call != nil && (o.Method == nil || s.Bool()) {
			c.Via = 1
		}
		c.N = s.Range(1, 30)
		if c.Op == "Quantize" {
			c.N = s.Sym(30)
		}
	case 1:
		c.Op = pbt.Pick(s, stickyFns...)
		c.Ctx = genFnCtx(s)
		if c.Ctx.P > 40 {
			c.Ctx.P = 40
		}
		small := func() Num {
			if s.In(1, 8) {
				return num(genNum(s, c.Ctx, numOpt{special: 60, zero: 40}))
			}
			return num(withAdj(genFnCoef(s, 12), s.Sym(2), s.In(1, 3)))
		}
		c.X, c.Y = small(), small()
	case 2:
		c.Op = pbt.Pick(s, stickyText...)
		c.S = genStr(s).S
		if s.In(1, 3) {
			c.S = spell(s, genNum(s, c.Ctx, no))
		}
	case 3:
		c.Op = pbt.Pick(s, stickyElse...)
		c.N = s.Sym(20)
		c.RC = uint32(s.N(1 << 13))
	}
	c.ZC = uint32(s.N(1 << 13))
	if s.In(1, 3) {
		c.ZC = 1 << s.N(13)
	}
	if s.In(1, 3) {
		c.Traps = uint32(s.N(1 << 13))
	}
	return c
}

// golden is the continued fraction of a number that depends on x.
type golden struct {
	n int
	b *decimal.Big
}

func (g *golden) Next() bool { g.n++; return g.n < 12 }
func (g *golden) Term() decimal.Term {
	return decimal.Term{A: decimal.New(1, 0), B: g.b}
}

func (c stickyCase) call(zc, rc uint32, traps uint32, t *T) (z, r *decimal.Big) {
	dx, dy, du := c.X.dec(), c.Y.dec(), c.U.dec()
	bx, by, bu := mk(dx, 0), mk(dy, 0), mk(du, 0)
	ctx := c.Ctx.lib()
	ctx.Traps = decimal.Condition(traps)
	z, r = new(decimal.Big), new(decimal.Big)
	o := ops[c.Op]
	if o != nil && o.InPlace {
		z = bx
	}
	z.Context, r.Context = ctx, ctx
	z.Context.Conditions, r.Context.Conditions = decimal.Condition(zc), decimal.Condition(rc)
	switch {
	case o != nil && c.Via == 1:
		o.Call(ctx, z, bx, by, bu, c.N)
		return
	case o != nil:
		o.Method(z, bx, by, bu, c.N)
		return
	}
	switch c.Op {
	case "SetString":
		z.SetString(c.S)
	case "Context.SetString":
		ctx.SetString(z, c.S)
	case "UnmarshalText":
		z.UnmarshalText([]byte(c.S))
	case "UnmarshalJSON":
		z.UnmarshalJSON([]byte(c.S))
	case "Sscan":
		fmt.Sscan(c.S, z)
	case "QuoRem":
		z.QuoRem(bx, by, r)
	case "SetRat":
		if dx.IsFin() && dy.IsFin() && !dy.IsZero() {
			z.SetRat(new(big.Rat).SetFrac(dx.Signed(), dy.Signed()))
		}
	case "CheckNaNs":
		z.CheckNaNs(bx, by)
	case "Lentz":
		b := bx
		if !dx.IsFin() || dx.IsZero() || dx.Neg || dx.E > 20 || dx.E < -40 {
			b = decimal.New(2, 0)
		}
		if ctx.Precision == Unl || ctx.Precision == 0 || ctx.Precision > 60 {
			ctx.Precision = 20
		}
		ctx.Lentz(z, &golden{b: b})
	case "Copy":
		z.Copy(bx)
	case "CopyAbs":
		z.CopyAbs(bx)
	case "CopyNeg":
		z.CopyNeg(bx)
	case "CopySign":
		z.CopySign(bx, by)
	case "Canonical":
		z.Canonical(bx)
	case "SetUint64":
		z.SetUint64(uint64(c.ZC) << 40)
	case "SetMantScale":
		z.SetMantScale(int64(c.ZC)<<30, c.N)
	case "SetBigMantScale":
		if dx.IsFin() {
			z.SetBigMantScale(dx.Signed(), c.N)
		}
	case "SetFloat64":
		z.SetFloat64(float64(c.ZC) * math.Pow(2, float64(c.N)))
	case "SetInf":
		z.SetInf(c.N < 0)
	case "SetNaN":
		z.SetNaN(c.N < 0)
	case "SetScale":
		z.SetScale(c.N)
	case "SetSignbit":
		z.SetSignbit(c.N < 0)
	case "Compose":
		z.Compose(byte(c.N&3), c.N < 0, []byte{1, 2, 3}, int32(c.N))
	case "String":
		z.Copy(bx)
		_ = z.String()
		_ = fmt.Sprintf("%.3f %8.2e %v %+d", z, z, z, z)
		z.MarshalText()
	case "Cmp":
		z.Copy(bx)
		z.Cmp(by)
		z.CmpAbs(by)
		z.CmpTotal(by)
		z.CmpTotalAbs(by)
		z.IsInt()
		z.Int64()
		z.Float64()
	default:
		callFn(c.Op, ctx, z, bx, by)
	}
	return
}

// stickyQuiet are the operations that raise nothing.
var stickyQuiet = map[string]bool{"Copy": true, "CopyAbs": true, "CopyNeg": true, "CopySign": true, "Canonical": true,
	"SetUint64": true, "SetMantScale": true, "SetBigMantScale": true, "SetFloat64": true, "SetInf": true, "SetNaN": true,
	"SetScale": true, "SetSignbit": true, "Compose": true, "String": true, "Cmp": true}

func stickyRun(c stickyCase, t *T) {
	z1, r1 := c.call(0, 0, 0, t)
	z2, r2 := c.call(c.ZC, c.RC, c.Traps, t)
	check := func(what string, b1, b2 *decimal.Big, had uint32) {
		d1, d2 := mustObs(t, c.Op, b1), mustObs(t, c.Op, b2)
		f1, f2 := ref.Cond(b1.Context.Conditions), ref.Cond(b2.Context.Conditions)
		if !ref.Same(d1, d2) || d1.Neg != d2.Neg {
			t.Failf("%s(%s, %s, %s) %q prec=%d: %s is %v, but %v if [%v] had been raised and [%v] is trapped", c.Op, c.X, c.Y, c.U, c.S, c.Ctx.prec(), what, d1, d2, ref.Cond(had), ref.Cond(c.Traps))
		}
		if f2 != f1|ref.Cond(had) {
			t.Failf("%s(%s, %s, %s) %q prec=%d: %s has raised [%v], and raises [%v], which leaves [%v]", c.Op, c.X, c.Y, c.U, c.S, c.Ctx.prec(), what, ref.Cond(had), f1, f2)
		}
		if stickyQuiet[c.Op] && f1 != 0 {
			t.Failf("%s(%s, %s) raises [%v]", c.Op, c.X, c.Y, f1)
		}
		tagFlags(t, f1)
		if had&^uint32(f1) != 0 && f1 != 0 {
			t.Nontrivial()
		}
	}
	check("the receiver", z1, z2, c.ZC)
	if c.Op == "QuoRem" {
		check("the remainder", r1, r2, c.RC)
	}
	t.Tag(c.Op)
}
