package props

import (
	"strings"

	"github.com/ericlagergren/decimal"

	"verif/pbt"
	"verif/ref"
)

// C33: the payload of a NaN that an operation makes names the cause.

type payCase struct {
	Op    string `json:"op"`
	Ctx   CtxJ   `json:"ctx"`
	Bad   string `json:"bad,omitempty"` // the field of the context that is invalid
	X     Num    `json:"x"`
	Y     Num    `json:"y,omitempty"`
	U     Num    `json:"u,omitempty"`
	N     int    `json:"n,omitempty"`
	Z     Num    `json:"z,omitempty"`
	Alias string `json:"alias,omitempty"`
}

var (
	payOps = []string{"Add", "Sub", "Mul", "Quo", "QuoInt", "Rem", "QuoRem", "FMA", "Abs", "Neg", "NextPlus", "NextMinus", "Quantize", "Reduce"}
	payFns = []string{"Acos", "Asin", "Atan", "Atan2", "Cos", "Exp", "Log", "Log10", "Sin"}
	// the operand of an operation was a NaN
	payNaN = map[string]string{
		"Add": "addition", "Sub": "subtraction", "Mul": "multiplication", "Quo": "division", "QuoInt": "division", "Rem": "division", "QuoRem": "division",
		"Neg": "negation", "NextPlus": "next-plus", "NextMinus": "next-minus", "Quantize": "quantization", "Reduce": "reduction",
		"Acos": "acos", "Asin": "asin", "Atan": "atan", "Atan2": "atan2", "Cos": "cos", "Exp": "exp", "Log": "log", "Log10": "log10", "Sin": "sin",
	}
	payBad = map[string]string{
		"precision-low":  "operation with a precision less than zero",
		"precision-high": "operation with a precision greater than MaxPrecision",
		"rounding":       "operation with an invalid RoundingMode",
		"mode":           "operation with an invalid OperatingMode",
		"max":            "operation with a scale greater than MaxScale",
		"min":            "operation with a scale lesser than MinScale",
	}
	payBads = []string{"precision-low", "precision-high", "rounding", "mode", "max", "min"}
)

func genPay(fns []string, bad bool) func(*Src) payCase {
	return func(s *Src) payCase {
		c := payCase{Op: pbt.Pick(s, fns...), Ctx: genCtx(s, ctxOpt{limited: 20})}
		if bad {
			c.Bad = pbt.Pick(s, payBads...)
		}
		o := numOpt{special: 45, zero: 20, espan: 30}
		val := func() Num { return num(genNum(s, c.Ctx, o)) }
		c.X, c.Y, c.U = val(), val(), val()
		c.N = s.Sym(30)
		if s.In(1, 4) {
			c.N = s.Sym(1) * pbt.Pick(s, 1000, 10000, decimal.MaxScale)
		}
		if s.In(1, 2) {
			c.Z = num(genNum(s, c.Ctx, o))
		}
		if s.In(1, 3) {
			c.Alias = pbt.Pick(s, "x", "y")
		}
		return c
	}
}

// causes are the texts that the payload may have; nil: not decided.
func (c payCase) causes(x, y, u ref.Dec, inv ref.Cond) []string {
	if c.Bad != "" {
		return []string{payBad[c.Bad]}
	}
	two := binaryFn(c.Op) || ops[c.Op] != nil && ops[c.Op].Arity > 1 || c.Op == "QuoRem"
	if c.Op == "FMA" {
		switch {
		case (x.IsNaN() || y.IsNaN()) && u.IsNaN():
			return []string{"multiplication with NaN as an operand", "addition with NaN as an operand"}
		case x.IsNaN() || y.IsNaN():
			return []string{"multiplication with NaN as an operand"}
		case u.IsNaN() && !(x.K == ref.Inf && y.IsZero() || y.K == ref.Inf && x.IsZero()):
			return []string{"addition with NaN as an operand"}
		case u.IsNaN():
			return nil
		}
	} else if x.IsNaN() || two && y.IsNaN() {
		if c.Op == "Abs" {
			return []string{"absolute value of NaN"}
		}
		return []string{payNaN[c.Op] + " with NaN as an operand"}
	}
	xi, yi := x.K == ref.Inf, y.K == ref.Inf
	switch c.Op {
	case "Add":
		return []string{"addition of infinities with opposing signs"}
	case "Sub":
		return []string{"subtraction of infinities with opposing signs"}
	case "Mul":
		return []string{"multiplication of zero with infinity"}
	case "FMA":
		if xi && y.IsZero() || yi && x.IsZero() {
			return []string{"multiplication of zero with infinity"}
		}
		return []string{"addition of infinities with opposing signs"}
	case "Quo", "QuoInt", "Rem", "QuoRem":
		switch {
		case xi && yi:
			return []string{"division of infinity by infinity"}
		case xi && c.Op == "Rem":
			return []string{"remainder of infinity"}
		case x.IsFin() && x.IsZero() && y.IsFin() && y.IsZero():
			return []string{"division of zero by zero"}
		case c.Op == "Rem" && y.IsFin() && y.IsZero():
			return []string{"remainder by zero"}
		case inv&ref.DivImposs != 0:
			return []string{"result of integer division was larger than the desired precision", "integer division or remainder has too many digits", "result of remainder operation was larger than the desired precision"}
		}
	case "Quantize":
		if xi {
			return []string{"quantization of an infinity"}
		}
		// the exponent is out of range, or the coefficient would be too long
		rc := c.Ctx.ref()
		if e := -c.N; e > rc.Emax || e < rc.Etiny() {
			return []string{"quantization exceeds minimum or maximum scale"}
		}
		return []string{"quantization exceeds working precision"}
	}
	return nil
}

func payRun(c payCase, t *T) {
	x, y, u := c.X.dec(), c.Y.dec(), c.U.dec()
	bx, by, bu := mk(x, 0), mk(y, 0), mk(u, 0)
	z := new(decimal.Big)
	if c.Z != "" {
		z = mk(c.Z.dec(), 0)
	}
	switch c.Alias {
	case "x":
		z = bx
	case "y":
		z = by
	}
	ctx := c.Ctx.lib()
	switch c.Bad {
	case "precision-low":
		ctx.Precision = -1 - c.Ctx.P
	case "precision-high":
		ctx.Precision = decimal.UnlimitedPrecision + 1 + c.Ctx.P
	case "rounding":
		ctx.RoundingMode = decimal.RoundingMode(8 + c.Ctx.P%240)
	case "mode":
		ctx.OperatingMode = decimal.OperatingMode(2 + c.Ctx.P%250)
	case "max":
		ctx.MaxScale = decimal.MaxScale + 1 + c.Ctx.P
	case "min":
		ctx.MinScale = decimal.MinScale - 1 - c.Ctx.P
	}
	n := c.N
	if c.Op == "Quantize" && n > decimal.MaxScale {
		n = decimal.MaxScale
	}
	var r *decimal.Big
	switch o := ops[c.Op]; {
	case c.Op == "QuoRem":
		r = new(decimal.Big)
		ctx.QuoRem(z, bx, by, r)
	case o != nil:
		if o.InPlace {
			z = bx
		}
		o.Call(ctx, z, bx, by, bu, n)
	default:
		if x.IsFin() && !x.IsZero() && (x.Adj() > 4 || x.Adj() < -20) && c.Bad == "" {
			return
		}
		callFn(c.Op, ctx, z, bx, by)
	}
	for _, v := range []*decimal.Big{z, r} {
		if v == nil || !v.IsNaN(0) {
			if c.Bad != "" && v != nil {
				t.Failf("%s(%v, %v) in a context with an invalid field (%s) is %v", c.Op, x, y, c.Bad, v)
			}
			if v != nil && v.Payload() != 0 {
				t.Failf("%s(%v, %v, %v; %d) in [%+v] is %v, with a payload: %q", c.Op, x, y, u, n, ctx, v, v.Payload())
			}
			continue
		}
		causes := c.causes(x, y, u, ref.Cond(v.Context.Conditions))
		if causes == nil {
			continue
		}
		t.Nontrivial()
		t.Tag(c.Op)
		got := v.Payload().String()
		ok := false
		for _, s := range causes {
			ok = ok || s == got
		}
		if !ok {
			t.Failf("%s(%v, %v, %v; %d) in [%+v] is a NaN whose payload says %q, want %q", c.Op, x, y, u, n, ctx, got, strings.Join(causes, `" or "`))
		}
	}
}

func init() {
	rule := "non-trivial: the result is a NaN whose cause is named"
	pbt.Register(&pbt.Prop{ID: "C33", Assumptions: assume[1:], Subs: []pbt.Sub{
		pbt.Check[payCase]{Name: "operations", Rule: rule, Quick: 1500000, Thorough: 20000000, Gen: genPay(payOps, false), Run: payRun},
		pbt.Check[payCase]{Name: "functions", Rule: rule, Quick: 600000, Thorough: 8000000, Gen: genPay(payFns, false), Run: payRun},
		pbt.Check[payCase]{Name: "contexts", Rule: rule, Quick: 300000, Thorough: 3000000, Gen: genPay(append(append([]string{}, payOps...), payFns...), true), Run: payRun},
	}})
}
