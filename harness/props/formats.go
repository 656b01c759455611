package props

import (
	"strings"

	"github.com/ericlagergren/decimal"

	"verif/ref"
)

// The predefined contexts and the IEEE 754 parameters they stand for.
var formats = []struct {
	name string
	lib  *decimal.Context
	ctx  CtxJ
}{
	{"Context32", &decimal.Context32, CtxJ{P: 7, Emax: 96, Emin: -95}},
	{"Context64", &decimal.Context64, CtxJ{P: 16, Emax: 384, Emin: -383}},
	{"Context128", &decimal.Context128, CtxJ{P: 34, Emax: 6144, Emin: -6143}},
	{"ContextUnlimited", &decimal.ContextUnlimited, CtxJ{P: Unl}},
}

// formatRun runs an operation in the predefined context itself: the result is
// the model's for the format's parameters, and Err reports every exception
// other than Inexact, Rounded and Subnormal.
func formatRun(a Arith, t *T) {
	for _, f := range formats {
		if f.ctx != a.Ctx {
			continue
		}
		if f.ctx.P == Unl && (a.Op == "Quo" || a.Op == "Sqrt" || strings.HasPrefix(a.Op, "Next")) {
			a.Op = "Mul"
			if a.Y == "" {
				a.Y = a.X
			}
		}
		o := ops[a.Op]
		ds := []ref.Dec{a.X.dec(), {}, {}}
		bs := []*decimal.Big{mk(ds[0], a.Path), nil, nil}
		if o.Arity > 1 {
			ds[1] = a.Y.dec()
			bs[1] = mk(ds[1], a.Path)
		}
		if o.Arity > 2 {
			ds[2] = a.U.dec()
			bs[2] = mk(ds[2], a.Path)
		}
		was := *f.lib
		var z, r *decimal.Big
		if a.Via == 0 && !o.InPlace { // a number with the context
			z = decimal.WithContext(*f.lib)
			r = o.Method(z, bs[0], bs[1], bs[2], a.N)
		} else {
			z = new(decimal.Big)
			if o.InPlace {
				z = bs[0]
			}
			r = o.Call(*f.lib, z, bs[0], bs[1], bs[2], a.N)
		}
		if r != z {
			t.Failf("%s with %s did not return its receiver", a.Op, f.name)
		}
		if was != *f.lib {
			t.Failf("%s changed %s from %+v to %+v", a.Op, f.name, was, *f.lib)
		}
		want, wf := o.Model(a.Ctx.ref(), ds[0], ds[1], ds[2], a.N)
		got := mustObs(t, a.Op, z)
		t.Tag(f.name)
		tagFlags(t, wf)
		if ds[0].IsFin() && !ds[0].IsZero() && wf&(ref.Rounded|ref.Overflow|ref.Underflow|ref.Subnormal|ref.Clamped) != 0 {
			t.Nontrivial()
		}
		if strings.HasPrefix(a.Op, "Next") && got.IsZero() && want.IsZero() {
			got.Neg = want.Neg
		}
		if !ref.Same(got, want) {
			t.Failf("%s.%s(%v, %v, %v) = %v, want %v", f.name, a.Op, ds[0], ds[1], ds[2], got, want)
		}
		gf := ref.Cond(z.Context.Conditions)
		if gf != wf {
			t.Failf("%s.%s(%v, %v, %v) = %v: conditions [%v], want [%v]", f.name, a.Op, ds[0], ds[1], ds[2], got, gf, wf)
		}
		ctx := *f.lib
		ctx.Conditions = z.Context.Conditions
		trapped := wf &^ (ref.Inexact | ref.Rounded | ref.Subnormal)
		if err := ctx.Err(); trapped == 0 && err != nil || trapped != 0 && err != error(decimal.Condition(trapped)) {
			t.Failf("%s.%s(%v, %v, %v) raised [%v]: Err is %v, want [%v]", f.name, a.Op, ds[0], ds[1], ds[2], wf, err, trapped)
		}
		return
	}
}
