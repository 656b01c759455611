package props

import (
	"fmt"
	"math"
	"math/big"
	"strings"

	"github.com/ericlagergren/decimal"

	"verif/pbt"
	"verif/ref"
)

// C18 aliasing and the receiver's past, C19 histories over a pool of numbers,
// C28 invalid contexts, C29 copies and setters.

func init() {
	pbt.Register(&pbt.Prop{ID: "C18", Assumptions: assume, Subs: []pbt.Sub{
		pbt.Check[metaCase]{Name: "arithmetic", Rule: "non-trivial: arguments are aliased or the receiver held another number",
			Quick: 2000000, Thorough: 40000000, Gen: func(s *Src) metaCase { return genMeta(s, metaArith) }, Run: metaRun},
		pbt.Check[metaCase]{Name: "functions", Rule: "non-trivial: arguments are aliased or the receiver held another number",
			Quick: 200000, Thorough: 4000000, Gen: func(s *Src) metaCase { return genMeta(s, metaFns) }, Run: metaRun},
		pbt.Check[quoRemCase]{Name: "quorem", Rule: "non-trivial: arguments are aliased or a receiver held another number",
			Quick: 1000000, Thorough: 20000000, Gen: genQuoRemMeta, Run: quoRemMetaRun},
	}})
	pbt.Register(&pbt.Prop{ID: "C19", Assumptions: assume, Subs: []pbt.Sub{
		pbt.Check[history]{Name: "history", Rule: "non-trivial: at least 10 steps, including a coefficient above 64 bits and a special value or a raised condition",
			Quick: 1200000, Thorough: 20000000, Gen: genHistory, Run: historyRun},
	}})
	pbt.Register(&pbt.Prop{ID: "C28", Assumptions: assume, Subs: []pbt.Sub{
		pbt.Check[invCase]{Name: "operations", Rule: "non-trivial: the invalid field is at the boundary of its range",
			Quick: 1000000, Thorough: 20000000, Gen: genInv, Run: invRun},
		pbt.Check[validCase]{Name: "boundaries", Rule: "non-trivial: some field is exactly at its limit",
			Quick: 400000, Thorough: 4000000, Gen: genValid, Run: validRun},
	}})
	pbt.Register(&pbt.Prop{ID: "C29", Assumptions: assume, Subs: []pbt.Sub{
		pbt.Check[copyCase]{Name: "copies", Rule: "non-trivial: a coefficient above 64 bits, a special value or aliased arguments",
			Quick: 4000000, Thorough: 80000000, Gen: genCopy, Run: copyRun},
		pbt.Check[minMaxCase]{Name: "min-max", Rule: "non-trivial: some of the values are equal",
			Quick: 600000, Thorough: 10000000, Gen: genMinMax, Run: minMaxRun},
	}})
}

// --- C18 ------------------------------------------------------------------

type metaCase struct {
	Fn    string `json:"fn"`
	Ctx   CtxJ   `json:"ctx"`
	X     Num    `json:"x"`
	Y     Num    `json:"y,omitempty"`
	U     Num    `json:"u,omitempty"`
	Alias string `json:"alias,omitempty"`
	Z     Num    `json:"z,omitempty"`
	ZC    uint32 `json:"zc,omitempty"`
	OC    CtxJ   `json:"oc"`
	Path  int    `json:"path,omitempty"`
	Via   int    `json:"via,omitempty"`
}

var (
	metaArith = []string{"Add", "Sub", "Mul", "Quo", "QuoInt", "Rem", "FMA", "FMA", "Set", "Abs", "Neg", "Sqrt", "NextPlus", "NextMinus", "Ceil", "Floor"}
	metaFns   = []string{"Exp", "Log", "Log10", "Pow", "Sin", "Cos", "Tan", "Asin", "Acos", "Atan", "Atan2", "Hypot", "Pi", "E", "Pow", "Atan2", "Hypot"}
)

func metaArity(fn string) int {
	if o := ops[fn]; o != nil {
		return o.Arity
	}
	switch fn {
	case "Pi", "E":
		return 0
	}
	if binaryFn(fn) {
		return 2
	}
	return 1
}

func genMeta(s *Src, names []string) metaCase {
	fn := pbt.Pick(s, names...)
	c := metaCase{Fn: fn, Path: s.N(3)}
	if ops[fn] != nil {
		c.Ctx = genCtx(s, ctxOpt{limited: 15, unlimited: 4})
		if c.Ctx.P == Unl && (fn == "Sqrt" || fn == "Quo" || strings.HasPrefix(fn, "Next")) {
			c.Ctx.P = 20
		}
		o := numOpt{special: 8, zero: 6}
		x := genNum(s, c.Ctx, o)
		c.X = num(x)
		if n := metaArity(fn); n > 1 {
			y := relatedTo(s, x, c.Ctx, o)
			if y.IsFin() && (y.E > 10000 || y.E < -10000) {
				y.E = x.E + s.Sym(30)
			}
			c.Y = num(y)
			if n > 2 {
				c.U = num(genNum(s, c.Ctx, o))
			}
		}
		c.Via = s.N(2)
		if ops[fn].Method == nil {
			c.Via = 1
		}
	} else {
		c.Via = 1
		c.Ctx = CtxJ{P: s.Range(1, 45), M: s.N(7)}
		if s.In(1, 12) {
			c.Ctx.P = s.Range(90, 130) // more digits than the stored constants have
		}
		arg := func() Num {
			if s.In(1, 12) {
				return num(genNum(s, c.Ctx, numOpt{special: 50, zero: 50}))
			}
			v := genDigits(s, s.Range(1, pbt.Pick(s, 3, 10, 25, 45)))
			d := ref.Dec{Neg: s.Bool(), C: v, E: -ref.Digits(v) + s.Range(-3, 3)}
			if fn == "Asin" || fn == "Acos" {
				d.E = -ref.Digits(v) - s.N(3)
			}
			if (fn == "Log" || fn == "Log10") && !s.In(1, 20) {
				d.Neg = false
			}
			return num(d)
		}
		c.X = arg()
		if binaryFn(fn) {
			c.Y = arg()
			if fn == "Pow" && s.Bool() {
				c.Y = num(ref.New(int64(s.Sym(30)), 0))
			}
		}
	}
	if s.In(3, 5) {
		switch metaArity(fn) {
		case 1:
			c.Alias = "zx"
		case 2:
			c.Alias = pbt.Pick(s, "zx", "zy", "xy", "zxy")
		case 3:
			c.Alias = pbt.Pick(s, aliasPatterns(3)[1:]...)
		}
	}
	if !strings.Contains(c.Alias, "z") && s.In(2, 3) {
		c.Z = num(genNum(s, c.Ctx, dirtyOpt))
	}
	if s.In(1, 3) {
		c.ZC = uint32(s.N(1 << 13))
	}
	if s.In(1, 3) {
		c.OC = CtxJ{P: genPrec(s), M: s.N(7)}
		if s.In(1, 3) {
			c.OC.Emax, c.OC.Emin = 9, -9
		}
	}
	return c
}

func (c metaCase) invoke(via int, z, x, y, u *decimal.Big) *decimal.Big {
	if o := ops[c.Fn]; o != nil {
		if via == 1 {
			return o.Call(c.Ctx.lib(), z, x, y, u, 0)
		}
		f := z.Context.Conditions
		z.Context = c.Ctx.lib()
		z.Context.Conditions = f
		return o.Method(z, x, y, u, 0)
	}
	return callFn(c.Fn, c.Ctx.lib(), z, x, y)
}

func datum(n Num) ref.Dec {
	if n == "" {
		return ref.MkZero(false, 0)
	}
	return n.dec()
}

// fresh evaluates with distinct, unshared arguments and a new receiver.
func (c metaCase) fresh(t *T, v [3]ref.Dec) (ref.Dec, ref.Cond) {
	z := new(decimal.Big)
	c.invoke(1, z, mk(v[0], 0), mk(v[1], 0), mk(v[2], 0))
	return mustObs(t, c.Fn, z), ref.Cond(z.Context.Conditions)
}

func same4(a, b ref.Dec) bool { return ref.Same(a, b) && a.Neg == b.Neg && a.Pay == b.Pay }

func metaRun(c metaCase, t *T) {
	v := [3]ref.Dec{datum(c.X), datum(c.Y), datum(c.U)}
	has := func(b byte) bool { return strings.IndexByte(c.Alias, b) >= 0 }
	first := -1
	n := metaArity(c.Fn)
	for i := 0; i < n; i++ {
		if has("xyu"[i]) {
			if first < 0 {
				first = i
			} else {
				v[i] = v[first]
			}
		}
	}
	want, wantF := c.fresh(t, v)

	z := new(decimal.Big)
	if c.Z != "" {
		z = mk(c.Z.dec(), 0)
	}
	var b [3]*decimal.Big
	var shared *decimal.Big
	for i := range b {
		if i < n && has("xyu"[i]) && shared != nil {
			b[i] = shared
			continue
		}
		b[i] = mk(v[i], c.Path)
		b[i].Context = c.OC.lib()
		if i < n && has("xyu"[i]) {
			shared = b[i]
			if has('z') {
				z = shared
			}
		}
	}
	if c.Z == "" && !has('z') {
		z.Context = c.OC.lib()
	}
	z.Context.Conditions = decimal.Condition(c.ZC)
	what := fmt.Sprintf("%s(%v, %v, %v) prec=%d %s, aliased %q, receiver %q", c.Fn, v[0], v[1], v[2], c.Ctx.prec(), modeName(c.Ctx.M), c.Alias, c.Z)
	if c.invoke(c.Via, z, b[0], b[1], b[2]) != z {
		t.Failf("%s did not return its receiver", what)
	}
	got := mustObs(t, what, z)
	if !same4(got, want) {
		t.Failf("%s = %v, but with a new receiver and distinct arguments %v", what, got, want)
	}
	if gf := ref.Cond(z.Context.Conditions); gf != wantF|ref.Cond(c.ZC) {
		t.Failf("%s = %v raised [%v] on top of [%v], but with a new receiver and distinct arguments [%v]", what, got, gf, ref.Cond(c.ZC), wantF)
	}
	if c.Alias != "" || c.Z != "" {
		t.Nontrivial()
	}
	t.Tag(c.Fn)
	// the operands are intact, also after the result is modified
	check := func(when string) {
		for i := range b {
			if b[i] == z {
				continue
			}
			if d := mustObs(t, what, b[i]); !same4(d, v[i]) || b[i].Context != c.OC.lib() {
				t.Failf("%s: argument %d was %v and is %v %s (context %+v)", what, i, v[i], d, when, b[i].Context)
			}
		}
	}
	check("after the call")
	scribble(z)
	check("after the result was modified")
	again, againF := c.fresh(t, v)
	if !same4(again, want) || againF != wantF {
		t.Failf("%s: the same call gave %v [%v] first and %v [%v] after its result was modified", what, want, wantF, again, againF)
	}
}

// scribble modifies z in place, reusing the storage of its coefficient.
func scribble(z *decimal.Big) {
	z.Context = decimal.Context{Precision: decimal.UnlimitedPrecision}
	if !z.IsFinite() {
		z.SetMantScale(7, 0)
	}
	if s := z.Scale(); s > 1e6 || s < -1e6 {
		z.SetScale(0)
	}
	one := decimal.New(1, z.Scale())
	z.Add(z, one)
	z.Sub(z, decimal.New(3, z.Scale()))
	z.Mul(z, decimal.New(7, 0))
	z.Context.Precision = 3
	z.Round(3)
	z.Context.Precision = 40
	z.Quantize(z.Scale() + 9)
}

type quoRemCase struct {
	Ctx   CtxJ   `json:"ctx"`
	X     Num    `json:"x"`
	Y     Num    `json:"y"`
	Z     Num    `json:"z,omitempty"`
	R     Num    `json:"r,omitempty"`
	ZC    uint32 `json:"zc,omitempty"`
	Alias string `json:"alias,omitempty"` // space-separated groups
	Via   int    `json:"via,omitempty"`
}

func genQuoRemMeta(s *Src) quoRemCase {
	c := quoRemCase{Ctx: genCtx(s, ctxOpt{limited: 15, unlimited: 4}), Via: s.N(2)}
	o := numOpt{special: 8, zero: 6}
	x := genNum(s, c.Ctx, o)
	y := relatedTo(s, x, c.Ctx, o)
	if y.IsFin() && x.IsFin() {
		if k := y.E - x.E; k > 300 || k < -300 {
			y.E = x.E + s.Sym(60)
		}
	}
	c.X, c.Y = num(x), num(y)
	c.Alias = pbt.Pick(s, "", "zx", "zy", "rx", "ry", "zx ry", "zy rx", "xy", "zxy", "rxy")
	if !strings.Contains(c.Alias, "z") && s.Bool() {
		c.Z = num(genNum(s, c.Ctx, dirtyOpt))
	}
	if !strings.Contains(c.Alias, "r") && s.Bool() {
		c.R = num(genNum(s, c.Ctx, dirtyOpt))
	}
	if s.In(1, 3) {
		c.ZC = uint32(s.N(1 << 13))
	}
	return c
}

func quoRemMetaRun(c quoRemCase, t *T) {
	dx, dy := c.X.dec(), c.Y.dec()
	if strings.Contains(c.Alias, "xy") {
		dy = dx
	}
	ctx := c.Ctx.lib()
	z0, r0 := new(decimal.Big), new(decimal.Big)
	ctx.QuoRem(z0, mk(dx, 0), mk(dy, 0), r0)
	wz, wr := mustObs(t, "quotient", z0), mustObs(t, "remainder", r0)
	wf := z0.Context.Conditions

	x, y := mk(dx, 0), mk(dy, 0)
	if strings.Contains(c.Alias, "xy") {
		y = x
	}
	mkr := func(n Num) *decimal.Big {
		if n == "" {
			return new(decimal.Big)
		}
		return mk(n.dec(), 0)
	}
	z, r := mkr(c.Z), mkr(c.R)
	for _, g := range strings.Fields(c.Alias) {
		p := &z
		switch g[0] {
		case 'r':
			p = &r
		case 'x':
			continue
		}
		if g[1] == 'x' {
			*p = x
		} else {
			*p = y
		}
	}
	z.Context.Conditions = decimal.Condition(c.ZC)
	what := fmt.Sprintf("QuoRem(%v, %v) prec=%d %s, aliased %q, receivers %q and %q", dx, dy, c.Ctx.prec(), modeName(c.Ctx.M), c.Alias, c.Z, c.R)
	if c.Via == 1 {
		ctx.QuoRem(z, x, y, r)
	} else {
		z.Context = ctx
		z.Context.Conditions = decimal.Condition(c.ZC)
		r.Context = ctx
		z.QuoRem(x, y, r)
	}
	if g := mustObs(t, what, z); !same4(g, wz) {
		t.Failf("%s: quotient %v, but with new receivers and distinct arguments %v", what, g, wz)
	}
	if g := mustObs(t, what, r); !same4(g, wr) {
		t.Failf("%s: remainder %v, but with new receivers and distinct arguments %v", what, g, wr)
	}
	if z.Context.Conditions != wf|decimal.Condition(c.ZC) {
		t.Failf("%s: conditions [%v], but with new receivers and distinct arguments [%v] (had [%v])", what, z.Context.Conditions, wf, decimal.Condition(c.ZC))
	}
	if c.Alias != "" || c.Z != "" || c.R != "" {
		t.Nontrivial()
	}
	check := func(when string) {
		if x != z && x != r {
			if d := mustObs(t, what, x); !same4(d, dx) {
				t.Failf("%s: the dividend %v became %v %s", what, dx, d, when)
			}
		}
		if y != z && y != r {
			if d := mustObs(t, what, y); !same4(d, dy) {
				t.Failf("%s: the divisor %v became %v %s", what, dy, d, when)
			}
		}
	}
	check("after the call")
	scribble(z)
	check("after the quotient was modified")
	if g := mustObs(t, what, r); !same4(g, wr) {
		t.Failf("%s: modifying the quotient changed the remainder from %v to %v", what, wr, g)
	}
	scribble(r)
	check("after the remainder was modified")
}

// --- C19 ------------------------------------------------------------------

const nvars = 4

// step is one action on the pool; indices are taken modulo the pool's size.
type step struct {
	Do   string `json:"do"`
	Z    int    `json:"z"`
	X    int    `json:"x,omitempty"`
	Y    int    `json:"y,omitempty"`
	U    int    `json:"u,omitempty"`
	N    int    `json:"n,omitempty"`
	V    Num    `json:"v,omitempty"`
	Ctx  *CtxJ  `json:"ctx,omitempty"` // Context method with this context
	Bits uint64 `json:"bits,omitempty"`
}

type history struct {
	Ctxs  []CtxJ `json:"ctxs"`
	Init  []Num  `json:"init"`
	Steps []step `json:"steps"`
}

var (
	histOps = []string{"Add", "Add", "Sub", "Mul", "Mul", "Quo", "QuoInt", "Rem", "FMA", "FMA", "Set", "Abs", "Neg", "Sqrt", "Ceil", "Floor"}
	histIn  = []string{"Quantize", "Round", "RoundN", "RoundToInt", "Reduce"}
	histSet = []string{"Copy", "CopyAbs", "CopyNeg", "CopySign", "Canonical", "SetMantScale", "SetUint64", "SetBigMantScale", "SetString", "UnmarshalText", "SetInf", "SetNaN", "SetSignbit", "SetScale", "SetFloat64", "Compose", "SetRat", "Reset"}
	histAsk = []string{"Cmp", "CmpAbs", "CmpTotal", "String", "Int", "Rat", "Float64", "Format", "Decompose", "Misc", "Max"}
)

func genHistory(s *Src) history {
	var h history
	for i := 0; i < nvars; i++ {
		c := CtxJ{P: pbt.Pick(s, 20, 25, 40, 7, 3, 16), M: s.N(7)}
		if s.In(1, 6) {
			c = genCtx(s, ctxOpt{limited: 60})
		}
		h.Ctxs = append(h.Ctxs, c)
		h.Init = append(h.Init, num(genNum(s, CtxJ{P: 22}, numOpt{special: 4, zero: 8, espan: 12})))
	}
	for n := s.Range(1, 24); n > 0; n-- {
		st := step{Z: s.N(nvars)}
		switch s.Weighted(8, 3, 6, 2, 1) {
		case 0:
			st.Do = pbt.Pick(s, histOps...)
			st.X, st.Y, st.U = s.N(nvars), s.N(nvars), s.N(nvars)
			if ops[st.Do].Method == nil || s.In(1, 4) {
				c := h.Ctxs[s.N(nvars)]
				st.Ctx = &c
			}
		case 1:
			st.Do = pbt.Pick(s, histIn...)
			st.N = s.Sym(30)
			if ops[st.Do].Method == nil || ops[st.Do].Call != nil && s.In(1, 4) {
				c := h.Ctxs[s.N(nvars)]
				st.Ctx = &c
			}
		case 2:
			st.Do = pbt.Pick(s, histSet...)
			st.X, st.Y = s.N(nvars), s.N(nvars)
			st.N = s.Sym(20)
			switch st.Do {
			case "SetString", "UnmarshalText", "SetBigMantScale", "SetMantScale", "SetUint64", "Compose", "SetRat":
				st.V = num(genNum(s, CtxJ{P: 22}, numOpt{zero: 8, espan: 12}))
			case "SetFloat64":
				st.Bits = math.Float64bits(math.Ldexp(float64(s.Sym(1<<30)), s.Sym(40)))
			}
		case 3:
			st.Do = pbt.Pick(s, histAsk...)
			st.X = s.N(nvars)
		case 4:
			st.Do = "QuoRem"
			st.X, st.Y = s.N(nvars), s.N(nvars)
			st.U = (st.Z + s.Range(1, nvars-1)) % nvars // the remainder
			c := h.Ctxs[s.N(nvars)]
			st.Ctx = &c
		}
		h.Steps = append(h.Steps, st)
	}
	return h
}

type modelVar struct {
	d  ref.Dec
	c  CtxJ
	f  ref.Cond
	eq bool // NaN: adopt sign and payload
}

func historyRun(h history, t *T) {
	var lib [nvars]*decimal.Big
	var mod [nvars]modelVar
	for i := range lib {
		lib[i] = mk(h.Init[i].dec(), 0)
		lib[i].Context = h.Ctxs[i].lib()
		mod[i] = modelVar{d: h.Init[i].dec(), c: h.Ctxs[i]}
	}
	var sawBig, sawSpecial bool
	for i, st := range h.Steps {
		before := mod
		desc := fmt.Sprintf("step %d: %s z=v%d x=v%d y=v%d u=v%d n=%d v=%s ctx=%+v; v0=%v v1=%v v2=%v v3=%v", i, st.Do, st.Z, st.X, st.Y, st.U, st.N, st.V, st.Ctx, before[0].d, before[1].d, before[2].d, before[3].d)
		adopt := applyStep(st, &lib, &mod, t, desc)
		for k := range lib {
			got := mustObs(t, desc, lib[k])
			want := mod[k].d
			if want.IsNaN() && got.K == want.K && adopt[k] {
				mod[k].d.Neg, mod[k].d.Pay = got.Neg, got.Pay
				want = mod[k].d
			}
			if !same4(got, want) {
				t.Failf("%s: v%d is %v, want %v", desc, k, got, want)
			}
			if st.Do == "QuoRem" && k == st.U { // the remainder's conditions are not specified
				mod[k].f = ref.Cond(lib[k].Context.Conditions)
			}
			wc := mod[k].c.lib()
			wc.Conditions = decimal.Condition(mod[k].f)
			if lib[k].Context != wc {
				t.Failf("%s: v%d is %v with context %+v [%v], want %+v [%v]", desc, k, got, lib[k].Context, lib[k].Context.Conditions, wc, wc.Conditions)
			}
			if got.IsFin() && got.C.BitLen() > 64 {
				sawBig = true
			}
			if !got.IsFin() || mod[k].f != 0 {
				sawSpecial = true
			}
			// keep the numbers in a comfortable range
			if got.IsFin() && (ref.Digits(got.C) > 600 || got.E > 3000 || got.E < -3000) {
				mod[k].d = ref.New(int64(k)+12345, -2)
				lib[k].SetMantScale(int64(k)+12345, 2)
			}
		}
	}
	if len(h.Steps) >= 10 && sawBig && sawSpecial {
		t.Nontrivial()
	}
}

// applyStep performs one step on both sides. It reports the variables whose
// NaN sign and payload are taken over from the library.
func applyStep(st step, lib *[nvars]*decimal.Big, mod *[nvars]modelVar, t *T, desc string) (adopt [nvars]bool) {
	z, x, y := lib[st.Z], lib[st.X], lib[st.Y]
	m := &mod[st.Z]
	dx, dy, du := mod[st.X].d, mod[st.Y].d, mod[st.U].d
	set := func(ret *decimal.Big, d ref.Dec) {
		if ret != z {
			t.Failf("%s did not return its receiver", desc)
		}
		m.d = d
	}
	if o := ops[st.Do]; o != nil {
		if o.InPlace {
			dx = m.d
		}
		n := st.N
		if st.Do == "RoundN" && n <= 0 {
			n = 1 - n
		}
		// what the model doesn't describe
		if st.Do == "Sqrt" && (m.c.P == Unl) {
			return
		}
		adopt[st.Z] = true
		c := m.c
		var ret *decimal.Big
		if st.Ctx != nil {
			c = *st.Ctx
			ret = o.Call(c.lib(), z, x, y, lib[st.U], n)
		} else {
			ret = o.Method(z, x, y, lib[st.U], n)
		}
		d, f := o.Model(c.ref(), dx, dy, du, n)
		set(ret, d)
		m.f |= f
		return
	}
	v := func() ref.Dec { return st.V.dec() }
	switch st.Do {
	case "QuoRem":
		adopt[st.Z], adopt[st.U] = true, true
		rc := st.Ctx.ref()
		q, f := rc.QuoInt(dx, dy)
		_ = q
		_ = f
		// the model is the same call on distinct, new numbers
		z0, r0 := new(decimal.Big), new(decimal.Big)
		st.Ctx.lib().QuoRem(z0, mk(dx, 0), mk(dy, 0), r0)
		wz, wr := mustObs(t, desc, z0), mustObs(t, desc, r0)
		st.Ctx.lib().QuoRem(z, x, y, lib[st.U])
		m.d, mod[st.U].d = wz, wr
		m.f |= ref.Cond(z0.Context.Conditions)
	case "Copy":
		set(z.Copy(x), dx)
	case "Canonical":
		set(z.Canonical(x), dx)
	case "CopyAbs":
		set(z.CopyAbs(x), dx.Abs())
	case "CopyNeg":
		set(z.CopyNeg(x), dx.Negated())
	case "CopySign":
		w := dx
		w.Neg = dy.Neg
		set(z.CopySign(x, y), w)
	case "SetMantScale":
		k := new(big.Int).Rem(v().Signed(), big.NewInt(1<<62)).Int64()
		set(z.SetMantScale(k, st.N), ref.New(k, -st.N))
	case "SetUint64":
		k := new(big.Int).Rem(v().C, new(big.Int).SetUint64(math.MaxUint64)).Uint64()
		set(z.SetUint64(k), ref.MkDec(false, new(big.Int).SetUint64(k), 0))
	case "SetBigMantScale":
		arg := v().Signed()
		set(z.SetBigMantScale(arg, st.N), ref.NewBig(arg, -st.N))
		arg = arg.Lsh(arg, 3)
	case "SetString":
		ret, ok := z.SetString(ref.SciString(v()))
		if !ok {
			t.Failf("%s: SetString failed", desc)
		}
		set(ret, v())
	case "UnmarshalText":
		if err := z.UnmarshalText([]byte(ref.SciString(v()))); err != nil {
			t.Failf("%s: UnmarshalText: %v", desc, err)
		}
		m.d = v()
	case "SetInf":
		set(z.SetInf(st.N < 0), ref.MkInf(st.N < 0))
	case "SetNaN":
		adopt[st.Z] = false
		set(z.SetNaN(st.N < 0), ref.Dec{K: pick2(st.N < 0, ref.SNaN, ref.QNaN)})
	case "SetSignbit":
		w := m.d
		w.Neg = st.N < 0
		set(z.SetSignbit(st.N < 0), w)
	case "SetScale":
		if m.d.IsFin() {
			w := m.d
			w.E = -st.N
			set(z.SetScale(st.N), w)
		}
	case "SetFloat64":
		f := math.Float64frombits(st.Bits)
		ret := z.SetFloat64(f)
		g := mustObs(t, desc, z)
		if !g.IsFin() || ratOf(g).Cmp(new(big.Rat).SetFloat64(f)) != 0 {
			t.Failf("%s: SetFloat64(%v) = %v", desc, f, g)
		}
		set(ret, g)
	case "Compose":
		if !dx.IsFin() || dx.IsZero() {
			return
		}
		form, neg, coef, exp := x.Decompose(make([]byte, 0, 40))
		if err := z.Compose(form, neg, coef, exp); err != nil {
			t.Failf("%s: %v", desc, err)
		}
		for i := range coef {
			coef[i] = 0xEE
		}
		m.d = dx
	case "SetRat":
		if m.c.P == Unl {
			return
		}
		r := new(big.Rat).SetFrac(v().Signed(), big.NewInt(int64(st.X)*3+1))
		nn, dd := new(big.Int).Set(r.Num()), new(big.Int).Set(r.Denom())
		ret := z.SetRat(r)
		w, f := m.c.ref().Quo(ref.NewBig(nn, 0), ref.NewBig(dd, 0))
		if dd.Cmp(ref.One) == 0 {
			w, f = m.c.ref().Fix(ref.NewBig(nn, 0))
		}
		set(ret, w)
		m.f |= f
	case "Reset":
		z.Context.Conditions = 0
		m.f = 0
	case "Cmp":
		if !m.d.IsNaN() && !dx.IsNaN() {
			if g, w := z.Cmp(x), ref.CmpNum(m.d, dx); g != w {
				t.Failf("%s: Cmp = %d, want %d", desc, g, w)
			}
		}
	case "CmpAbs":
		if !m.d.IsNaN() && !dx.IsNaN() {
			if g, w := z.CmpAbs(x), ref.CmpNum(m.d.Abs(), dx.Abs()); g != w {
				t.Failf("%s: CmpAbs = %d, want %d", desc, g, w)
			}
		}
	case "CmpTotal":
		a, b := m.d, dx
		a.Pay, b.Pay = 0, 0 // payloads are not ordered
		if g, w := z.CmpTotal(x), ref.CmpTotal(a, b); g != w {
			t.Failf("%s: CmpTotal = %d, want %d", desc, g, w)
		}
	case "String":
		if m.c.Go || m.d.IsNaN() {
			return
		}
		if g, w := z.String(), ref.SciString(m.d); g != w {
			t.Failf("%s: String = %q, want %q", desc, g, w)
		}
	case "Int":
		if m.d.IsFin() {
			if g, w := z.Int(nil), trunc(m.d); g.Cmp(w) != 0 {
				t.Failf("%s: Int = %v, want %v", desc, g, w)
			} else {
				g.Add(g, big.NewInt(1)).Lsh(g, 1)
			}
		}
	case "Rat":
		if m.d.IsFin() {
			g := z.Rat(nil)
			if w := ratOf(m.d); g.Cmp(w) != 0 {
				t.Failf("%s: Rat = %v, want %v", desc, g, w)
			}
			g.Num().Lsh(g.Num(), 1)
			g.Denom().Lsh(g.Denom(), 1)
		}
	case "Float64":
		z.Float64()
	case "Format":
		_ = fmt.Sprintf("%s %.3f %e %10.2g %v %d", z, z, z, z, z, z)
	case "Decompose":
		if m.d.IsFin() {
			_, _, coef, _ := z.Decompose(nil)
			for i := range coef {
				coef[i] ^= 0xFF
			}
		}
	case "Misc":
		_, _, _, _, _ = z.IsInt(), z.IsNormal(), z.IsSubnormal(), z.Class(), z.SameQuantum(x)
		_, _ = z.MarshalText()
		z.Int64()
		z.Uint64()
		z.Float(nil)
	case "Max":
		if m.d.IsNaN() || dx.IsNaN() {
			return
		}
		if g := decimal.Max(z, x); g != z && g != x {
			t.Failf("%s: Max returned neither argument", desc)
		}
	}
	return
}

func pick2[T any](b bool, x, y T) T {
	if b {
		return x
	}
	return y
}

// --- C28 ------------------------------------------------------------------

type invCase struct {
	Fn   string `json:"fn"`
	What string `json:"what"` // the invalid field
	Off  int    `json:"off"`  // distance from the boundary
	Ctx  CtxJ   `json:"ctx"`  // otherwise valid
	X    Num    `json:"x"`
	Y    Num    `json:"y"`
	U    Num    `json:"u"`
	N    int    `json:"n,omitempty"`
	Z    Num    `json:"z,omitempty"`
	Via  int    `json:"via,omitempty"`
	Zx   bool   `json:"zx,omitempty"`
	ZC   uint32 `json:"zc,omitempty"`
}

var invFns = []string{"Add", "Sub", "Mul", "Quo", "QuoInt", "Rem", "FMA", "Set", "Abs", "Neg", "Sqrt", "NextPlus", "NextMinus", "Ceil", "Floor", "Quantize", "Round", "RoundToInt", "Reduce",
	"Exp", "Log", "Log10", "Pow", "Sin", "Cos", "Tan", "Asin", "Acos", "Atan", "Atan2", "Hypot", "Pi", "E", "QuoRem", "SetRat", "SetRatInt", "SetString", "CheckNaNs"}

func genInv(s *Src) invCase {
	c := invCase{Fn: pbt.Pick(s, invFns...), Ctx: CtxJ{P: genPrec(s), M: s.N(7)}, ZC: uint32(s.N(2) * s.N(1<<13)), Zx: s.In(1, 4)}
	c.What = pbt.Pick(s, "precision", "-precision", "rounding", "operating", "maxscale", "minscale")
	switch s.N(3) {
	case 0:
		c.Off = s.N(3)
	case 1:
		c.Off = s.N(100)
	case 2:
		c.Off = pbt.Pick(s, 248, 247, 200, 1000, 1<<20)
	}
	o := numOpt{special: 10, zero: 10}
	c.X, c.Y, c.U = num(genNum(s, c.Ctx, o)), num(genNum(s, c.Ctx, o)), num(genNum(s, c.Ctx, o))
	c.N = s.Sym(30)
	if s.Bool() {
		c.Z = num(genNum(s, c.Ctx, dirtyOpt))
	}
	c.Via = s.N(2)
	return c
}

func (c invCase) ctx() decimal.Context {
	x := c.Ctx.lib()
	switch c.What {
	case "precision":
		x.Precision = decimal.UnlimitedPrecision + 1 + c.Off
	case "-precision":
		x.Precision = -1 - c.Off
	case "rounding":
		x.RoundingMode = decimal.RoundingMode(7 + c.Off%249)
	case "operating":
		x.OperatingMode = decimal.OperatingMode(2 + c.Off%254)
	case "maxscale":
		x.MaxScale = decimal.MaxScale + 1 + c.Off
	case "minscale":
		x.MinScale = decimal.MinScale - 1 - c.Off
	}
	return x
}

func invRun(c invCase, t *T) {
	ctx := c.ctx()
	dx, dy, du := c.X.dec(), c.Y.dec(), c.U.dec()
	z := new(decimal.Big)
	if c.Z != "" {
		z = mk(c.Z.dec(), 0)
	}
	x, y, u := mk(dx, 0), mk(dy, 0), mk(du, 0)
	var r *decimal.Big
	zIsX := false
	if o := ops[c.Fn]; o != nil && o.InPlace {
		z, zIsX = x, true
	} else if c.Zx {
		z, zIsX = x, true
	}
	via := c.Via
	o := ops[c.Fn]
	if o == nil || o.Method == nil {
		via = 1
	}
	if o != nil && o.Call == nil {
		via = 0
	}
	if c.Fn == "CheckNaNs" {
		via = 0
	}
	if via == 0 {
		z.Context = ctx
	}
	z.Context.Conditions = decimal.Condition(c.ZC)
	if c.Off < 3 {
		t.Nontrivial()
	}
	t.Tag(c.What)
	switch c.Fn {
	case "QuoRem":
		r = new(decimal.Big)
		ctx.QuoRem(z, x, y, r)
	case "SetRat":
		ctx.SetRat(z, big.NewRat(int64(c.N)*3+1, 3))
	case "SetRatInt":
		ctx.SetRat(z, big.NewRat(int64(c.N)*1234567891, 1))
	case "SetString":
		if w, _ := ctx.SetString(z, ref.SciString(du)); w == nil {
			t.Failf("SetString of a valid string returned nil")
		}
	case "CheckNaNs":
		if !z.CheckNaNs(x, y) {
			t.Failf("CheckNaNs reported false for the invalid context %+v", ctx)
		}
	default:
		if o == nil {
			callFn(c.Fn, ctx, z, x, y)
		} else if via == 1 {
			o.Call(ctx, z, x, y, u, c.N)
		} else {
			o.Method(z, x, y, u, c.N)
		}
	}
	for _, v := range []*decimal.Big{z, r} {
		if v == nil {
			continue
		}
		if !v.IsNaN(+1) {
			t.Failf("%s(%v, %v) in the invalid context %+v gives %v, not a NaN", c.Fn, dx, dy, ctx, mustObs(t, "result", v))
		}
		if v.Context.Conditions&decimal.InvalidContext == 0 {
			t.Failf("%s(%v, %v) in the invalid context %+v raised [%v]", c.Fn, dx, dy, ctx, v.Context.Conditions)
		}
		if v.Context.Conditions&decimal.InvalidContext == 0 || v == z && decimal.Condition(c.ZC)&^v.Context.Conditions != 0 {
			t.Failf("%s dropped sticky conditions: had [%v], has [%v]", c.Fn, decimal.Condition(c.ZC), v.Context.Conditions)
		}
	}
	for i, b := range []*decimal.Big{x, y, u} {
		if i == 0 && zIsX {
			continue
		}
		if d := mustObs(t, "operand", b); !same4(d, []ref.Dec{dx, dy, du}[i]) {
			t.Failf("%s modified an operand in an invalid context: %v", c.Fn, d)
		}
	}
}

// validCase checks that contexts at the very limits are not rejected.
type validCase struct {
	P    int  `json:"p"`
	M    int  `json:"m"`
	Emax int  `json:"emax"`
	Emin int  `json:"emin"`
	Go   bool `json:"go,omitempty"`
	X    Num  `json:"x"`
	W    int  `json:"w,omitempty"` // argument of WithPrecision
}

func genValid(s *Src) validCase {
	return validCase{P: pbt.Pick(s, 16, 0, 1, decimal.UnlimitedPrecision, decimal.MaxPrecision, 7), M: s.N(7), Go: s.In(1, 3),
		Emax: pbt.Pick(s, 0, decimal.MaxScale, 1, 96), Emin: pbt.Pick(s, 0, decimal.MinScale, -1, -95),
		X: num(ref.New(int64(s.Sym(9)), 0)), // never overflows: the largest number of huge precisions takes forever
		W: pbt.Pick(s, 0, 1, 5, decimal.MaxPrecision, decimal.UnlimitedPrecision, decimal.UnlimitedPrecision+1, -1, math.MinInt, math.MaxInt, s.Sym(100))}
}

func validRun(c validCase, t *T) {
	ctx := decimal.Context{Precision: c.P, RoundingMode: decimal.RoundingMode(c.M), MaxScale: c.Emax, MinScale: c.Emin}
	if c.Go {
		ctx.OperatingMode = decimal.Go
	}
	if c.P > 16 || c.P == 1 || c.Emax == decimal.MaxScale || c.Emin == decimal.MinScale || c.M == 6 {
		t.Nontrivial()
	}
	x := mk(c.X.dec(), 0)
	z := decimal.WithContext(ctx)
	if z.Context != ctx {
		t.Failf("WithContext(%+v).Context = %+v", ctx, z.Context)
	}
	z.Set(x)
	if z.IsNaN(0) || z.Context.Conditions&decimal.InvalidContext != 0 {
		t.Failf("Set in the valid context %+v = %v [%v]", ctx, z, z.Context.Conditions)
	}
	z = decimal.WithContext(ctx)
	z.Mul(x, decimal.New(1, 0))
	if z.IsNaN(0) || z.Context.Conditions&decimal.InvalidContext != 0 {
		t.Failf("Mul in the valid context %+v = %v [%v]", ctx, z, z.Context.Conditions)
	}
	w := decimal.WithPrecision(c.W)
	if ok := c.W >= 0 && c.W <= decimal.UnlimitedPrecision; ok {
		p := c.W
		if p == 0 {
			p = decimal.DefaultPrecision
		}
		if w.Context != (decimal.Context{Precision: p}) || !w.IsFinite() || w.Sign() != 0 {
			t.Failf("WithPrecision(%d) = %v with context %+v", c.W, w, w.Context)
		}
	} else if !w.IsNaN(+1) || w.Context.Conditions != decimal.InvalidContext {
		t.Failf("WithPrecision(%d) = %v with context %+v", c.W, w, w.Context)
	}
}

// --- C29 ------------------------------------------------------------------

type copyCase struct {
	Do    string `json:"do"`
	X     Num    `json:"x"`
	Y     Num    `json:"y"`
	Alias string `json:"alias,omitempty"`
	Z     Num    `json:"z,omitempty"`
	ZCtx  CtxJ   `json:"zctx"`
	XCtx  CtxJ   `json:"xctx"`
	ZC    uint32 `json:"zc,omitempty"`
	N     int    `json:"n,omitempty"`
	Path  int    `json:"path,omitempty"`
}

func genCopy(s *Src) copyCase {
	c := copyCase{Do: pbt.Pick(s, "Copy", "CopyAbs", "CopyNeg", "CopySign", "CopySign", "Canonical", "SetSignbit", "SetScale", "SetInf", "SetNaN", "Set"), ZCtx: genAnyCtx(s), XCtx: genAnyCtx(s), Path: s.N(3)}
	o := numOpt{special: 20, zero: 10}
	k := CtxJ{P: genPrec(s)}
	c.X, c.Y = num(genNum(s, k, o)), num(genNum(s, k, o))
	if s.In(1, 10) {
		d := c.X.dec()
		if d.IsFin() {
			d.E = s.Sym(1) * pbt.Pick(s, decimal.MaxScale, 1<<40, 1<<31)
			c.X = num(d)
		}
	}
	if s.In(1, 3) {
		c.Alias = pbt.Pick(s, "zx", "zy", "xy", "zxy")
	}
	if s.In(2, 3) {
		c.Z = num(genNum(s, CtxJ{P: 25}, dirtyOpt))
	}
	if s.In(1, 3) {
		c.ZC = uint32(s.N(1 << 13))
	}
	c.N = s.Sym(40)
	if s.In(1, 8) {
		c.N = s.Sym(1) * pbt.Pick(s, 1<<31, decimal.MaxScale, 1<<40)
	}
	return c
}

func copyRun(c copyCase, t *T) {
	dx, dy := c.X.dec(), c.Y.dec()
	if strings.Contains(c.Alias, "xy") {
		dy = dx
	}
	x, y := bigOf(dx, c.Path, c.XCtx), bigOf(dy, c.Path, c.XCtx)
	if strings.Contains(c.Alias, "xy") {
		y = x
	}
	z := new(decimal.Big)
	dz := ref.MkZero(false, 0)
	if c.Z != "" {
		dz = c.Z.dec()
		z = mk(dz, 0)
	}
	switch c.Alias {
	case "zx", "zxy":
		z, dz = x, dx
	case "zy":
		z, dz = y, dy
	}
	z.Context = c.ZCtx.lib()
	z.Context.Conditions = decimal.Condition(c.ZC)
	ctx := z.Context
	if !dx.IsFin() || dx.C.BitLen() > 64 || c.Alias != "" {
		t.Nontrivial()
	}
	t.Tag(c.Do)
	var ret *decimal.Big
	var want ref.Dec
	var flags ref.Cond
	switch c.Do {
	case "Copy":
		ret, want = z.Copy(x), dx
	case "Canonical":
		ret, want = z.Canonical(x), dx
	case "CopyAbs":
		ret, want = z.CopyAbs(x), dx.Abs()
	case "CopyNeg":
		ret, want = z.CopyNeg(x), dx.Negated()
	case "CopySign":
		ret, want = z.CopySign(x, y), dx
		want.Neg = dy.Neg
	case "SetSignbit":
		ret, want = z.SetSignbit(c.N&1 == 1), dz
		want.Neg = c.N&1 == 1
	case "SetScale":
		if !dz.IsFin() {
			return
		}
		ret, want = z.SetScale(c.N), dz
		want.E = -c.N
	case "SetInf":
		ret, want = z.SetInf(c.N&1 == 1), ref.MkInf(c.N&1 == 1)
	case "SetNaN":
		ret, want = z.SetNaN(c.N&1 == 1), ref.Dec{K: pick2(c.N&1 == 1, ref.SNaN, ref.QNaN)}
	case "Set":
		rc := c.ZCtx.ref()
		if c.ZCtx.Go {
			return
		}
		if dx.IsFin() {
			want, flags = rc.Fix(dx)
		} else {
			want = dx
		}
		ret = z.Set(x)
	}
	what := fmt.Sprintf("%s(%v, %v) n=%d, receiver %v, aliased %q", c.Do, dx, dy, c.N, dz, c.Alias)
	if ret != z {
		t.Failf("%s did not return its receiver", what)
	}
	got := mustObs(t, what, z)
	if !same4(got, want) {
		t.Failf("%s = %v, want %v", what, got, want)
	}
	ctx.Conditions |= flags
	if z.Context != ctx {
		t.Failf("%s changed the receiver's context: %+v, want %+v", what, z.Context, ctx)
	}
	check := func(when string) {
		for i, b := range []*decimal.Big{x, y} {
			if b == z {
				continue
			}
			d := []ref.Dec{dx, dy}[i]
			if g := mustObs(t, what, b); !same4(g, d) || b.Context != c.XCtx.lib() {
				t.Failf("%s: %s, argument %d is %v with context %+v", what, when, i, g, b.Context)
			}
		}
	}
	check("after the call")
	// the two numbers share nothing
	if x != z && (c.Do[0] == 'C' || c.Do == "Set") {
		scribble(z)
		check("after modifying the copy")
		z = new(decimal.Big).Copy(x)
		scribble(x)
		if g := mustObs(t, what, z); !same4(g, dx) {
			t.Failf("%s: modifying the original changed its copy to %v", what, g)
		}
	}
}

type minMaxCase struct {
	V    []Num `json:"v"`
	Path int   `json:"path,omitempty"`
}

func genMinMax(s *Src) minMaxCase {
	c := minMaxCase{Path: s.N(3)}
	k := CtxJ{P: genPrec(s)}
	x := genNum(s, k, numOpt{zero: 10})
	if s.In(1, 10) {
		x = ref.MkInf(s.Bool())
	}
	c.V = append(c.V, num(x))
	for n := s.N(5); n > 0; n-- {
		y := relatedTo(s, x, k, numOpt{zero: 8})
		if s.In(1, 10) {
			y = ref.MkInf(s.Bool())
		}
		c.V = append(c.V, num(y))
	}
	return c
}

func minMaxRun(c minMaxCase, t *T) {
	var d []ref.Dec
	var b []*decimal.Big
	for _, n := range c.V {
		d = append(d, n.dec())
		b = append(b, mk(n.dec(), c.Path))
	}
	idx := func(what string, r *decimal.Big) int {
		for i := range b {
			if b[i] == r {
				return i
			}
		}
		t.Failf("%s of %v returned none of its arguments: %v", what, c.V, r)
		return -1
	}
	ext := func(what string, r *decimal.Big, sign int, abs bool, n int) {
		k := idx(what, r)
		for i := 0; i < n; i++ {
			p, q := d[k], d[i]
			if abs {
				p, q = p.Abs(), q.Abs()
			}
			w := ref.CmpNum(p, q)
			if w == 0 && i != k {
				t.Nontrivial()
			}
			if w*sign < 0 {
				t.Failf("%s of %v = %v", what, c.V, d[k])
			}
		}
	}
	ext("Min", decimal.Min(b...), -1, false, len(b))
	ext("MinAbs", decimal.MinAbs(b...), -1, true, len(b))
	ext("MaxAbs", decimal.MaxAbs(b...), +1, true, len(b))
	if len(b) > 1 {
		ext("Max", decimal.Max(b[0], b[1]), +1, false, 2)
	}
	for i := range b {
		if g := mustObs(t, "argument", b[i]); !same4(g, d[i]) {
			t.Failf("argument %d changed from %v to %v", i, d[i], g)
		}
	}
}
