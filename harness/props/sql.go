package props

import (
	"errors"
	"math/big"
	"strings"

	"github.com/ericlagergren/decimal"
	"github.com/ericlagergren/decimal/sql/postgres"

	"verif/pbt"
	"verif/ref"
)

// C30: the PostgreSQL DECIMAL wrapper.

func init() {
	pbt.Register(&pbt.Prop{ID: "C30", Assumptions: assume, Subs: []pbt.Sub{
		pbt.Check[pgCase]{Name: "value", Rule: "non-trivial: the integral or fractional part is within two digits of its limit or beyond, or the value is special",
			Quick: 60000, Thorough: 1500000, Gen: genPG, Run: pgRun},
		pbt.Check[pgScan]{Name: "scan", Rule: "non-trivial: the text is valid, or invalid in one character",
			Quick: 600000, Thorough: 15000000, Gen: genPGScan, Run: pgScanRun},
	}})
}

type pgCase struct {
	X     Num    `json:"x"`
	Fill  int    `json:"fill,omitempty"` // X's coefficient is continued by this many digits
	With  int    `json:"with,omitempty"`
	Nil   bool   `json:"nil,omitempty"`
	Zero  bool   `json:"zero,omitempty"`
	Round bool   `json:"round,omitempty"`
	Ctx   CtxJ   `json:"ctx"`
	ZC    uint32 `json:"zc,omitempty"`
}

const (
	pgInt  = 131072
	pgFrac = 16383
)

func genPG(s *Src) pgCase {
	c := pgCase{Round: s.Bool(), Zero: s.Bool(), Nil: s.In(1, 60), Ctx: genAnyCtx(s)}
	if s.In(1, 3) {
		c.ZC = uint32(s.N(1 << 13))
	}
	if s.In(1, 12) {
		c.X = num(genNum(s, c.Ctx, numOpt{special: 80, zero: 10}))
		return c
	}
	d := genNum(s, CtxJ{P: genPrec(s)}, numOpt{zero: 8})
	if !d.IsFin() {
		d = ref.New(17, 0)
	}
	n := ref.Digits(d.C)
	switch s.Weighted(4, 6, 4, 3, 1) {
	case 0: // ordinary
		d.E = s.Sym(40)
	case 1: // the fractional part about as long as allowed
		d.E = -pgFrac + pbt.Pick(s, s.Sym(2), s.Sym(n+2), s.Sym(40))
	case 2: // the integral part about as long as allowed
		d.E = pgInt - n + pbt.Pick(s, s.Sym(2), s.Sym(n+2), s.Sym(40))
	case 3: // far beyond
		d.E = pbt.Pick(s, -1, 1) * pbt.Pick(s, 20000, 200000, 140000, 17000)
	case 4: // long coefficients that exceed both
		c.Fill = pbt.Pick(s, pgFrac, 2*pgFrac, pgInt, pgInt+pgFrac) + s.Sym(30)
		c.With = s.N(10)
		d.E = -pbt.Pick(s, pgFrac, pgFrac+n, 20000, 100) + s.Sym(3)
	}
	c.X = num(d)
	return c
}

func (c pgCase) value() ref.Dec {
	d := c.X.dec()
	if c.Fill > 0 && d.IsFin() && !d.IsZero() {
		v := new(big.Int).Mul(d.C, ref.Pow10(c.Fill))
		w := new(big.Int).Sub(ref.Pow10(c.Fill), ref.One)
		w.Quo(w, big.NewInt(9)).Mul(w, big.NewInt(int64(c.With)))
		d.C = v.Add(v, w)
	}
	return d
}

func pgRun(c pgCase, t *T) {
	d := c.value()
	x := mk(d, 0)
	x.Context = c.Ctx.lib()
	x.Context.Conditions = decimal.Condition(c.ZC)
	old := x.Context
	pg := postgres.Decimal{V: x, Round: c.Round, Zero: c.Zero}
	if c.Nil {
		pg.V = nil
	}
	v, err := pg.Value()
	if c.Nil {
		t.Nontrivial()
		if c.Zero && (v != "0" || err != nil) || !c.Zero && (v != nil || err != nil) {
			t.Failf("Value of a nil decimal with Zero=%v = %v, %v", c.Zero, v, err)
		}
		return
	}
	if pg.V != x || pg.Round != c.Round || pg.Zero != c.Zero || !same4(mustObs(t, "Value", x), d) || x.Context != old {
		t.Failf("Value changed its decimal")
	}
	if v2, err2 := (&pg).Value(); v2 != v || (err2 == nil) != (err == nil) {
		t.Failf("Value gave %v, %v first and %v, %v then", v, err, v2, err2)
	}
	str, isStr := v.(string)
	if err == nil && !isStr || err != nil && v != nil {
		t.Failf("Value of %v = %v, %v: want either a string or an error", c.X, v, err)
	}
	switch {
	case d.IsNaN():
		t.Nontrivial()
		if err != nil || str != "NaN" {
			t.Failf("Value of %v = %q, %v, want NaN", d, str, err)
		}
		return
	case d.K == ref.Inf:
		t.Nontrivial()
		if err == nil {
			t.Failf("Value of %v = %q, want an error", d, str)
		}
		return
	}
	il, fl := ref.Digits(d.C)+d.E, -d.E
	if il >= pgInt-2 || fl >= pgFrac-2 {
		t.Nontrivial()
	}
	desc := func() string {
		if c.Fill > 0 {
			return string(c.X) + " (continued)"
		}
		return d.String()
	}
	if il > pgInt || fl > pgFrac {
		if !c.Round {
			t.Tag("length error")
			var le *postgres.LengthError
			if !errors.As(err, &le) {
				t.Failf("Value of %s with %d integral and %d fractional digits = %.60q, %v, want a LengthError", desc(), il, fl, str, err)
			}
			if !(le.Part == "integral" && il > pgInt && le.N == il) && !(le.Part == "fractional" && fl > pgFrac && le.N == fl) {
				t.Failf("Value of %s with %d integral and %d fractional digits reports %v", desc(), il, fl, err)
			}
			return
		}
	}
	if err != nil {
		t.Failf("Value of %s with %d integral and %d fractional digits, Round=%v: %v", desc(), il, fl, c.Round, err)
	}
	want := d
	switch {
	case il > pgInt:
		t.Tag("rounded integral part")
		want, _ = ref.Ctx{P: pgInt, M: decimal.RoundingMode(c.Ctx.M), Emax: 1 << 40, Emin: -1 << 40}.Fix(d)
	case fl > pgFrac:
		t.Tag("rounded fraction")
		want, _ = ref.Ctx{M: decimal.RoundingMode(c.Ctx.M), Emax: 1 << 40, Emin: -1 << 40}.Quantize(d, -pgFrac)
	default:
		t.Tag("fits")
	}
	p := grammar(str)
	if !p.valid || !p.d.IsFin() {
		t.Failf("Value of %s = %.60q, which is not a number", desc(), str)
	}
	got := p.d
	got.E = int(p.exp.Int64())
	if ref.CmpNum(got, want) != 0 {
		t.Failf("Value of %s with %d integral and %d fractional digits in the mode %s = %.60q (%d characters), want %.60s", desc(), il, fl, modeName(c.Ctx.M), str, len(str), want.String())
	}
	if il <= pgInt && -got.E > pgFrac {
		t.Failf("Value of %s = %.60q has %d digits after the point", desc(), str, -got.E)
	}
	// what was stored can be read back
	if len(str) < 3000 {
		var back postgres.Decimal
		var src any = str
		if c.Zero {
			src = []byte(str)
		}
		if err := back.Scan(src); err != nil {
			t.Failf("Scan(%.80q), the Value of %s: %v", str, desc(), err)
		}
		if g := mustObs(t, "Scan", back.V); !g.IsFin() || ref.CmpNum(g, want) != 0 {
			t.Failf("Scan(%.80q), the Value of %s = %v", str, desc(), g)
		}
	}
}

type pgScan struct {
	S    string `json:"s"`
	B    []byte `json:"b,omitempty"`
	Kind int    `json:"kind"` // 0 string, 1 []byte, 2 something else
	Nil  bool   `json:"nil,omitempty"`
	V    Num    `json:"v,omitempty"`
	Ctx  CtxJ   `json:"ctx"`
	ZC   uint32 `json:"zc,omitempty"`
}

func genPGScan(s *Src) pgScan {
	g := genStr(s)
	c := pgScan{S: g.S, B: g.B, Kind: s.Weighted(8, 8, 1), Nil: s.In(1, 4), Ctx: genAnyCtx(s)}
	c.Ctx.Go = false
	if s.In(1, 4) {
		d := genNum(s, CtxJ{P: genPrec(s)}, numOpt{special: 10, zero: 8})
		c.S, c.B = ref.SciString(d), nil
	}
	if s.Bool() {
		c.V = num(genNum(s, CtxJ{P: 25}, dirtyOpt))
	}
	if s.In(1, 2) {
		c.ZC = uint32(s.N(1 << 13))
	}
	return c
}

func pgScanRun(c pgScan, t *T) {
	text := c.S
	if c.B != nil {
		text = string(c.B)
	}
	var pg postgres.Decimal
	if !c.Nil {
		pg.V = new(decimal.Big)
		if c.V != "" {
			pg.V = mk(c.V.dec(), 0)
		}
		pg.V.Context = c.Ctx.lib()
		pg.V.Context.Conditions = decimal.Condition(c.ZC)
	}
	v := pg.V
	var src any = text
	raw := []byte(text)
	switch c.Kind {
	case 1:
		src = raw
	case 2:
		src = []any{int64(17), 1.5, true, nil, []rune(text)}[len(text)%5]
	}
	err := pg.Scan(src)
	if string(raw) != text {
		t.Failf("Scan modified the bytes %q", text)
	}
	if v != nil && pg.V != v {
		t.Failf("Scan replaced the decimal")
	}
	if c.Kind == 2 {
		t.Tag("other type")
		if err == nil {
			t.Failf("Scan(%#v) did not fail", src)
		}
		return
	}
	p := grammar(text)
	if p.valid || strings.ContainsAny(text, "0123456789nNiI") {
		t.Nontrivial()
	}
	if !p.valid {
		t.Tag("invalid")
		if err == nil {
			t.Failf("Scan(%q), which is not a number, gave %v without an error", text, pg.V)
		}
		return
	}
	if p.exp != nil && (p.d.IsNaN() || p.exp.CmpAbs(big.NewInt(maxExp)) > 0) {
		return // beyond the range of decimals, see C13
	}
	t.Tag("valid")
	if err != nil {
		t.Failf("Scan(%q): %v", text, err)
	}
	if p.d.IsFin() {
		p.d.E = int(p.exp.Int64())
	}
	if got := mustObs(t, "Scan", pg.V); !sameText(got, p.d) {
		t.Failf("Scan(%q) = %v", text, got)
	}
	if !c.Nil {
		ctx := c.Ctx.lib()
		ctx.Conditions = decimal.Condition(c.ZC)
		if pg.V.Context != ctx {
			t.Failf("Scan(%q) changed the decimal's context from %+v to %+v", text, ctx, pg.V.Context)
		}
	}
	// the bytes may be reused by the driver
	if c.Kind == 1 {
		for i := range raw {
			raw[i] = '8'
		}
		if got := mustObs(t, "Scan", pg.V); !sameText(got, p.d) {
			t.Failf("after the bytes %q were overwritten, the scanned decimal is %v", text, got)
		}
	}
}
