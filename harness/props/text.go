package props

import (
	"encoding/json"
	"fmt"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"sync"

	"github.com/ericlagergren/decimal"

	"verif/pbt"
	"verif/ref"
)

// C12 text round trips, C13 parsing, C14 formatting.

// maxPay is the largest diagnostic information a NaN can hold.
const maxPay = 1<<64 - 1

func genTextNum(s *Src) ref.Dec {
	c := CtxJ{P: genPrec(s)}
	d := genNum(s, c, numOpt{special: 12, zero: 12})
	if d.IsNaN() && s.In(1, 2) {
		d.Pay = s.U64()
		switch s.N(6) {
		case 0, 1:
			d.Pay = uint64(s.N(1000))
		case 2, 3:
			d.Pay %= 1000000000000000000
		case 4:
			d.Pay = maxPay - uint64(s.N(20))
		}
	}
	if d.IsFin() {
		switch s.N(12) {
		case 11:
			d.E = s.Sym(1) * (1000000000000000000 - s.N(100))
		case 10:
			d.E = s.Sym(1) * (1 << s.Range(10, 50))
		case 9, 8: // around the switch to scientific notation
			d.E = -ref.Digits(d.C) + 1 - pbt.Pick(s, 6, 7, 5, 8)
		}
	}
	return d
}

type textCase struct {
	X  Num  `json:"x"`
	XC CtxJ `json:"xc"`
	Z  Num  `json:"z,omitempty"`
	ZC CtxJ `json:"zc"`
}

func sameText(a, b ref.Dec) bool { return ref.Same(a, b) && a.Neg == b.Neg && a.Pay == b.Pay }

func textRun(c textCase, t *T) {
	x := c.X.dec()
	bx := bigOf(x, 0, c.XC)
	want := ref.SciString(x)
	if x.E != 0 || x.K != ref.Fin {
		t.Nontrivial()
	}
	if strings.Contains(want, "E") {
		t.Tag("scientific")
	}
	if g := bx.String(); g != want {
		t.Failf("String() = %q, want %q", g, want)
	}
	if g, err := bx.MarshalText(); err != nil || string(g) != want {
		t.Failf("MarshalText() = %q, %v, want %q", g, err, want)
	}
	if g := fmt.Sprint(bx); g != want {
		t.Failf("Sprint = %q, want %q", g, want)
	}
	js, err := json.Marshal(struct{ V *decimal.Big }{bx})
	if err != nil || string(js) != `{"V":"`+want+`"}` {
		t.Failf("JSON encoding is %s, %v, want the string %q", js, err, want)
	}
	fresh := func() *decimal.Big {
		z := new(decimal.Big)
		if c.Z != "" {
			z = mk(c.Z.dec(), 0)
		}
		z.Context = c.ZC.lib()
		return z
	}
	check := func(how string, z *decimal.Big) {
		if o := mustObs(t, how, z); !sameText(o, x) {
			t.Failf("%s of %q gives %v", how, want, o)
		}
		if z.Context != c.ZC.lib() {
			t.Failf("%s of %q changed the receiver's context or conditions: %+v", how, want, z.Context)
		}
	}
	z := fresh()
	if r, ok := z.SetString(want); !ok || r != z {
		t.Failf("SetString(%q) = %v, %v", want, r, ok)
	}
	check("SetString", z)
	z = fresh()
	if err := z.UnmarshalText([]byte(want)); err != nil {
		t.Failf("UnmarshalText(%q): %v", want, err)
	}
	check("UnmarshalText", z)
	z = fresh()
	v := struct{ V *decimal.Big }{z}
	if err := json.Unmarshal(js, &v); err != nil || v.V != z {
		t.Failf("json.Unmarshal(%s): %v", js, err)
	}
	check("json.Unmarshal", z)
	if x.IsFin() { // as a JSON number
		z = fresh()
		if err := json.Unmarshal([]byte(want), z); err != nil {
			t.Failf("json.Unmarshal(%s): %v", want, err)
		}
		check("json.Unmarshal of a number", z)
	}
	z = fresh()
	var rest string
	if n, err := fmt.Sscan(want+" tail", z, &rest); n != 2 || err != nil || rest != "tail" {
		t.Failf("Sscan(%q) = %d, %v, rest %q", want, n, err, rest)
	}
	check("Sscan", z)
	checkUnchanged(t, "x", bx, x, c.XC)
}

type ctxStrCase struct {
	Ctx CtxJ   `json:"ctx"`
	X   Num    `json:"x"`
	S   string `json:"s"`
	Z   Num    `json:"z,omitempty"`
	ZC  uint32 `json:"zc,omitempty"`
}

func ctxStrRun(c ctxStrCase, t *T) {
	x := c.X.dec()
	z := new(decimal.Big)
	if c.Z != "" {
		z = mk(c.Z.dec(), 0)
	}
	z.Context.Conditions = decimal.Condition(c.ZC)
	r, ok := c.Ctx.lib().SetString(z, c.S)
	if !ok || r != z {
		t.Failf("Context.SetString(%q) = %v, %v", c.S, r, ok)
	}
	want, f := x, ref.Cond(0)
	if x.IsFin() {
		want, f = c.Ctx.ref().Fix(x)
	}
	if f != 0 {
		t.Nontrivial()
	}
	tagFlags(t, f)
	if got := mustObs(t, "SetString", z); !sameText(got, want) {
		t.Failf("Context.SetString(%q) prec=%d %s emax=%d emin=%d = %v, want %v", c.S, c.Ctx.prec(), modeName(c.Ctx.M), c.Ctx.Emax, c.Ctx.Emin, got, want)
	}
	if g, w := ref.Cond(z.Context.Conditions), f|ref.Cond(c.ZC); g != w {
		t.Failf("Context.SetString(%q) prec=%d emax=%d emin=%d = %v: conditions [%v], want [%v]", c.S, c.Ctx.prec(), c.Ctx.Emax, c.Ctx.Emin, want, g, w)
	}
}

// spell writes d in one of the many forms the grammar allows.
func spell(s *Src, d ref.Dec) string {
	sign := pbt.Pick(s, "", "+")
	if d.Neg {
		sign = "-"
	}
	casing := func(w string) string {
		switch s.N(4) {
		case 1:
			return strings.ToLower(w)
		case 2:
			return strings.ToUpper(w)
		case 3:
			b := []byte(w)
			for i := range b {
				if s.Bool() && b[i] >= 'a' && b[i] <= 'z' {
					b[i] -= 32
				}
			}
			return string(b)
		}
		return w
	}
	switch d.K {
	case ref.Inf:
		return sign + casing(pbt.Pick(s, "Infinity", "Inf"))
	case ref.QNaN, ref.SNaN:
		n := casing(pbt.Pick(s, "NaN", "qNaN"))
		if d.K == ref.SNaN {
			n = casing("sNaN")
		}
		if d.Pay != 0 || s.In(1, 4) {
			n += strings.Repeat("0", s.N(3)) + strconv.FormatUint(d.Pay, 10)
		}
		return sign + n
	}
	digits := d.C.String()
	if s.In(1, 4) {
		digits = strings.Repeat("0", s.N(25)) + digits
	}
	e := d.E
	var m string
	switch s.N(3) {
	case 0: // point somewhere in the digits
		k := s.N(len(digits) + 1)
		m = digits[:len(digits)-k] + "." + digits[len(digits)-k:]
		e += k
	case 1: // no point
		m = digits
	case 2: // more zeros in front
		k := s.N(30)
		digits = strings.Repeat("0", k) + digits
		m = "." + digits
		e += len(digits)
	}
	if e == 0 && s.Bool() {
		return sign + m
	}
	es := strconv.Itoa(e)
	if e >= 0 {
		es = pbt.Pick(s, "", "+") + strings.Repeat("0", s.N(3)) + es
	} else if s.In(1, 5) {
		es = "-" + strings.Repeat("0", s.N(25)) + es[1:]
	}
	return sign + m + pbt.Pick(s, "E", "e") + es
}

type strCase struct {
	S  string `json:"s"`
	B  []byte `json:"b,omitempty"` // instead of s, if it is not UTF-8
	Z  Num    `json:"z,omitempty"`
	ZC CtxJ   `json:"zc"`
}

// parsed is the outcome the grammar demands.
type parsed struct {
	valid bool
	d     ref.Dec
	exp   *big.Int // exponent of a finite value, of any size
}

func fold(s, w string) bool { return strings.EqualFold(s, w) && len(s) == len(w) }

func allDigits(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}

// grammar parses s by the numeric-string grammar of the specification with
// case-insensitive names and "qNaN".
func grammar(s string) parsed {
	no := parsed{}
	var d ref.Dec
	if s != "" && (s[0] == '+' || s[0] == '-') {
		d.Neg = s[0] == '-'
		s = s[1:]
	}
	if fold(s, "inf") || fold(s, "infinity") {
		d.K = ref.Inf
		return parsed{valid: true, d: d}
	}
	for i, p := range []string{"snan", "qnan", "nan"} {
		if len(s) >= len(p) && fold(s[:len(p)], p) {
			pay := s[len(p):]
			if !allDigits(pay) {
				return no
			}
			d.K = ref.QNaN
			if i == 0 {
				d.K = ref.SNaN
			}
			if pay != "" {
				v, _ := new(big.Int).SetString(pay, 10)
				if !v.IsUint64() {
					return parsed{valid: true, d: d, exp: v}
				}
				d.Pay = v.Uint64()
			}
			return parsed{valid: true, d: d}
		}
	}
	m, e := s, ""
	hasE := false
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		m, e, hasE = s[:i], s[i+1:], true
	}
	frac := 0
	if i := strings.IndexByte(m, '.'); i >= 0 {
		frac = len(m) - i - 1
		m = m[:i] + m[i+1:]
	}
	if m == "" || !allDigits(m) {
		return no
	}
	exp := new(big.Int)
	if hasE {
		neg := false
		if e != "" && (e[0] == '+' || e[0] == '-') {
			neg = e[0] == '-'
			e = e[1:]
		}
		if e == "" || !allDigits(e) {
			return no
		}
		exp.SetString(e, 10)
		if neg {
			exp.Neg(exp)
		}
	}
	d.C, _ = new(big.Int).SetString(m, 10)
	exp.Sub(exp, big.NewInt(int64(frac)))
	return parsed{valid: true, d: d, exp: exp}
}

func parseRun(c strCase, t *T) {
	s := c.S
	if c.B != nil {
		s = string(c.B)
	}
	p := grammar(s)
	fresh := func() *decimal.Big {
		z := new(decimal.Big)
		if c.Z != "" {
			z = mk(c.Z.dec(), 0)
		}
		z.Context = c.ZC.lib()
		return z
	}
	if p.valid {
		if m := decimal.Regexp.FindString(s); m != s {
			t.Failf("Regexp finds only %q in the valid string %q", m, s)
		}
	} else if wholeRegexp().MatchString(s) && isASCII(s) {
		t.Failf("Regexp matches all of %q, which is not a number", s)
	}
	near := p.valid
	if p.valid {
		t.Tag("valid")
	} else {
		t.Tag("invalid")
		near = strings.ContainsAny(s, "0123456789nNiI")
	}
	if near {
		t.Nontrivial()
	}
	judge := func(how string, z *decimal.Big, ok bool) {
		f := ref.Cond(z.Context.Conditions)
		if zc := z.Context; true {
			zc.Conditions = 0
			if zc != c.ZC.lib() {
				t.Failf("%s(%q) changed the receiver's context: %+v", how, s, z.Context)
			}
		}
		if !p.valid {
			if ok && !(z.IsNaN(0) && f == ref.ConvSyntax) {
				t.Failf("%s accepted %q, which is not a number, as %v (conditions [%v])", how, s, z, f)
			}
			return
		}
		if !ok {
			t.Failf("%s rejected %q", how, s)
		}
		got := mustObs(t, how, z)
		const lim = 2 * maxExp
		switch {
		case p.d.IsNaN() && p.exp != nil: // a payload too long to keep, so it must not be another one
			if !got.IsNaN() || got.Pay != 0 {
				t.Failf("%s(%q) = %v", how, s, got)
			}
			if f&ref.ConvSyntax == 0 {
				t.Failf("%s(%q) = %v raised [%v], but its diagnostic information is lost", how, s, got, f)
			}
			return
		case !p.d.IsFin():
		case p.exp.CmpAbs(big.NewInt(lim-100000)) < 0:
			p.d.E = int(p.exp.Int64())
		case p.exp.CmpAbs(big.NewInt(lim+100000)) < 0:
			return // too close to the limit to be claimed
		default:
			over := p.exp.Sign() > 0
			switch {
			case p.d.C.Sign() == 0:
				if !got.IsZero() || got.Neg != p.d.Neg || f&(ref.Overflow|ref.Underflow) != 0 {
					t.Failf("%s(%q) = %v [%v], want a zero", how, s, got, f)
				}
			case over:
				if w := ref.Overflow | ref.Inexact | ref.Rounded; got.K != ref.Inf || got.Neg != p.d.Neg || f&w != w {
					t.Failf("%s(%q) = %v [%v], want an overflow to infinity", how, s, got, f)
				}
			default:
				if w := ref.Underflow | ref.Inexact | ref.Rounded; !got.IsZero() || got.Neg != p.d.Neg || f&w != w {
					t.Failf("%s(%q) = %v [%v], want an underflow to zero", how, s, got, f)
				}
			}
			t.Tag("huge exponent")
			return
		}
		if !sameText(got, p.d) {
			t.Failf("%s(%q) = %v, want %v", how, s, got, p.d)
		}
		if f != 0 {
			t.Failf("%s(%q) = %v raised [%v]", how, s, got, f)
		}
	}
	z := fresh()
	r, ok := z.SetString(s)
	if ok && r != z || !ok && r != nil {
		t.Failf("SetString(%q) returned (%p, %v)", s, r, ok)
	}
	judge("SetString", z, ok)
	zc := fresh()
	if r, cok := decimal.Context128.SetString(zc, s); cok != ok || cok && r != zc || !cok && r != nil {
		t.Failf("Context.SetString(%q) returned (%p, %v) but SetString %v", s, r, cok, ok)
	}
	z2 := fresh()
	err := z2.UnmarshalText([]byte(s))
	judge("UnmarshalText", z2, err == nil)
	if (err == nil) != ok {
		t.Failf("SetString(%q) reports %v but UnmarshalText %v", s, ok, err)
	}
	z3 := fresh()
	err = z3.UnmarshalJSON([]byte(`"` + s + `"`))
	judge("UnmarshalJSON", z3, err == nil)
	z4 := fresh()
	z4.UnmarshalJSON([]byte(s))
	// a token for fmt: only if it has no characters that end the token
	if plainToken(s) {
		z5 := fresh()
		n, err := fmt.Sscan(s, z5)
		judge("Sscan", z5, n == 1 && err == nil)
	}
}

// wholeRegexp is decimal.Regexp for a whole string.
var wholeRegexp = sync.OnceValue(func() *regexp.Regexp {
	return regexp.MustCompile(`\A(?:` + decimal.Regexp.String() + `)\z`)
})

// isASCII: letters that fold to ASCII ones are left to the library.
func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

func plainToken(s string) bool {
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if !(ch >= '0' && ch <= '9' || ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch == '+' || ch == '-' || ch == '.') {
			return false
		}
	}
	return s != ""
}

const alphabet = "0123456789.+-eEiInNaAfFtTyYsSqQ 0123456789x_,\x00\"\n9é"

func genStr(s *Src) strCase {
	var c strCase
	var b []byte
	switch s.Weighted(4, 8, 3, 2) {
	case 0: // valid
		b = []byte(spell(s, genTextNum(s)))
	case 1: // valid, then damaged
		b = []byte(spell(s, genTextNum(s)))
		if len(b) > 60 && s.Bool() {
			b = b[len(b)-60:]
		}
		for n := s.Range(1, 3); n > 0; n-- {
			i := s.N(len(b) + 1)
			switch s.N(4) {
			case 0: // insert
				b = append(b[:i], append([]byte{alphabet[s.N(len(alphabet))]}, b[i:]...)...)
			case 1: // delete
				if i < len(b) {
					b = append(b[:i], b[i+1:]...)
				}
			case 2: // replace
				if i < len(b) {
					b[i] = alphabet[s.N(len(alphabet))]
				}
			case 3: // cut or duplicate
				if s.Bool() {
					b = b[:i]
				} else if len(b) < 200 {
					b = append(b, b[:i]...)
				}
			}
		}
	case 2: // soup
		for n := s.N(14); n > 0; n-- {
			if s.In(1, 30) {
				b = append(b, byte(s.N(256)))
			} else {
				b = append(b, alphabet[s.N(len(alphabet))])
			}
		}
	case 3: // exponents of any size
		d := genCoef(s, 10)
		e := pbt.Pick(s, "9223372036854775807", "9223372036854775808", "18446744073709551616", "1000000000000000000", "999999999999999999", "2000000000000000000", "1999999999999999999", "99999999999999999999999999", "4611686018427387904")
		b = []byte(pbt.Pick(s, "", "-", "+") + d.String())
		if s.In(1, 3) {
			b = []byte(pbt.Pick(s, "0", "-0", "0.000", "-0.0"))
		}
		if s.In(1, 6) { // diagnostic information of any size
			v := new(big.Int).Lsh(ref.One, 64)
			v.Add(v, big.NewInt(int64(s.Sym(12))))
			if s.Bool() {
				v = genDigits(s, s.Range(18, 23))
			}
			b = []byte(pbt.Pick(s, "", "-", "+") + pbt.Pick(s, "NaN", "sNaN", "qnan") + v.String())
			break
		}
		if s.Bool() {
			b = append(b, '.')
		}
		b = append(b, "e"+pbt.Pick(s, "", "-", "+")+e...)
	}
	c.S = string(b)
	if !json.Valid([]byte(strconv.Quote(c.S))) || strings.ToValidUTF8(c.S, "") != c.S {
		c.S, c.B = "", b
	}
	if s.In(1, 3) {
		c.Z = num(genNum(s, CtxJ{P: 20}, dirtyOpt))
	}
	if s.In(1, 4) {
		c.ZC = genCtx(s, ctxOpt{limited: 30})
	}
	return c
}

// --- formatting -----------------------------------------------------------

type fmtCase struct {
	X     Num    `json:"x"`
	M     int    `json:"m"`
	Verb  string `json:"verb"`
	Flags string `json:"flags,omitempty"`
	Width int    `json:"width"` // -1: none
	Prec  int    `json:"prec"`  // -1: none
}

func genFmt(s *Src) fmtCase {
	c := fmtCase{M: s.N(7), Verb: pbt.Pick(s, "s", "f", "e", "g", "v", "d", "E", "F", "G", "q"), Width: -1, Prec: -1}
	d := genTextNum(s)
	if d.IsFin() {
		if d.Adj() > 300 || d.E < -300 {
			d.E = s.Sym(40)
		}
	}
	c.X = num(d)
	if s.In(3, 5) && d.IsFin() {
		n := ref.Digits(d.C)
		lo := 1
		if c.Verb == "f" || c.Verb == "F" {
			lo = 0
			switch s.N(3) {
			case 0:
				c.Prec = s.N(12)
			case 1:
				c.Prec = max(0, -d.E-s.N(n+2))
			case 2:
				c.Prec = max(0, -d.E+s.Sym(3))
			}
		} else {
			switch s.N(3) {
			case 0:
				c.Prec = s.Range(1, n+4)
			case 1:
				c.Prec = max(1, n+s.Sym(2))
			case 2:
				c.Prec = s.Range(1, 6)
			}
		}
		_ = lo
	}
	if s.In(1, 2) {
		c.Width = s.N(60)
	}
	for _, f := range "+- 0" {
		if s.In(1, 4) {
			c.Flags += string(f)
		}
	}
	if c.Verb == "q" {
		c.Prec = -1
		c.Flags = strings.ReplaceAll(c.Flags, "0", "")
		if s.In(1, 3) {
			c.Flags += "#"
		}
	}
	if c.Verb == "v" {
		c.Flags = strings.ReplaceAll(c.Flags, "+", "")
	}
	return c
}

// wantFmt is what the documentation of Format prescribes; ok is false where it
// prescribes nothing.
func wantFmt(c fmtCase, x ref.Dec) (string, bool) {
	mode := decimal.RoundingMode(c.M)
	has := func(f string) bool { return strings.Contains(c.Flags, f) }
	var body, sign string
	if x.Neg {
		sign = "-"
	} else if has("+") && c.Verb != "q" {
		sign = "+"
	} else if has(" ") && c.Verb != "q" {
		sign = " "
	}
	if !x.IsFin() {
		if x.IsNaN() || !x.Neg {
			sign = ""
		}
		body = strings.TrimPrefix(ref.SciString(x), "-")
		if x.Neg {
			sign = "-"
		}
		return pad(c, sign, body, false), true
	}
	if x.IsZero() && c.Prec >= 0 {
		if c.Verb != "f" && c.Verb != "F" {
			return "", false
		}
		body = "0"
		if c.Prec > 0 {
			body += "." + strings.Repeat("0", c.Prec)
		}
		return pad(c, sign, body, true), true
	}
	d := ref.Dec{C: x.C, E: x.E}
	plain := false
	switch c.Verb {
	case "f", "F":
		plain = true
		if c.Prec >= 0 {
			d = roundAt(x, -c.Prec, mode)
			d.Neg = false
		}
	default:
		plain = c.Verb == "g" || c.Verb == "G"
		if c.Prec > 0 {
			n := ref.Digits(x.C)
			d = roundAt(x, x.E+n-c.Prec, mode)
			d.Neg = false
			if ref.Digits(d.C) > c.Prec { // carried: drop the extra zero
				d.C.Quo(d.C, ref.Ten)
				d.E++
			}
		}
	}
	switch {
	case c.Verb == "e" || c.Verb == "E":
		s := d.C.String()
		body = s[:1]
		if len(s) > 1 {
			body += "." + s[1:]
		}
		adj := d.E + len(s) - 1
		body += c.Verb
		if adj > 0 {
			body += "+"
		}
		body += strconv.Itoa(adj)
	case plain && x.IsZero() && d.E > 0:
		body = "0"
	case plain:
		body = ref.PlainString(d)
	default:
		body = ref.SciString(d)
	}
	if c.Verb == "q" {
		q := `"`
		if has("#") {
			q = "`"
		}
		return pad(c, "", q+sign+body+q, false), true
	}
	return pad(c, sign, body, true), true
}

// roundAt returns x as a multiple of 10**e, rounded or padded with zeros.
func roundAt(x ref.Dec, e int, m decimal.RoundingMode) ref.Dec {
	if e <= x.E {
		return ref.Dec{Neg: x.Neg, C: new(big.Int).Mul(x.C, ref.Pow10(x.E-e)), E: e}
	}
	v, _ := ref.RoundOff(new(big.Int).Set(x.C), e-x.E, x.Neg, m)
	return ref.Dec{Neg: x.Neg, C: v, E: e}
}

func pad(c fmtCase, sign, body string, zeros bool) string {
	n := c.Width - len(sign) - len(body)
	if n <= 0 {
		return sign + body
	}
	switch {
	case strings.Contains(c.Flags, "-"):
		return sign + body + strings.Repeat(" ", n)
	case strings.Contains(c.Flags, "0") && zeros:
		return sign + strings.Repeat("0", n) + body
	}
	return strings.Repeat(" ", n) + sign + body
}

func fmtRun(c fmtCase, t *T) {
	x := c.X.dec()
	xc := CtxJ{M: c.M}
	bx := bigOf(x, 0, xc)
	f := "%" + c.Flags
	if c.Width >= 0 {
		if c.Width == 0 && strings.Contains(c.Flags, "0") {
			return
		}
		if c.Width > 0 {
			f += strconv.Itoa(c.Width)
		}
	}
	if c.Prec >= 0 {
		f += "." + strconv.Itoa(c.Prec)
	}
	f += c.Verb
	got := fmt.Sprintf(f, bx)
	checkUnchanged(t, "x", bx, x, xc)
	if q := c.Verb == "q"; q && !x.IsFin() {
		return
	}
	if c.Width == 0 {
		c.Width = -1
	}
	want, ok := wantFmt(c, x)
	if !ok {
		// zeros: the text still denotes zero
		s := strings.Trim(got, " \"`")
		if s = strings.TrimLeft(s, "+- "); strings.ContainsAny(s, "123456789") && !strings.ContainsAny(s, "eE") || !strings.HasPrefix(s, "0") || len(got) < c.Width {
			t.Failf("Sprintf(%q, %v) = %q", f, x, got)
		}
		return
	}
	t.Tag("%" + c.Verb)
	if c.Prec >= 0 || c.Width > 0 {
		t.Nontrivial()
	}
	if got != want {
		t.Failf("Sprintf(%q, %v) in %s = %q, want %q", f, x, modeName(c.M), got, want)
	}
}

func init() {
	reg := func(id string, subs ...pbt.Sub) { pbt.Register(&pbt.Prop{ID: id, Assumptions: assume, Subs: subs}) }
	reg("C12",
		pbt.Check[textCase]{Name: "round-trip", Rule: "non-trivial: special value, or finite with a non-zero exponent", Quick: 3000000, Thorough: 50000000,
			Gen: func(s *Src) textCase {
				c := textCase{X: num(genTextNum(s))}
				if s.In(1, 3) {
					c.XC = genCtx(s, ctxOpt{limited: 40, unlimited: 10})
				}
				if s.In(1, 3) {
					c.ZC = genCtx(s, ctxOpt{limited: 40, unlimited: 10})
				}
				if s.In(1, 2) {
					c.Z = num(genNum(s, CtxJ{P: 25}, dirtyOpt))
				}
				return c
			}, Run: textRun},
		pbt.Check[streamCase]{Name: "stream", Rule: "non-trivial: two numbers or more, from a reader that fails or delivers a few bytes at a time", Quick: 600000, Thorough: 10000000,
			Gen: genStream, Run: streamRun},
		pbt.Check[ctxStrCase]{Name: "context", Rule: "non-trivial: the model raises a condition", Quick: 3000000, Thorough: 50000000,
			Gen: func(s *Src) ctxStrCase {
				ctx := genCtx(s, ctxOpt{limited: 45, unlimited: 5})
				d := genNum(s, ctx, numOpt{special: 5, zero: 8})
				c := ctxStrCase{Ctx: ctx, X: num(d), S: spell(s, d)}
				if s.In(1, 2) {
					c.Z = num(genNum(s, ctx, dirtyOpt))
				}
				if s.In(1, 4) {
					c.ZC = uint32(s.N(1 << 13))
				}
				return c
			}, Run: ctxStrRun})
	reg("C13", pbt.Check[strCase]{Name: "grammar", Rule: "non-trivial: a valid number, or an invalid string that contains digits or a letter of a special value",
		Quick: 6000000, Thorough: 80000000, Gen: genStr, Run: parseRun})
	reg("C14", pbt.Check[fmtCase]{Name: "verbs", Rule: "non-trivial: a width or precision is given",
		Quick: 6000000, Thorough: 80000000, Gen: genFmt, Run: fmtRun},
		pbt.Check[verbCase]{Name: "other-verbs", Rule: "non-trivial: a special value or a non-zero exponent, printed with a verb for something else or with all fields",
			Quick: 400000, Thorough: 4000000, Gen: genVerb, Run: verbRun})
}
