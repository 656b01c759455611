package props

import (
	"bytes"
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"github.com/ericlagergren/decimal"
	"github.com/ericlagergren/decimal/dectest"
	"github.com/ericlagergren/decimal/suite"

	"verif/pbt"
)

// C31: the parsers of the two test-vector formats.

func init() {
	pbt.Register(&pbt.Prop{ID: "C31", Assumptions: assume, Subs: []pbt.Sub{
		pbt.Check[fpCase]{Name: "fptest", Rule: "non-trivial: at least two cases, one with a trap and one with an exception",
			Quick: 400000, Thorough: 10000000, Gen: genFP, Run: fpRun},
		pbt.Check[dtCase]{Name: "dectest", Rule: "non-trivial: at least one directive after the first case, and a case with conditions",
			Quick: 300000, Thorough: 8000000, Gen: genDT, Run: dtRun},
		pbt.Check[readCase]{Name: "reader-faults", Rule: "non-trivial: two lines or more and a read error, or a line too long to be read",
			Quick: 200000, Thorough: 4000000, Gen: genRead, Run: readRun},
		pbt.Check[junkCase]{Name: "malformed", Rule: "non-trivial: the line differs in one to three characters from a well-formed one",
			Quick: 600000, Thorough: 15000000, Gen: genJunk, Run: junkRun},
	}})
}

// --- .fptest

var fpOps = []struct {
	s string
	o suite.Op
}{
	{"+", suite.Add}, {"-", suite.Sub}, {"*", suite.Mul}, {"/", suite.Div}, {"*-", suite.FMA}, {"V", suite.Sqrt},
	{"%", suite.Rem}, {"rfi", suite.RFI}, {"cff", suite.CFF}, {"cfi", suite.CFI}, {"cif", suite.CIF}, {"cfd", suite.CFD},
	{"cdf", suite.CDF}, {"qC", suite.QuietCmp}, {"sC", suite.SigCmp}, {"cp", suite.Copy}, {"~", suite.Neg}, {"A", suite.Abs},
	{"@", suite.CopySign}, {"S", suite.Scalb}, {"L", suite.Logb}, {"Na", suite.NextAfter}, {"?", suite.Class}, {"?-", suite.IsSigned},
	{"?n", suite.IsNormal}, {"?f", suite.IsFinite}, {"?0", suite.IsZero}, {"?s", suite.IsSubNormal}, {"?i", suite.IsInf},
	{"?N", suite.IsNaN}, {"?sN", suite.IsSignaling}, {"<C", suite.MinNum}, {">C", suite.MaxNum}, {"<A", suite.MinNumMag},
	{">A", suite.MaxNumMag}, {"=quant", suite.SameQuantum}, {"quant", suite.Quantize}, {"Nu", suite.NextUp}, {"Nd", suite.NextDown},
	{"eq", suite.Equiv}, {"rat", suite.SetRat}, {"sign", suite.Sign}, {"signbit", suite.Signbit}, {"exp", suite.Exp},
	{"log", suite.Log}, {"log10", suite.Log10}, {"pow", suite.Pow}, {"//", suite.IntDiv}, {"norm", suite.Normalize},
	{"rtie", suite.RoundToInt}, {"shift", suite.Shift},
}

var fpModes = []struct {
	s string
	m big.RoundingMode
}{
	{">", big.ToPositiveInf}, {"<", big.ToNegativeInf}, {"0", big.ToZero}, {"=0", big.ToNearestEven}, {"=^", big.ToNearestAway}, {"^", big.AwayFromZero},
}

var fpConds = []struct {
	b byte
	c suite.Condition
}{
	{'x', suite.Inexact}, {'u', suite.Underflow}, {'v', suite.Underflow}, {'w', suite.Underflow}, {'o', suite.Overflow},
	{'z', suite.DivisionByZero}, {'i', suite.InvalidOperation}, {'c', suite.Clamped}, {'r', suite.Rounded}, {'y', suite.ConversionSyntax},
	{'m', suite.DivisionImpossible}, {'n', suite.DivisionUndefined}, {'t', suite.InsufficientStorage}, {'?', suite.InvalidContext}, {'s', suite.Subnormal},
}

type fpLine struct {
	Skip   string   `json:"skip,omitempty"` // a comment or an empty line instead of a case
	IsSkip bool     `json:"is_skip,omitempty"`
	Prefix string   `json:"prefix,omitempty"`
	Prec   int      `json:"prec"`
	Op     int      `json:"op"`
	Mode   int      `json:"mode"`
	Trap   string   `json:"trap,omitempty"`
	In     []string `json:"in,omitempty"`
	Out    string   `json:"out,omitempty"`
	Excep  string   `json:"excep,omitempty"`
	Gap    int      `json:"gap,omitempty"` // extra blanks
}

type fpCase struct {
	Lines []fpLine `json:"lines"`
	CR    bool     `json:"cr,omitempty"`
	NoEnd bool     `json:"noend,omitempty"`
}

func (l fpLine) String() string {
	if l.IsSkip {
		return l.Skip
	}
	gap := " " + strings.Repeat(" ", l.Gap)
	var b strings.Builder
	fmt.Fprintf(&b, "%s%d%s %s ", l.Prefix, l.Prec, fpOps[l.Op].s, fpModes[l.Mode].s)
	if l.Trap != "" {
		b.WriteString(l.Trap + gap)
	}
	for _, in := range l.In {
		b.WriteString(in + gap)
	}
	b.WriteString("->" + gap + l.Out)
	if l.Excep != "" {
		b.WriteString(gap + l.Excep)
	}
	return b.String()
}

func digits(s *Src, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + s.N(10))
	}
	return string(b)
}

func genFPNum(s *Src) string {
	sign := pbt.Pick(s, "", "", "+", "-")
	n := sign + digits(s, s.Range(1, 12))
	if s.Bool() {
		n += "." + digits(s, s.Range(1, 12))
	}
	switch s.N(4) {
	case 0:
		n += pbt.Pick(s, "e", "E") + pbt.Pick(s, "", "+", "-") + digits(s, s.Range(1, 4))
	case 1:
		n += pbt.Pick(s, "+", "-") + digits(s, s.Range(1, 4))
	}
	return n
}

func genFPData(s *Src, out bool) string {
	if s.In(1, 3) {
		return pbt.Pick(s, "+Inf", "-Inf", "Q", "S", "Inf", "Infinity", "-Infinity", "NaN", "-NaN", "sNaN", "qNaN", "SNaN", "-SNaN", "SNAN", "QNaN", "nan", "-sNAN", "-inf", "+INF", "Zero", "-Zero",
			"Normal", "+Normal", "-Subnormal", "true", "True", "False", "false")
	}
	if out && s.In(1, 8) {
		return string(suite.NoData)
	}
	return genFPNum(s)
}

func genCondString(s *Src) string {
	var b []byte
	for i := s.Range(1, 4); i > 0; i-- {
		b = append(b, fpConds[s.N(len(fpConds))].b)
	}
	return string(b)
}

func genFPLine(s *Src) fpLine {
	if s.In(1, 8) {
		return fpLine{IsSkip: true, Skip: pbt.Pick(s, "", "#", "# comment", "#d64+ =0 1 2 -> 3")}
	}
	l := fpLine{Prefix: pbt.Pick(s, "d", "b"), Prec: pbt.Pick(s, 32, 64, 128, s.N(100000)), Op: s.N(len(fpOps)), Mode: s.N(len(fpModes)), Gap: s.Weighted(6, 1, 1)}
	if s.Bool() {
		l.Trap = genCondString(s)
		if l.Trap == "s" { // could also be an input, a signaling NaN
			l.Trap = "sx"
		}
	}
	for i := s.Range(1, 3); i > 0; i-- {
		in := genFPData(s, false)
		l.In = append(l.In, in)
	}
	l.Out = genFPData(s, true)
	if s.Bool() {
		l.Excep = genCondString(s)
	}
	return l
}

func genFP(s *Src) fpCase {
	c := fpCase{NoEnd: s.Bool()}
	for i := s.Range(1, 4); i > 0; i-- {
		c.Lines = append(c.Lines, genFPLine(s))
	}
	return c
}

func condOf(s string) (c suite.Condition) {
	for i := range s {
		for _, k := range fpConds {
			if k.b == s[i] {
				c |= k.c
			}
		}
	}
	return c
}

func fpRun(c fpCase, t *T) {
	var text bytes.Buffer
	var want []fpLine
	trap, exc := false, false
	for i, l := range c.Lines {
		text.WriteString(l.String())
		if i+1 < len(c.Lines) || !c.NoEnd {
			text.WriteByte('\n')
		}
		if !l.IsSkip {
			want = append(want, l)
			trap = trap || l.Trap != ""
			exc = exc || l.Excep != ""
		}
	}
	if len(want) > 1 && trap && exc {
		t.Nontrivial()
	}
	got, err := suite.ParseCases(strings.NewReader(text.String()))
	if err != nil {
		t.Failf("ParseCases(%q): %v", text.String(), err)
	}
	if len(got) != len(want) {
		t.Failf("ParseCases(%q) gives %d cases, want %d", text.String(), len(got), len(want))
	}
	for i, l := range want {
		t.Tag(fpOps[l.Op].s)
		g := got[i]
		line := []byte(l.String())
		one, err := suite.ParseCase(line)
		for j := range line { // the case must not depend on the buffer
			line[j] = '9'
		}
		if err != nil {
			t.Failf("ParseCase(%q): %v", l.String(), err)
		}
		for _, v := range []suite.Case{g, one} {
			ok := v.Prefix == l.Prefix && v.Prec == l.Prec && v.Op == fpOps[l.Op].o && v.Mode == fpModes[l.Mode].m &&
				v.Trap == condOf(l.Trap) && v.Excep == condOf(l.Excep) && string(v.Output) == l.Out && len(v.Inputs) == len(l.In)
			for j := range l.In {
				ok = ok && string(v.Inputs[j]) == l.In[j]
			}
			if !ok {
				t.Failf("the line %q is parsed as %+v", l.String(), v)
			}
			for _, cond := range []suite.Condition{v.Trap, v.Excep} {
				var names []string
				for _, n := range fpCondNames {
					if cond&n.c != 0 {
						names = append(names, n.name)
					}
				}
				if text, want := cond.String(), strings.Join(names, ", "); cond != 0 && text != want {
					t.Failf("the text of the conditions %b of the line %q is %q, want %q", cond, l.String(), text, want)
				}
			}
			caseText(t, l.String(), v.String(), v.ShortString, l.Prefix+strconv.Itoa(l.Prec), l.In, l.Out)
			for j, d := range append(append([]suite.Data{}, v.Inputs...), v.Output) {
				nan, sig := d.IsNaN()
				low := strings.ToLower(strings.TrimPrefix(string(d), "-"))
				wn := d == "S" || d == "Q" || low == "nan" || low == "snan" || low == "qnan"
				ws := wn && low[0] == 's'
				if nan != wn || nan && sig != ws {
					t.Failf("%q (%d).IsNaN() = %v, %v", d, j, nan, sig)
				}
				si, inf := d.IsInf()
				if w := strings.EqualFold(string(d), "+Inf") || strings.EqualFold(string(d), "-Inf"); inf != w || inf && (si < 0) != (d[0] == '-') {
					t.Failf("%q.IsInf() = %v, %v", d, si, inf)
				}
			}
		}
	}
}

// fpCondNames are the names of the conditions in the order of their text.
var fpCondNames = []struct {
	c    suite.Condition
	name string
}{
	{suite.Clamped, "clamped"}, {suite.ConversionSyntax, "conversion syntax"}, {suite.DivisionByZero, "division by zero"},
	{suite.DivisionImpossible, "division impossible"}, {suite.DivisionUndefined, "division undefined"}, {suite.Inexact, "inexact"},
	{suite.InsufficientStorage, "insufficient storage"}, {suite.InvalidContext, "invalid context"}, {suite.InvalidOperation, "invalid operation"},
	{suite.Overflow, "overflow"}, {suite.Rounded, "rounded"}, {suite.Subnormal, "subnormal"}, {suite.Underflow, "underflow"},
}

// caseText judges the String and ShortString of a parsed case: they name it
// and its data in order; ShortString only shortens data.
func caseText(t *T, line, str string, short func(int) string, id string, in []string, out string) {
	max := len(out)
	rest := str
	if i := strings.IndexFunc(str, func(r rune) bool { return r < ' ' && !strings.ContainsRune(line, r) }); i >= 0 {
		t.Failf("the case of the line %q prints as %q", line, str)
	}
	for i, w := range append(append([]string{id}, in...), out) {
		k := strings.Index(rest, w)
		if k < 0 {
			t.Failf("the case of the line %q prints as %q, without %q in its place", line, str, w)
		}
		rest = rest[k+len(w):]
		if i > 0 && len(w) > max {
			max = len(w)
		}
	}
	if s := short(max); s != str {
		t.Failf("the case of the line %q has the text %q but, with data of at most %d characters, %q", line, str, max, s)
	}
	if max > 4 {
		s := short(4)
		rest := s
		for i, w := range append(append([]string{id}, in...), out) {
			if i > 0 && len(w) > 4 {
				w = w[:2] + "..." + w[len(w)-2:]
			}
			k := strings.Index(rest, w)
			if k < 0 {
				t.Failf("the case of the line %q, with data of at most 4 characters, has the text %q, without %q in its place", line, s, w)
			}
			rest = rest[k+len(w):]
		}
	}
}

// --- .decTest

var dtOps = []struct {
	s string
	o dectest.Op
}{
	{"abs", dectest.OpAbs}, {"add", dectest.OpAdd}, {"and", dectest.OpAnd}, {"apply", dectest.OpApply}, {"canonical", dectest.OpCanonical},
	{"class", dectest.OpClass}, {"compare", dectest.OpCompare}, {"comparesig", dectest.OpCompareSig}, {"comparetotal", dectest.OpCompareTotal},
	{"comparetotmag", dectest.OpCompareTotMag}, {"copy", dectest.OpCopy}, {"copyabs", dectest.OpCopyAbs}, {"copynegate", dectest.OpCopyNegate},
	{"copysign", dectest.OpCopySign}, {"divide", dectest.OpDivide}, {"divideint", dectest.OpDivideInt}, {"exp", dectest.OpExp},
	{"fma", dectest.OpFMA}, {"invert", dectest.OpInvert}, {"ln", dectest.OpLn}, {"log10", dectest.OpLog10}, {"logb", dectest.OpLogB},
	{"max", dectest.OpMax}, {"maxmag", dectest.OpMaxMag}, {"min", dectest.OpMin}, {"minmag", dectest.OpMinMag}, {"minus", dectest.OpMinus},
	{"multiply", dectest.OpMultiply}, {"nextminus", dectest.OpNextMinus}, {"nextplus", dectest.OpNextPlus}, {"nexttoward", dectest.OpNextToward},
	{"or", dectest.OpOr}, {"plus", dectest.OpPlus}, {"power", dectest.OpPower}, {"quantize", dectest.OpQuantize}, {"reduce", dectest.OpReduce},
	{"remainder", dectest.OpRemainder}, {"remaindernear", dectest.OpRemainderNear}, {"rescale", dectest.OpRescale}, {"rotate", dectest.OpRotate},
	{"samequantum", dectest.OpSameQuantum}, {"scaleb", dectest.OpScaleB}, {"shift", dectest.OpShift}, {"squareroot", dectest.OpSquareRoot},
	{"subtract", dectest.OpSubtract}, {"tointegral", dectest.OpToIntegral}, {"tointegralx", dectest.OpToIntegralX},
	{"trim", dectest.OpTrim}, {"xor", dectest.OpXor}, {"toeng", dectest.OpToEng}, {"tosci", dectest.OpToSci},
}

var dtConds = []struct {
	s string
	c decimal.Condition
}{
	{"clamped", decimal.Clamped}, {"conversion_syntax", decimal.ConversionSyntax}, {"division_by_zero", decimal.DivisionByZero},
	{"division_impossible", decimal.DivisionImpossible}, {"division_undefined", decimal.DivisionUndefined}, {"inexact", decimal.Inexact},
	{"insufficient_storage", decimal.InsufficientStorage}, {"invalid_context", decimal.InvalidContext}, {"invalid_operation", decimal.InvalidOperation},
	{"lost_digits", 0}, {"overflow", decimal.Overflow}, {"rounded", decimal.Rounded}, {"subnormal", decimal.Subnormal}, {"underflow", decimal.Underflow},
}

var dtModes = []struct {
	s string
	m decimal.RoundingMode
}{
	{"ceiling", decimal.ToPositiveInf}, {"down", decimal.ToZero}, {"floor", decimal.ToNegativeInf}, {"half_down", decimal.ToNearestTowardZero},
	{"half_even", decimal.ToNearestEven}, {"half_up", decimal.ToNearestAway},
	{"up", decimal.AwayFromZero},
}

type dtLine struct {
	Kind  int      `json:"kind"` // 0 case, 1 precision, 2 clamp, 3 maxexponent, 4 minexponent, 5 rounding, 6 ignored
	N     int      `json:"n,omitempty"`
	Plus  bool     `json:"plus,omitempty"`
	Text  string   `json:"text,omitempty"`
	Upper int      `json:"upper,omitempty"` // letter case of keywords
	ID    string   `json:"id,omitempty"`
	Op    int      `json:"op,omitempty"`
	In    []string `json:"in,omitempty"`
	Quote []int    `json:"quote,omitempty"`
	Out   string   `json:"out,omitempty"`
	Conds []int    `json:"conds,omitempty"`
	Gap   int      `json:"gap,omitempty"`
}

type dtCase struct {
	Lines []dtLine `json:"lines"`
	NoEnd bool     `json:"noend,omitempty"`
}

func (l dtLine) word(w string) string {
	switch l.Upper {
	case 1:
		return strings.ToUpper(w)
	case 2:
		return strings.ToUpper(w[:1]) + w[1:]
	}
	return w
}

func (l dtLine) String() string {
	gap := " " + strings.Repeat(" ", l.Gap)
	if l.Gap == 2 {
		gap = "\t"
	}
	num := fmt.Sprint(l.N)
	if l.Plus && l.N >= 0 && l.Kind >= 3 {
		num = "+" + num
	}
	switch l.Kind {
	case 1:
		return l.word("precision:") + gap + num + l.Text
	case 2:
		return l.word("clamp:") + gap + num + l.Text
	case 3:
		return l.word("maxexponent:") + gap + num + l.Text
	case 4:
		return l.word("minexponent:") + gap + num + l.Text
	case 5:
		return l.word("rounding:") + gap + l.word(dtModes[l.N].s) + l.Text
	case 6:
		return l.Text
	}
	q := []string{"", "'", "\""}
	// two operations are only known in this letter case
	op := l.word(dtOps[l.Op].s)
	switch dtOps[l.Op].o {
	case dectest.OpToEng:
		op = "toEng"
	case dectest.OpToSci:
		op = "toSci"
	}
	s := l.ID + gap + op + gap
	for i, in := range l.In {
		s += q[l.Quote[i]] + in + q[l.Quote[i]] + gap
	}
	s += "->" + gap + q[l.Quote[len(l.In)]] + l.Out + q[l.Quote[len(l.In)]]
	for _, c := range l.Conds {
		s += gap + l.word(dtConds[c].s)
	}
	return s
}

func genDTData(s *Src, out bool) string {
	sign := pbt.Pick(s, "", "", "+", "-")
	switch s.Weighted(10, 2, 2, 1, 1) {
	case 1:
		return sign + pbt.Pick(s, "inf", "Inf", "Infinity", "infinity", "INFINITY")
	case 2:
		return sign + pbt.Pick(s, "", "s", "S", "q") + pbt.Pick(s, "NaN", "nan") + pbt.Pick(s, "", "0", "123", digits(s, s.Range(1, 20)))
	case 3:
		return pbt.Pick(s, "#", "?")
	case 4:
		if out {
			return pbt.Pick(s, "+", "-") + pbt.Pick(s, "Subnormal", "Normal", "Zero", "Infinity")
		}
	}
	var n string
	switch s.N(3) {
	case 0:
		n = digits(s, s.Range(1, 30))
	case 1:
		n = digits(s, s.Range(1, 20)) + "." + digits(s, s.Range(0, 20))
	case 2:
		n = "." + digits(s, s.Range(1, 20))
	}
	if s.Bool() {
		n += pbt.Pick(s, "e", "E") + pbt.Pick(s, "", "+", "-") + digits(s, s.Range(1, 9))
	}
	return sign + n
}

func genDTLine(s *Src) dtLine {
	l := dtLine{Gap: s.Weighted(5, 1, 1), Upper: s.Weighted(4, 1, 2), Plus: s.Bool()}
	switch l.Kind = s.Weighted(8, 1, 1, 1, 1, 1, 1); l.Kind {
	case 1:
		l.N = pbt.Pick(s, 9, 1, 16, 34, s.N(1000000000))
	case 2:
		l.N = s.N(2)
	case 3:
		l.N = pbt.Pick(s, 384, 999999999, s.N(100000), -s.N(100))
	case 4:
		l.N = pbt.Pick(s, -383, -999999999, -s.N(100000), s.N(100))
	case 5:
		l.N = s.N(len(dtModes))
	case 6:
		l.Text = pbt.Pick(s, "", "-- comment", "--", "extended: 1", "version: 2.59", "-- add001 add 1 1 -> 2")
	}
	if l.Kind > 0 && l.Kind < 6 {
		l.Text = pbt.Pick(s, "", "", " ", "  -- remark", " 17")
		return l
	}
	if l.Kind == 6 {
		return l
	}
	l.ID = pbt.Pick(s, "add", "ddadd", "dqFma", "abc", "extr") + digits(s, s.Range(3, 6))
	l.Op = s.N(len(dtOps))
	for i := s.Range(1, 3); i > 0; i-- {
		l.In = append(l.In, genDTData(s, false))
		l.Quote = append(l.Quote, s.Weighted(3, 1, 1))
	}
	l.Out = genDTData(s, true)
	l.Quote = append(l.Quote, s.Weighted(3, 1, 1))
	for i := s.Weighted(3, 2, 1, 1, 1); i > 0; i-- {
		l.Conds = append(l.Conds, s.N(len(dtConds)))
	}
	return l
}

func genDT(s *Src) dtCase {
	c := dtCase{NoEnd: s.Bool()}
	for i := s.Range(1, 10); i > 0; i-- {
		c.Lines = append(c.Lines, genDTLine(s))
	}
	return c
}

func dtRun(c dtCase, t *T) {
	var text bytes.Buffer
	for i, l := range c.Lines {
		text.WriteString(l.String())
		if i+1 < len(c.Lines) || !c.NoEnd {
			text.WriteByte('\n')
		}
	}
	sc := dectest.NewScanner(bytes.NewReader(text.Bytes()))
	var set dectest.Case
	cases, late, conds := 0, false, false
	for _, l := range c.Lines {
		switch l.Kind {
		case 1:
			set.Prec = l.N
		case 2:
			set.Clamp = l.N == 1
		case 3:
			set.MaxScale = l.N
		case 4:
			set.MinScale = l.N
		case 5:
			set.Mode = dtModes[l.N].m
		}
		if l.Kind > 0 && l.Kind < 6 && cases > 0 {
			late = true
		}
		if l.Kind != 0 {
			continue
		}
		cases++
		t.Tag(dtOps[l.Op].s)
		if !sc.Scan() {
			t.Failf("Scan stops before %q in %q: %v", l.String(), text.String(), sc.Err())
		}
		g := sc.Case()
		var cond decimal.Condition
		for _, k := range l.Conds {
			cond |= dtConds[k].c
			conds = true
		}
		ok := g.ID == l.ID && g.Op == dtOps[l.Op].o && g.Conditions == cond && string(g.Output) == l.Out && len(g.Inputs) == len(l.In) &&
			g.Prec == set.Prec && g.Clamp == set.Clamp && g.Mode == set.Mode && g.MaxScale == set.MaxScale && g.MinScale == set.MinScale
		for i := range l.In {
			ok = ok && string(g.Inputs[i]) == l.In[i]
		}
		if !ok {
			t.Failf("the line %q of %q is scanned as %+v; in force are prec=%d mode=%v maxexponent=%d minexponent=%d clamp=%v",
				l.String(), text.String(), *g, set.Prec, set.Mode, set.MaxScale, set.MinScale, set.Clamp)
		}
		caseText(t, l.String(), g.String(), g.ShortString, l.ID, l.In, l.Out)
		for _, d := range append(append([]dectest.Data{}, g.Inputs...), g.Output) {
			si, inf := d.IsInf()
			if w := strings.EqualFold(string(d), "+inf") || strings.EqualFold(string(d), "-inf"); inf != w || inf && (si < 0) != (d[0] == '-') {
				t.Failf("%q.IsInf() = %v, %v", d, si, inf)
			}
			low := strings.TrimRight(strings.ToLower(strings.TrimLeft(string(d), "-")), "0123456789")
			nan, sig := d.IsNaN()
			if strings.HasPrefix(string(d), "+") || d == "?" {
				continue
			}
			if w := low == "nan" || low == "snan" || low == "qnan"; nan != w || nan && sig != (low[0] == 's') {
				t.Failf("%q.IsNaN() = %v, %v", d, nan, sig)
			}
		}
	}
	if late && conds {
		t.Nontrivial()
	}
	if sc.Scan() || sc.Err() != nil {
		t.Failf("after the last case of %q: a further case or the error %v", text.String(), sc.Err())
	}
}

// --- malformed lines

type junkCase struct {
	FP   bool   `json:"fp,omitempty"`
	Line string `json:"line"`
}

func genJunk(s *Src) junkCase {
	c := junkCase{FP: s.Bool()}
	if c.FP {
		c.Line = genFPLine(s).String()
	} else {
		c.Line = genDTLine(s).String()
	}
	b := []byte(c.Line)
	for i := s.Range(1, 3); i > 0 && len(b) > 0; i-- {
		p := s.N(len(b))
		ch := pbt.Pick(s, " #'\"+-.>?0159eEiInNsSxyz:\t\x00\xff"[s.N(28)], byte(s.N(256)), b[s.N(len(b))])
		if ch == '\n' {
			ch = ' '
		}
		switch s.N(4) {
		case 0:
			b[p] = ch
		case 1:
			b = append(b[:p], b[p+1:]...)
		case 2:
			b = append(b[:p], append([]byte{ch}, b[p:]...)...)
		case 3:
			b = b[:p]
		}
	}
	c.Line = strings.ToValidUTF8(string(b), "\uFFFD")
	return c
}

// junkRun only asks that malformed lines neither panic nor hang, and that
// parsing leaves the line as it was.
func junkRun(c junkCase, t *T) {
	t.Nontrivial()
	line := []byte(c.Line)
	if c.FP {
		_, _ = suite.ParseCase(line)
		if string(line) != c.Line {
			t.Failf("ParseCase changed the line %q to %q", c.Line, line)
		}
		_, _ = suite.ParseCases(strings.NewReader(c.Line + "\n" + c.Line))
		return
	}
	sc := dectest.NewScanner(strings.NewReader(c.Line + "\n" + c.Line + "\n"))
	n := 0
	for sc.Scan() {
		if n++; n > 2 {
			t.Failf("two lines %q give more than two cases", c.Line)
		}
		if sc.Case() == nil {
			t.Failf("Scan is true after %q but Case is nil", c.Line)
		}
	}
}
