package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/ericlagergren/decimal"
	"github.com/ericlagergren/decimal/dectest"
	"github.com/ericlagergren/decimal/suite"

	"verif/pbt"
	"verif/ref"
)

// Readers that deliver their text in pieces and fail at a chosen byte.

var errInjected = errors.New("injected read error")

type faultReader struct {
	text  string
	pos   int
	chunk int
	fail  int  // fails once this many bytes have been delivered; < 0: never
	with  bool // the error comes together with the last bytes before it
}

func (r *faultReader) Read(p []byte) (int, error) {
	end := len(r.text)
	var at error = io.EOF
	if r.fail >= 0 && r.fail <= end {
		end, at = r.fail, errInjected
	}
	if r.pos >= end {
		return 0, at
	}
	n := len(p)
	if r.chunk > 0 && n > r.chunk {
		n = r.chunk
	}
	n = copy(p[:n], r.text[r.pos:end])
	r.pos += n
	if r.pos == end && r.with {
		return n, at
	}
	return n, nil
}

// --- C12: a stream of numbers

type streamCase struct {
	X     []Num    `json:"x"`
	Z     Num      `json:"z,omitempty"` // earlier content of the receivers
	Sep   []string `json:"sep"`
	Form  bool     `json:"form,omitempty"` // Fscanf, the separators as they are
	Verb  string   `json:"verb,omitempty"`
	Chunk int      `json:"chunk,omitempty"`
	Fail  int      `json:"fail"`
	With  bool     `json:"with,omitempty"`
}

func genStream(s *Src) streamCase {
	c := streamCase{Form: s.In(1, 3), Verb: "v", Chunk: pbt.Pick(s, 1, 0, 2, 3, 7), Fail: -1, With: s.Bool()}
	if c.Form {
		c.Verb = pbt.Pick(s, "v", "s", "f", "d", "e")
	}
	o := numOpt{special: 12, zero: 6, espan: pbt.Pick(s, 8, 30, 400)}
	if s.In(1, 3) {
		c.Z = num(genNum(s, CtxJ{P: 30}, o))
	}
	n := 0
	for i := s.Range(1, 5); i > 0; i-- {
		d := genNum(s, CtxJ{P: pbt.Pick(s, 5, 18, 40)}, o)
		c.X = append(c.X, num(d))
		sep := pbt.Pick(s, " ", "\n", "\t", "  ", " \n", "\r\n", "\n\n\t")
		if c.Form {
			sep = pbt.Pick(s, " ", ",", ";", "/", ":", ", ", "(", "_")
		}
		c.Sep = append(c.Sep, sep)
		n += len(ref.SciString(d)) + len(sep)
	}
	if s.In(2, 3) {
		c.Fail = s.N(n + 1)
	}
	return c
}

func streamRun(c streamCase, t *T) {
	if len(c.Sep) != len(c.X) {
		return
	}
	var text, format strings.Builder
	var ends []int
	var zs []interface{}
	for i, n := range c.X {
		text.WriteString(ref.SciString(n.dec()))
		ends = append(ends, text.Len())
		format.WriteString("%" + c.Verb)
		if i+1 < len(c.X) {
			text.WriteString(c.Sep[i])
			format.WriteString(c.Sep[i])
		}
		z := new(decimal.Big)
		if c.Z != "" {
			z = mk(c.Z.dec(), 0)
		}
		z.Context = CtxJ{P: Unl}.lib()
		zs = append(zs, z)
	}
	all := text.Len()
	want := 0
	for _, e := range ends {
		if c.Fail < 0 || c.Fail > all || e < c.Fail {
			want++
		}
	}
	if len(c.X) > 1 && (c.Fail >= 0 || c.Chunk > 0) {
		t.Nontrivial()
	}
	r := &faultReader{text: text.String(), chunk: c.Chunk, fail: c.Fail, with: c.With}
	var n int
	var err error
	how := "Fscan"
	if c.Form {
		how = fmt.Sprintf("Fscanf(%q)", format.String())
		n, err = fmt.Fscanf(r, format.String(), zs...)
	} else {
		n, err = fmt.Fscan(r, zs...)
	}
	if n != want {
		t.Failf("%s of %q, the reader failing after %d bytes: %d numbers are read, want %d (error %v)", how, text.String(), c.Fail, n, want, err)
	}
	if want == len(c.X) && err != nil {
		t.Failf("%s of %q: %v", how, text.String(), err)
	}
	if want < len(c.X) {
		t.Tag("read error")
		if err != errInjected {
			t.Failf("%s of %q, the reader failing after %d bytes: error %v, want the reader's", how, text.String(), c.Fail, err)
		}
	}
	for i := 0; i < want; i++ {
		if g, w := mustObs(t, how, zs[i].(*decimal.Big)), c.X[i].dec(); !sameText(g, w) {
			t.Failf("%s of %q: number %d is %v, want %v", how, text.String(), i, g, w)
		}
	}
}

// --- C31: files that cannot be read to their end

type readCase struct {
	FP    []fpLine `json:"fp,omitempty"`
	DT    []dtLine `json:"dt,omitempty"`
	Chunk int      `json:"chunk,omitempty"`
	Fail  int      `json:"fail"`
	With  bool     `json:"with,omitempty"`
	Long  int      `json:"long,omitempty"` // length of a last line that is too long to be read
}

func genRead(s *Src) readCase {
	c := readCase{Chunk: pbt.Pick(s, 1, 0, 2, 7, 50), With: s.Bool(), Fail: -1}
	n := 0
	fp := s.Bool()
	for i := s.Range(1, 5); i > 0; i-- {
		if fp {
			c.FP = append(c.FP, genFPLine(s))
			n += len(c.FP[len(c.FP)-1].String()) + 1
		} else {
			c.DT = append(c.DT, genDTLine(s))
			n += len(c.DT[len(c.DT)-1].String()) + 1
		}
	}
	switch {
	case s.In(1, 30):
		c.Long = pbt.Pick(s, 70000, 200000)
		c.Chunk = 0
	case s.In(3, 4):
		c.Fail = s.N(n + 1)
	}
	return c
}

func readRun(c readCase, t *T) {
	var text bytes.Buffer
	lines := 0 // cases in the lines that are delivered in full
	add := func(l string, isCase bool) {
		text.WriteString(l)
		text.WriteByte('\n')
		if isCase && (c.Fail < 0 || text.Len() <= c.Fail) {
			lines++
		}
	}
	for _, l := range c.FP {
		add(l.String(), !l.IsSkip)
	}
	for _, l := range c.DT {
		add(l.String(), l.Kind == 0)
	}
	if c.Long > 0 {
		text.WriteString("# -- " + strings.Repeat("x", c.Long))
	}
	if len(c.FP)+len(c.DT) > 1 && c.Fail >= 0 || c.Long > 0 {
		t.Nontrivial()
	}
	r := &faultReader{text: text.String(), chunk: c.Chunk, fail: c.Fail, with: c.With}
	if len(c.DT) == 0 {
		t.Tag("fptest")
		got, err := suite.ParseCases(r)
		switch {
		case c.Fail < 0 && c.Long == 0:
			if err != nil || len(got) != lines {
				t.Failf("ParseCases(%q), in pieces of %d: %d cases, %v", text.String(), c.Chunk, len(got), err)
			}
		case err == nil:
			t.Failf("ParseCases(%.200q), the reader failing after %d bytes (long line: %d): no error and %d cases", text.String(), c.Fail, c.Long, len(got))
		}
		return
	}
	t.Tag("dectest")
	sc := dectest.NewScanner(r)
	n := 0
	for sc.Scan() {
		n++
	}
	err := sc.Err()
	switch {
	case n < lines:
		t.Failf("scanning %.200q, the reader failing after %d bytes: %d cases, want %d (error %v)", text.String(), c.Fail, n, lines, err)
	case n > lines+1 || n > lines && (c.Fail < 0 || c.Long > 0):
		t.Failf("scanning %.200q, the reader failing after %d bytes: %d cases, want %d (error %v)", text.String(), c.Fail, n, lines, err)
	case c.Fail < 0 && c.Long == 0:
		if err != nil {
			t.Failf("scanning %q, in pieces of %d: %v", text.String(), c.Chunk, err)
		}
	case err == nil:
		t.Failf("scanning %.200q, the reader failing after %d bytes (long line: %d): no error after %d cases", text.String(), c.Fail, c.Long, n)
	}
	if sc.Scan() {
		t.Failf("scanning %.200q: a case after the end", text.String())
	}
}

// --- C14: verbs that are not decimal formats, and nil

type verbCase struct {
	X     Num    `json:"x,omitempty"` // empty: nil
	M     int    `json:"m"`
	Verb  string `json:"verb"`
	Flags string `json:"flags,omitempty"`
	Width int    `json:"width"` // -1: none
	Prec  int    `json:"prec"`  // -1: none
}

func genVerb(s *Src) verbCase {
	c := verbCase{M: s.N(7), Verb: pbt.Pick(s, "b", "x", "X", "o", "t", "c", "U", "z", "v", "v", "v"), Width: -1, Prec: -1}
	if !s.In(1, 20) {
		c.X = num(genTextNum(s))
	} else {
		c.Verb = pbt.Pick(s, "s", "v", "d", "q", "e", "f", "g")
	}
	for _, f := range "+-# 0" {
		if s.In(1, 4) {
			c.Flags += string(f)
		}
	}
	if c.Verb == "v" && c.X != "" && !strings.ContainsAny(c.Flags, "+#") {
		c.Flags += pbt.Pick(s, "+", "#")
	}
	if s.In(1, 3) {
		c.Width = s.N(40)
	}
	if s.In(1, 3) {
		c.Prec = s.N(20)
	}
	return c
}

func verbRun(c verbCase, t *T) {
	f := "%" + c.Flags
	if c.Width >= 0 {
		f += fmt.Sprint(c.Width)
	}
	if c.Prec >= 0 {
		f += "." + fmt.Sprint(c.Prec)
	}
	f += c.Verb
	if c.X == "" {
		var x *decimal.Big
		if b, err := x.MarshalText(); x.String() != "<nil>" || err != nil || string(b) != "<nil>" {
			t.Failf("a nil number prints as %q and marshals to %q, %v", x.String(), b, err)
		}
		if s := fmt.Sprintf(f, x); !strings.Contains(s, "nil") {
			t.Failf("Sprintf(%q) of a nil number is %q", f, s)
		}
		return
	}
	x := c.X.dec()
	cj := CtxJ{P: 20, M: c.M}
	bx := bigOf(x, 0, cj)
	s := fmt.Sprintf(f, bx)
	checkUnchanged(t, "x", bx, x, cj)
	t.Tag(c.Verb)
	if x.E != 0 || x.K != ref.Fin {
		t.Nontrivial()
	}
	if c.Verb == "v" { // Go-syntax or with field names
		if !strings.Contains(s, "Context") {
			t.Failf("Sprintf(%q) of %v is %q, without the fields of a number", f, x, s)
		}
		return
	}
	if !strings.HasPrefix(s, "%!"+c.Verb+"(") || !strings.HasSuffix(s, "="+ref.SciString(x)+")") {
		t.Failf("Sprintf(%q) of %v is %q, want %%!%s(type=%s)", f, x, s, c.Verb, ref.SciString(x))
	}
}
