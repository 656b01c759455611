package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/big"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ericlagergren/decimal"
	"github.com/ericlagergren/decimal/misc"

	"verif/pbt"
	"verif/ref"
)

// C20: operations on distinct receivers may run concurrently and share
// operands. Every case runs in its own process, so that the tables, stored
// constants and pools of the library start out cold, under the race detector.

func init() {
	if os.Getenv("VERIF_CONC_CHILD") != "" {
		concChild()
	}
	pbt.Register(&pbt.Prop{ID: "C20", Race: true, Assumptions: append([]string{"the race detector reports every unsynchronised pair of accesses that the generated schedule executes"}, assume...), Subs: []pbt.Sub{
		pbt.Check[concCase]{Name: "functions", Rule: "non-trivial: at least two goroutines and six calls, with an operand used by two of them or a power of ten above 10^19 or a function of the transcendental part",
			Quick: 3000, Thorough: 40000, Gen: genConcFns, Run: concRun},
		pbt.Check[concCase]{Name: "goroutines", Rule: "non-trivial: at least two goroutines and six calls, with an operand used by two of them or a power of ten above 10^19 or a function of the transcendental part",
			Quick: 5000, Thorough: 60000, Gen: genConc, Run: concRun},
	}})
}

type concCall struct {
	Fn string `json:"fn"`
	P  int    `json:"p"`
	M  int    `json:"m,omitempty"`
	X  int    `json:"x,omitempty"`
	Y  int    `json:"y,omitempty"`
	U  int    `json:"u,omitempty"`
	N  int    `json:"n,omitempty"`
	Al string `json:"al,omitempty"` // the receiver is an operand: a copy of the shared x (or y) of the goroutine's own
}

type concCase struct {
	Shared  []Num        `json:"shared"`
	Procs   [][]concCall `json:"procs"`
	Lock    bool         `json:"lock,omitempty"`    // all goroutines start each of their calls together
	NoWarm  bool         `json:"nowarm,omitempty"`  // build the operands without parsing
	Threads int          `json:"threads,omitempty"` // GOMAXPROCS
}

var (
	concArith = []string{"Add", "Sub", "Mul", "Quo", "QuoInt", "Rem", "FMA", "Set", "Abs", "Neg", "Sqrt", "NextPlus", "NextMinus", "Ceil", "Floor"}
	concFns   = []string{"Exp", "Log", "Log10", "Pow", "Sin", "Cos", "Tan", "Asin", "Acos", "Atan", "Atan2", "Hypot", "Pi", "E"}
	concAsk   = []string{"Text", "String", "Format", "Int", "Rat", "Float", "Float64", "Int64", "Uint64", "Cmp", "CmpAbs", "CmpTotal", "IsInt", "Class", "Marshal", "Decompose", "IsNormal", "Max", "SameQuantum", "Mantissa", "Copy", "CopySign", "QuoRem", "Quantize", "Round", "Reduce", "Parse", "BigPow"}
)

func genConc(s *Src) concCase {
	c := concCase{Lock: s.Bool(), NoWarm: s.Bool(), Threads: s.Range(2, 4)}
	far, unit := s.In(1, 2), s.In(1, 3)
	for n := s.Range(2, 6); n > 0; n-- {
		o := numOpt{special: 6, zero: 8, espan: 25}
		if far {
			o.espan = pbt.Pick(s, 25, 300, 2500)
		}
		d := genNum(s, CtxJ{P: pbt.Pick(s, 12, 22, 45, 100)}, o)
		if unit && d.IsFin() && !d.IsZero() { // within (-1, 1), where all functions are defined or nearly so
			d.E -= d.Adj() + s.Range(1, 3)
		}
		c.Shared = append(c.Shared, num(d))
	}
	names := [][]string{concArith, concAsk, concArith, concFns, concFns}[s.N(5)]
	mixed, alias := s.In(1, 2), s.In(1, 3)
	fixed := ""
	if s.In(1, 3) { // everyone does the same
		fixed = pbt.Pick(s, names...)
	}
	prec := pbt.Pick(s, 8, 16, 25, 40, 120)
	if s.In(1, 12) {
		prec = 320 // beyond the stored constants
	}
	procs, calls := s.Range(2, 6), s.Range(1, 8)
	for i := 0; i < procs; i++ {
		var l []concCall
		for k := 0; k < calls; k++ {
			if mixed {
				names = [][]string{concArith, concAsk, concArith, concFns}[s.Weighted(3, 3, 3, 1)]
			}
			q := concCall{Fn: fixed, P: prec, M: s.N(7), X: s.N(len(c.Shared)), Y: s.N(len(c.Shared)), U: s.N(len(c.Shared)), N: s.Sym(40)}
			if fixed == "" {
				q.Fn = pbt.Pick(s, names...)
			}
			if s.In(1, 4) {
				q.P = s.Range(1, 60)
			}
			if ops[q.Fn] != nil && s.In(1, 8) && !strings.HasPrefix(q.Fn, "Next") && q.Fn != "Sqrt" && q.Fn != "Quo" {
				q.P = Unl
			}
			if alias && s.In(1, 2) || s.In(1, 8) {
				q.Al = pbt.Pick(s, "x", "x", "y", "xy")
			}
			if q.Fn == "BigPow" {
				q.N = s.Range(20, pbt.Pick(s, 60, 600, 6000))
			}
			l = append(l, q)
		}
		c.Procs = append(c.Procs, l)
	}
	return c
}

// genConcFns has several goroutines call one or two functions again and again,
// started together, with operands in the functions' common domain and often
// with an operand as the receiver: temporaries that change hands too early
// need just that.
func genConcFns(s *Src) concCase {
	c := concCase{Lock: s.Bool(), NoWarm: s.Bool(), Threads: s.Range(2, 6)}
	for n := s.Range(1, 4); n > 0; n-- {
		d := genNum(s, CtxJ{P: pbt.Pick(s, 5, 12, 22, 45)}, numOpt{zero: 3, special: 1, espan: 5})
		if d.IsFin() && !d.IsZero() {
			d.E -= d.Adj() + s.Range(1, 3)
		}
		c.Shared = append(c.Shared, num(d))
	}
	fns := []string{pbt.Pick(s, concFns...)}
	if s.In(1, 2) {
		fns = append(fns, pbt.Pick(s, concFns...), pbt.Pick(s, concArith...))
	}
	prec := pbt.Pick(s, 5, 16, 25, 40, 90)
	al := []string{"", "x", "x", "y", "xy"}
	if !s.In(1, 3) {
		al = []string{pbt.Pick(s, al...)}
	}
	procs, calls := s.Range(2, 6), s.Range(3, 8)
	for i := 0; i < procs; i++ {
		var l []concCall
		for k := 0; k < calls; k++ {
			l = append(l, concCall{Fn: pbt.Pick(s, fns...), P: prec, M: s.N(7), X: s.N(len(c.Shared)), Y: s.N(len(c.Shared)), U: s.N(len(c.Shared)), Al: pbt.Pick(s, al...)})
		}
		c.Procs = append(c.Procs, l)
	}
	return c
}

var concSeen atomic.Bool // this process has seen a failure: it is shrinking

func concRun(c concCase, t *T) {
	calls := 0
	heavy := false
	uses := map[int]int{}
	for i, p := range c.Procs {
		calls += len(p)
		for _, q := range p {
			for _, o := range []int{q.X, q.Y} {
				uses[o] |= 1 << i
			}
			t.Tag(q.Fn)
			if q.Fn == "BigPow" || ops[q.Fn] == nil && metaFnSet[q.Fn] {
				heavy = true
			}
		}
	}
	sharedOp := false
	for _, u := range uses {
		sharedOp = sharedOp || u&(u-1) != 0
	}
	if len(c.Procs) >= 2 && calls >= 6 && (heavy || sharedOp) {
		t.Nontrivial()
	}
	if len(c.Procs) == 0 || len(c.Shared) == 0 {
		return
	}
	n := 1
	if concSeen.Load() {
		n = 6
	}
	if pbt.Replaying {
		n = 60
	}
	for ; n > 0; n-- {
		if msg := concOnce(c); msg != "" {
			concSeen.Store(true)
			t.Failf("%s", msg)
		}
	}
}

var metaFnSet = func() map[string]bool {
	m := map[string]bool{}
	for _, f := range metaFns {
		m[f] = true
	}
	return m
}()

const concLimit = 60 * time.Second

func concOnce(c concCase) string {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(exe)
	cmd.Env = append(os.Environ(), "VERIF_CONC_CHILD=1", "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
	cmd.Stdin = bytes.NewReader(b)
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	if err := cmd.Start(); err != nil {
		return "" // not a finding: no process to be had
	}
	tm := time.AfterFunc(concLimit, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	if !tm.Stop() {
		return fmt.Sprintf("the goroutines did not finish within %v", concLimit)
	}
	if err == nil {
		return strings.TrimSpace(out.String())
	}
	if cmd.ProcessState.ExitCode() < 0 {
		if s := errs.String(); s == "" {
			return "" // killed from outside
		}
	}
	s := errs.String()
	if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		return "data race between operations on distinct receivers: " + raceSummary(s[i:])
	}
	if len(s) > 1500 {
		s = s[:1500]
	}
	return "the process failed: " + s
}

func raceSummary(s string) string {
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "==") {
			continue
		}
		if strings.HasPrefix(l, "Goroutine ") {
			break
		}
		keep = append(keep, l)
		if len(keep) > 24 {
			break
		}
	}
	return strings.Join(keep, " | ")
}

// --- the child ------------------------------------------------------------

func concChild() {
	b, err := io.ReadAll(os.Stdin)
	var c concCase
	if err == nil {
		err = json.Unmarshal(b, &c)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if c.Threads > 0 {
		runtime.GOMAXPROCS(c.Threads)
	}
	var shared []*decimal.Big
	var vals []ref.Dec
	for _, n := range c.Shared {
		d := n.dec()
		path := 0
		if c.NoWarm {
			path = 1
		}
		vals = append(vals, d)
		shared = append(shared, mk(d, path))
	}
	res := make([][]string, len(c.Procs))
	rounds := 0
	for i, p := range c.Procs {
		res[i] = make([]string, len(p))
		if len(p) > rounds {
			rounds = len(p)
		}
	}
	start := make(chan struct{})
	var ready []sync.WaitGroup
	if c.Lock {
		ready = make([]sync.WaitGroup, rounds)
		for k := range ready {
			ready[k].Add(len(c.Procs))
		}
	}
	var wg sync.WaitGroup
	for i := range c.Procs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			for k := 0; k < rounds; k++ {
				if c.Lock {
					ready[k].Done()
					ready[k].Wait()
				}
				if k < len(c.Procs[i]) {
					res[i][k] = concDo(c.Procs[i][k], shared)
				}
			}
		}(i)
	}
	close(start)
	wg.Wait()
	t := new(T)
	for i, p := range c.Procs {
		for k, q := range p {
			if want := concDo(q, shared); want != res[i][k] {
				fmt.Printf("goroutine %d: %s(%v, %v, %v) with %d digits gave %s beside other goroutines, but %s alone\n", i, q.Fn, vals[q.X], vals[q.Y], vals[q.U], q.P, res[i][k], want)
				os.Exit(0)
			}
		}
	}
	for i, x := range shared {
		if d := mustObs(t, "shared operand", x); !same4(d, vals[i]) || x.Context != (decimal.Context{}) {
			fmt.Printf("operand %d was %v and is %v, context %+v\n", i, vals[i], d, x.Context)
			os.Exit(0)
		}
	}
	os.Exit(0)
}

// concDo performs one call and describes its result.
func concDo(q concCall, shared []*decimal.Big) (out string) {
	defer func() {
		if p := recover(); p != nil {
			out = fmt.Sprint("panic: ", p)
		}
	}()
	cj := CtxJ{P: q.P, M: q.M}
	ctx := cj.lib()
	x, y, u := shared[q.X], shared[q.Y], shared[q.U]
	z := new(decimal.Big)
	desc := func(z *decimal.Big) string {
		d, err := obs(z)
		return fmt.Sprint(d, " ", err, " ", z.Context.Conditions)
	}
	own := func(x, y, u *decimal.Big) (*decimal.Big, *decimal.Big, *decimal.Big) {
		switch q.Al {
		case "x":
			if x == y { // the receiver is all the operands there are
				y = z
			}
			if x == u {
				u = z
			}
			x = z.Copy(x)
		case "y":
			if y == u {
				u = z
			}
			y = z.Copy(y)
		case "xy":
			x = z.Copy(x)
			y = x
		}
		return x, y, u
	}
	small := x.IsFinite() && x.Scale() < 400 && x.Scale() > -400
	if metaFnSet[q.Fn] {
		m := func(v *decimal.Big) bool { // in the domain that is cheap
			return !v.IsFinite() || v.Sign() == 0 || v.Precision()-v.Scale() < 4 && v.Precision()-v.Scale() > -8 && v.Precision() < 60
		}
		if !m(x) || binaryFn(q.Fn) && !m(y) {
			x, y = new(decimal.Big).SetMantScale(int64(q.N), 2), decimal.New(7, 1)
		}
		x, y, _ = own(x, y, nil)
		callFn(q.Fn, ctx, z, x, y)
		return desc(z)
	}
	if o := ops[q.Fn]; o != nil && o.Call != nil {
		n := q.N
		x, y, u := own(x, y, u)
		switch q.Fn {
		case "Quantize":
			n = x.Scale() + q.N%15
			if n > decimal.MaxScale || n < decimal.MinScale {
				n = 0
			}
			z.Copy(x)
		case "Round", "RoundToInt", "Reduce":
			z.Copy(x)
		}
		o.Call(ctx, z, x, y, u, n)
		return desc(z)
	}
	switch q.Fn {
	case "Text":
		return fmt.Sprintf("%e %s", x, y)
	case "String":
		return x.String()
	case "Format":
		if !small {
			return ""
		}
		return fmt.Sprintf("%v %s %.5f %+20e %q", x, x, x, y, y)
	case "Int":
		if !small {
			return ""
		}
		return x.Int(nil).String()
	case "Rat":
		if !small {
			return ""
		}
		return x.Rat(nil).String()
	case "Float":
		if !small {
			return ""
		}
		return x.Float(nil).String()
	case "Float64":
		f, ok := x.Float64()
		return fmt.Sprint(math.Float64bits(f), ok)
	case "Int64":
		v, ok := x.Int64()
		return fmt.Sprint(v, ok)
	case "Uint64":
		v, ok := x.Uint64()
		return fmt.Sprint(v, ok)
	case "Mantissa":
		v, ok := x.Mantissa()
		return fmt.Sprint(v, ok)
	case "Cmp":
		if x.IsNaN(0) || y.IsNaN(0) {
			return ""
		}
		return fmt.Sprint(x.Cmp(y), y.Cmp(x))
	case "CmpAbs":
		if x.IsNaN(0) || y.IsNaN(0) {
			return ""
		}
		return fmt.Sprint(x.CmpAbs(y), y.CmpAbs(x))
	case "CmpTotal":
		return fmt.Sprint(x.CmpTotal(y), misc.CmpTotalAbs(x, y))
	case "IsInt":
		return fmt.Sprint(x.IsInt(), x.Sign(), x.Signbit(), x.Precision(), x.Scale())
	case "Class":
		return x.Class()
	case "Marshal":
		b, err := x.MarshalText()
		return fmt.Sprint(string(b), err)
	case "Decompose":
		form, neg, coef, exp := x.Decompose(nil)
		return fmt.Sprint(form, neg, coef, exp)
	case "IsNormal":
		return fmt.Sprint(x.IsNormal(), x.IsSubnormal())
	case "Max":
		return fmt.Sprint(desc(decimal.Max(x, y)), desc(decimal.Min(x, y)))
	case "SameQuantum":
		return fmt.Sprint(misc.SameQuantum(x, y))
	case "Copy":
		return desc(z.Copy(x)) + desc(new(decimal.Big).CopyAbs(y)) + desc(new(decimal.Big).CopyNeg(x))
	case "CopySign":
		return desc(z.CopySign(x, y))
	case "QuoRem":
		r := new(decimal.Big)
		ctx.QuoRem(z, x, y, r)
		return desc(z) + desc(r)
	case "Parse":
		z.Context = ctx
		z.SetString(x.String())
		return desc(z)
	case "BigPow": // 10**n through an exact sum with an exponent gap of n digits
		d := CtxJ{P: Unl}.lib()
		d.Add(z, decimal.New(int64(q.X)+3, 0), decimal.New(7, q.N))
		v := z.Int(nil)
		return desc(z) + v.String() + new(big.Int).Mod(v, big.NewInt(9973)).String()
	}
	panic("unknown call " + q.Fn)
}
