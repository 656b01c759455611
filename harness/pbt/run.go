package pbt

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// RaceEnabled is set by the race-tagged file.
var RaceEnabled bool

// Replaying is set while a replay file is run.
var Replaying bool

const (
	hangLimit    = 100 * time.Second // one generated case, inside a worker
	confirmLimit = 150 * time.Second // the same case, alone in a process
)

// Replay is the content of a replay file.
type Replay struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Case     json.RawMessage `json:"case"`
	What     string          `json:"what,omitempty"`
	Seed     uint64          `json:"seed,omitempty"`
	Index    int             `json:"index,omitempty"`
}

// Finding is one entry of known_findings.json.
type Finding struct {
	ID       string          `json:"id"`
	Property string          `json:"property"`
	Status   string          `json:"status"` // "known" or "fixed"
	What     string          `json:"what"`
	Commit   string          `json:"commit,omitempty"`
	Sub      string          `json:"sub,omitempty"`
	Case     json.RawMessage `json:"case,omitempty"`
}

type subStat struct {
	Evals      int            `json:"evals"`
	Nontrivial int            `json:"nontrivial"`
	Distinct   int            `json:"distinct"`
	Tags       map[string]int `json:"tags"`
	Known      map[string]int `json:"known"`
	Samples    []json.RawMessage
	hashes     map[uint64]struct{}
}

type workerOut struct {
	Stats    map[string]*subStat
	Fail     *Replay
	TimedOut bool
}

func caseSeed(seed uint64, id, sub string, idx int) uint64 {
	return Hash64(seed, id, sub, strconv.Itoa(idx))
}

func count(sub Sub, tier string) int {
	q, t := sub.Counts()
	if tier == "thorough" {
		return t
	}
	return q
}

// Main is the entry point of the check binary.
func Main() {
	id := flag.String("prop", "", "property id")
	replay := flag.String("replay", "", "replay file")
	verif := flag.String("verif", "/verif", "verif directory")
	worker := flag.Int("worker", -1, "(internal) worker index")
	workers := flag.Int("workers", 8, "number of worker processes")
	start := flag.String("start", "", "(internal) sub:index to start from")
	one := flag.String("one", "", "(internal) run a single case sub:index")
	dir := flag.String("dir", "", "(internal) exchange directory")
	scale := flag.Float64("scale", 1, "multiply case counts (development)")
	only := flag.String("sub", "", "run only this sub-check (development)")
	list := flag.Bool("list", false, "list properties")
	flag.Parse()
	if *list {
		var ids []string
		for k := range registry {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		for _, k := range ids {
			p := registry[k]
			fmt.Printf("%s %s\n", k, p.Title)
			for _, s := range p.Subs {
				q, t := s.Counts()
				fmt.Printf("    %-24s quick=%d thorough=%d\n", s.SubName(), q, t)
			}
		}
		return
	}
	p := registry[*id]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *id)
		os.Exit(2)
	}
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	cfg := &config{p: p, seed: seed, tier: tier, verif: *verif, workers: *workers, scale: *scale, only: *only}
	switch {
	case *replay != "":
		os.Exit(cfg.replayFile(*replay))
	case *one != "":
		os.Exit(cfg.runOne(*one))
	case *worker >= 0:
		cfg.runWorker(*worker, *start, *dir)
	default:
		os.Exit(cfg.supervise())
	}
}

type config struct {
	p       *Prop
	seed    uint64
	tier    string
	verif   string
	workers int
	scale   float64
	only    string
}

func (c *config) sub(name string) Sub {
	for _, s := range c.p.Subs {
		if s.SubName() == name {
			return s
		}
	}
	return nil
}

func (c *config) findings() []Finding {
	b, err := os.ReadFile(filepath.Join(c.verif, "known_findings.json"))
	if err != nil {
		return nil
	}
	var fs []Finding
	if err := json.Unmarshal(b, &fs); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		os.Exit(2)
	}
	var out []Finding
	for _, f := range fs {
		if f.Property == c.p.ID {
			out = append(out, f)
		}
	}
	return out
}

func (c *config) knownSet() map[string]bool {
	m := map[string]bool{}
	for _, f := range c.findings() {
		if f.Status == "known" {
			m[f.ID] = true
		}
	}
	return m
}

func (c *config) replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	s := c.sub(r.Sub)
	if s == nil {
		fmt.Fprintf(os.Stderr, "no sub-check %q\n", r.Sub)
		return 2
	}
	limits()
	Replaying = true
	go func() {
		time.Sleep(confirmLimit)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.p.ID, path)
		fmt.Printf("  the operation did not return within %v\n", confirmLimit)
		os.Exit(1)
	}()
	res, err := s.RunJSON(r.Case)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if res.Err == "" {
		fmt.Println("replay: property held on this case")
		return 0
	}
	if c.knownSet()[res.Known] {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.p.ID, res.Err)
		return 0
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.p.ID, path)
	fmt.Printf("  %s\n", res.Err)
	return 1
}

func limits() {
	if RaceEnabled {
		return
	}
	const lim = 8 << 30
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	debug.SetMemoryLimit(3 << 30)
	debug.SetMaxStack(256 << 20)
}

func (c *config) runOne(spec string) int {
	limits()
	name, idx := splitSpec(spec)
	s := c.sub(name)
	res, _ := s.RunSrc(NewSrc(caseSeed(c.seed, c.p.ID, name, idx)))
	if res.Err != "" && !c.knownSet()[res.Known] {
		fmt.Println(res.Err)
		return 1
	}
	return 0
}

func splitSpec(s string) (string, int) {
	i := strings.LastIndexByte(s, ':')
	n, _ := strconv.Atoi(s[i+1:])
	return s[:i], n
}

// --- worker ---------------------------------------------------------------

type progress struct{ mem []byte }

func openProgress(path string) progress {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		return progress{make([]byte, 16)}
	}
	defer f.Close()
	f.Truncate(16)
	m, err := syscall.Mmap(int(f.Fd()), 0, 16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return progress{make([]byte, 16)}
	}
	return progress{m}
}

func (p progress) set(sub, idx int) {
	binary.LittleEndian.PutUint64(p.mem[0:], uint64(sub)+1)
	binary.LittleEndian.PutUint64(p.mem[8:], uint64(idx))
}

func readProgress(path string) (sub, idx int) {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 16 {
		return -1, 0
	}
	return int(binary.LittleEndian.Uint64(b)) - 1, int(binary.LittleEndian.Uint64(b[8:]))
}

func (c *config) runWorker(w int, start, dir string) {
	limits()
	if !RaceEnabled {
		runtime.GOMAXPROCS(2)
	}
	debug.SetGCPercent(400)
	out := workerOut{Stats: map[string]*subStat{}}
	known := c.knownSet()
	prog := openProgress(filepath.Join(dir, fmt.Sprintf("prog.%d", w)))
	var began atomic.Int64
	go func() {
		for {
			time.Sleep(time.Second)
			if b := began.Load(); b != 0 && time.Since(time.Unix(0, b)) > hangLimit {
				os.Exit(7)
			}
		}
	}()
	deadline := time.Now().Add(guard(c.tier))
	startSub, startIdx := "", 0
	if start != "" {
		startSub, startIdx = splitSpec(start)
	}
	skipping := startSub != ""
loop:
	for si, s := range c.p.Subs {
		name := s.SubName()
		if c.only != "" && c.only != name {
			continue
		}
		st := &subStat{Tags: map[string]int{}, Known: map[string]int{}, hashes: map[uint64]struct{}{}}
		out.Stats[name] = st
		n := int(float64(count(s, c.tier)) * c.scale)
		from := w
		if skipping {
			if name != startSub {
				continue
			}
			skipping = false
			from = startIdx
		}
		for i := from; i < n; i += c.workers {
			if time.Now().After(deadline) {
				out.TimedOut = true
				break loop
			}
			prog.set(si, i)
			began.Store(time.Now().UnixNano())
			src := NewSrc(caseSeed(c.seed, c.p.ID, name, i))
			res, enc := s.RunSrc(src)
			began.Store(0)
			st.Evals++
			for _, t := range res.Tags {
				st.Tags[t]++
			}
			if res.Err != "" && known[res.Known] && res.Known != "" {
				st.Known[res.Known]++
				res.Err = ""
			}
			if res.Nontrivial {
				st.Nontrivial++
				h := fnv.New64a()
				b := enc()
				h.Write(b)
				st.hashes[h.Sum64()] = struct{}{}
				if len(st.Samples) < 2 && len(b) < 4000 && i%3 == 0 {
					st.Samples = append(st.Samples, b)
				}
			}
			if res.Err != "" {
				began.Store(0)
				bad := func(r Res) bool { return r.Err != "" && !(r.Known != "" && known[r.Known]) }
				ch := shrink(s, src.Choices(), bad, 25*time.Second)
				r2, enc2 := s.RunSrc(ReplaySrc(ch))
				if r2.Err == "" {
					r2, enc2 = res, enc
				}
				out.Fail = &Replay{Property: c.p.ID, Sub: name, Case: enc2(), What: r2.Err, Seed: c.seed, Index: i}
				break loop
			}
		}
	}
	prog.set(-1, 0)
	f, err := os.Create(filepath.Join(dir, fmt.Sprintf("hash.%d.%d", w, os.Getpid())))
	if err == nil {
		bw := bufio.NewWriter(f)
		for si, s := range c.p.Subs {
			if st := out.Stats[s.SubName()]; st != nil {
				for h := range st.hashes {
					binary.Write(bw, binary.LittleEndian, [2]uint64{uint64(si), h})
				}
			}
		}
		bw.Flush()
		f.Close()
	}
	b, err := json.Marshal(out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("out.%d.%d", w, os.Getpid())), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	os.Exit(0)
}

func guard(tier string) time.Duration {
	if tier == "thorough" {
		return 40 * time.Minute
	}
	return 6 * time.Minute
}

// --- supervisor -----------------------------------------------------------

func (c *config) supervise() int {
	begin := time.Now()
	id := c.p.ID
	dir, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	known := c.knownSet()
	var fails []*Replay
	var lines []string
	regress, knownSeen := 0, map[string]string{}

	// 1. committed reproducers: known findings, then regression cases.
	for _, f := range c.findings() {
		if len(f.Case) == 0 {
			continue
		}
		s := c.sub(f.Sub)
		if s == nil {
			fmt.Fprintf(os.Stderr, "finding %s: no sub-check %q\n", f.ID, f.Sub)
			return 2
		}
		res, err := c.isolated(f.Sub, f.Case, dir)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		regress++
		switch {
		case res.Err == "":
		case f.Status == "known" && res.Known == f.ID:
			knownSeen[f.ID] = f.What
		default:
			fails = append(fails, &Replay{Property: id, Sub: f.Sub, Case: f.Case, What: res.Err})
		}
	}
	regs, _ := filepath.Glob(filepath.Join(c.verif, "regress", id, "*.json"))
	sort.Strings(regs)
	for _, path := range regs {
		b, err := os.ReadFile(path)
		var r Replay
		if err == nil {
			err = json.Unmarshal(b, &r)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, path, err)
			return 2
		}
		res, err := c.isolated(r.Sub, r.Case, dir)
		if err != nil {
			fmt.Fprintln(os.Stderr, path, err)
			return 2
		}
		regress++
		if res.Err != "" && !(res.Known != "" && known[res.Known]) {
			r.What = res.Err
			fails = append(fails, &r)
		}
	}

	// 2. generated search.
	total := map[string]*subStat{}
	hashes := map[[2]uint64]struct{}{}
	timedOut, infra := false, ""
	if len(fails) == 0 {
		var mu sync.Mutex
		var wg sync.WaitGroup
		for w := 0; w < c.workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				start := ""
				for attempt := 0; attempt < 4; attempt++ {
					args := []string{"-prop", id, "-verif", c.verif, "-worker", strconv.Itoa(w), "-workers", strconv.Itoa(c.workers), "-dir", dir, "-scale", fmt.Sprint(c.scale)}
					if c.only != "" {
						args = append(args, "-sub", c.only)
					}
					if start != "" {
						args = append(args, "-start", start)
					}
					cmd := exec.Command(os.Args[0], args...)
					var stderr tailBuffer
					cmd.Stderr = &stderr
					cmd.Stdout = &stderr
					err := cmd.Run()
					if err == nil && cmd.ProcessState.Success() {
						return
					}
					si, idx := readProgress(filepath.Join(dir, fmt.Sprintf("prog.%d", w)))
					if si < 0 || si >= len(c.p.Subs) {
						mu.Lock()
						infra = fmt.Sprintf("worker %d: %v: %s", w, err, stderr.String())
						mu.Unlock()
						return
					}
					// The worker died or hung on one case: confirm it, twice,
					// alone in a fresh process.
					name := c.p.Subs[si].SubName()
					what := ""
					confirmed := true
					for k := 0; k < 2 && confirmed; k++ {
						what, confirmed = c.confirm(name, idx)
					}
					if confirmed {
						rp := &Replay{Property: id, Sub: name, Case: c.p.Subs[si].GenJSON(NewSrc(caseSeed(c.seed, id, name, idx))), What: what, Seed: c.seed, Index: idx}
						mu.Lock()
						fails = append(fails, rp)
						mu.Unlock()
						return
					}
					if RaceEnabled && strings.Contains(stderr.String(), "DATA RACE") {
						// Races are schedule-dependent: the detector's report is
						// the evidence, and it has no false positives.
						rp := &Replay{Property: id, Sub: name, Case: c.p.Subs[si].GenJSON(NewSrc(caseSeed(c.seed, id, name, idx))), What: "data race: " + stderr.String(), Seed: c.seed, Index: idx}
						mu.Lock()
						fails = append(fails, rp)
						mu.Unlock()
						return
					}
					start = fmt.Sprintf("%s:%d", name, idx+c.workers)
				}
				mu.Lock()
				infra = fmt.Sprintf("worker %d kept dying without a reproducible cause", w)
				mu.Unlock()
			}(w)
		}
		wg.Wait()
		outs, _ := filepath.Glob(filepath.Join(dir, "out.*"))
		for _, o := range outs {
			b, _ := os.ReadFile(o)
			var wo workerOut
			if err := json.Unmarshal(b, &wo); err != nil {
				infra = err.Error()
				continue
			}
			timedOut = timedOut || wo.TimedOut
			if wo.Fail != nil {
				fails = append(fails, wo.Fail)
			}
			for n, st := range wo.Stats {
				t := total[n]
				if t == nil {
					t = &subStat{Tags: map[string]int{}, Known: map[string]int{}}
					total[n] = t
				}
				t.Evals += st.Evals
				t.Nontrivial += st.Nontrivial
				for k, v := range st.Tags {
					t.Tags[k] += v
				}
				for k, v := range st.Known {
					t.Known[k] += v
				}
				if len(t.Samples) < 3 {
					t.Samples = append(t.Samples, st.Samples...)
				}
			}
		}
		hs, _ := filepath.Glob(filepath.Join(dir, "hash.*"))
		for _, h := range hs {
			b, _ := os.ReadFile(h)
			for i := 0; i+16 <= len(b); i += 16 {
				hashes[[2]uint64{binary.LittleEndian.Uint64(b[i:]), binary.LittleEndian.Uint64(b[i+8:])}] = struct{}{}
			}
		}
	}

	// 3. verdict.
	for i := range fails {
		if fails[i] == nil {
			continue
		}
	}
	sort.SliceStable(fails, func(i, j int) bool { return len(fails[i].Case) < len(fails[j].Case) })
	if len(fails) > 0 {
		rdir := filepath.Join(c.verif, "replays")
		os.MkdirAll(rdir, 0o755)
		seen := map[string]bool{}
		for i, f := range fails {
			if i >= 5 || seen[f.Sub] {
				continue
			}
			seen[f.Sub] = true
			path := filepath.Join(rdir, fmt.Sprintf("%s-%s-%d.json", id, f.Sub, i))
			b, _ := json.MarshalIndent(f, "", " ")
			os.WriteFile(path, append(b, '\n'), 0o644)
			lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", id, path))
			lines = append(lines, fmt.Sprintf("  %s: %s", f.Sub, clip(f.What, 1500)))
			lines = append(lines, fmt.Sprintf("  case: %s", clip(string(f.Case), 1500)))
		}
	}
	kids := make([]string, 0, len(knownSeen))
	for k := range knownSeen {
		kids = append(kids, k)
	}
	sort.Strings(kids)
	for _, k := range kids {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, knownSeen[k])
	}
	c.writeEvidence(total, hashes, time.Since(begin), len(fails), regress, timedOut, knownSeen)
	for _, l := range lines {
		fmt.Println(l)
	}
	ev, nt := 0, len(hashes)
	for _, st := range total {
		ev += st.Evals
	}
	fmt.Printf("%s: %d cases, %d distinct non-trivial, %d committed reproducers, %.1fs\n", id, ev, nt, regress, time.Since(begin).Seconds())
	if len(fails) > 0 {
		return 1
	}
	if infra != "" {
		fmt.Fprintln(os.Stderr, "infrastructure error:", infra)
		return 2
	}
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

type tailBuffer struct{ b []byte }

func (t *tailBuffer) Write(p []byte) (int, error) {
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tailBuffer) String() string {
	s := string(t.b)
	if i := strings.Index(s, "goroutine stack exceeds"); i >= 0 {
		s = "fatal error: stack overflow"
	}
	return clip(s, 3000)
}

// confirm re-runs one generated case in its own process.
func (c *config) confirm(sub string, idx int) (string, bool) {
	return runLimited(exec.Command(os.Args[0], "-prop", c.p.ID, "-verif", c.verif, "-one", fmt.Sprintf("%s:%d", sub, idx)))
}

func runLimited(cmd *exec.Cmd) (string, bool) {
	var out tailBuffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		return err.Error(), false
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
				return "killed", false // out of memory or stopped from outside
			}
			return "the process died: " + out.String(), true
		}
		return "", false
	case <-time.After(confirmLimit):
		cmd.Process.Kill()
		<-done
		return fmt.Sprintf("the operation did not return within %v", confirmLimit), true
	}
}

// isolated runs a committed case in a child process so that a crash or hang
// is contained.
func (c *config) isolated(sub string, data json.RawMessage, dir string) (Res, error) {
	s := c.sub(sub)
	if s == nil {
		return Res{}, fmt.Errorf("no sub-check %q", sub)
	}
	// Fast path in-process with a recover; committed cases are known to
	// terminate on the current tree, but a changed tree may not.
	type ans struct {
		r   Res
		err error
	}
	ch := make(chan ans, 1)
	if os.Getenv("VERIF_INPROC") != "" {
		r, err := s.RunJSON(data)
		return r, err
	}
	path := filepath.Join(dir, "iso.json")
	b, _ := json.Marshal(Replay{Property: c.p.ID, Sub: sub, Case: data})
	if err := os.WriteFile(path, b, 0o644); err != nil {
		return Res{}, err
	}
	go func() { // run
		cmd := exec.Command(os.Args[0], "-prop", c.p.ID, "-verif", c.verif, "-replay", path)
		cmd.Env = append(os.Environ(), "VERIF_ISO=1")
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		err := cmd.Run()
		o := out.String()
		switch {
		case err == nil && strings.Contains(o, "KNOWN-FINDING:"):
			// find which finding claims it
			r, e := s.RunJSON(data)
			ch <- ans{r, e}
		case err == nil:
			ch <- ans{Res{}, nil}
		default:
			msg := o
			if i := strings.Index(o, "\n  "); i >= 0 {
				msg = strings.TrimSpace(o[i:])
			}
			ch <- ans{Res{Err: clip(msg, 2000)}, nil}
		}
	}()
	a := <-ch
	return a.r, a.err
}

func (c *config) writeEvidence(total map[string]*subStat, hashes map[[2]uint64]struct{}, wall time.Duration, viol, regress int, timedOut bool, knownSeen map[string]string) {
	evals := 0
	var rules []string
	var samples []any
	subs := map[string]any{}
	distinct := map[int]int{}
	for h := range hashes {
		distinct[int(h[0])]++
	}
	for si, s := range c.p.Subs {
		n := s.SubName()
		rules = append(rules, n+": "+s.RuleText())
		st := total[n]
		if st == nil {
			continue
		}
		evals += st.Evals
		for i, sm := range st.Samples {
			if i >= 2 {
				break
			}
			samples = append(samples, map[string]any{"sub": n, "case": sm})
		}
		subs[n] = map[string]any{"evaluations": st.Evals, "nontrivial": st.Nontrivial, "distinct_nontrivial": distinct[si], "classes": st.Tags, "known_finding_hits": st.Known}
	}
	if samples == nil {
		samples = []any{"no generated case was run: a committed reproducer already failed"}
	}
	cov := map[string]any{
		"evaluations":           evals,
		"distinct_nontrivial":   len(hashes),
		"rule":                  strings.Join(rules, " | "),
		"samples":               samples,
		"sub_checks":            subs,
		"committed_reproducers": regress,
		"stopped_by_time_guard": timedOut,
		"known_findings_seen":   knownSeen,
	}
	e := map[string]any{
		"property":    c.p.ID,
		"tier":        c.tier,
		"seed":        c.seed,
		"level":       c.p.Level,
		"coverage":    cov,
		"assumptions": c.p.Assumptions,
		"wall_s":      float64(int(wall.Seconds()*100)) / 100,
		"violations":  viol,
	}
	b, err := json.MarshalIndent(e, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return
	}
	os.MkdirAll(filepath.Join(c.verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(c.verif, "evidence", c.p.ID+".json"), append(b, '\n'), 0o644)
}
