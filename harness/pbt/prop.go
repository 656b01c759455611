package pbt

import (
	"encoding/json"
	"fmt"
	"runtime/debug"
	"strings"
)

// T is handed to a check for one case.
type T struct {
	nontrivial bool
	tags       []string
}

type failure struct {
	msg   string
	known string
}

// Failf reports a violation of the property.
func (t *T) Failf(format string, args ...any) {
	panic(failure{msg: fmt.Sprintf(format, args...)})
}

// FailKnown reports a violation that is attributed to the known finding id; it
// only counts as known if the committed known-findings file lists that id.
func (t *T) FailKnown(id, format string, args ...any) {
	panic(failure{msg: fmt.Sprintf(format, args...), known: id})
}

// Nontrivial marks the case as non-trivial by the sub-check's stated rule.
func (t *T) Nontrivial() { t.nontrivial = true }

// Tag adds the case to a class of the coverage histogram.
func (t *T) Tag(tags ...string) { t.tags = append(t.tags, tags...) }

// Res is the outcome of one case.
type Res struct {
	Err        string // "" if the property held
	Known      string // known-finding id claimed by the failure
	Nontrivial bool
	Tags       []string
	Panic      bool
}

// Sub is one executable sub-check of a property.
type Sub interface {
	SubName() string
	Counts() (quick, thorough int)
	RuleText() string
	GenJSON(s *Src) json.RawMessage
	RunSrc(s *Src) (Res, func() json.RawMessage)
	RunJSON(data json.RawMessage) (Res, error)
}

// Check is the generic implementation of Sub.
type Check[C any] struct {
	Name            string
	Rule            string
	Quick, Thorough int
	Gen             func(*Src) C
	Run             func(C, *T)
}

func (c Check[C]) SubName() string    { return c.Name }
func (c Check[C]) Counts() (int, int) { return c.Quick, c.Thorough }
func (c Check[C]) RuleText() string   { return c.Rule }
func (c Check[C]) GenJSON(s *Src) json.RawMessage {
	b, err := json.Marshal(c.Gen(s))
	if err != nil {
		panic(err)
	}
	return b
}

func (c Check[C]) exec(v C) (r Res) {
	t := new(T)
	defer func() {
		r.Nontrivial, r.Tags = t.nontrivial, t.tags
		switch p := recover().(type) {
		case nil:
		case failure:
			r.Err, r.Known = p.msg, p.known
		default:
			st := string(debug.Stack())
			lines := strings.Split(st, "\n")
			keep := []string{}
			for _, l := range lines {
				if strings.Contains(l, "/repo/") && len(keep) < 6 {
					keep = append(keep, strings.TrimSpace(l))
				}
			}
			r.Err = fmt.Sprintf("panic: %v [%s]", p, strings.Join(keep, " <- "))
			r.Panic = true
		}
	}()
	c.Run(v, t)
	return
}

func (c Check[C]) RunSrc(s *Src) (Res, func() json.RawMessage) {
	v := c.Gen(s)
	enc := func() json.RawMessage {
		b, err := json.Marshal(v)
		if err != nil {
			panic(err)
		}
		return b
	}
	return c.exec(v), enc
}

func (c Check[C]) RunJSON(data json.RawMessage) (Res, error) {
	var v C
	if err := json.Unmarshal(data, &v); err != nil {
		return Res{}, err
	}
	return c.exec(v), nil
}

// Prop is a property with its sub-checks.
type Prop struct {
	ID          string
	Title       string
	Level       string
	Assumptions []string
	Subs        []Sub
	// Post, if set, runs once in the supervisor after the workers.
	Race bool // must be run by the race-enabled binary
}

var registry = map[string]*Prop{}

func Register(p *Prop)       { registry[p.ID] = p }
func Lookup(id string) *Prop { return registry[id] }
func All() map[string]*Prop  { return registry }
