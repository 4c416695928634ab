package main

// Obligations, known findings and evidence.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Ctx collects what the check of one property establishes.
type Ctx struct {
	w     *World
	id    string
	rules map[string]*ruleCount
	fails []failure
	seen  map[string]bool

	samples []interface{}
	fns     map[string]bool
	states  int
	forks   int
	loops   int
	iters   int
	undec   []string
	runs    int
	// what cannot be analysed because the code has another shape
	minimum map[string]int
	assume  []string
	splits  int  // reads that return less than was asked for
	access  bool // loops are analysed for accesses to shared objects
	freeze  bool // what is sent is watched
}

type ruleCount struct{ total, ok int }

type failure struct {
	rule, construct, detail string
	trail                   []string
	split                   bool // on a path on which a read was split or bytewise
	panics                  bool // on a path that panics
}

func newCtx(w *World, id string) *Ctx {
	return &Ctx{w: w, id: id, rules: map[string]*ruleCount{}, seen: map[string]bool{},
		fns: map[string]bool{}, minimum: map[string]int{}}
}

func (c *Ctx) count(rule string, ok bool) {
	r := c.rules[rule]
	if r == nil {
		r = &ruleCount{}
		c.rules[rule] = r
	}
	r.total++
	if ok {
		r.ok++
	}
}

// fail records a violated obligation.
func (c *Ctx) fail(rule, construct string, st *State, format string, args ...interface{}) {
	c.count(rule, false)
	f := failure{rule: rule, construct: construct, detail: fmt.Sprintf(format, args...)}
	if st != nil {
		f.trail = append(f.trail, st.trail...)
		for _, e := range st.evs {
			f.trail = append(f.trail, "event: "+c.evString(st.r, e))
		}
		f.split = splitRead(st)
		f.panics = st.status == Panicked
	}
	k := rule + "|" + construct
	if f.split {
		k += "|split"
	}
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.fails = append(c.fails, f)
}

func (c *Ctx) evString(r *Run, e *Event) string {
	s := e.String()
	if len(s) > 300 {
		s = s[:300] + "…"
	}
	if e.pos != nil {
		s += " at " + r.posOf(e.pos)
	}
	return s
}

// check records an obligation.
func (c *Ctx) check(cond bool, rule, construct string, st *State, format string, args ...interface{}) bool {
	if cond {
		c.count(rule, true)
		return true
	}
	c.fail(rule, construct, st, format, args...)
	return false
}

// sample keeps an example of what was analysed.
func (c *Ctx) sample(format string, args ...interface{}) {
	if len(c.samples) < 12 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 600 {
			s = s[:600] + "…"
		}
		for _, x := range c.samples {
			if x == interface{}(s) {
				return
			}
		}
		c.samples = append(c.samples, s)
	}
}

// need says that a rule must have been applied at least n times.
func (c *Ctx) need(rule string, n int) { c.minimum[rule] = n }

// end takes over the statistics of a run; what it could not decide is a failed
// obligation.
func (c *Ctx) end(r *Run) {
	c.runs++
	c.states += r.nStates
	c.forks += r.nForks
	c.splits += r.nSplits
	for _, l := range r.loops {
		c.loops++
		c.iters += len(l.iters)
	}
	for f := range r.fns {
		if r.w.mod[pkgOf(f)] {
			c.fns[shortFn(f)] = true
		}
	}
	for _, n := range r.sortedNotes() {
		c.fail("decided", n, nil, "the analysis cannot decide this: %s", n)
	}
	if len(r.notes) == 0 {
		c.count("decided", true)
	}
}

func pkgOf(f *ssa.Function) *ssa.Package {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil && f.Origin() != nil {
		return f.Origin().Pkg
	}
	return f.Pkg
}

// ---------------------------------------------------------------- findings

type finding struct{ prop, rule, construct, text string }

// knownFindings reads the committed list. Lines:
//
//	known: property=C01 rule=<rule> at=<construct> -- <what fails>
//	fixed: property=<id> <commit> <what failed>
func knownFindings(verif string) ([]finding, error) {
	b, err := os.ReadFile(filepath.Join(verif, "KNOWN_FINDINGS"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		l = strings.TrimPrefix(l, "known: ")
		head, text, _ := strings.Cut(l, " -- ")
		var f finding
		f.text = text
		p, rest, _ := strings.Cut(head, " ")
		f.prop = strings.TrimPrefix(p, "property=")
		rule, at, ok := strings.Cut(rest, " at=")
		if !ok {
			return nil, fmt.Errorf("KNOWN_FINDINGS: %q", l)
		}
		f.rule = strings.TrimPrefix(rule, "rule=")
		f.construct = at
		out = append(out, f)
	}
	return out, nil
}

// ---------------------------------------------------------------- finish

type checkDef struct {
	title string
	rule  string // what the rule decides, for the evidence
	run   func(c *Ctx)
	needs map[string]int
}

var assumptions = []string{
	"64-bit arithmetic does not overflow",
	"functions outside of the repository behave as modelled in rtmpcheck/models.go (standard library) and stubs/amf0 (signatures of amf0; its encoders and decoders are unknown functions)",
	"pointers and interface values passed in by the user are not nil and do not alias unless stated",
	"memory is only modified through the operations that Go's SSA form shows (no unsafe, no reflection beyond the modelled calls)",
}

// finish prints the result, writes the evidence and returns the exit status.
func (c *Ctx) finish(def *checkDef, verif, tier string, seed int, start time.Time) int {
	for rule, n := range c.minimum {
		got := 0
		if r := c.rules[rule]; r != nil {
			got = r.total
		}
		if got < n {
			c.fail("coverage", rule, nil, "rule %q was applied %d times, at least %d expected: the code that it is about was not found", rule, got, n)
		}
	}
	known, err := knownFindings(verif)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var bad []failure
	nKnown := 0
	for _, f := range c.fails {
		hit := false
		for _, k := range known {
			if k.prop == c.id && k.rule == f.rule && k.construct == f.construct {
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", c.id, k.construct, k.text)
				hit = true
				nKnown++
				break
			}
		}
		if !hit {
			bad = append(bad, f)
		}
	}
	total, good := 0, 0
	rules := map[string]interface{}{}
	for n, r := range c.rules {
		total += r.total
		good += r.ok
		rules[n] = map[string]int{"obligations": r.total, "discharged": r.ok}
	}
	ev := map[string]interface{}{
		"property": c.id, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]interface{}{
			"explanation": def.rule,
			"obligations": total, "discharged": good, "known_findings": nKnown,
			"rules":              rules,
			"functions_analysed": sortedKeys(c.fns),
			"analyses":           c.runs, "final_states": c.states, "path_splits": c.forks,
			"loops": c.loops, "loop_iterations_summarised": c.iters,
			"source_files": c.w.nFiles, "source_functions": c.w.nFuncs,
			"samples": c.samples,
		},
		"assumptions": append(append([]string(nil), assumptions...), c.assume...),
		"violations":  len(bad),
		"wall_s":      time.Since(start).Seconds(),
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	if len(c.samples) == 0 {
		delete(ev["coverage"].(map[string]interface{}), "samples")
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, c.id+".json"), append(js, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	replay := filepath.Join(dir, c.id+".violations.txt")
	os.Remove(replay)
	if len(bad) == 0 {
		fmt.Printf("%s: %d of %d obligations hold (%d rules, %d functions, %d loops, %d path splits)\n", c.id, good, total, len(c.rules), len(c.fns), c.loops, c.forks)
		return 0
	}
	sort.SliceStable(bad, func(i, j int) bool { return bad[i].rule < bad[j].rule })
	var sb strings.Builder
	for _, f := range bad {
		fmt.Fprintf(&sb, "property %s, rule %q, at %s\n  %s\n", c.id, f.rule, f.construct, f.detail)
		for _, t := range f.trail {
			if len(t) > 400 {
				t = t[:400] + "…"
			}
			fmt.Fprintf(&sb, "    %s\n", t)
		}
	}
	os.WriteFile(replay, []byte(sb.String()), 0o644)
	for i, f := range bad {
		if i == 12 {
			fmt.Printf("… and %d more\n", len(bad)-i)
			break
		}
		fmt.Printf("violated: rule %q at %s: %s\n", f.rule, f.construct, f.detail)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, replay)
	return 1
}
