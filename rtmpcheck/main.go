// rtmpcheck decides properties of the RTMP library from its source, by
// abstract interpretation of its SSA form.
package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	repo := flag.String("repo", env("REPO", "/repo"), "the repository")
	verif := flag.String("verif", env("VERIF", "/verif"), "the folder of this framework")
	flag.Parse()
	debug.SetGCPercent(400)
	start := time.Now()
	seed, _ := strconv.Atoi(env("VERIF_SEED", "1"))
	tier := env("VERIF_TIER", "quick")
	if tier != "thorough" {
		tier = "quick"
	}
	rp, _ := filepath.Abs(*repo)
	vp, _ := filepath.Abs(*verif)
	ids := flag.Args()
	if len(ids) == 1 && ids[0] == "all" {
		ids = sortedKeys(checks)
	}
	w, err := loadWorld(rp, vp)
	if err == nil {
		err = w.runInits()
	}
	worst := 0
	for _, id := range ids {
		def := checks[id]
		if def == nil {
			fmt.Fprintf(os.Stderr, "no check %s\n", id)
			os.Exit(2)
		}
		t := time.Now()
		if len(ids) == 1 {
			t = start
		}
		c := newCtx(w, id)
		if err != nil {
			c.w = &World{}
			c.fail("source", "the source", nil, "%v", err)
		} else {
			stop := c.watch(def, vp, tier, seed, t)
			// global state that operations change is unknown at their start
			for round := 0; round < 5; round++ {
				w.changed = nil
				c = newCtx(w, id)
				runCheck(c, def)
				if len(w.changed) == 0 {
					break
				}
				for o := range w.changed {
					w.volatile[o] = true
				}
			}
			stop()
		}
		if s := c.finish(def, vp, tier, seed, t); s > worst {
			worst = s
		}
	}
	os.Exit(worst)
}

// watch gives an answer when the analysis takes more time or memory than it
// should: what it could not decide is not shown to hold.
func (c *Ctx) watch(def *checkDef, verif, tier string, seed int, start time.Time) func() {
	done := make(chan bool)
	began := time.Now()
	go func() {
		for {
			select {
			case <-done:
				return
			case <-time.After(time.Second):
			}
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if time.Since(began) < 400*time.Second && m.HeapAlloc < 12<<30 {
				continue
			}
			x := newCtx(c.w, c.id)
			x.fail("decided", "the whole analysis", nil, "it took too much time or memory: the code is beyond what it can decide")
			os.Exit(x.finish(def, verif, tier, seed, start))
		}
	}()
	return func() { done <- true }
}

func runCheck(c *Ctx, def *checkDef) {
	defer func() {
		if p := recover(); p != nil {
			st := strings.Split(string(debug.Stack()), "\n")
			if len(st) > 40 {
				st = st[:40]
			}
			c.fail("analysis", "internal", nil, "the analysis failed: %v\n%s", p, strings.Join(st, "\n"))
		}
	}()
	for k, n := range def.needs {
		c.need(k, n)
	}
	def.run(c)
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// runInits analyses the initialisation of the repository's packages.
func (w *World) runInits() error {
	r := newRun(w)
	r.intercept = func(st *State, fn *ssa.Function, args []Val) ([]Out, bool) {
		if fn.Synthetic == "package initializer" && !w.mod[fn.Pkg] {
			return one(st, nil), true
		}
		return nil, false
	}
	st := r.newState()
	paths := map[string]*ssa.Package{}
	for p := range w.mod {
		paths[p.Pkg.Path()] = p
	}
	for _, k := range sortedKeys(paths) {
		fn := paths[k].Func("init")
		if fn == nil {
			continue
		}
		var good []*State
		for _, o := range r.call(st, fn) {
			if o.status != Returned {
				if o.status == Panicked {
					return fmt.Errorf("initialisation of %s panics: %s", k, o.why)
				}
				continue
			}
			failed := false
			for _, e := range o.evs {
				if e.kind == "fail" {
					failed = true
				}
			}
			if !failed {
				good = append(good, o)
			}
		}
		if len(good) != 1 {
			return fmt.Errorf("initialisation of %s has %d outcomes: %v", k, len(good), r.sortedNotes())
		}
		st = good[0]
		w.initEvs = append(w.initEvs, st.evs...)
		st.evs = nil
		st.trail = nil
	}
	for _, n := range r.sortedNotes() {
		fmt.Fprintln(os.Stderr, "note: initialisation:", n)
	}
	w.inits = st
	w.findVolatile()
	return nil
}
