package main

// Connections are independent: no operation changes what the packages set up
// when the program starts, which is all that two connections have in common.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isCounter(g *ssa.Global) bool {
	b, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// onceOnly are the package-level variables that are assigned only in functions
// run by a sync.Once, apart from initialisation, and the counters that are only
// used atomically.
func (w *World) onceOnly() map[*ssa.Global]bool {
	once := map[*ssa.Function]bool{}
	for _, f := range w.modFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := call.Common().StaticCallee()
				if g == nil || g.String() != "(*sync.Once).Do" {
					continue
				}
				switch x := call.Common().Args[1].(type) {
				case *ssa.Function:
					once[x] = true
				case *ssa.MakeClosure:
					if fn, ok := x.Fn.(*ssa.Function); ok {
						once[fn] = true
					}
				}
			}
		}
	}
	out, not := map[*ssa.Global]bool{}, map[*ssa.Global]bool{}
	// counters
	for p := range w.mod {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok && isCounter(g) {
				out[g] = true
			}
		}
	}
	for _, f := range w.modFuncs() {
		if f.Synthetic == "package initializer" || f.Name() == "init" && f.Parent() == nil && f.Signature.Recv() == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if g := call.Common().StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "sync/atomic" {
						continue
					}
				}
				s, ok := in.(*ssa.Store)
				for _, op := range in.Operands(nil) {
					g, isGlobal := (*op).(*ssa.Global)
					if !isGlobal {
						continue
					}
					if ok && s.Addr == ssa.Value(g) && once[f] {
						out[g] = true
					} else if ok && s.Addr == ssa.Value(g) || out[g] && !once[f] && isCounter(g) {
						not[g] = true
					}
				}
			}
		}
	}
	for g := range not {
		delete(out, g)
	}
	return out
}

// initNames names what is there after the initialisation of the packages by the
// package-level variable that it belongs to.
func (w *World) initNames() map[*Obj]string {
	out := map[*Obj]string{}
	var globals []*Obj
	for o := range w.inits.heap {
		if o.global != nil && o.global.Pkg != nil && w.mod[o.global.Pkg] {
			globals = append(globals, o)
		}
	}
	sort.Slice(globals, func(i, j int) bool { return globals[i].global.RelString(nil) < globals[j].global.RelString(nil) })
	for _, g := range globals {
		name := strings.TrimPrefix(g.global.RelString(nil), modPath+"/")
		out[g] = name
		for _, o := range reachObjs(w.inits, w.inits.heap[g]) {
			if out[o] == "" {
				out[o] = "what " + name + " leads to"
			}
		}
	}
	return out
}

// maker makes a receiver with the package's own constructor.
func (c *Ctx) maker(st *State, want types.Type) Val {
	n, ok := types.Unalias(want).(*types.Pointer)
	if !ok {
		return nil
	}
	named, ok := types.Unalias(n.Elem()).(*types.Named)
	if !ok || named.Obj().Pkg() == nil {
		return nil
	}
	sc := named.Obj().Pkg().Scope()
	for _, name := range sc.Names() {
		f, ok := sc.Lookup(name).(*types.Func)
		if !ok || !f.Exported() || f.Signature().Results().Len() < 1 {
			continue
		}
		rt := f.Signature().Results().At(0).Type()
		if _, isIface := rt.Underlying().(*types.Interface); !types.Identical(rt, want) && !(isIface && types.Implements(want, rt.Underlying().(*types.Interface))) {
			continue
		}
		fn := c.w.prog.FuncValue(f)
		if fn == nil {
			continue
		}
		var args []Val
		for _, p := range fn.Params {
			args = append(args, st.r.symVal(p.Type(), p.Name(), nil))
		}
		for _, o := range st.r.call(st.fork(), fn, args...) {
			v := o.ret
			if t, ok := v.(TupleV); ok && len(t) > 0 {
				v = t[0]
			}
			if iv, ok := v.(IfaceV); ok && iv.typ != nil && types.Identical(iv.typ, want) {
				v = iv.v
			}
			p, ok := v.(Ptr)
			if !ok || p.obj == nil || o.status != Returned || !types.Identical(p.obj.typ, n.Elem()) {
				continue
			}
			o.status = Running
			o.evs = nil
			*st = *o
			return p
		}
	}
	return nil
}

func runC36(c *Ctx) {
	w := c.w
	once := w.onceOnly()
	// globals hold what they were initialised with, until something is seen to
	// change it
	volatile := w.volatile
	w.volatile = map[*Obj]bool{}
	defer func() { w.volatile, w.changed = volatile, nil }()
	for p := range w.mod {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				w.inits.r.initGlobal(w.inits, w.inits.r.globalObj(g))
			}
		}
	}
	names := w.initNames()
	judge := func(at string, r *Run, outs []*State) {
		states := append([]*State(nil), outs...)
		for _, l := range r.loops {
			for _, it := range l.iters {
				states = append(states, it.st)
			}
		}
		for _, o := range outs {
			for _, e := range o.evs {
				if e.kind == "go" && e.data == nil {
					states = append(states, r.runGo(o, e)...)
				}
			}
		}
		for _, o := range states {
			w.changed = nil
			r.changedInits(o)
			var objs []*Obj
			for k := range w.changed {
				if names[k] != "" && !(k.global != nil && once[k.global]) {
					objs = append(objs, k)
				}
			}
			sort.Slice(objs, func(i, j int) bool { return names[objs[i]] < names[objs[j]] })
			for _, k := range objs {
				c.fail("left alone", at+", "+names[k], o, "%s changes %s, which all connections share: it was %s, it becomes %s", at, names[k], showVal(w.inits.heap[k]), showVal(o.heap[k]))
			}
		}
		c.count("left alone", true)
		c.end(r)
		w.changed = nil
	}
	spawned := c.spawned()
	for _, f := range w.modFuncs() {
		obj, _ := f.Object().(*types.Func)
		if obj == nil || !obj.Exported() || f.Parent() != nil || f.Blocks == nil {
			continue
		}
		x := c.runOpOn(operation{f, shortFn(f), spawned[f.Name()], true}, func(st *State) Val {
			if f.Signature.Recv() == nil {
				return nil
			}
			return c.maker(st, f.Signature.Recv().Type())
		})
		judge(x.op.name, x.r, x.outs)
	}
	// the instances that the packages offer
	for p := range w.mod {
		sc := p.Pkg.Scope()
		for _, name := range sc.Names() {
			v, ok := sc.Lookup(name).(*types.Var)
			if !ok || !v.Exported() {
				continue
			}
			g := p.Var(name)
			if g == nil {
				continue
			}
			ms := types.NewMethodSet(v.Type())
			for i := 0; i < ms.Len(); i++ {
				m, _ := ms.At(i).Obj().(*types.Func)
				if m == nil || !m.Exported() || m.Signature().Results().Len() == 0 {
					continue // a setting of an instance is its user's
				}
				r := c.newRun()
				st := r.withInits()
				var args []Val
				sig := m.Signature()
				for j := 0; j < sig.Params().Len(); j++ {
					args = append(args, r.symVal(sig.Params().At(j).Type(), sig.Params().At(j).Name(), nil))
				}
				recv := st.load(Ptr{obj: r.globalObj(g)}, v.Type())
				switch x := recv.(type) {
				case IfaceV:
					if x.typ == nil {
						continue
					}
				case Ptr:
					if x.obj == nil {
						continue
					}
				default:
					continue // changes a copy
				}
				at := p.Pkg.Name() + "." + name + "." + m.Name()
				judge(at, r, r.callMethod(st, recv, m.Name(), args...))
				c.count("instances", true)
			}
		}
	}
}

func init() {
	checks["C36"] = &checkDef{run: runC36,
		title: "independence of connections",
		rule: "left alone: every exported operation and every loop is interpreted abstractly from the state that the initialisers of the packages leave, on receivers made by the package's own constructors and with unknown arguments; " +
			"on no path, and in no iteration, does anything that a package-level variable leads to get another content (what only a sync.Once assigns apart). instances: the same for the methods of the package-level instances that return something",
		needs: map[string]int{"left alone": 100, "instances": 5}}
}
