package main

// Locks: which state is guarded by which mutex, and how locks are held. Each
// operation is interpreted with unknown receivers and arguments.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// shared are the types whose objects are used by several goroutines: those of
// the chunk package, and every struct that has a mutex.
func (c *Ctx) shared() []*types.Named {
	seen := map[string]bool{}
	var out []*types.Named
	add := func(t types.Type) {
		n, ok := t.(*types.Named)
		if !ok || seen[namedOf(t)] {
			return
		}
		if _, ok := n.Underlying().(*types.Struct); !ok {
			return
		}
		seen[namedOf(t)] = true
		out = append(out, n)
	}
	for _, n := range []string{"Builder", "DefaultNormalizer", "DefaultReader", "DefaultWriter", "Parser", "MultiStream"} {
		add(c.typ("chunk", n))
	}
	var rest []*types.Named
	for p := range c.w.mod {
		sc := p.Pkg.Scope()
		for _, name := range sc.Names() {
			tn, ok := sc.Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok || n.TypeParams().Len() > 0 {
				continue
			}
			for _, f := range structFields(n) {
				if isMutex(f.Type()) {
					rest = append(rest, n)
					break
				}
			}
		}
	}
	sort.Slice(rest, func(i, j int) bool { return rest[i].String() < rest[j].String() })
	for _, n := range rest {
		add(n)
	}
	return out
}

func isMutex(t types.Type) bool {
	n := namedOf(t)
	return n == "sync.Mutex" || n == "sync.RWMutex"
}

// syncOwn are the types that are safe to share by themselves.
func syncOwn(t types.Type) bool {
	n := namedOf(t)
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return false
	}
	return strings.HasPrefix(n, "sync.") || strings.HasPrefix(n, "sync/atomic.")
}

// operation is a function or method that others call.
type operation struct {
	fn   *ssa.Function
	name string
	loop bool // it is run in a goroutine of its own
	made bool // where a constructor without parameters makes its receiver, that one is used
}

// methodsOf are the operations of a type that other packages, or goroutines,
// can call.
func (c *Ctx) methodsOf(t types.Type, spawned map[string]bool) []operation {
	var out []operation
	ms := c.w.prog.MethodSets.MethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		f, _ := ms.At(i).Obj().(*types.Func)
		if f == nil || !f.Exported() || len(ms.At(i).Index()) != 1 {
			continue
		}
		fn := c.w.prog.MethodValue(ms.At(i))
		if fn == nil {
			continue
		}
		out = append(out, operation{fn, typeName(t) + "." + f.Name(), spawned[f.Name()], false})
	}
	return out
}

// spawned are the names of the methods that the repository starts in a
// goroutine.
func (c *Ctx) spawned() map[string]bool {
	out := map[string]bool{}
	for _, f := range c.w.modFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				if g.Call.IsInvoke() {
					out[g.Call.Method.Name()] = true
				} else if fn := g.Call.StaticCallee(); fn != nil && fn.Signature.Recv() != nil {
					out[fn.Name()] = true
				}
			}
		}
	}
	// the loops that applications start, as their documentation says
	for _, s := range append(append([]service{}, services...), dispatcher, chunkParser) {
		out[s.loop] = true
	}
	out["Accept"] = true
	return out
}

// opRun is the analysis of one operation with unknown arguments.
type opRun struct {
	op     operation
	r      *Run
	outs   []*State
	args   []Val
	before map[*Obj]bool // what there was at the start
	evs    []*Event      // of all paths, those of loops included
	own    map[*Obj][]mapOwner
}

type mapOwner struct {
	obj   *Obj
	field string
}

func (c *Ctx) runOp(op operation) *opRun {
	return c.runOpOn(op, func(st *State) Val { return c.constructed(st, op) })
}

// runOpOn is runOp with a receiver of its own.
func (c *Ctx) runOpOn(op operation, make func(st *State) Val) *opRun {
	x := &opRun{op: op, r: c.newRun(), own: map[*Obj][]mapOwner{}}
	r := x.r
	r.access = true
	r.memoChans(map[*Obj]string{})
	noteMaps := func(o *Obj, v Val) {
		s, ok := v.(StructV)
		if !ok {
			return
		}
		fs := structFields(o.typ)
		for i := range s {
			if m, ok := s[i].(MapV); ok && m.obj != nil && i < len(fs) {
				has := false
				for _, w := range x.own[m.obj] {
					has = has || w.obj == o && w.field == fs[i].Name()
				}
				if !has {
					x.own[m.obj] = append(x.own[m.obj], mapOwner{o, fs[i].Name()})
				}
			}
		}
	}
	r.onSym = func(st *State, o *Obj, v Val) { noteMaps(o, v) }
	recvT := ""
	if op.fn.Signature.Recv() != nil {
		recvT = namedOf(op.fn.Signature.Recv().Type())
	}
	switch name := op.fn.Name(); {
	case recvT == namedOf(c.typ("chunk", "DefaultReader")) && name == "Recv":
		rr := c.recv()
		x.r, x.outs = rr.r, rr.outs
	case recvT == namedOf(c.typ("chunk", "DefaultWriter")) && name == "Write":
		wr := c.writeMessage(0, csidClasses[0], true)
		x.r, x.outs = wr.r, wr.outs
	default:
		for _, s := range append(append([]service{}, services...), dispatcher, chunkParser) {
			if recvT != namedOf(c.typ(s.pkg, s.typ)) || name != s.loop {
				continue
			}
			if s.name == dispatcher.name {
				s.args = []Val{TTrue}
			}
			sr := c.runService(s, s.name != chunkParser.name)
			x.r, x.outs = sr.r, sr.outs
		}
	}
	if x.outs != nil {
		x.collect(noteMaps)
		return x
	}
	st := r.withInits()
	var args []Val
	recv := make(st)
	for i, p := range op.fn.Params {
		if recv != nil && i == 0 {
			args = append(args, recv)
			continue
		}
		if pt, ok := p.Type().Underlying().(*types.Pointer); ok && i == 0 && op.fn.Signature.Recv() != nil {
			args = append(args, st.inputObj(pt.Elem(), typeName(pt)))
			continue
		}
		args = append(args, r.symVal(p.Type(), p.Name(), nil))
	}
	x.args = args
	x.before = map[*Obj]bool{}
	for o := range st.heap {
		x.before[o] = true
	}
	x.outs = r.call(st, op.fn, args...)
	x.collect(noteMaps)
	return x
}

// constructed makes the receiver of an operation with a constructor that needs
// nothing.
func (c *Ctx) constructed(st *State, op operation) Val {
	if !op.made || op.fn.Signature.Recv() == nil || op.fn.Pkg == nil {
		return nil
	}
	want := op.fn.Signature.Recv().Type()
	sc := op.fn.Pkg.Pkg.Scope()
	for _, name := range sc.Names() {
		f, ok := sc.Lookup(name).(*types.Func)
		if !ok || !f.Exported() || f.Signature().Params().Len() != 0 || f.Signature().Results().Len() != 1 {
			continue
		}
		for _, o := range st.r.call(st.fork(), c.w.prog.FuncValue(f)) {
			v := o.ret
			if iv, ok := v.(IfaceV); ok && iv.typ != nil && types.Identical(iv.typ, want) {
				v = iv.v
			} else if !types.Identical(f.Signature().Results().At(0).Type(), want) {
				continue
			}
			if p, ok := v.(Ptr); ok && p.obj != nil && o.status == Returned {
				for x, cv := range o.heap {
					if _, old := st.heap[x]; !old {
						st.heap[x] = cv
					}
				}
				return v
			}
		}
	}
	return nil
}

// share says that the object is used by other goroutines from now on.
func (c *Ctx) share(r *Run, st *State, recv Val) {
	if !c.access {
		return
	}
	r.access = true
	for _, o := range reachObjs(st, recv) {
		o.shared = true
	}
}

// collect gathers what happens on all paths.
func (x *opRun) collect(noteMaps func(o *Obj, v Val)) {
	seen := map[*Event]bool{}
	take := func(s *State, evs []*Event) {
		for o, v := range s.heap {
			noteMaps(o, v)
		}
		for _, e := range evs {
			if !seen[e] {
				seen[e] = true
				x.evs = append(x.evs, e)
			}
		}
	}
	for _, o := range x.outs {
		take(o, o.evs)
	}
	for _, l := range x.r.loops {
		for _, it := range l.iters {
			take(it.st, it.evs)
		}
	}
}

// lockName names a mutex by the object and the field that it is in.
func (x *opRun) lockName(l lockHeld) (owner *Obj, name string) {
	path := fieldPath(l.ptr)
	if path == "" {
		return l.ptr.obj, "?"
	}
	return l.ptr.obj, path
}

// fieldPath names the field that a pointer into a struct points at.
func fieldPath(p Ptr) string {
	t := p.obj.typ
	var names []string
	for _, part := range strings.Split(p.path, ".") {
		if part == "" {
			continue
		}
		var i int
		if _, err := fmt.Sscanf(part, "%d", &i); err != nil {
			break
		}
		fs := structFields(t)
		if _, ok := t.Underlying().(*types.Struct); !ok || i >= len(fs) {
			break
		}
		names = append(names, fs[i].Name())
		t = fs[i].Type()
	}
	return strings.Join(names, ".")
}

// guard collects the accesses to one field.
type guard struct {
	typ, field string
	fldType    types.Type
	writes     int
	all        []guardAccess
	content    bool
}

type guardAccess struct {
	op    operation
	e     *Event
	r     *Run
	write bool
	locks map[string]bool // mutexes of the same object
	own   bool
}

func runC18(c *Ctx) {
	c.access = true
	types_ := c.shared()
	isShared := map[string]types.Type{}
	for _, t := range types_ {
		isShared[namedOf(t)] = t
	}
	spawned := c.spawned()
	guards := map[string]*guard{}
	locksOf := func(x *opRun, e *Event, owner *Obj, write bool) map[string]bool {
		out := map[string]bool{}
		for _, l := range e.held {
			o, name := x.lockName(l)
			if write && l.read {
				continue
			}
			if o == owner {
				out[name] = true
				continue
			}
			// a mutex behind a pointer
			out[fmt.Sprintf("%s of %s", name, namedOf(o.typ))] = true
		}
		return out
	}
	add := func(x *opRun, e *Event, owner *Obj, field string, ft types.Type, write, content bool) {
		tn := namedOf(owner.typ)
		k := tn + "." + field
		if content {
			k += " (content)"
		}
		g := guards[k]
		if g == nil {
			g = &guard{typ: typeName(owner.typ), field: field, fldType: ft, content: content}
			guards[k] = g
		}
		if write {
			g.writes++
		}
		g.all = append(g.all, guardAccess{op: x.op, e: e, r: x.r, write: write, locks: locksOf(x, e, owner, write)})
	}
	for _, t := range types_ {
		for _, op := range c.methodsOf(t, spawned) {
			x := c.runOp(op)
			for _, e := range x.evs {
				switch e.kind {
				case "access":
					if isShared[namedOf(e.obj.typ)] == nil {
						continue
					}
					if _, isPtr := e.obj.typ.Underlying().(*types.Pointer); isPtr {
						continue
					}
					fs := structFields(e.obj.typ)
					parts := strings.Split(strings.TrimPrefix(e.ptr.path, "."), ".")
					if e.ptr.path == "" {
						// the whole struct
						for _, f := range fs {
							if !syncOwn(f.Type()) {
								add(x, e, e.obj, f.Name(), f.Type(), e.flag, false)
							}
						}
						continue
					}
					var i int
					if _, err := fmt.Sscanf(parts[0], "%d", &i); err != nil || i >= len(fs) {
						continue
					}
					if syncOwn(fs[i].Type()) {
						continue
					}
					add(x, e, e.obj, fs[i].Name(), fs[i].Type(), e.flag, false)
				case "maplook", "mapset", "mapdel", "mapiter", "mapend", "mapclear":
					for _, w := range x.own[e.obj] {
						if isShared[namedOf(w.obj.typ)] == nil {
							continue
						}
						if w.obj.fresh && w.obj.site != nil && !w.obj.shared {
							continue
						}
						ft := structFields(w.obj.typ)[fieldIndex(w.obj.typ, w.field)].Type()
						write := e.kind == "mapset" || e.kind == "mapdel" || e.kind == "mapclear"
						add(x, e, w.obj, w.field, ft, write, true)
					}
				}
			}
			c.count("analysed", true)
			c.end(x.r)
		}
	}
	for _, k := range sortedKeys(guards) {
		g := guards[k]
		what := g.typ + "." + g.field
		if g.content {
			what = "the content of " + what
		}
		if g.writes == 0 {
			c.count("constant", true)
			continue
		}
		// one goroutine only
		ops := map[string]bool{}
		loop := true
		for _, a := range g.all {
			ops[a.op.name] = true
			loop = loop && a.op.loop
		}
		if len(ops) == 1 && loop {
			c.count("one goroutine", true)
			continue
		}
		// the mutex that most accesses hold
		n := map[string]int{}
		for _, a := range g.all {
			for l := range a.locks {
				n[l]++
			}
		}
		best := ""
		for _, l := range sortedKeys(n) {
			if best == "" || n[l] > n[best] {
				best = l
			}
		}
		if best == "" {
			a := g.all[0]
			for _, b := range g.all {
				if b.write {
					a = b
				}
			}
			c.fail("guarded", what, nil, "%s is written by %s at %s and used by %d operations (%s), and no mutex is held anywhere", what, a.op.name, a.r.posOf(a.e.pos), len(ops), strings.Join(sortedKeys(ops), ", "))
			continue
		}
		c.sample("%s: %d accesses (%d writes) by %s under %s", what, len(g.all), g.writes, strings.Join(sortedKeys(ops), ", "), best)
		for _, a := range g.all {
			verb := "read"
			if a.write {
				verb = "written"
			}
			at := what + " in " + shortFn(a.e.fn)
			c.check(a.locks[best], "guarded", at, nil, "%s is %s at %s (by %s) without holding %s, which guards it elsewhere", what, verb, a.r.posOf(a.e.pos), a.op.name, best)
		}
	}
}

// ---------------------------------------------------------------- C19

// effects finds the functions that may wait, and those that take locks, by the
// calls in the source.
type effects struct {
	w     *World
	waits map[*ssa.Function]string
	locks map[*ssa.Function]bool
	impls map[string][]*ssa.Function // by method name
}

func newEffects(w *World) *effects {
	e := &effects{w: w, waits: map[*ssa.Function]string{}, locks: map[*ssa.Function]bool{}, impls: map[string][]*ssa.Function{}}
	fns := w.modFuncs()
	for _, f := range fns {
		if f.Signature.Recv() != nil {
			e.impls[f.Name()] = append(e.impls[f.Name()], f)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if why := waitsAt(in); why != "" && e.waits[f] == "" {
					e.waits[f] = why
				}
				if call, ok := in.(ssa.CallInstruction); ok {
					if isLockCall(call.Common()) {
						e.locks[f] = true
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range fns {
			for _, g := range e.callees(f, false) {
				if e.locks[g] && !e.locks[f] {
					e.locks[f] = true
					changed = true
				}
			}
			for _, g := range e.callees(f, true) {
				if e.waits[g] != "" && e.waits[f] == "" {
					e.waits[f] = e.waits[g]
					changed = true
				}
			}
		}
	}
	return e
}

// callees are what a function calls itself, not what it starts.
func (e *effects) callees(f *ssa.Function, invoke bool) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if _, isGo := in.(*ssa.Go); isGo {
				continue
			}
			cc := call.Common()
			if cc.IsInvoke() {
				if invoke {
					out = append(out, e.implementations(cc.Value.Type(), cc.Method.Name())...)
				}
				continue
			}
			if g := cc.StaticCallee(); g != nil {
				out = append(out, g)
			}
			if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
				if g, ok := mc.Fn.(*ssa.Function); ok {
					out = append(out, g)
				}
			}
		}
	}
	return out
}

// implementations are the repository's methods behind an interface's method.
func (e *effects) implementations(t types.Type, name string) []*ssa.Function {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, f := range e.impls[name] {
		if types.Implements(f.Signature.Recv().Type(), it) {
			out = append(out, f)
		}
	}
	return out
}

func waitsAt(in ssa.Instruction) string {
	switch x := in.(type) {
	case *ssa.Send:
		return "a send"
	case *ssa.UnOp:
		if x.Op.String() == "<-" {
			return "a receive"
		}
	case *ssa.Select:
		if x.Blocking {
			return "a select"
		}
	case ssa.CallInstruction:
		cc := x.Common()
		if _, ok := in.(*ssa.Go); ok {
			return ""
		}
		if cc.IsInvoke() {
			if p := cc.Method.Pkg(); p != nil && (p.Path() == "io" || p.Path() == "net") {
				return "input or output"
			}
			return ""
		}
		if f := cc.StaticCallee(); f != nil {
			switch f.String() {
			case "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait", "time.Sleep", "net.Listen", "net.Dial",
				"io.ReadFull", "io.Copy", "io.CopyN", "io.ReadAtLeast", "io.ReadAll", "io.WriteString":
				return f.String()
			}
		}
	}
	return ""
}

func isLockCall(cc *ssa.CallCommon) bool {
	f := cc.StaticCallee()
	if f == nil {
		return false
	}
	switch f.String() {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock",
		"(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		return true
	}
	return false
}

func runC19(c *Ctx) {
	c.access = true
	ef := newEffects(c.w)
	spawned := c.spawned()
	var ops []operation
	for _, f := range c.w.modFuncs() {
		if !ef.locks[f] || f.Parent() != nil {
			continue
		}
		obj, _ := f.Object().(*types.Func)
		if obj == nil || !obj.Exported() {
			continue
		}
		// the outermost operations take in the rest, but a method is also
		// called by itself
		ops = append(ops, operation{f, shortFn(f), spawned[f.Name()], false})
	}
	order := map[string]map[string]string{}
	nLocks := 0
	for _, op := range ops {
		x := c.runOp(op)
		for _, o := range x.outs {
			switch o.status {
			case Panicked:
				c.check(o.why != unlockedMutex, "held when released", op.name, o, "%s", o.why)
			case Returned:
				if len(o.locks) == 0 {
					c.count("released", true)
				}
				for _, l := range o.locks {
					_, n := x.lockName(l)
					c.fail("released", op.name, o, "%s returns while it still holds %s, taken at %s", op.name, n, x.r.posOf(l.pos))
				}
			}
		}
		for _, l := range x.r.loops {
			for _, it := range l.iters {
				if it.to == nil || it.from == nil {
					continue
				}
				a, b := lockSet(it.head), lockSet(it.st)
				c.check(a == b, "released", op.name+", loop", it.st, "an iteration of a loop begins with the locks {%s} and ends with {%s}", a, b)
			}
		}
		for _, e := range x.evs {
			at := op.name + " at " + x.r.posOf(e.pos)
			switch e.kind {
			case "lock":
				nLocks++
				_, n := x.lockName(lockHeld{ptr: e.ptr})
				to := typeName(e.ptr.obj.typ) + "." + n
				for _, l := range e.held {
					_, m := x.lockName(l)
					from := typeName(l.ptr.obj.typ) + "." + m
					if order[from] == nil {
						order[from] = map[string]string{}
					}
					order[from][to] = at
				}
			case "unlock":
				c.count("held when released", true)
			case "relock":
				c.fail("not taken twice", at, nil, "a lock is taken that is already held: %s", fieldPath(e.ptr))
			}
			if len(e.held) == 0 {
				continue
			}
			_, n := x.lockName(e.held[0])
			wait := ""
			switch e.kind {
			case "send", "recv", "recv-end":
				wait = "a channel operation"
				if e.flag && e.kind == "send" {
					wait = "" // its select is judged
				}
			case "select":
				if e.flag {
					wait = "a channel operation"
				}
			case "block":
				wait = "waiting"
			case "wgwait":
				wait = "waiting for goroutines"
			case "read", "write", "readall":
				if s, ok := e.data.(*SymObj); ok && s != nil || e.kind == "read" {
					wait = "input or output"
				}
			case "call":
				if s, ok := e.data.(*SymObj); ok && s != nil && s.typ != nil {
					m := e.name[strings.LastIndex(e.name, ".")+1:]
					for _, g := range ef.implementations(s.typ, m) {
						if why := ef.waits[g]; why != "" {
							wait = fmt.Sprintf("a call of %s, which may wait (%s in %s)", e.name, why, shortFn(g))
						}
					}
				}
			}
			c.check(wait == "", "never waits", at, nil, "%s while %s is held", wait, n)
		}
		c.sample("%s: %d outcomes", op.name, len(x.outs))
		c.end(x.r)
	}
	c.check(nLocks > 0, "released", "locks", nil, "nothing takes a lock")
	// two locks are always taken in the same order
	var path []string
	state := map[string]int{}
	var visit func(n string) bool
	visit = func(n string) bool {
		state[n] = 1
		path = append(path, n)
		for _, m := range sortedKeys(order[n]) {
			if state[m] == 1 {
				c.fail("order", "lock order", nil, "locks are taken in a circle: %s -> %s, at %s", strings.Join(path, " -> "), m, order[n][m])
				continue
			}
			if state[m] == 0 {
				visit(m)
			}
		}
		path = path[:len(path)-1]
		state[n] = 2
		return true
	}
	for _, n := range sortedKeys(order) {
		if state[n] == 0 {
			visit(n)
		}
		for range order[n] {
			c.count("order", true)
		}
	}
}

func lockSet(st *State) string {
	var ks []string
	for _, l := range st.locks {
		ks = append(ks, l.key)
	}
	sort.Strings(ks)
	return strings.Join(ks, ", ")
}

func init() {
	checks["C18"] = &checkDef{run: runC18, rule: "guarded: every field of a type that goroutines share which is written after construction, and the content of its maps, is read and written under one same mutex of its object, unless only one goroutine's loop uses it",
		needs: map[string]int{"guarded": 20, "analysed": 20}}
	checks["C19"] = &checkDef{run: runC19, rule: "released: no lock is held when an operation returns or a loop starts over; held when released: no mutex is unlocked that the operation does not hold; not taken twice; never waits: no channel operation, waiting, input or output while a lock is held; order: the locks are taken in one order",
		needs: map[string]int{"released": 15, "held when released": 15, "never waits": 15}}
}
