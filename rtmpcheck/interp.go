package main

// The transfer functions of the SSA instructions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Run is one analysis: the world, what an obligation needs to know about its
// environment, and what has been found on the way.
type Run struct {
	w *World

	// hooks of the property
	intercept func(st *State, fn *ssa.Function, args []Val) ([]Out, bool)
	symCall   func(st *State, recv *SymObj, method string, sig *types.Signature, args []Val) ([]Out, bool)
	onSym     func(st *State, o *Obj, c Val)
	canEnd    func(st *State, ch *Obj) bool
	absorb    func(f *Facts, s Seq) (tag string, pos *Term, ok bool)
	nSplits   int
	onMake    func(st *State, e *Event) // memory is set aside
	access    bool                      // record field accesses
	freeze    bool                      // what is sent counts as shared from then on

	loops []*LoopInst
	notes map[string]bool

	nStates, nForks, nSteps, nLoops int
	fns                             map[*ssa.Function]bool
	quiet                           int
	globals                         map[*ssa.Global]*Obj
	srcs                            map[string]*Src
	mapMemo                         map[string]Val
	limit                           int
	extra                           []*State
}

func newRun(w *World) *Run {
	return &Run{w: w, notes: map[string]bool{}, fns: map[*ssa.Function]bool{},
		globals: map[*ssa.Global]*Obj{}, srcs: map[string]*Src{}, mapMemo: map[string]Val{}, limit: 400000}
}

// note records that something could not be decided.
func (r *Run) note(in ssa.Instruction, format string, args ...interface{}) {
	if r.quiet > 0 {
		return
	}
	r.notes[r.posOf(in)+": "+fmt.Sprintf(format, args...)] = true
}

func (r *Run) newState() *State {
	st := &State{r: r, heap: map[*Obj]Val{}, f: newFacts(), memo: map[string]int{}}
	return st
}

func (r *Run) namedSrc(key string) *Src {
	s := r.srcs[key]
	if s == nil {
		s = NewSrc("part")
		r.srcs[key] = s
	}
	return s
}

// ---------------------------------------------------------------- unknowns

var symSeq2 int

func (r *Run) newSym(name, role string, t types.Type) *SymObj {
	symSeq2++
	return &SymObj{id: symSeq2, name: fmt.Sprintf("%s.%d", name, symSeq2), role: role, typ: t}
}

// symVal is an unknown value of a type.
func (r *Run) symVal(t types.Type, name string, parent *Obj) Val {
	if _, _, lo, hi, ok := intRange(t); ok {
		return Fresh(name, lo, hi)
	}
	if isString(t) {
		return Str{seqRange(NewSrc(name), TZero, Fresh("len("+name+")", 0, 1<<40))}
	}
	if isFloat(t) {
		return Fresh(name, negInf, posInf)
	}
	switch namedOf2(t) {
	case "bytes.Buffer":
		return BufV{s: seqRange(NewSrc(name), TZero, Fresh("len("+name+")", 0, 1<<40))}
	case "bytes.Reader":
		return RdV{s: seqRange(NewSrc(name), TZero, Fresh("len("+name+")", 0, 1<<40))}
	case "sync.Mutex", "sync.RWMutex", "sync.WaitGroup", "sync.Once":
		return zeroVal(t)
	}
	if strings.HasPrefix(namedOf2(t), "sync/atomic.") {
		return zeroVal(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		o := newObj(u.Elem(), "*"+name)
		o.sym = true
		return Ptr{obj: o}
	case *types.Slice:
		n := Fresh("len("+name+")", 0, 1<<40)
		o := newObj(types.NewArray(u.Elem(), -1), name)
		o.sym = true
		if isByte(u.Elem()) {
			o.init = BytesV{seqRange(NewSrc(name), TZero, n)}
		} else {
			o.init = ArrV{sym: newSymArr(name, u.Elem(), n), elem: u.Elem()}
		}
		return SliceV{base: Ptr{obj: o}, off: TZero, len: n, cap: Add(n, Fresh("spare", 0, 1<<40))}
	case *types.Interface:
		return IfaceV{sym: r.newSym(name, roleOf(t), t)}
	case *types.Struct:
		s := make(StructV, u.NumFields())
		for i := range s {
			f := u.Field(i)
			s[i] = r.symVal(f.Type(), name+"."+f.Name(), parent)
		}
		return s
	case *types.Array:
		if isByte(u.Elem()) {
			return BytesV{seqRange(NewSrc(name), TZero, Const(u.Len()))}
		}
		a := ArrV{elem: u.Elem()}
		for i := int64(0); i < u.Len() && i < 256; i++ {
			a.elems = append(a.elems, r.symVal(u.Elem(), fmt.Sprintf("%s[%d]", name, i), parent))
		}
		return a
	case *types.Map:
		o := newObj(t, name)
		o.sym = true
		o.init = r.symMap(u, name)
		return MapV{obj: o}
	case *types.Chan:
		o := newObj(t, name)
		o.sym = true
		o.init = ChanC{elem: u.Elem()}
		return ChanV{obj: o}
	case *types.Signature:
		return FuncV{sym: r.newSym(name, "func", t)}
	case *types.Tuple:
		tv := make(TupleV, u.Len())
		for i := range tv {
			tv[i] = r.symVal(u.At(i).Type(), fmt.Sprintf("%s.%d", name, i), nil)
		}
		return tv
	}
	return Fresh(name, negInf, posInf)
}

var mapSeq int

func (r *Run) symMap(t *types.Map, name string) *MapC {
	mapSeq++
	return &MapC{base: true, id: mapSeq, kt: t.Key(), vt: t.Elem(), name: name}
}

func roleOf(t types.Type) string {
	switch namedOf2(t) {
	case "io.Reader":
		return "reader"
	case "io.Writer":
		return "writer"
	case "io.ReadWriter", "net.Conn", "io.ReadWriteCloser":
		return "conn"
	}
	if t.String() == "error" {
		return "error"
	}
	return ""
}

func (r *Run) symElem(a *SymArr, i *Term) Val {
	if v, ok := a.vals[i]; ok {
		return v
	}
	name := fmt.Sprintf("%s[%v]", a.name, i)
	var v Val
	if sl, ok := a.elem.Underlying().(*types.Slice); ok && isByte(sl.Elem()) {
		n := a.elemLen(i)
		o := newObj(types.NewArray(sl.Elem(), -1), name)
		o.sym = true
		o.init = BytesV{seqRange(a.concat(), a.prefix(i), n)}
		v = SliceV{base: Ptr{obj: o}, off: TZero, len: n, cap: n}
	} else {
		v = r.symVal(a.elem, name, nil)
	}
	a.vals[i] = v
	return v
}

func (r *Run) symErr(name string) IfaceV {
	return IfaceV{sym: r.newSym(name, "error", types.Universe.Lookup("error").Type())}
}

var errNil = IfaceV{}

// ---------------------------------------------------------------- globals

// globalObj is the variable behind a global.
func (r *Run) globalObj(g *ssa.Global) *Obj {
	if o, ok := r.globals[g]; ok {
		return o
	}
	if r.w.inits != nil && r.w.inits.r != r {
		// shared with the initialisation run
		o := r.w.inits.r.globalObj(g)
		r.globals[g] = o
		return o
	}
	o := newObj(g.Type().(*types.Pointer).Elem(), g.RelString(nil))
	o.global = g
	r.globals[g] = o
	return o
}

// initGlobal gives a global of another module its (opaque) content.
func (r *Run) initGlobal(st *State, o *Obj) {
	if _, ok := st.heap[o]; ok {
		return
	}
	if r.w.inits != nil {
		if v, ok := r.w.inits.heap[o]; ok {
			st.heap[o] = v
			return
		}
	}
	g := o.global
	if r.w.mod[g.Pkg] {
		st.heap[o] = zeroVal(o.typ)
		if r.w.volatile[o] {
			if o.init == nil {
				o.init = r.anyContent(o, st.heap[o])
			}
			st.heap[o] = o.init
		}
		return
	}
	if o.init == nil {
		name := g.RelString(nil)
		switch t := o.typ.Underlying().(type) {
		case *types.Interface:
			role := roleOf(o.typ)
			switch name {
			case "io.Discard", "io/ioutil.Discard":
				name, role = "io.Discard", "writer"
			case "crypto/rand.Reader":
				role = "random"
			}
			s := r.newSym(name, role, o.typ)
			s.name = name
			s.data = "global"
			o.init = IfaceV{sym: s}
		case *types.Struct:
			_ = t
			o.init = zeroVal(o.typ)
		default:
			o.init = r.symVal(o.typ, name, nil)
		}
	}
	st.heap[o] = o.init
}

// anyContent is an unknown content for an object that operations change.
func (r *Run) anyContent(o *Obj, v Val) Val {
	switch x := v.(type) {
	case *MapC:
		mapSeq++
		return &MapC{base: true, id: mapSeq, kt: x.kt, vt: x.vt, name: o.name}
	case BytesV:
		return BytesV{seqRange(NewSrc(o.name), TZero, x.s.Len())}
	case BufV:
		b := r.symVal(r.extType("bytes", "Buffer"), o.name, nil).(BufV)
		b.back, b.dirty = x.back, true
		return b
	case ArrV:
		if x.elem != nil {
			return ArrV{sym: newSymArr(o.name, x.elem, Fresh("len", 0, 1<<40)), elem: x.elem}
		}
	case ChanC:
		return v
	}
	return r.symVal(o.typ, o.name, nil)
}

// changedInits finds what a path has changed of what was there after the
// initialisation of the packages.
func (r *Run) changedInits(o *State) {
	w := r.w
	if w.inits == nil || w.inits.r == r {
		return
	}
	for k, v := range w.inits.heap {
		if w.volatile[k] {
			continue
		}
		if c, ok := o.heap[k]; ok && !o.sameVal(v, c) {
			if strings.HasPrefix(namedOf(k.typ), "sync.") || strings.HasPrefix(namedOf(k.typ), "sync/atomic.") {
				continue
			}
			if w.changed == nil {
				w.changed = map[*Obj]bool{}
			}
			w.changed[k] = true
		}
	}
}

// findVolatile finds the globals that are assigned outside of initialisation,
// or whose address is used.
func (w *World) findVolatile() {
	w.volatile = map[*Obj]bool{}
	for _, f := range w.modFuncs() {
		if f.Synthetic == "package initializer" || f.Name() == "init" && f.Parent() == nil && f.Signature.Recv() == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
					continue
				}
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || !w.mod[g.Pkg] {
						continue
					}
					t := namedOf(g.Type().(*types.Pointer).Elem())
					if strings.HasPrefix(t, "sync.") || strings.HasPrefix(t, "sync/atomic.") {
						continue
					}
					if !onlyRead(in, g) {
						w.volatile[w.inits.r.globalObj(g)] = true
					}
				}
			}
		}
	}
}

// onlyRead says whether an instruction that uses an address only reads there.
func onlyRead(in ssa.Instruction, addr ssa.Value) bool {
	switch x := in.(type) {
	case *ssa.UnOp:
		return true
	case *ssa.DebugRef:
		return true
	case *ssa.FieldAddr, *ssa.IndexAddr:
		v := x.(ssa.Value)
		for _, ref := range *v.Referrers() {
			if !onlyRead(ref, v) {
				return false
			}
		}
		return true
	}
	return false
}

// withInits starts from the state after package initialisation.
func (r *Run) withInits() *State {
	st := r.newState()
	if r.w.inits != nil {
		for k, v := range r.w.inits.heap {
			if r.w.volatile[k] {
				v = r.anyContent(k, v)
			}
			st.heap[k] = v
		}
		st.f = r.w.inits.f.clone()
	}
	return st
}

// ---------------------------------------------------------------- driving

// call analyses a function from a state and returns all outcomes.
func (r *Run) call(st *State, fn *ssa.Function, args ...Val) []*State {
	if fn == nil {
		st.undecided("function not found")
		return nil
	}
	base := len(st.frames)
	if base != 0 {
		panic("call: state is busy")
	}
	st.status = Running
	return r.run(st.invoke(fn, nil, args, nil, nil))
}

// runGo interprets a goroutine from a state, by itself.
func (r *Run) runGo(st *State, e *Event) []*State {
	s := st.fork()
	s.frames, s.loops, s.locks, s.evs = nil, nil, nil, nil
	s.status = Running
	if e.meth != nil {
		return r.run(s.invokeMethod(e.args[0], e.meth, e.args[1:]))
	}
	return r.run(s.callVal(e.fv, e.args, nil, false))
}

func (r *Run) run(outs []Out) []*State {
	var start []*State
	var done []*State
	for _, o := range outs {
		if o.st.status == Running && len(o.st.frames) == 0 {
			// modelled directly
			o.st.ret = o.val
			o.st.status = Returned
		}
		if o.st.status == Running {
			start = append(start, o.st)
		} else {
			done = append(done, o.st)
		}
	}
	done = append(done, r.explore(start, nil)...)
	for _, o := range done {
		r.changedInits(o)
	}
	return done
}

// explore runs states until they end (or, in a loop, until they reach its head
// or leave it).
func (r *Run) explore(start []*State, ctx *loopCtx) []*State {
	var out []*State
	work := append([]*State(nil), start...)
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		for st.status == Running {
			if r.nSteps > r.limit*100 || r.nForks > r.limit {
				r.note(st.instr(), "too many paths")
				st.status = Dead
				break
			}
			if h := st.atLoop(); h != nil {
				res := r.runLoop(st, h)
				for _, s := range res {
					if s.status == Running {
						work = append(work, s)
					} else if s.status != Dead {
						out = append(out, s)
					}
				}
				st = nil
				break
			}
			more := st.step()
			if ctx != nil && ctx.unroll && ctx.undecided {
				return nil
			}
			for _, s := range more {
				if s.status == Running {
					work = append(work, s)
				} else if s.status != Dead {
					out = append(out, s)
				}
			}
		}
		if st != nil && st.status != Dead && st.status != Running {
			out = append(out, st)
			r.nStates++
		}
	}
	return out
}

// ---------------------------------------------------------------- edges

func (st *State) val(v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return st.constVal(x)
	case *ssa.Global:
		return Ptr{obj: st.r.globalObj(x)}
	case *ssa.Function:
		return FuncV{fn: x}
	case *ssa.Builtin:
		return FuncV{blt: x}
	}
	if r, ok := st.top().env[v]; ok {
		return r
	}
	st.undecided("value %s has no meaning", v.Name())
	return st.r.symVal(v.Type(), v.Name(), nil)
}

func (st *State) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	if isFloat(t) {
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		return floatConst(f)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		return Str{seqConst(constant.StringVal(c.Value))}
	case constant.Int:
		if i, ok := constant.Int64Val(c.Value); ok {
			if i > posInf {
				i = posInf
			}
			if i < negInf {
				i = negInf
			}
			return Const(i)
		}
		return Const(posInf)
	case constant.Float:
		f, _ := constant.Float64Val(c.Value)
		if isFloat(t) {
			return floatConst(f)
		}
		return Const(int64(f))
	}
	st.undecided("constant %v", c)
	return st.r.symVal(t, "const", nil)
}

// jump moves the top frame along an edge.
func (st *State) jump(to *ssa.BasicBlock) {
	fr := st.top()
	from := fr.blk
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	var phis []*ssa.Phi
	var vals []Val
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, st.val(p.Edges[pi]))
	}
	for i, p := range phis {
		fr.env[p] = vals[i]
	}
	fr.blk = to
	fr.idx = len(phis)
	if n := len(st.loops); n > 0 {
		c := st.loops[n-1]
		if c.depth == len(st.frames)-1 {
			if to == c.head {
				st.status = AtHead
			} else if !c.blocks[to] {
				st.status = Left
			}
		}
	}
	if st.status == AtHead {
		return
	}
	// entering a loop from outside?
	if blocks, ok := st.r.loopsOf(fr.fn)[to]; ok && !blocks[from] {
		st.arrived = to
	}
}

// ---------------------------------------------------------------- stepping

func (st *State) next() { st.top().idx++ }

func (st *State) set(v ssa.Value, x Val) { st.top().env[v] = x }

// step executes one instruction; further states are returned.
func (st *State) step() []*State {
	r := st.r
	r.nSteps++
	fr := st.top()
	in := fr.blk.Instrs[fr.idx]
	switch x := in.(type) {
	case *ssa.DebugRef:
		st.next()
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		o := st.alloc(t, x.Comment, zeroVal(t))
		if x.Comment == "" {
			o.name = shortType(t)
		}
		st.set(x, Ptr{obj: o})
		st.next()
	case *ssa.BinOp:
		v := st.binop(x)
		if st.status == Running {
			st.set(x, v)
			st.next()
		}
	case *ssa.UnOp:
		return st.unop(x)
	case *ssa.Convert:
		st.set(x, st.convert(st.val(x.X), x.X.Type(), x.Type()))
		st.next()
	case *ssa.MultiConvert:
		st.set(x, st.convert(st.val(x.X), x.X.Type(), x.Type()))
		st.next()
	case *ssa.ChangeType:
		st.set(x, st.val(x.X))
		st.next()
	case *ssa.ChangeInterface:
		st.set(x, st.val(x.X))
		st.next()
	case *ssa.MakeInterface:
		v := st.val(x.X)
		st.set(x, IfaceV{typ: x.X.Type(), v: v})
		st.next()
	case *ssa.TypeAssert:
		return st.typeAssert(x)
	case *ssa.Extract:
		tv := st.val(x.Tuple)
		if t, ok := tv.(TupleV); ok && x.Index < len(t) {
			st.set(x, t[x.Index])
		} else {
			st.undecided("extract from %s", showVal(tv))
			st.set(x, r.symVal(x.Type(), "extract", nil))
		}
		st.next()
	case *ssa.Field:
		sv := st.val(x.X)
		if s, ok := sv.(StructV); ok && x.Field < len(s) {
			st.set(x, s[x.Field])
		} else {
			st.undecided("field of %s", showVal(sv))
			st.set(x, r.symVal(x.Type(), "field", nil))
		}
		st.next()
	case *ssa.FieldAddr:
		return st.withPtr(st.val(x.X), func(s *State, p Ptr) {
			if p.idx != nil {
				if p = s.element(p); p.idx != nil {
					s.undecided("field of %v", p)
				}
			}
			p.path += fmt.Sprintf(".%d", x.Field)
			p.nilc = nil
			s.set(x, p)
			s.next()
		})
	case *ssa.IndexAddr:
		return st.indexAddr(x)
	case *ssa.Index:
		return st.index(x)
	case *ssa.Slice:
		return st.slice(x)
	case *ssa.SliceToArrayPointer:
		s, ok := st.val(x.X).(SliceV)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !ok || !st.f.Equal(s.off, TZero) || s.base.obj == nil {
			st.undecided("conversion of a slice to an array pointer")
			st.set(x, r.symVal(x.Type(), "arr", nil))
			st.next()
			return nil
		}
		yes, no := st.branch(Le(Const(n), s.len), "")
		var more []*State
		if no != nil {
			no.panics("slice too short for an array of %d", n)
			more = append(more, no)
		}
		if yes != nil {
			yes.set(x, s.base)
			yes.next()
			more = append(more, yes)
		}
		return others(st, more)
	case *ssa.MakeSlice:
		return st.makeSlice(x)
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		o := st.alloc(x.Type(), "map", &MapC{kt: mt.Key(), vt: mt.Elem(), name: "map"})
		st.set(x, MapV{obj: o})
		st.next()
	case *ssa.MakeChan:
		ct := x.Type().Underlying().(*types.Chan)
		n, _ := st.val(x.Size).(*Term)
		o := st.alloc(x.Type(), "chan", ChanC{elem: ct.Elem(), cap: n})
		st.set(x, ChanV{obj: o})
		st.next()
	case *ssa.MakeClosure:
		f := FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.binds = append(f.binds, st.val(b))
		}
		st.set(x, f)
		st.next()
	case *ssa.Lookup:
		return st.lookup(x)
	case *ssa.MapUpdate:
		m, _ := st.val(x.Map).(MapV)
		if m.obj == nil {
			st.panics("assignment to an entry of a nil map")
			return nil
		}
		st.mapSet(m, st.val(x.Key), st.val(x.Value), false)
		st.next()
	case *ssa.Range:
		switch v := st.val(x.X).(type) {
		case MapV:
			st.set(x, IterV{m: v, cell: st.alloc(types.Typ[types.Int], "iter", TZero)})
		case Str:
			s := v
			st.set(x, IterV{str: &s, cell: st.alloc(types.Typ[types.Int], "iter", TZero)})
		}
		st.next()
	case *ssa.Next:
		return st.nextIter(x)
	case *ssa.Store:
		v := st.val(x.Val)
		return st.withPtr(st.val(x.Addr), func(s *State, p Ptr) {
			s.accessed(p, true)
			s.store(p, v)
			s.next()
		})
	case *ssa.Phi:
		st.next() // done on the edge
	case *ssa.Jump:
		st.jump(fr.blk.Succs[0])
	case *ssa.If:
		return st.branchIf(x)
	case *ssa.Return:
		return st.ret1(x)
	case *ssa.Panic:
		st.panics("panic(%s)", showVal(st.val(x.X)))
	case *ssa.RunDefers:
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			return st.finish(st.callVal(d.fn, d.args, d.call, true), nil, true)
		}
		st.next()
	case *ssa.Defer:
		fn, args, ok := st.callee(&x.Call)
		if !ok {
			return nil
		}
		fr.defers = append(fr.defers, deferred{fn, args, &x.Call, x})
		if n := len(st.loops); n > 0 && st.loops[n-1].depth == len(st.frames)-1 && !st.loops[n-1].unroll {
			st.undecided("defer in a loop")
		}
		st.next()
	case *ssa.Go:
		fn, args, ok := st.callee(&x.Call)
		if !ok {
			return nil
		}
		e := st.ev("go")
		e.fv = fn
		e.args = args
		if x.Call.IsInvoke() {
			e.meth = x.Call.Method
			e.name = x.Call.Method.Name()
		}
		if fn.fn != nil {
			e.name = shortFn(fn.fn)
		}
		st.next()
	case *ssa.Call:
		fn, args, ok := st.callee(&x.Call)
		if !ok {
			return nil
		}
		return st.finish(st.callVal(fn, args, &x.Call, false), x, false)
	case *ssa.Send:
		c, _ := st.val(x.Chan).(ChanV)
		v := st.val(x.X)
		st.waits()
		if c.obj == nil {
			st.status = Blocked
			st.ev("block")
			return nil
		}
		st.doSend(c, v, false)
		if st.status == Running {
			st.next()
		}
	case *ssa.Select:
		return st.sel(x)
	default:
		st.undecided("instruction %T", in)
		if v, ok := in.(ssa.Value); ok {
			st.set(v, r.symVal(v.Type(), "v", nil))
		}
		st.next()
	}
	return nil
}

// others is the list without st itself.
func others(st *State, all []*State) []*State {
	var out []*State
	for _, s := range all {
		if s != st {
			out = append(out, s)
		}
	}
	return out
}

// blocking notes an operation that a loop cannot be unrolled over.
func (st *State) blocking() {
	for _, c := range st.loops {
		if c.unroll {
			c.undecided = true
		}
	}
}

// waits notes a channel operation.
func (st *State) waits() {
	for _, c := range st.loops {
		if c.unroll && !c.cond {
			c.undecided = true
		}
	}
}

// withPtr continues where a pointer is not nil, and panics where it is.
func (st *State) withPtr(v Val, k func(*State, Ptr)) []*State {
	p, ok := v.(Ptr)
	if !ok {
		st.undecided("not a pointer: %s", showVal(v))
		st.status = Dead
		return nil
	}
	if p.obj == nil {
		st.panics("nil pointer dereference")
		return nil
	}
	if p.nilc == nil {
		k(st, p)
		return nil
	}
	yes, no := st.branch(p.nilc, "nil pointer")
	var all []*State
	if yes != nil {
		yes.panics("nil pointer dereference")
		all = append(all, yes)
	}
	if no != nil {
		p.nilc = nil
		k(no, p)
		all = append(all, no)
	}
	return others(st, all)
}

// accessed records an access to a field.
func (st *State) accessed(p Ptr, write bool) {
	if !st.r.access || p.obj == nil {
		return
	}
	if p.obj.fresh && p.obj.site != nil && !p.obj.shared {
		return
	}
	e := st.ev("access")
	e.ptr = p
	e.flag = write
	e.obj = p.obj
}

func (st *State) branchIf(x *ssa.If) []*State {
	fr := st.top()
	c, ok := st.val(x.Cond).(*Term)
	if !ok {
		st.undecided("condition %s", showVal(st.val(x.Cond)))
		c = FreshBool("cond")
	}
	if v, ok := st.f.Decide(c); ok {
		if n := len(st.loops); n > 0 {
			l := st.loops[n-1]
			if l.unroll && l.depth == len(st.frames)-1 && l.blocks[fr.blk] &&
				l.blocks[fr.blk.Succs[0]] != l.blocks[fr.blk.Succs[1]] {
				l.counted = true
			}
		}
		if v {
			st.jump(fr.blk.Succs[0])
		} else {
			st.jump(fr.blk.Succs[1])
		}
		return nil
	}
	if all := st.unwrap(c); len(all) > 0 {
		// the instruction is executed again
		return others(st, all)
	}
	// undecided exit of a loop that is being unrolled?
	if n := len(st.loops); n > 0 {
		l := st.loops[n-1]
		if l.unroll && l.depth == len(st.frames)-1 && l.blocks[fr.blk] &&
			l.blocks[fr.blk.Succs[0]] != l.blocks[fr.blk.Succs[1]] && (!l.counted || fr.blk == l.head && !l.flagged(x)) {
			l.undecided = true
		}
	}
	blk := fr.blk
	desc := st.r.condString(x, c)
	yes, no := st.branch(c, desc)
	var all []*State
	if yes != nil {
		yes.jump(blk.Succs[0])
		all = append(all, yes)
	}
	if no != nil {
		no.jump(blk.Succs[1])
		all = append(all, no)
	}
	return others(st, all)
}

// flagged: the head of the loop asks for a flag, and another exit counts.
func (l *loopCtx) flagged(x *ssa.If) bool {
	p, ok := x.Cond.(*ssa.Phi)
	if !ok || p.Block() != l.head {
		return false
	}
	for b := range l.blocks {
		if b == l.head {
			continue
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && l.blocks[b.Succs[0]] != l.blocks[b.Succs[1]] {
			return true
		}
	}
	return false
}

// unwrap splits a state by whether, and in which direction, the operations
// behind a condition have overflown.
func (st *State) unwrap(c *Term) []*State {
	var w, x *Term
	var width uint
	signed := false
	walkTerm(c, func(t *Term) {
		if w != nil || t.k != KApp || len(t.args) != 1 {
			return
		}
		n := 0
		if _, err := fmt.Sscanf(t.name, "wrap%d", &n); err != nil {
			if _, err := fmt.Sscanf(t.name, "swrap%d", &n); err != nil {
				return
			}
			signed = true
		}
		if n < 8 || n > 32 {
			return
		}
		if _, known := st.f.Range(Sub(t, t.args[0])).single(); known {
			return
		}
		w, x, width = t, t.args[0], uint(n)
	})
	if w == nil {
		return nil
	}
	r := st.f.Range(x)
	if r.empty() || r.min() < -1<<40 || r.max() > 1<<40 {
		return nil
	}
	size, low := int64(1)<<width, int64(0)
	if signed {
		low = -size / 2
	}
	first, last := (r.min()-low)>>width, (r.max()-low)>>width
	if last-first > 2 {
		return nil
	}
	var all []*State
	for k := first; k <= last; k++ {
		o := st
		if k < last {
			o = st.fork()
		}
		if o.f.Between(x, low+k*size, low+k*size+size-1) && o.f.Between(Sub(w, x), -k*size, -k*size) {
			all = append(all, o)
		} else {
			o.status = Dead
		}
	}
	return all
}

func (r *Run) condString(x *ssa.If, c *Term) string {
	return fmt.Sprintf("%s: %v", r.posOf(x), c)
}

func (st *State) ret1(x *ssa.Return) []*State {
	var v Val
	switch len(x.Results) {
	case 0:
	case 1:
		v = st.val(x.Results[0])
	default:
		t := make(TupleV, len(x.Results))
		for i, e := range x.Results {
			t[i] = st.val(e)
		}
		v = t
	}
	fr := st.top()
	if len(fr.defers) > 0 {
		st.undecided("deferred calls left on return")
	}
	if fr.then != nil {
		v = fr.then(st, v)
	}
	st.frames = st.frames[:len(st.frames)-1]
	if len(st.frames) == 0 {
		st.status = Returned
		st.ret = v
		return nil
	}
	if fr.isDef {
		return nil // RunDefers goes on
	}
	if fr.call != nil {
		st.set(fr.call, v)
	}
	st.next()
	return nil
}

// finish stores the results of modelled calls.
func (st *State) finish(outs []Out, res ssa.Value, isDef bool) []*State {
	var all []*State
	for _, o := range outs {
		s := o.st
		if s.status != Running {
			all = append(all, s)
			continue
		}
		if o.val != pushed {
			if !isDef {
				if res != nil {
					v := o.val
					if v == nil {
						v = zeroVal(res.Type())
					}
					s.set(res, v)
				}
				s.next()
			}
		} else {
			f := s.top()
			f.call = res
			f.isDef = isDef
		}
		all = append(all, s)
	}
	mine := false
	for _, s := range all {
		if s == st {
			mine = true
		}
	}
	if !mine && st.status == Running {
		st.status = Dead
	}
	return others(st, all)
}

type pushedT struct{}

// pushed as a result: a frame has been pushed.
var pushed Val = pushedT{}

// ---------------------------------------------------------------- arithmetic

func (st *State) binop(x *ssa.BinOp) Val {
	a, b := st.val(x.X), st.val(x.Y)
	switch x.Op {
	case token.EQL, token.NEQ:
		if isFloat(x.X.Type()) {
			p, ok1 := floatOf(asTerm(a))
			q, ok2 := floatOf(asTerm(b))
			if ok1 && ok2 {
				return Bool((p == q) == (x.Op == token.EQL))
			}
			return FreshBool("fcmp")
		}
		c := st.eqTerm(a, b)
		if x.Op == token.NEQ {
			c = Not(c)
		}
		return c
	}
	return st.arith(x.Op, a, b, x.X.Type(), x.Type())
}

func (st *State) arith(op token.Token, a, b Val, xt, rt types.Type) Val {
	if isString(xt) {
		sa, ok1 := a.(Str)
		sb, ok2 := b.(Str)
		if ok1 && ok2 && op == token.ADD {
			return Str{seqCat(sa.s, sb.s)}
		}
		if ok1 && ok2 {
			ca, k1 := sa.s.constString()
			cb, k2 := sb.s.constString()
			if k1 && k2 {
				switch op {
				case token.LSS:
					return Bool(ca < cb)
				case token.LEQ:
					return Bool(ca <= cb)
				case token.GTR:
					return Bool(ca > cb)
				case token.GEQ:
					return Bool(ca >= cb)
				}
			}
		}
		return FreshBool("strcmp")
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		st.undecided("arithmetic on %s and %s", showVal(a), showVal(b))
		return st.r.symVal(rt, "arith", nil)
	}
	if isFloat(xt) {
		fp, ok1 := floatOf(p)
		fq, ok2 := floatOf(q)
		if ok1 && ok2 {
			switch op {
			case token.LSS:
				return Bool(fp < fq)
			case token.LEQ:
				return Bool(fp <= fq)
			case token.GTR:
				return Bool(fp > fq)
			case token.GEQ:
				return Bool(fp >= fq)
			case token.ADD:
				return floatConst(roundTo(fp+fq, rt))
			case token.SUB:
				return floatConst(roundTo(fp-fq, rt))
			case token.MUL:
				return floatConst(roundTo(fp*fq, rt))
			case token.QUO:
				return floatConst(roundTo(fp/fq, rt))
			}
		}
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return FreshBool("fcmp")
		}
		return App("float"+op.String(), negInf, posInf, p, q)
	}
	f := st.f
	switch op {
	case token.LSS:
		return Lt(p, q)
	case token.LEQ:
		return Le(p, q)
	case token.GTR:
		return Lt(q, p)
	case token.GEQ:
		return Le(q, p)
	}
	w, signed, lo, hi, ok := intRange(rt)
	if !ok {
		st.undecided("arithmetic on %s", rt)
		return st.r.symVal(rt, "arith", nil)
	}
	var t *Term
	switch op {
	case token.ADD:
		t = Add(p, q)
	case token.SUB:
		t = Sub(p, q)
	case token.MUL:
		if v, ok := f.Range(p).single(); ok {
			t = Scale(v, q)
		} else if v, ok := f.Range(q).single(); ok {
			t = Scale(v, p)
		} else {
			t = mulTerm(f, p, q)
		}
	case token.QUO, token.REM:
		if v, ok := f.Range(q).single(); ok && v == 0 {
			st.panics("division by zero")
			return nil
		}
		if f.Range(q).has(0) {
			o := st.fork()
			if o.assume(EqT(q, TZero), true) {
				o.panics("division by zero")
				st.r.extra = append(st.r.extra, o)
			}
			st.assume(EqT(q, TZero), false)
		}
		return divTerm(f, op, p, q)
	case token.AND:
		t = f.bitopS("and", p, q, w, signed)
	case token.OR:
		t = f.bitopS("or", p, q, w, signed)
	case token.XOR:
		t = f.bitopS("xor", p, q, w, signed)
	case token.AND_NOT:
		t = f.bitopS("andnot", p, q, w, signed)
	case token.SHL:
		if v, ok := f.Range(q).single(); ok && v >= 0 {
			if v >= int64(w) {
				return TZero
			}
			t = f.shl(p, int(v))
		} else {
			t = App("shlv", negInf, posInf, p, q)
		}
	case token.SHR:
		if v, ok := f.Range(q).single(); ok && v >= 0 {
			if v >= 64 {
				v = 63
			}
			t = f.shr(p, int(v))
		} else {
			t = App("shrv", negInf, posInf, p, q)
		}
	default:
		st.undecided("operator %v", op)
		return Fresh("op", lo, hi)
	}
	return st.wrap(t, w, signed, lo, hi)
}

func mulTerm(f *Facts, p, q *Term) *Term {
	if p.id > q.id {
		p, q = q, p
	}
	rp, rq := f.Range(p), f.Range(q)
	lo, hi := negInf, posInf
	if !rp.empty() && !rq.empty() && rp.min() >= 0 && rq.min() >= 0 {
		lo = satMul(rp.min(), rq.min())
		hi = satMul(rp.max(), rq.max())
	}
	return App("mul", lo, hi, p, q)
}

func divTerm(f *Facts, op token.Token, p, q *Term) *Term {
	rp, rq := f.Range(p), f.Range(q)
	pv, ok1 := rp.single()
	qv, ok2 := rq.single()
	if ok1 && ok2 && qv != 0 {
		if op == token.QUO {
			return Const(pv / qv)
		}
		return Const(pv % qv)
	}
	if ok2 && qv > 0 && qv&(qv-1) == 0 && rp.min() >= 0 {
		n := widthOf(qv) - 1
		if op == token.QUO {
			return f.shr(p, n)
		}
		if n == 0 {
			return TZero
		}
		return f.bitop("and", p, Const(qv-1))
	}
	lo, hi := negInf, posInf
	if rp.min() >= 0 && rq.min() >= 0 {
		lo, hi = 0, rp.max()
		if op == token.REM && rq.max() < posInf && rq.max()-1 < hi {
			hi = rq.max() - 1
		}
		if op == token.QUO && rq.min() > 0 && rp.max() < posInf {
			hi = rp.max() / rq.min()
		}
	}
	if op == token.QUO {
		return App("div", lo, hi, p, q)
	}
	return App("rem", lo, hi, p, q)
}

// bitopS handles complemented operands (x &^ y written as x & ^y).
func (f *Facts) bitopS(op string, p, q *Term, w int, signed bool) *Term {
	if signed {
		return f.bitop(op, p, q)
	}
	fix := func(t *Term) *Term {
		if v, ok := f.Range(t).single(); ok && v < 0 && w < 62 {
			return Const(v & (1<<uint(w) - 1))
		}
		return t
	}
	return f.bitop(op, fix(p), fix(q))
}

// wrap brings a result into the range of its type.
func (st *State) wrap(t *Term, w int, signed bool, lo, hi int64) *Term {
	if w >= 64 && signed {
		return t
	}
	r := st.f.Range(t)
	if r.empty() || r.min() >= lo && r.max() <= hi {
		return t
	}
	if !signed {
		if v, ok := r.single(); ok && v < 0 && w < 62 {
			return Const(v & (1<<uint(w) - 1))
		}
		return st.f.trunc(t, w)
	}
	return App(fmt.Sprintf("swrap%d", w), lo, hi, t)
}

func (st *State) unop(x *ssa.UnOp) []*State {
	switch x.Op {
	case token.MUL:
		return st.withPtr(st.val(x.X), func(s *State, p Ptr) {
			s.accessed(p, false)
			s.set(x, s.load(p, x.Type()))
			s.next()
		})
	case token.NOT:
		t, ok := st.val(x.X).(*Term)
		if !ok {
			t = FreshBool("b")
		}
		st.set(x, Not(t))
	case token.SUB:
		t, ok := st.val(x.X).(*Term)
		if !ok || isFloat(x.Type()) {
			st.set(x, st.r.symVal(x.Type(), "neg", nil))
		} else {
			w, signed, lo, hi, _ := intRange(x.Type())
			st.set(x, st.wrap(Scale(-1, t), w, signed, lo, hi))
		}
	case token.XOR:
		t, ok := st.val(x.X).(*Term)
		w, signed, lo, hi, ok2 := intRange(x.Type())
		if !ok || !ok2 {
			st.set(x, st.r.symVal(x.Type(), "com", nil))
		} else if signed {
			st.set(x, AddC(Scale(-1, t), -1))
		} else if w < 62 {
			st.set(x, st.f.bitop("xor", t, Const(hi)))
		} else {
			st.set(x, App("com", lo, hi, t))
		}
	case token.ARROW:
		return st.recv(x)
	default:
		st.undecided("operator %v", x.Op)
		st.set(x, st.r.symVal(x.Type(), "op", nil))
	}
	st.next()
	return nil
}

func (st *State) convert(v Val, from, to types.Type) Val {
	f := st.f
	fu, tu := from.Underlying(), to.Underlying()
	if w, signed, lo, hi, ok := intRange(to); ok {
		if isFloat(from) {
			t, _ := v.(*Term)
			if t == nil {
				t = Fresh("f", negInf, posInf)
			}
			if v, ok := floatOf(t); ok && v > -1<<50 && v < 1<<50 {
				return st.wrap(Const(int64(v)), w, signed, lo, hi)
			}
			return App("int:"+to.String(), lo, hi, t)
		}
		if t, ok := v.(*Term); ok {
			if _, fsigned, _, _, ok := intRange(from); ok && fsigned && !signed {
				r := f.Range(t)
				if !r.empty() && r.min() < 0 {
					if r.max() < 0 || w >= 62 {
						return App(fmt.Sprintf("wrap%d", w), lo, hi, t)
					}
					if c, ok := r.single(); ok && w < 62 {
						return Const(c & (1<<uint(w) - 1))
					}
				}
			}
			return st.wrap(t, w, signed, lo, hi)
		}
	}
	if isFloat(to) {
		if t, ok := v.(*Term); ok {
			if c, ok := f.Range(t).single(); ok && !isFloat(from) {
				return floatConst(roundTo(float64(c), to))
			}
			if c, ok := floatOf(t); ok {
				return floatConst(roundTo(c, to))
			}
			return App("float:"+to.String(), negInf, posInf, t)
		}
	}
	if isString(to) {
		switch x := v.(type) {
		case Str:
			return x
		case SliceV:
			return Str{st.sliceSeq(x)}
		case *Term:
			if c, ok := f.Range(x).single(); ok {
				return Str{seqConst(string(rune(c)))}
			}
			return st.r.symVal(to, "str", nil)
		}
	}
	if sl, ok := tu.(*types.Slice); ok && isString(from) {
		if isByte(sl.Elem()) {
			return st.bytesSlice("[]byte(string)", v.(Str).s)
		}
	}
	if types.Identical(fu, tu) {
		return v
	}
	if _, ok := tu.(*types.Pointer); ok {
		return v
	}
	if _, ok := fu.(*types.Slice); ok {
		return v
	}
	st.undecided("conversion from %s to %s", from, to)
	return st.r.symVal(to, "conv", nil)
}

// ---------------------------------------------------------------- indexing

// inBounds splits on 0 <= i < n.
func (st *State) inBounds(i, n *Term, what string) (ok *State, bad []*State) {
	yes, no := st.branch(Lt(i, n), "")
	if no != nil {
		no.panics("%s out of range: index %v, length %v", what, i, n)
		bad = append(bad, no)
	}
	if yes == nil {
		return nil, bad
	}
	neg, pos := yes.branch(Lt(i, TZero), "")
	if neg != nil {
		neg.panics("%s out of range: negative index %v", what, i)
		bad = append(bad, neg)
	}
	return pos, bad
}

// eachIndex splits a state by the value of an index into a small table whose
// entries differ: into one state for each different entry, or for each index
// if there are few. The instruction is then executed again.
func (st *State) eachIndex(c Val, i *Term) []*State {
	r := st.f.Range(i)
	if r.empty() || r.min() < 0 || r.max() >= 256 {
		return nil
	}
	if _, ok := r.single(); ok {
		return nil
	}
	n := 0
	equal := func(a, b int64) bool { return false }
	switch x := c.(type) {
	case ArrV:
		if x.sym != nil {
			return nil
		}
		n = len(x.elems)
		equal = func(a, b int64) bool { return st.sameVal(x.elems[a], x.elems[b]) }
	case BytesV:
		var all []*Term
		for _, g := range x.s {
			if !g.explicit() {
				return nil
			}
			for _, b := range g.bytes {
				if !b.isConst() {
					return nil
				}
				all = append(all, b)
			}
		}
		n = len(all)
		equal = func(a, b int64) bool { return all[a] == all[b] }
	}
	if r.max() >= int64(n) {
		return nil
	}
	var groups []IvSet
	var of []int64 // one index of each group
	for _, g := range r {
	next:
		for k := g.lo; k <= g.hi; k++ {
			for j := range groups {
				if equal(of[j], k) {
					groups[j] = groups[j].union(IvSet{{k, k}})
					continue next
				}
			}
			if len(groups) == 64 {
				return nil
			}
			groups, of = append(groups, IvSet{{k, k}}), append(of, k)
		}
	}
	if len(groups) < 2 {
		return nil
	}
	var all []*State
	for j, g := range groups {
		o := st
		if j < len(groups)-1 {
			o = st.fork()
		}
		if o.f.restrict(i, func(s IvSet) IvSet { return s.intersect(g) }) {
			all = append(all, o)
		} else {
			o.status = Dead
		}
	}
	return all
}

func (st *State) indexAddr(x *ssa.IndexAddr) []*State {
	i, _ := st.val(x.Index).(*Term)
	if i == nil {
		i = Fresh("i", negInf, posInf)
	}
	switch b := st.val(x.X).(type) {
	case SliceV:
		ok, all := st.inBounds(i, b.len, "index")
		if ok != nil && b.base.obj != nil {
			if c, good := getPath(ok.content(b.base.obj), splitPath(b.base.path)); good {
				if each := ok.eachIndex(c, Add(b.off, i)); each != nil {
					return others(st, append(all, each...))
				}
			}
		}
		if ok != nil {
			if b.base.obj == nil {
				ok.panics("index of a nil slice")
			} else {
				p := b.base
				p.idx = Add(b.off, i)
				p.nilc = nil
				ok.set(x, ok.element(p))
				ok.next()
			}
			all = append(all, ok)
		}
		return others(st, all)
	case Ptr:
		n := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		ok, all := st.inBounds(i, Const(n), "index")
		if ok != nil && b.obj != nil {
			if b.obj.global != nil {
				st.r.initGlobal(ok, b.obj)
			}
			if c, good := getPath(ok.content(b.obj), splitPath(b.path)); good {
				if each := ok.eachIndex(c, i); each != nil {
					return others(st, append(all, each...))
				}
			}
		}
		if ok != nil {
			if b.obj == nil {
				ok.panics("nil pointer dereference")
			} else {
				if c, isC := ok.f.Range(i).single(); isC && !isByte(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Elem()) {
					b.path += fmt.Sprintf(".%d", c)
				} else {
					b.idx = i
				}
				ok.set(x, b)
				ok.next()
			}
			all = append(all, ok)
		}
		return others(st, all)
	}
	st.undecided("index of %s", showVal(st.val(x.X)))
	st.status = Dead
	return nil
}

// element makes the index of a pointer part of its path, where it is a known one of an array of known elements.
func (st *State) element(p Ptr) Ptr {
	k, ok := st.f.Range(p.idx).single()
	if !ok {
		return p
	}
	c, ok := getPath(st.content(p.obj), splitPath(p.path))
	if !ok {
		return p
	}
	if a, isArr := c.(ArrV); isArr && a.sym == nil && k >= 0 && int(k) < len(a.elems) {
		p.path += fmt.Sprintf(".%d", k)
		p.idx = nil
	}
	return p
}

func (st *State) index(x *ssa.Index) []*State {
	i, _ := st.val(x.Index).(*Term)
	var n *Term
	get := func(s *State) Val { return nil }
	switch b := st.val(x.X).(type) {
	case Str:
		n = b.s.Len()
		get = func(s *State) Val {
			if t, ok := s.f.byteAt(b.s, i); ok {
				return t
			}
			return Fresh("byte", 0, 255)
		}
	case BytesV:
		n = b.s.Len()
		get = func(s *State) Val {
			if t, ok := s.f.byteAt(b.s, i); ok {
				return t
			}
			return Fresh("byte", 0, 255)
		}
	case ArrV:
		n = Const(int64(len(b.elems)))
		get = func(s *State) Val { return s.arrGet(b, i, x.Type()) }
	default:
		st.undecided("index of %s", showVal(st.val(x.X)))
		st.set(x, st.r.symVal(x.Type(), "elem", nil))
		st.next()
		return nil
	}
	ok, all := st.inBounds(i, n, "index")
	if ok != nil {
		if each := ok.eachIndex(st.val(x.X), i); each != nil {
			return others(st, append(all, each...))
		}
		ok.set(x, get(ok))
		ok.next()
		all = append(all, ok)
	}
	return others(st, all)
}

func (st *State) slice(x *ssa.Slice) []*State {
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		t, _ := st.val(v).(*Term)
		return t
	}
	lo, hi, mx := opt(x.Low), opt(x.High), opt(x.Max)
	if lo == nil {
		lo = TZero
	}
	switch b := st.val(x.X).(type) {
	case Str:
		n := b.s.Len()
		if hi == nil {
			hi = n
		}
		ok, all := st.sliceBounds(lo, hi, n, nil)
		if ok != nil {
			q, found := ok.f.sub(b.s, lo, hi)
			if !found {
				q = seqRange(ok.r.namedSrc(fmt.Sprintf("substr:%s[%d:%d]", b.s.key(), lo.id, hi.id)), TZero, Sub(hi, lo))
			}
			ok.set(x, Str{q})
			ok.next()
			all = append(all, ok)
		}
		return others(st, all)
	case SliceV:
		if hi == nil {
			hi = b.len
		}
		capv := b.cap
		ok, all := st.sliceBounds(lo, hi, capv, mx)
		if ok != nil {
			nb := b
			nb.nilc = b.nilc
			nb.off = Add(b.off, lo)
			nb.len = Sub(hi, lo)
			nb.cap = Sub(capv, lo)
			if mx != nil {
				nb.cap = Sub(mx, lo)
			}
			// reslicing beyond what is known of the array
			ok.set(x, nb)
			ok.next()
			all = append(all, ok)
		}
		return others(st, all)
	case Ptr:
		n := Const(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if b.obj == nil {
			st.panics("nil pointer dereference")
			return nil
		}
		if hi == nil {
			hi = n
		}
		ok, all := st.sliceBounds(lo, hi, n, mx)
		if ok != nil {
			c := n
			if mx != nil {
				c = mx
			}
			ok.set(x, SliceV{base: b, off: lo, len: Sub(hi, lo), cap: Sub(c, lo)})
			ok.next()
			all = append(all, ok)
		}
		return others(st, all)
	}
	st.undecided("slice of %s", showVal(st.val(x.X)))
	st.status = Dead
	return nil
}

// sliceBounds splits on 0 <= lo <= hi <= (max <=) cap.
func (st *State) sliceBounds(lo, hi, capv, mx *Term) (*State, []*State) {
	var bad []*State
	cur := st
	conds := []*Term{Le(TZero, lo), Le(lo, hi)}
	if mx != nil {
		conds = append(conds, Le(hi, mx), Le(mx, capv))
	} else {
		conds = append(conds, Le(hi, capv))
	}
	for _, c := range conds {
		yes, no := cur.branch(c, "")
		if no != nil {
			no.panics("slice bounds out of range: [%v:%v] with capacity %v", lo, hi, capv)
			bad = append(bad, no)
		}
		if yes == nil {
			return nil, bad
		}
		cur = yes
	}
	return cur, bad
}

func (st *State) makeSlice(x *ssa.MakeSlice) []*State {
	n, _ := st.val(x.Len).(*Term)
	c, _ := st.val(x.Cap).(*Term)
	if n == nil {
		n = Fresh("n", negInf, posInf)
	}
	if c == nil {
		c = n
	}
	var all []*State
	yes, no := st.branch(Le(TZero, n), "")
	if no != nil {
		no.panics("make with negative length %v", n)
		all = append(all, no)
	}
	if yes != nil {
		good, bad := yes.branch(Le(n, c), "")
		if bad != nil {
			bad.panics("make with length %v above capacity %v", n, c)
			all = append(all, bad)
		}
		if good != nil {
			el := x.Type().Underlying().(*types.Slice).Elem()
			e := good.ev("make")
			e.n = c
			e.name = shortType(x.Type())
			if st.r.onMake != nil {
				st.r.onMake(good, e)
			}
			var content Val
			at := types.NewArray(el, -1)
			if isByte(el) {
				content = BytesV{seqZeros(c)}
			} else if v, ok := good.f.Range(c).single(); ok && v <= 4096 {
				a := ArrV{elem: el}
				for i := int64(0); i < v; i++ {
					a.elems = append(a.elems, zeroVal(el))
				}
				content = a
			} else {
				sa := newSymArr("make", el, c)
				content = ArrV{sym: sa, elem: el}
			}
			o := good.alloc(at, "make", content)
			e.obj = o
			good.set(x, SliceV{base: Ptr{obj: o}, off: TZero, len: n, cap: c})
			good.next()
			all = append(all, good)
		}
	}
	return others(st, all)
}

// ---------------------------------------------------------------- interfaces

// implements reports whether a dynamic type satisfies an asserted type.
func assertHolds(dyn, want types.Type) bool {
	if i, ok := want.Underlying().(*types.Interface); ok {
		return types.Implements(dyn, i)
	}
	return types.Identical(dyn, want)
}

func (st *State) typeAssert(x *ssa.TypeAssert) []*State {
	v, _ := st.val(x.X).(IfaceV)
	give := func(s *State, ok bool, val Val) {
		if x.CommaOk {
			if !ok {
				val = zeroVal(x.AssertedType)
			}
			s.set(x, TupleV{val, Bool(ok)})
			s.next()
			return
		}
		if !ok {
			s.panics("type assertion to %s fails", shortType(x.AssertedType))
			return
		}
		s.set(x, val)
		s.next()
	}
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	conc := func(s *State, v IfaceV) {
		if v.typ != nil {
			ok := assertHolds(v.typ, x.AssertedType)
			val := v.v
			if toIface {
				val = v
			}
			give(s, ok, val)
			return
		}
		if toIface && v.sym.typ != nil {
			if i, ok := v.sym.typ.Underlying().(*types.Interface); ok {
				if types.Implements(i, x.AssertedType.Underlying().(*types.Interface)) || assertHolds(v.sym.typ, x.AssertedType) {
					give(s, true, v)
					return
				}
			}
		}
		panic("conc")
	}
	switch {
	case nilCond(v) == TTrue:
		give(st, false, nil)
		return nil
	case v.typ != nil && v.nilc == nil:
		conc(st, v)
		return nil
	}
	var all []*State
	cur := st
	if v.nilc != nil {
		yes, no := st.branch(v.nilc, "")
		if yes != nil {
			give(yes, false, nil)
			all = append(all, yes)
		}
		if no == nil {
			return others(st, all)
		}
		cur = no
		v.nilc = nil
		if v.typ != nil {
			conc(cur, v)
			return others(st, append(all, cur))
		}
	}
	if toIface && v.sym.typ != nil {
		if _, isI := v.sym.typ.Underlying().(*types.Interface); isI && assertHolds(v.sym.typ, x.AssertedType) {
			give(cur, true, v)
			return others(st, append(all, cur))
		}
	}
	// unknown dynamic type: both, consistently
	key := fmt.Sprintf("assert:%d:%s", v.sym.id, x.AssertedType.String())
	val := func() Val {
		if toIface {
			return v
		}
		mk := fmt.Sprintf("dyn:%d:%s", v.sym.id, x.AssertedType.String())
		d, ok := st.r.mapMemo[mk]
		if !ok {
			d = st.r.symVal(x.AssertedType, v.sym.name+".("+shortType(x.AssertedType)+")", nil)
			st.r.mapMemo[mk] = d
		}
		return d
	}
	if d, ok := cur.memo[key]; ok {
		give(cur, d == 1, val())
		return others(st, append(all, cur))
	}
	o := cur.fork()
	o.memo[key] = 0
	cur.memo[key] = 1
	cur.trail = append(cur.trail, v.sym.name+" is a "+shortType(x.AssertedType))
	o.trail = append(o.trail, v.sym.name+" is no "+shortType(x.AssertedType))
	give(cur, true, val())
	give(o, false, nil)
	return others(st, append(all, cur, o))
}

// ---------------------------------------------------------------- maps

// mapFind looks a key up. found == 1: the entry; 0: known absent.
func (st *State) mapFind(m MapV, k Val, kt, vt types.Type, out func(s *State, v Val, present bool)) []*State {
	if m.obj == nil {
		out(st, nil, false)
		return nil
	}
	var all []*State
	cur := st
	c, ok := cur.mapContent(m)
	if !ok {
		st.undecided("map %s", showVal(m))
		st.status = Dead
		return nil
	}
	ents := append(append([]MapEnt(nil), c.looks...), c.ents...)
	for i := len(ents) - 1; i >= 0; i-- {
		e := ents[i]
		yes, no := cur.branch(cur.eqTerm(e.k, k), "key in "+c.name)
		if yes != nil {
			out(yes, e.v, !e.del)
			all = append(all, yes)
		}
		if no == nil {
			return others(st, all)
		}
		cur = no
	}
	if !c.base {
		out(cur, nil, false)
		return others(st, append(all, cur))
	}
	// in the unknown content: absent or present
	o := cur.fork()
	v := st.r.mapElem(c, k)
	c1 := *c
	c1.looks = append(c.looks[:len(c.looks):len(c.looks)], MapEnt{k: k, v: v})
	cur.heap[m.obj] = &c1
	cur.trail = append(cur.trail, "present in "+c.name)
	c2 := *c
	c2.looks = append(c.looks[:len(c.looks):len(c.looks)], MapEnt{k: k, del: true})
	o.heap[m.obj] = &c2
	o.trail = append(o.trail, "absent in "+c.name)
	out(cur, v, true)
	out(o, nil, false)
	return others(st, append(all, cur, o))
}

// mapElem is the value which the unknown content of a map has for a key.
func (r *Run) mapElem(c *MapC, k Val) Val {
	key := fmt.Sprintf("map%d[%s]", c.id, showKey(k))
	if v, ok := r.mapMemo[key]; ok {
		return v
	}
	v := r.symVal(c.vt, fmt.Sprintf("%s[%s]", c.name, showVal(k)), nil)
	r.mapMemo[key] = v
	return v
}

func showKey(k Val) string {
	if t, ok := k.(*Term); ok {
		return fmt.Sprintf("t%d", t.id)
	}
	return showVal(k)
}

func (st *State) mapContent(m MapV) (*MapC, bool) {
	c, ok := st.content(m.obj).(*MapC)
	return c, ok
}

func (st *State) mapSet(m MapV, k, v Val, del bool) {
	c, ok := st.mapContent(m)
	if !ok {
		st.undecided("map %s", showVal(m))
		return
	}
	n := *c
	n.ents = nil
	for _, e := range c.ents {
		if d, ok := st.f.Decide(st.eqTerm(e.k, k)); ok && d {
			continue
		}
		n.ents = append(n.ents, e)
	}
	if !del || c.base || len(n.ents) > 0 {
		n.ents = append(n.ents, MapEnt{k: k, v: v, del: del})
	}
	st.heap[m.obj] = &n
	e := st.ev("mapset")
	if del {
		e.kind = "mapdel"
	}
	e.obj = m.obj
	e.args = []Val{k, v}
}

func (st *State) lookup(x *ssa.Lookup) []*State {
	if s, ok := st.val(x.X).(Str); ok {
		i, _ := st.val(x.Index).(*Term)
		ok, all := st.inBounds(i, s.s.Len(), "index")
		if ok != nil {
			t, found := ok.f.byteAt(s.s, i)
			if !found {
				t = Fresh("byte", 0, 255)
			}
			ok.set(x, t)
			ok.next()
			all = append(all, ok)
		}
		return others(st, all)
	}
	m, _ := st.val(x.X).(MapV)
	mt := x.X.Type().Underlying().(*types.Map)
	k := st.val(x.Index)
	return st.mapFind(m, k, mt.Key(), mt.Elem(), func(s *State, v Val, present bool) {
		e := s.ev("maplook")
		e.obj = m.obj
		e.args = []Val{k, v}
		e.flag = present
		if !present {
			v = zeroVal(mt.Elem())
		}
		if x.CommaOk {
			s.set(x, TupleV{v, Bool(present)})
		} else {
			s.set(x, v)
		}
		s.next()
	})
}

func (st *State) nextIter(x *ssa.Next) []*State {
	it, _ := st.val(x.Iter).(IterV)
	tt := x.Type().(*types.Tuple)
	kt, vt := tt.At(1).Type(), tt.At(2).Type()
	done := func(s *State) {
		s.set(x, TupleV{TFalse, zeroOr(kt), zeroOr(vt)})
		s.next()
	}
	if it.str != nil {
		st.blocking()
		o := st.fork()
		st.set(x, TupleV{TTrue, Fresh("i", 0, 1<<40), Fresh("rune", 0, 0x10ffff)})
		st.next()
		done(o)
		return []*State{o}
	}
	if it.m.obj == nil {
		done(st)
		return nil
	}
	c, ok := st.mapContent(it.m)
	if !ok {
		st.undecided("range over %s", showVal(it.m))
		st.status = Dead
		return nil
	}
	if !c.base {
		at := asTerm(st.heap[it.cell])
		live := c.ents
		step := func(s *State, n int) {
			s.heap[it.cell] = Const(int64(n + 1))
			e := live[n]
			s.set(x, TupleV{TTrue, e.k, e.v})
			s.next()
		}
		if n, ok := st.f.Range(at).single(); ok {
			if int(n) >= len(live) {
				done(st)
			} else {
				step(st, int(n))
			}
			return nil
		}
		// somewhere in the map
		st.blocking()
		var all []*State
		first := st
		for i := range live {
			y, no := st.branch(EqT(at, Const(int64(i))), "")
			if y != nil {
				step(y, i)
				all = append(all, y)
			}
			if no == nil {
				return others(first, all)
			}
			st = no
		}
		done(st)
		return others(first, append(all, st))
	}
	// unknown content: one more element, or the end
	st.blocking()
	var all []*State
	o := st.fork()
	e := o.ev("mapend")
	e.obj = it.m.obj
	done(o)
	all = append(all, o)
	mk := func(s *State, k, v Val) {
		e := s.ev("mapiter")
		e.obj = it.m.obj
		e.args = []Val{k, v}
		s.set(x, TupleV{TTrue, k, v})
		s.next()
	}
	for _, en := range c.ents {
		if !en.del {
			s := st.fork()
			mk(s, en.k, en.v)
			all = append(all, s)
		}
	}
	k := st.r.symVal(kt2(c), "key", nil)
	v := st.r.mapElem(c, k)
	c1 := *c
	c1.looks = append(c.looks[:len(c.looks):len(c.looks)], MapEnt{k: k, v: v})
	st.heap[it.m.obj] = &c1
	// the element is none of those added or removed meanwhile
	for _, en := range c.ents {
		if !st.assume(st.eqTerm(en.k, k), false) {
			return all
		}
	}
	mk(st, k, v)
	return all
}

func kt2(c *MapC) types.Type { return c.kt }

func zeroOr(t types.Type) Val {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return TZero
	}
	return zeroVal(t)
}

// ---------------------------------------------------------------- channels

func (st *State) chanC(c ChanV) ChanC {
	v, _ := st.content(c.obj).(ChanC)
	return v
}

func (st *State) doSend(c ChanV, v Val, inSelect bool) {
	e := st.ev("send")
	e.ch = c.obj
	e.val = v
	e.flag = inSelect
	if st.r.freeze {
		for _, o := range reachObjs(st, v) {
			o.shared = true
		}
		if p, ok := v.(Ptr); ok && p.obj != nil && namedOf(p.obj.typ) == modPath+"/chunk.Chunk" {
			st.sent = append(st.sent, p.obj)
			if s, ok := st.heap[p.obj].(StructV); ok {
				for _, f := range s {
					switch x := f.(type) {
					case Ptr:
						if x.obj != nil {
							st.sent = append(st.sent, x.obj)
						}
					case SliceV:
						if x.base.obj != nil {
							st.sent = append(st.sent, x.base.obj)
						}
					}
				}
			}
		}
	}
	if st.chanC(c).closed {
		st.panics("send on a closed channel")
	}
}

// doRecv continues st with a received value; where the channel may have been
// closed, a second state is returned for that.
func (st *State) doRecv(c ChanV, elem types.Type, inSelect bool, k func(s *State, v Val, ok bool)) []*State {
	cc := st.chanC(c)
	closed := func(s *State) {
		e := s.ev("recv-end")
		e.ch = c.obj
		e.flag = inSelect
		k(s, zeroVal(elem), false)
	}
	if cc.closed {
		closed(st)
		return nil
	}
	var more []*State
	if st.r.canEnd != nil && st.r.canEnd(st, c.obj) {
		o := st.fork()
		o.trail = append(o.trail, "channel "+c.obj.name+" closed")
		closed(o)
		more = append(more, o)
	}
	v := st.r.symVal(elem, "received", nil)
	e := st.ev("recv")
	e.ch = c.obj
	e.val = v
	e.flag = inSelect
	k(st, v, true)
	return more
}

func (st *State) recv(x *ssa.UnOp) []*State {
	c, _ := st.val(x.X).(ChanV)
	st.waits()
	if c.obj == nil {
		st.status = Blocked
		st.ev("block")
		return nil
	}
	elem := x.X.Type().Underlying().(*types.Chan).Elem()
	return st.doRecv(c, elem, false, func(s *State, v Val, ok bool) {
		if x.CommaOk {
			s.set(x, TupleV{v, Bool(ok)})
		} else {
			s.set(x, v)
		}
		s.next()
	})
}

func (st *State) sel(x *ssa.Select) []*State {
	st.waits()
	type cs struct {
		ch   ChanV
		send bool
		val  Val
		elem types.Type
		ri   int
	}
	var cases []cs
	var desc []SelCase
	ri := 0
	for _, s := range x.States {
		c, _ := st.val(s.Chan).(ChanV)
		k := cs{ch: c, send: s.Dir == types.SendOnly, elem: s.Chan.Type().Underlying().(*types.Chan).Elem(), ri: -1}
		if k.send {
			k.val = st.val(s.Send)
		} else {
			k.ri = ri
			ri++
		}
		cases = append(cases, k)
		desc = append(desc, SelCase{ch: c.obj, send: k.send})
	}
	tt := x.Type().(*types.Tuple)
	result := func(s *State, idx int, ok bool, r int, v Val) {
		tv := make(TupleV, tt.Len())
		tv[0] = Const(int64(idx))
		tv[1] = Bool(ok)
		for i := 2; i < tt.Len(); i++ {
			tv[i] = zeroVal(tt.At(i).Type())
			if i-2 == r {
				tv[i] = v
			}
		}
		s.set(x, tv)
		s.next()
	}
	var all []*State
	n := 0
	for i, c := range cases {
		if nilCond(c.ch) == TTrue {
			continue
		}
		n++
		i, c := i, c
		s := st.fork()
		e := s.ev("select")
		e.cases = desc
		e.n = Const(int64(i))
		e.flag = x.Blocking
		if c.ch.nilc != nil && !s.assume(c.ch.nilc, false) {
			continue
		}
		if c.send {
			s.doSend(c.ch, c.val, true)
			if s.status == Running {
				result(s, i, false, -1, nil)
			}
			all = append(all, s)
			continue
		}
		more := s.doRecv(c.ch, c.elem, true, func(s2 *State, v Val, ok bool) {
			result(s2, i, ok, c.ri, v)
		})
		all = append(all, s)
		all = append(all, more...)
	}
	if !x.Blocking {
		e := st.ev("select")
		e.cases = desc
		e.n = Const(-1)
		result(st, -1, false, -1, nil)
		return all
	}
	if n == 0 {
		st.status = Blocked
		st.ev("block")
		return nil
	}
	st.status = Dead
	return all
}

// ---------------------------------------------------------------- calls

// callee evaluates the function and arguments of a call.
func (st *State) callee(c *ssa.CallCommon) (FuncV, []Val, bool) {
	var args []Val
	if c.IsInvoke() {
		args = append(args, st.val(c.Value))
		for _, a := range c.Args {
			args = append(args, st.val(a))
		}
		return FuncV{}, args, true
	}
	for _, a := range c.Args {
		args = append(args, st.val(a))
	}
	f, ok := st.val(c.Value).(FuncV)
	if !ok {
		st.undecided("call of %s", showVal(st.val(c.Value)))
		return FuncV{}, nil, false
	}
	return f, args, true
}

func (st *State) callVal(f FuncV, args []Val, c *ssa.CallCommon, isDef bool) []Out {
	if c != nil && c.IsInvoke() {
		return st.invokeMethod(args[0], c.Method, args[1:])
	}
	if f.nilc != nil {
		g := f
		g.nilc = nil
		yes, no := st.branch(f.nilc, "")
		var outs []Out
		if yes != nil {
			yes.panics("call of a nil function")
			outs = append(outs, Out{yes, nil})
		}
		if no != nil {
			outs = append(outs, no.callVal(g, args, c, isDef)...)
		}
		return outs
	}
	switch {
	case f.bound != nil:
		return f.bound(st, args)
	case f.blt != nil:
		return st.builtin(f.blt.Name(), args, c)
	case f.fn != nil:
		return st.invoke(f.fn, f.binds, args, c, nil)
	case f.sym != nil:
		return st.symInvoke(f.sym, "", f.sym.typ.Underlying().(*types.Signature), args)
	}
	st.panics("call of a nil function")
	return []Out{{st, nil}}
}

func (st *State) invokeMethod(recv Val, m *types.Func, args []Val) []Out {
	v, ok := recv.(IfaceV)
	if !ok {
		st.undecided("method %s of %s", m.Name(), showVal(recv))
		return nil
	}
	var outs []Out
	cur := st
	switch n := nilCond(v); n {
	case TFalse:
	case TTrue:
		st.panics("method %s of a nil interface", m.Name())
		return []Out{{st, nil}}
	default:
		yes, no := st.branch(n, "")
		if yes != nil {
			yes.panics("method %s of a nil interface", m.Name())
			outs = append(outs, Out{yes, nil})
		}
		if no == nil {
			return outs
		}
		cur = no
		v.nilc = nil
	}
	if tv, ok := v.v.(TypeV); ok && v.typ != nil {
		return append(outs, cur.reflectType(tv, m.Name(), args)...)
	}
	if v.typ != nil {
		fn := st.r.w.prog.LookupMethod(v.typ, m.Pkg(), m.Name())
		if fn == nil {
			cur.undecided("no method %s of %s", m.Name(), v.typ)
			return outs
		}
		return append(outs, cur.invoke(fn, nil, append([]Val{v.v}, args...), nil, nil)...)
	}
	return append(outs, cur.symInvoke(v.sym, m.Name(), m.Type().(*types.Signature), args)...)
}

// invoke calls a known function: modelled, analysed in place, or unknown.
func (st *State) invoke(fn *ssa.Function, binds, args []Val, c *ssa.CallCommon, then func(*State, Val) Val) []Out {
	r := st.r
	if r.intercept != nil {
		if outs, ok := r.intercept(st, fn, args); ok {
			return outs
		}
	}
	name := fnName(fn)
	if m, ok := models[name]; ok {
		return m(st, fn, args)
	}
	if fn.Blocks != nil && r.inline(fn) {
		depth := 0
		for _, f := range st.frames {
			if f.fn == fn {
				depth++
			}
		}
		if depth > 8 || len(st.frames) > 60 {
			st.undecided("recursion too deep in %s", shortFn(fn))
			st.status = Dead
			return []Out{{st, nil}}
		}
		if fn.Recover != nil {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					_ = in
				}
			}
		}
		r.fns[fn] = true
		fr := &Frame{fn: fn, env: make(map[ssa.Value]Val, 16), blk: fn.Blocks[0], then: then}
		for i, p := range fn.Params {
			if i < len(args) {
				fr.env[p] = args[i]
			}
		}
		for i, p := range fn.FreeVars {
			if i < len(binds) {
				fr.env[p] = binds[i]
			}
		}
		st.frames = append(st.frames, fr)
		return []Out{{st, pushed}}
	}
	return st.unknownCall(fn, args)
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

var inlinePkgs = map[string]bool{
	"encoding/binary": true, "slices": true, "maps": true, "cmp": true, "math/bits": true, "iter": true,
}

func (r *Run) inline(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil {
		if o := fn.Origin(); o != nil {
			p = o.Pkg
		}
	}
	if p == nil {
		// wrappers, thunks and bound methods
		if fn.Synthetic != "" {
			return true
		}
		if fn.Parent() != nil {
			return r.inline(fn.Parent())
		}
		return false
	}
	return r.w.mod[p] || inlinePkgs[p.Pkg.Path()]
}

// unknownCall is a call of a function that is neither modelled nor analysed.
func (st *State) unknownCall(fn *ssa.Function, args []Val) []Out {
	st.undecided("call of %s is not modelled", shortFn(fn))
	e := st.ev("unknown")
	e.name = shortFn(fn)
	e.args = args
	sig := fn.Signature
	return st.symResults(sig, shortFn(fn))
}

// symResults makes up results: where the last one is an error, both outcomes.
func (st *State) symResults(sig *types.Signature, name string) []Out {
	n := sig.Results().Len()
	if n == 0 {
		return []Out{{st, nil}}
	}
	mk := func(err Val, fail bool) Val {
		t := make(TupleV, n)
		for i := 0; i < n; i++ {
			rt := sig.Results().At(i).Type()
			if i == n-1 && err != nil {
				t[i] = err
				continue
			}
			if fail {
				t[i] = zeroVal(rt)
			} else {
				t[i] = st.r.symVal(rt, name, nil)
			}
		}
		if n == 1 {
			return t[0]
		}
		return t
	}
	last := sig.Results().At(n - 1).Type()
	if last.String() != "error" {
		return []Out{{st, mk(nil, false)}}
	}
	o := st.fork()
	st.trail = append(st.trail, name+" succeeds")
	o.trail = append(o.trail, name+" fails")
	er := st.r.symErr("error of " + name)
	e := o.ev("fail")
	e.name = name
	e.val = er
	return []Out{{st, mk(errNil, false)}, {o, mk(er, true)}}
}

// symInvoke calls a method of an unknown implementation.
func (st *State) symInvoke(s *SymObj, method string, sig *types.Signature, args []Val) []Out {
	if st.r.symCall != nil {
		if outs, ok := st.r.symCall(st, s, method, sig, args); ok {
			return outs
		}
	}
	if outs, ok := st.ioCall(s, method, sig, args); ok {
		return outs
	}
	if s.role == "error" && method == "Error" {
		return []Out{{st, st.r.symVal(types.Typ[types.String], "message", nil)}}
	}
	e := st.ev("call")
	e.name = s.name + "." + method
	e.args = args
	e.data = s
	name := s.name + "." + method
	for i, a := range args {
		if i >= sig.Params().Len() {
			break
		}
		it, ok := sig.Params().At(i).Type().Underlying().(*types.Interface)
		iv, isI := a.(IfaceV)
		if !ok || !isI || iv.typ == nil {
			continue
		}
		// it reads from and writes to what it is given
		for m := 0; m < it.NumMethods(); m++ {
			switch it.Method(m).Name() {
			case "Read":
				st.consume(iv)
			case "Write":
				if p, isP := iv.v.(Ptr); isP && p.obj != nil {
					if c, _ := getPath(st.content(p.obj), splitPath(p.path)); c != nil {
						if _, isB := c.(BufV); isB {
							e.seq = seqRange(NewSrc("output of "+name), TZero, Fresh("n", 0, 1<<24))
							st.writePtr(p, iv, e.seq, nil)
						}
					}
				}
			}
		}
	}
	outs := st.symResults(sig, name)
	for _, o := range outs {
		if l := o.st.evs[len(o.st.evs)-1]; l.kind == "fail" && l.name == name {
			l.data = s
		}
		if o.val != nil {
			c := *e
			c.val = o.val
			evs := append([]*Event(nil), o.st.evs...)
			for i := range evs {
				if evs[i] == e {
					evs[i] = &c
				}
			}
			o.st.evs = evs
		}
	}
	return outs
}

// sortedNotes lists what could not be decided.
func (r *Run) sortedNotes() []string {
	var out []string
	for n := range r.notes {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}
