package main

// The abstract state: one disjunct of the analysis at one program point.

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Status uint8

const (
	Running Status = iota
	Returned
	Panicked
	Blocked // waits for ever
	AtHead  // reached the head of the innermost loop again
	Left    // left the innermost loop
	Dead
)

func (s Status) String() string {
	return [...]string{"running", "returned", "panicked", "blocked", "at-head", "left", "dead"}[s]
}

type deferred struct {
	fn   FuncV
	args []Val
	call *ssa.CallCommon
	pos  ssa.Instruction
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	blk    *ssa.BasicBlock
	idx    int
	call   ssa.Value // the caller's value that receives the result; nil: none
	isDef  bool      // a deferred call: resume RunDefers
	defers []deferred
	then   func(st *State, ret Val) Val // maps the result
}

type lockHeld struct {
	key  string
	read bool
	pos  ssa.Instruction
	ptr  Ptr
}

type loopCtx struct {
	cond      bool // its head decides whether it goes on
	depth     int
	head      *ssa.BasicBlock
	blocks    map[*ssa.BasicBlock]bool
	unroll    bool
	undecided bool
	counted   bool // one of its exits is decided in each iteration
}

type State struct {
	r      *Run
	frames []*Frame
	heap   map[*Obj]Val
	f      *Facts
	evs    []*Event
	locks  []lockHeld
	status Status
	ret    Val
	why    string
	at     ssa.Instruction
	trail  []string
	memo   map[string]int
	loops  []*loopCtx
	// arrived is set when the state has just entered a loop head
	arrived *ssa.BasicBlock
	// sent is what messages that have been sent consist of
	sent []*Obj
}

// Out is one outcome of a modelled operation.
type Out struct {
	st  *State
	val Val
}

func (st *State) fork() *State {
	n := *st
	n.frames = make([]*Frame, len(st.frames))
	for i, fr := range st.frames {
		c := *fr
		c.env = make(map[ssa.Value]Val, len(fr.env)+4)
		for k, v := range fr.env {
			c.env[k] = v
		}
		c.defers = append([]deferred(nil), fr.defers...)
		n.frames[i] = &c
	}
	n.heap = make(map[*Obj]Val, len(st.heap)+4)
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.f = st.f.clone()
	n.evs = st.evs[:len(st.evs):len(st.evs)]
	n.locks = st.locks[:len(st.locks):len(st.locks)]
	n.sent = st.sent[:len(st.sent):len(st.sent)]
	n.trail = st.trail[:len(st.trail):len(st.trail)]
	n.memo = make(map[string]int, len(st.memo))
	for k, v := range st.memo {
		n.memo[k] = v
	}
	n.loops = st.loops[:len(st.loops):len(st.loops)]
	st.r.nForks++
	return &n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) instr() ssa.Instruction {
	if len(st.frames) == 0 {
		return nil
	}
	fr := st.top()
	if fr.idx < len(fr.blk.Instrs) {
		return fr.blk.Instrs[fr.idx]
	}
	return nil
}

func (st *State) ev(kind string) *Event {
	e := &Event{kind: kind, pos: st.instr()}
	if len(st.frames) > 0 {
		e.fn = st.top().fn
	}
	for _, l := range st.locks {
		e.locks = append(e.locks, l.key)
	}
	e.held = st.locks[:len(st.locks):len(st.locks)]
	e.sent = st.sent
	st.evs = append(st.evs, e)
	return e
}

func (st *State) panics(format string, args ...interface{}) {
	st.status = Panicked
	st.why = fmt.Sprintf(format, args...)
	st.at = st.instr()
	e := st.ev("panic")
	e.name = st.why
}

// undecided records that the analysis could not follow the code.
func (st *State) undecided(format string, args ...interface{}) {
	st.r.note(st.instr(), format, args...)
}

// assume adds a condition to this state's path; false if impossible.
func (st *State) assume(b *Term, truth bool) bool {
	if st.f.Assume(b, truth) {
		return true
	}
	st.status = Dead
	return false
}

// branch returns the states in which b holds and does not hold; nil if
// impossible. st itself is one of them.
func (st *State) branch(b *Term, what string) (yes, no *State) {
	if v, ok := st.f.Decide(b); ok {
		if v {
			return st, nil
		}
		return nil, st
	}
	o := st.fork()
	if !st.f.Assume(b, true) {
		st.status = Dead
	} else {
		yes = st
		if what != "" {
			yes.trail = append(yes.trail, what)
		}
	}
	if !o.f.Assume(b, false) {
		o.status = Dead
	} else {
		no = o
		if what != "" {
			no.trail = append(no.trail, "not "+what)
		}
	}
	return yes, no
}

// ---------------------------------------------------------------- heap

// content returns the content of an object, making it up for unknown ones.
func (st *State) content(o *Obj) Val {
	if v, ok := st.heap[o]; ok {
		return v
	}
	if o.init == nil {
		if o.sym {
			o.init = st.r.symVal(o.typ, o.name, o)
		} else {
			o.init = zeroVal(o.typ)
		}
	}
	st.heap[o] = o.init
	if o.sym && st.r.onSym != nil {
		st.r.onSym(st, o, o.init)
	}
	return st.heap[o]
}

func splitPath(p string) []int {
	var out []int
	for _, s := range strings.Split(p, ".")[1:] {
		n := 0
		fmt.Sscan(s, &n)
		out = append(out, n)
	}
	return out
}

func getPath(v Val, steps []int) (Val, bool) {
	for _, i := range steps {
		switch x := v.(type) {
		case StructV:
			if i >= len(x) {
				return nil, false
			}
			v = x[i]
		case ArrV:
			if x.sym != nil || i >= len(x.elems) {
				return nil, false
			}
			v = x.elems[i]
		default:
			return nil, false
		}
	}
	return v, true
}

func setPath(v Val, steps []int, nv Val) (Val, bool) {
	if len(steps) == 0 {
		return nv, true
	}
	i := steps[0]
	switch x := v.(type) {
	case StructV:
		if i >= len(x) {
			return nil, false
		}
		c := append(StructV(nil), x...)
		e, ok := setPath(x[i], steps[1:], nv)
		c[i] = e
		return c, ok
	case ArrV:
		if x.sym != nil || i >= len(x.elems) {
			return nil, false
		}
		c := x
		c.elems = append([]Val(nil), x.elems...)
		e, ok := setPath(x.elems[i], steps[1:], nv)
		c.elems[i] = e
		return c, ok
	}
	return nil, false
}

// load reads through a pointer known not to be nil.
func (st *State) load(p Ptr, t types.Type) Val {
	if p.obj.global != nil {
		st.r.initGlobal(st, p.obj)
	}
	c, ok := getPath(st.content(p.obj), splitPath(p.path))
	if !ok {
		st.undecided("load from %v", p)
		return st.r.symVal(t, "load", nil)
	}
	if p.idx == nil {
		return c
	}
	switch x := c.(type) {
	case BytesV:
		if b, ok := st.f.byteAt(x.s, p.idx); ok {
			return b
		}
		if v := st.scanByte(x.s, p.idx); v != nil {
			return v
		}
		return Fresh("byte", 0, 255)
	case ArrV:
		return st.arrGet(x, p.idx, t)
	}
	st.undecided("indexed load from %v", p)
	return st.r.symVal(t, "load", nil)
}

func (st *State) scanByte(s Seq, i *Term) *Term { return nil }

func (st *State) arrGet(x ArrV, i *Term, t types.Type) Val {
	if x.sym != nil {
		for a := x.sym; a.parent != nil; a = a.parent {
			for j, e := range a.tail {
				if st.f.Equal(i, AddC(a.parent.n, int64(j))) {
					return e
				}
			}
		}
		if in, ok := st.f.Decide(Lt(i, x.sym.n)); ok && in {
			return st.r.symElem(x.sym, i)
		}
		for j, e := range x.elems {
			if st.f.Equal(i, AddC(x.sym.n, int64(j))) {
				return e
			}
		}
	} else if v, ok := st.f.Range(i).single(); ok && v >= 0 && int(v) < len(x.elems) {
		return x.elems[v]
	} else if len(x.elems) > 0 {
		// all of those that it may be are the same?
		var one Val
		same := true
		for _, g := range st.f.Range(i) {
			for v := max(g.lo, 0); v <= g.hi && v < int64(len(x.elems)) && same; v++ {
				if one == nil {
					one = x.elems[v]
				}
				same = st.sameVal(one, x.elems[v])
			}
		}
		if same && one != nil {
			return one
		}
	}
	if _, _, lo, hi, ok := intRange(t); ok {
		return Fresh("elem", lo, hi)
	}
	if _, ok := t.Underlying().(*types.Signature); ok {
		return st.r.symVal(t, "elem", nil)
	}
	st.undecided("element %v of an array cannot be told", i)
	return st.r.symVal(t, "elem", nil)
}

func (st *State) store(p Ptr, v Val) {
	if p.obj.global != nil {
		st.r.initGlobal(st, p.obj)
	}
	steps := splitPath(p.path)
	old := st.content(p.obj)
	if p.idx != nil {
		c, ok := getPath(old, steps)
		if !ok {
			st.undecided("store to %v", p)
			return
		}
		switch x := c.(type) {
		case BytesV:
			b, _ := v.(*Term)
			e := st.ev("bytewrite")
			e.obj = p.obj
			e.name = "store"
			e.n = p.idx
			a, rest, ok := st.f.split(x.s, p.idx)
			if ok {
				_, tail, ok2 := st.f.split(rest, TOne)
				if ok2 {
					v = BytesV{seqCat(a, seqBytes(b), tail)}
				} else {
					ok = false
				}
			}
			if !ok {
				// somewhere inside: content unknown
				v = BytesV{seqRange(NewSrc("overwritten"), TZero, x.s.Len())}
			}
		case ArrV:
			c := x
			c.elems = append([]Val(nil), x.elems...)
			done := false
			if x.sym == nil {
				if k, ok := st.f.Range(p.idx).single(); ok && int(k) < len(c.elems) {
					c.elems[k] = v
					done = true
				}
			} else {
				for j := range c.elems {
					if st.f.Equal(p.idx, AddC(x.sym.n, int64(j))) {
						c.elems[j] = v
						done = true
					}
				}
			}
			if _, isFunc := c.elem.Underlying().(*types.Signature); !done && isFunc && x.sym == nil {
				// any of those that it may be
				for k := range c.elems {
					if st.f.Range(p.idx).has(int64(k)) {
						if top, nilable := isTop(c.elems[k]); top && (nilable || !canNil(v)) {
							continue
						}
						f, _ := st.r.symVal(c.elem, "elem", nil).(FuncV)
						f.sym.data = "top"
						if canNil(c.elems[k]) || canNil(v) {
							f.nilc = FreshBool("nil")
						}
						c.elems[k] = f
					}
				}
				done = true
			}
			if !done && x.sym != nil && len(x.elems) == 0 {
				// somewhere in a list of unknown elements
				sa := newSymArr("stored", x.elem, x.sym.n)
				sa.top = true
				c, done = ArrV{sym: sa, elem: x.elem}, true
			}
			if !done {
				st.undecided("store to element %v of an array", p.idx)
				return
			}
			v = c
		default:
			st.undecided("store to %v", p)
			return
		}
	}
	nv, ok := setPath(old, steps, v)
	if !ok {
		st.undecided("store to %v", p)
		return
	}
	st.heap[p.obj] = nv
}

// alloc makes a new object with the given content.
func (st *State) alloc(t types.Type, name string, c Val) *Obj {
	o := newObj(t, name)
	o.fresh = true
	o.site = st.instr()
	st.heap[o] = c
	return o
}

// bytesSlice makes a fresh slice holding s.
func (st *State) bytesSlice(name string, s Seq) SliceV {
	n := s.Len()
	o := st.alloc(types.NewArray(types.Typ[types.Uint8], -1), name, BytesV{s})
	return SliceV{base: Ptr{obj: o}, off: TZero, len: n, cap: n}
}

// sliceSeq returns the bytes of a byte slice.
func (st *State) sliceSeq(s SliceV) Seq {
	if s.base.obj == nil {
		return nil
	}
	if v, ok := st.f.Range(s.len).single(); ok && v == 0 {
		return nil
	}
	if s.base.obj.global != nil {
		st.r.initGlobal(st, s.base.obj)
	}
	c, ok := getPath(st.content(s.base.obj), splitPath(s.base.path))
	if ok {
		if b, ok := c.(BytesV); ok {
			if q, ok := st.f.sub(b.s, s.off, Add(s.off, s.len)); ok {
				return q
			}
			// content cannot be located: an unknown of that length,
			// the same one for the same question
			key := fmt.Sprintf("part:%s[%d:%d]", b.s.key(), s.off.id, s.len.id)
			return seqRange(st.r.namedSrc(key), TZero, s.len)
		}
	}
	st.undecided("bytes of %s", showVal(s))
	return seqRange(NewSrc("bytes"), TZero, s.len)
}

// setSlice overwrites the bytes of a byte slice from offset at.
func (st *State) setSlice(s SliceV, at *Term, q Seq) {
	n := q.Len()
	if v, ok := st.f.Range(n).single(); ok && v == 0 {
		return
	}
	if s.base.obj == nil {
		return
	}
	steps := splitPath(s.base.path)
	old := st.content(s.base.obj)
	c, ok := getPath(old, steps)
	b, ok2 := c.(BytesV)
	if !ok || !ok2 {
		st.undecided("write to %s", showVal(s))
		return
	}
	p := Add(s.off, at)
	var nv Val
	if a, rest, ok := st.f.split(b.s, p); ok {
		if _, tail, ok := st.f.split(rest, n); ok {
			nv = BytesV{seqCat(a, q, tail)}
		}
	}
	if nv == nil {
		nv = BytesV{seqRange(NewSrc("overwritten"), TZero, b.s.Len())}
	}
	e := st.ev("bytewrite")
	e.obj = s.base.obj
	e.name = "store"
	e.n = p
	x, ok := setPath(old, steps, nv)
	if !ok {
		st.undecided("write to %s", showVal(s))
		return
	}
	st.heap[s.base.obj] = x
}

// ---------------------------------------------------------------- comparison

func (st *State) sameVal(a, b Val) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case *Term:
		y, ok := b.(*Term)
		return ok && st.f.Equal(x, y)
	case Str:
		y, ok := b.(Str)
		return ok && st.f.SeqEqual(x.s, y.s)
	case Ptr:
		y, ok := b.(Ptr)
		if !ok || x.obj != y.obj || x.path != y.path || x.nilc != y.nilc {
			return false
		}
		if (x.idx == nil) != (y.idx == nil) {
			return false
		}
		return x.idx == nil || st.f.Equal(x.idx, y.idx)
	case SliceV:
		y, ok := b.(SliceV)
		if !ok || x.nilc != y.nilc {
			return false
		}
		if x.base.obj == nil && y.base.obj == nil {
			return true
		}
		return st.sameVal(x.base, y.base) && st.f.Equal(x.off, y.off) && st.f.Equal(x.len, y.len) && st.f.Equal(x.cap, y.cap)
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok || x.sym != y.sym || x.nilc != y.nilc {
			return false
		}
		if (x.typ == nil) != (y.typ == nil) {
			return false
		}
		return x.typ == nil || types.Identical(x.typ, y.typ) && st.sameVal(x.v, y.v)
	case StructV:
		y, ok := b.(StructV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !st.sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case TupleV:
		y, ok := b.(TupleV)
		return ok && st.sameVal(StructV(x), StructV(y))
	case BytesV:
		y, ok := b.(BytesV)
		return ok && st.f.SeqEqual(x.s, y.s)
	case ArrV:
		y, ok := b.(ArrV)
		return ok && x.sym == y.sym && st.sameVal(StructV(x.elems), StructV(y.elems))
	case FuncV:
		y, ok := b.(FuncV)
		if !ok || x.fn != y.fn || x.sym != y.sym || x.blt != y.blt || x.nilc != y.nilc || len(x.binds) != len(y.binds) {
			return false
		}
		return st.sameVal(StructV(x.binds), StructV(y.binds))
	case MapV:
		y, ok := b.(MapV)
		return ok && x.obj == y.obj && x.nilc == y.nilc
	case ChanV:
		y, ok := b.(ChanV)
		return ok && x.obj == y.obj && x.nilc == y.nilc
	case BufV:
		y, ok := b.(BufV)
		return ok && st.f.SeqEqual(x.s, y.s)
	case RdV:
		y, ok := b.(RdV)
		return ok && st.f.SeqEqual(x.s, y.s)
	case InV:
		y, ok := b.(InV)
		return ok && st.f.SeqEqual(x.rest, y.rest) && st.f.Equal(x.pos, y.pos) && x.failed == y.failed
	case TypeV:
		y, ok := b.(TypeV)
		return ok && types.Identical(x.t, y.t)
	case ValueV:
		y, ok := b.(ValueV)
		return ok && types.Identical(x.t, y.t) && st.sameVal(x.v, y.v)
	case IterV:
		y, ok := b.(IterV)
		return ok && x.m.obj == y.m.obj && x.n == y.n
	case *MapC:
		y, ok := b.(*MapC)
		if !ok || x.base != y.base || x.id != y.id || len(x.ents) != len(y.ents) {
			return false
		}
		for i := range x.ents {
			if x.ents[i].del != y.ents[i].del || !st.sameVal(x.ents[i].k, y.ents[i].k) || !st.sameVal(x.ents[i].v, y.ents[i].v) {
				return false
			}
		}
		return true
	case ChanC:
		y, ok := b.(ChanC)
		return ok && x == y
	}
	return false
}

// nilness of pointer-like values: the condition under which v is nil.
func nilCond(v Val) *Term {
	switch x := v.(type) {
	case Ptr:
		if x.obj == nil {
			return TTrue
		}
		if x.nilc != nil {
			return x.nilc
		}
		return TFalse
	case SliceV:
		if x.base.obj == nil {
			return TTrue
		}
		if x.nilc != nil {
			return x.nilc
		}
		return TFalse
	case IfaceV:
		if x.typ == nil && x.sym == nil {
			return TTrue
		}
		if x.nilc != nil {
			return x.nilc
		}
		return TFalse
	case MapV:
		if x.obj == nil {
			return TTrue
		}
		if x.nilc != nil {
			return x.nilc
		}
		return TFalse
	case ChanV:
		if x.obj == nil {
			return TTrue
		}
		if x.nilc != nil {
			return x.nilc
		}
		return TFalse
	case FuncV:
		if x.fn == nil && x.sym == nil && x.blt == nil && x.bound == nil {
			return TTrue
		}
		if x.nilc != nil {
			return x.nilc
		}
		return TFalse
	}
	return TFalse
}

// eqTerm is the condition under which a == b in Go's sense.
func (st *State) eqTerm(a, b Val) *Term {
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return EqT(x, y)
		}
	case Str:
		if y, ok := b.(Str); ok {
			if st.f.SeqEqual(x.s, y.s) {
				return TTrue
			}
			_, cx := x.s.constString()
			_, cy := y.s.constString()
			if !cx && !cy {
				return st.seqEq(x.s, y.s)
			}
			return EqT(strID(st.f, x.s), strID(st.f, y.s))
		}
	case StructV:
		if y, ok := b.(StructV); ok && len(x) == len(y) {
			all := TTrue
			for i := range x {
				e := st.eqTerm(x[i], y[i])
				if d, ok := st.f.Decide(e); ok {
					if !d {
						return TFalse
					}
					continue
				}
				if all == TTrue {
					all = e
				} else {
					all = App("and", 0, 1, all, e)
				}
			}
			return all
		}
	case BytesV:
		if y, ok := b.(BytesV); ok {
			if st.f.SeqEqual(x.s, y.s) {
				return TTrue
			}
			return seqEqTerm(st.f, x.s, y.s)
		}
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			break
		}
		if x.obj == nil || y.obj == nil {
			if x.obj == nil {
				return nilCond(y)
			}
			return nilCond(x)
		}
		if x.obj == y.obj && x.path == y.path && x.idx == y.idx && x.nilc == nil && y.nilc == nil {
			return TTrue
		}
		if x.obj != y.obj && x.nilc == nil && y.nilc == nil && (!x.obj.sym || !y.obj.sym) {
			return TFalse
		}
		return App(fmt.Sprintf("ptreq(%v,%v)", x, y), 0, 1)
	case ChanV:
		y, ok := b.(ChanV)
		if !ok {
			break
		}
		if x.obj == nil {
			return nilCond(y)
		}
		if y.obj == nil {
			return nilCond(x)
		}
		if x.obj == y.obj {
			return TTrue
		}
		if !x.obj.sym || !y.obj.sym {
			return TFalse
		}
		return App(fmt.Sprintf("chaneq(%v,%v)", x.obj, y.obj), 0, 1)
	case SliceV:
		if y, ok := b.(SliceV); ok {
			if x.base.obj == nil {
				return nilCond(y)
			}
			if y.base.obj == nil {
				return nilCond(x)
			}
		}
	case MapV:
		if y, ok := b.(MapV); ok {
			if x.obj == nil {
				return nilCond(y)
			}
			if y.obj == nil {
				return nilCond(x)
			}
		}
	case FuncV:
		if y, ok := b.(FuncV); ok {
			if nilCond(x) == TTrue {
				return nilCond(y)
			}
			if nilCond(y) == TTrue {
				return nilCond(x)
			}
		}
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			break
		}
		if nilCond(x) == TTrue {
			return nilCond(y)
		}
		if nilCond(y) == TTrue {
			return nilCond(x)
		}
		if x.sym != nil && x.sym == y.sym {
			return TTrue
		}
		if x.typ != nil && y.typ != nil {
			if !types.Identical(x.typ, y.typ) {
				return TFalse
			}
			return st.eqTerm(x.v, y.v)
		}
		return App(fmt.Sprintf("ifaceeq(%s,%s)", showVal(a), showVal(b)), 0, 1)
	case TypeV:
		if y, ok := b.(TypeV); ok {
			return Bool(types.Identical(x.t, y.t))
		}
	}
	st.undecided("comparison of %s and %s", showVal(a), showVal(b))
	return FreshBool("cmp")
}

var strIDs = map[string]int64{}

// strID maps a string to a number such that equal strings have equal numbers
// and different known strings different ones.
func strID(f *Facts, s Seq) *Term {
	if c, ok := s.constString(); ok {
		id, ok := strIDs[c]
		if !ok {
			id = int64(len(strIDs) + 1)
			strIDs[c] = id
		}
		return Const(id)
	}
	return App("str:"+f.canon(s).key(), 0, 1<<40)
}

// seqEqTerm is the condition under which two byte sequences are equal.
func seqEqTerm(f *Facts, a, b Seq) *Term {
	a, b = f.canon(a), f.canon(b)
	if len(a) == 1 && len(b) == 1 && a[0].ranged() && b[0].ranged() && f.Equal(a[0].n, b[0].n) {
		return eqRange(a[0].src, a[0].off, b[0].src, b[0].off, a[0].n)
	}
	ka, kb := a.key(), b.key()
	if ka > kb {
		ka, kb = kb, ka
	}
	return App("seqeq:"+ka+"|"+kb, 0, 1)
}

// ---------------------------------------------------------------- locks

func (p Ptr) lockKey() string { return fmt.Sprintf("%v", p) }

// ---------------------------------------------------------------- positions

func (r *Run) posOf(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	p := in.Pos()
	if !p.IsValid() && in.Block() != nil {
		// nearest instruction with a position
		for _, j := range in.Block().Instrs {
			if j.Pos().IsValid() {
				p = j.Pos()
				if j == in {
					break
				}
			}
		}
	}
	if !p.IsValid() && in.Parent() != nil {
		p = in.Parent().Pos()
	}
	return r.posString(p) + " (" + shortFn(in.Parent()) + ")"
}

func shortFn(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	return f.RelString(nil)
}

func (r *Run) posString(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := r.w.prog.Fset.Position(p)
	name := q.Filename
	if rel, err := filepath.Rel(r.w.repo, name); err == nil && !strings.HasPrefix(rel, "..") {
		name = rel
	}
	return fmt.Sprintf("%s:%d", name, q.Line)
}
