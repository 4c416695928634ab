package main

// Loops: unrolled while every exit is decided, otherwise brought to a fixed
// point. At the head of a loop the locations that an iteration changes are
// replaced by unknowns; affine relations between them, bounds, and the shape of
// byte sequences are guessed from the first iteration and kept while every
// iteration preserves them.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// LoopInst is one analysed loop (in one calling context).
type LoopInst struct {
	fn       *ssa.Function
	head     *ssa.BasicBlock
	variants []*variant
	iters    []*Iter
	depth    int
	eqs      []eqBase
}

// Iter is one way through the body of a loop, from its head back to it, or out
// of it.
type Iter struct {
	from, to *variant // to == nil: leaves the loop
	head     *State
	st       *State
	evs      []*Event // since the head
}

type hole struct {
	sym   *Term
	entry *Term
	loc   string
}

type variant struct {
	id      int
	key     string
	entry   *State
	head    *State
	holes   map[*Term]*hole
	order   []*hole
	dropped map[string]bool
	cands   map[string]*Term // candidate facts on the head
	hurry   bool             // drop bounds together with stronger ones
	noRel   map[string]bool  // locations that have no relation to others
	opaque  map[string]bool
	inst    *LoopInst
	shapes  map[string]int // how often a sequence has changed its shape
	limits  map[*Term]bool // bounds by what the loop compares with
}

// eqBase is where a comparison of two sources byte by byte begins: the first
// bytes that are compared, and the value that a location has then.
type eqBase struct {
	eqFact
	loc string
	at  *Term
}

// compared notes what the first iteration has found equal.
func (v *variant) compared(b *State) {
	if v != v.inst.variants[0] {
		return
	}
	es := v.entrySub()
	for _, e := range b.f.eqFacts() {
		e.x, e.y = substTerm(e.x, es), substTerm(e.y, es)
		for _, ho := range v.order {
			n := eqBase{e, ho.loc, ho.entry}
			known := len(v.inst.eqs) >= 24
			for _, o := range v.inst.eqs {
				known = known || o == n
			}
			if !known {
				v.inst.eqs = append(v.inst.eqs, n)
			}
		}
	}
}

// loopsOf finds the natural loops of a function.
func (r *Run) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if l, ok := loopCache[fn]; ok {
		return l
	}
	l := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			if l[h] == nil {
				l[h] = map[*ssa.BasicBlock]bool{h: true}
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l[h][x] {
					continue
				}
				l[h][x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	loopCache[fn] = l
	return l
}

var loopCache = map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}

// atLoop reports the loop whose head the state has just entered.
func (st *State) atLoop() *ssa.BasicBlock {
	h := st.arrived
	st.arrived = nil
	return h
}

func (r *Run) runLoop(st *State, h *ssa.BasicBlock) []*State {
	fn := st.top().fn
	blocks := r.loopsOf(fn)[h]
	depth := len(st.frames) - 1
	if outs, ok := r.unrollLoop(st, h, blocks, depth); ok {
		return outs
	}
	r.nLoops++
	inst := &LoopInst{fn: fn, head: h, depth: depth}
	e := st.ev("loop")
	e.loop = inst
	entry := st.fork()
	v0 := r.newVariant(inst, st, r.headKey(st, st, entry, h))
	inst.variants = []*variant{v0}
	ctx := &loopCtx{depth: depth, head: h, blocks: blocks}
	notes := copyNotes(r.notes)
	nl := len(r.loops)
	nx := len(r.extra)
	var exits []*State
	const rounds = 40
	for round := 0; ; round++ {
		if round == rounds {
			r.note(h.Instrs[0], "loop does not reach a fixed point")
			break
		}
		for _, v := range inst.variants {
			v.hurry = round > 8
		}
		r.notes = copyNotes(notes)
		r.loops = r.loops[:nl]
		r.extra = r.extra[:nx]
		changed := false
		exits = nil
		inst.iters = nil
		for i := 0; i < len(inst.variants); i++ {
			v := inst.variants[i]
			s := v.start()
			s.loops = append(s.loops, ctx)
			ie := s.ev("iter")
			ie.loop = inst
			ie.data = v
			mark := len(s.evs)
			for _, o := range splitBools(r.explore([]*State{s}, ctx), h) {
				it := &Iter{from: v, head: v.head, st: o, evs: o.evs[mark:]}
				inst.iters = append(inst.iters, it)
				o.loops = o.loops[:len(o.loops)-1]
				if o.status != AtHead {
					if o.status == Left {
						o.leave()
						o.solve(v)
					}
					exits = append(exits, o)
					continue
				}
				if len(o.locks) != len(v.head.locks) {
					r.note(h.Instrs[0], "locks held at the end of an iteration differ from its start")
				}
				key := r.headKey(o, v.head, entry, h)
				var t *variant
				for _, w := range inst.variants {
					if w.key == key {
						t = w
					}
				}
				if t == nil {
					if len(inst.variants) < 10 {
						t = r.newVariant(inst, o, key)
						inst.variants = append(inst.variants, t)
						changed = true
						it.to = t
						continue
					}
					r.note(h.Instrs[0], "too many loop states")
					continue
				}
				it.to = t
				if t.join(r, o, h) {
					changed = true
				}
			}
			if r.nForks > r.limit {
				break
			}
		}
		if debugLoops {
			fmt.Fprintln(os.Stderr, "loop", fn, "depth", depth, "round", round, "variants", len(inst.variants), "iters", len(inst.iters), "forks", r.nForks, "changed", changed)
			for _, v := range inst.variants {
				fmt.Fprintln(os.Stderr, "   ", v.id, v.key, "holes", len(v.order), "cands", len(v.cands), "dropped", len(v.dropped))
				if debugLoops && os.Getenv("DEBUG_LOOPS") == "2" {
					for _, h := range v.order {
						fmt.Fprintln(os.Stderr, "        hole", h.sym, "at", h.loc, "was", h.entry)
					}
					fr := v.head.top()
					for _, k := range sortedVals(fr.env) {
						fmt.Fprintln(os.Stderr, "        env", k.Name(), showVal(fr.env[k]))
						if s, ok := fr.env[k].(SliceV); ok {
							fmt.Fprintln(os.Stderr, "            ", showVal(v.head.heap[s.base.obj]))
						}
					}
					for _, it := range inst.iters {
						fmt.Fprintln(os.Stderr, "       iter", it.st.status)
						if it.to == nil {
							continue
						}
						fr := it.st.top()
						for _, k := range sortedVals(fr.env) {
							fmt.Fprintln(os.Stderr, "        env", k.Name(), showVal(fr.env[k]))
							if s, ok := fr.env[k].(SliceV); ok {
								fmt.Fprintln(os.Stderr, "            ", showVal(it.st.heap[s.base.obj]))
							}
						}
					}
				}
			}
		}
		if !changed || r.nForks > r.limit {
			break
		}
	}
	r.loops = append(r.loops, inst)
	// continue after the loop
	for _, o := range exits {
		_ = o
	}
	return exits
}

func intConst(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Value)
}

var collectorCache = map[*ssa.BasicBlock][]*ssa.Phi{}

// collectors finds the numbers that begin as zero and collect something: of
// those it matters whether they are zero still. States at the head are told
// apart by it.
func collectors(h *ssa.BasicBlock) []*ssa.Phi {
	if ts, ok := collectorCache[h]; ok {
		return ts
	}
	var ts []*ssa.Phi
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if b, ok := p.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		begins, tested, collects := false, false, false
		stays, adds := false, false
		for _, e := range p.Edges {
			if n, ok := intConst(e); ok && n == 0 {
				begins = true
			}
			switch x := e.(type) {
			case *ssa.BinOp:
				collects = collects || x.Op == token.OR && (x.X == p || x.Y == p)
				adds = adds || x.Op == token.ADD && x.X == p
			case *ssa.Phi:
				if x == p {
					stays = true
					continue
				}
				keeps := false
				for _, y := range x.Edges {
					keeps = keeps || y == p
				}
				for _, y := range x.Edges {
					if b, ok := y.(*ssa.BinOp); ok && keeps && b.Op == token.ADD && b.X == p {
						collects = true
					}
				}
			}
		}
		for _, in := range *p.Referrers() {
			if x, ok := in.(*ssa.BinOp); ok {
				switch x.Op {
				case token.EQL, token.NEQ, token.GTR, token.LSS:
					n, ok := intConst(x.X)
					m, ok2 := intConst(x.Y)
					tested = tested || ok && n == 0 || ok2 && m == 0
				}
			}
		}
		if begins && (tested || collects || stays && adds) {
			ts = append(ts, p)
		}
	}
	collectorCache[h] = ts
	return ts
}

// splitBools decides the flags that a loop carries at its head.
func splitBools(sts []*State, h *ssa.BasicBlock) []*State {
	split := func(p *ssa.Phi, cond func(fr *Frame) (c, yes, no *Term, ok bool)) {
		var outs []*State
		for _, st := range sts {
			if st.status != AtHead {
				outs = append(outs, st)
				continue
			}
			c, y, n, ok := cond(st.top())
			if !ok {
				outs = append(outs, st)
				continue
			}
			yes, no := st.branch(c, "")
			if yes != nil {
				yes.top().env[p] = y
				outs = append(outs, yes)
			}
			if no != nil {
				no.top().env[p] = n
				outs = append(outs, no)
			}
		}
		sts = outs
	}
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			split(p, func(fr *Frame) (c, yes, no *Term, ok bool) {
				c, ok = fr.env[p].(*Term)
				return c, TTrue, TFalse, ok
			})
		}
	}
	for _, p := range collectors(h) {
		split(p, func(fr *Frame) (c, yes, no *Term, ok bool) {
			t, ok := fr.env[p].(*Term)
			if !ok {
				return nil, nil, nil, false
			}
			return EqT(t, TZero), TZero, t, true
		})
	}
	return sts
}

func copyNotes(m map[string]bool) map[string]bool {
	n := make(map[string]bool, len(m))
	for k := range m {
		n[k] = true
	}
	return n
}

// unrollLoop follows the loop as long as its exits are decided.
func (r *Run) unrollLoop(st *State, h *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool, depth int) ([]*State, bool) {
	waits := func(b *ssa.BasicBlock) bool {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Select, *ssa.Send:
				return true
			case *ssa.UnOp:
				if x.Op.String() == "<-" {
					return true
				}
			}
		}
		return false
	}
	// a loop that waits is only followed where its head decides whether it
	// goes on
	_, cond := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	cond = cond && !waits(h)
	if !cond {
		for b := range blocks {
			if waits(b) {
				return nil, false
			}
		}
	}
	notes, nl, nx := copyNotes(r.notes), len(r.loops), len(r.extra)
	fail := func() ([]*State, bool) {
		r.notes, r.loops, r.extra = notes, r.loops[:nl], r.extra[:nx]
		return nil, false
	}
	ctx := &loopCtx{depth: depth, head: h, blocks: blocks, unroll: true, cond: cond}
	s := st.fork()
	s.loops = append(s.loops, ctx)
	cur := []*State{s}
	var exits []*State
	for n := 0; len(cur) > 0; n++ {
		if n > 70 || len(cur)+len(exits) > 120 {
			return fail()
		}
		var heads []*State
		for _, c := range cur {
			c.status = Running
		}
		outs := r.explore(cur, ctx)
		if ctx.undecided {
			return fail()
		}
		for _, o := range outs {
			switch o.status {
			case AtHead:
				heads = append(heads, o)
			case Left:
				o.loops = o.loops[:len(o.loops)-1]
				o.leave()
				exits = append(exits, o)
			default:
				o.loops = o.loops[:len(o.loops)-1]
				exits = append(exits, o)
			}
		}
		cur = heads
	}
	st.status = Dead
	return exits, true
}

// leave continues where an edge out of a loop leads, which may be the head of
// the loop around it, or out of that one too.
func (st *State) leave() {
	st.status = Running
	n := len(st.loops)
	if n == 0 {
		return
	}
	c, b := st.loops[n-1], st.top().blk
	if c.depth != len(st.frames)-1 {
		return
	}
	if b == c.head {
		st.status = AtHead
		st.arrived = nil
	} else if !c.blocks[b] {
		st.status = Left
	}
}

var debugLoops = os.Getenv("DEBUG_LOOPS") != ""

var variantSeq int

func (r *Run) newVariant(inst *LoopInst, st *State, key string) *variant {
	variantSeq++
	e := st.fork()
	e.status = Running
	v := &variant{inst: inst, id: variantSeq, key: key, entry: e, holes: map[*Term]*hole{}, dropped: map[string]bool{},
		cands: map[string]*Term{}, noRel: map[string]bool{}, limits: map[*Term]bool{}, shapes: map[string]int{}, opaque: map[string]bool{}}
	hd := e.fork()
	// only the marker of the loop and what came before it
	for i := len(hd.evs) - 1; i >= 0; i-- {
		if hd.evs[i].kind == "loop" && hd.evs[i].loop == inst {
			hd.evs = hd.evs[: i+1 : i+1]
			break
		}
	}
	hd.cleanEnv(inst)
	hd.settle()
	v.head = hd
	return v
}

// cleanEnv drops the values that a loop defines anew in each iteration.
func (st *State) cleanEnv(inst *LoopInst) {
	fr := st.frames[inst.depth]
	blocks := st.r.loopsOf(inst.fn)[inst.head]
	for v := range fr.env {
		in, ok := v.(ssa.Instruction)
		if !ok || !blocks[in.Block()] {
			continue
		}
		if _, isPhi := v.(*ssa.Phi); isPhi && in.Block() == inst.head {
			continue
		}
		delete(fr.env, v)
	}
}

// settle resets what is counted per iteration.
func (st *State) settle() {
	for o, v := range st.heap {
		if in, ok := v.(InV); ok && in.failed {
			in.failed = false
			st.heap[o] = in
		}
	}
}

// start is a state at the head.
func (v *variant) start() *State {
	s := v.head.fork()
	s.status = Running
	for _, k := range sortedKeys(v.cands) {
		if v.dropped[k] {
			continue
		}
		s.f.Assume(v.cands[k], true)
	}
	return s
}

// headKey tells apart states at a loop head that are analysed separately.
func (r *Run) headKey(st, ref, entry *State, h *ssa.BasicBlock) string {
	fr := st.top()
	var sb strings.Builder
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		switch x := fr.env[p].(type) {
		case *Term:
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
				if v, ok := st.f.Decide(x); ok {
					fmt.Fprintf(&sb, "%s=%v;", p.Name(), v)
				}
			}
		case SliceV:
			if r.absorb != nil && x.base.obj != nil {
				if sl, ok := p.Type().Underlying().(*types.Slice); ok && isByte(sl.Elem()) {
					if tag, _, ok := r.absorb(st.f, st.sliceSeq(x)); ok {
						fmt.Fprintf(&sb, "%s:%s;", p.Name(), tag)
					}
				}
			}
		case Ptr, IfaceV, ChanV, FuncV, MapV:
			if n := nilCond(x); n.isConst() {
				fmt.Fprintf(&sb, "%s=nil:%d;", p.Name(), n.c)
			}
		}
	}
	for _, p := range collectors(h) {
		if t, ok := fr.env[p].(*Term); ok {
			if v, ok := st.f.Decide(EqT(t, TZero)); ok {
				fmt.Fprintf(&sb, "zero %s:%v;", p.Name(), v)
			}
		}
	}
	// channels of memory that have been set to nil
	var chans []string
	for o, rc := range entry.heap {
		if c, ok := st.heap[o]; ok {
			nilChanged(fmt.Sprintf("o%d", o.id), rc, c, &chans)
		}
	}
	sort.Strings(chans)
	sb.WriteString(strings.Join(chans, ""))
	if r.absorb != nil {
		var tags []string
		live := map[*Obj]bool{}
		blocks := r.loopsOf(fr.fn)[h]
		for i, f := range st.frames {
			for v, x := range f.env {
				if i == len(st.frames)-1 {
					if in, ok := v.(ssa.Instruction); ok && blocks[in.Block()] {
						if _, isPhi := v.(*ssa.Phi); !isPhi || in.Block() != h {
							continue
						}
					}
				}
				for _, o := range reachObjs(st, x) {
					live[o] = true
				}
			}
		}
		for o := range ref.heap {
			if !live[o] {
				continue
			}
			c := st.heap[o]
			var q Seq
			switch x := c.(type) {
			case BufV:
				q = x.s
			case BytesV:
				q = x.s
			default:
				continue
			}
			if tag, _, ok := r.absorb(st.f, q); ok {
				tags = append(tags, fmt.Sprintf("o%d:%s", o.id, tag))
			}
		}
		sort.Strings(tags)
		sb.WriteString(strings.Join(tags, ";"))
	}
	fmt.Fprintf(&sb, "|%d", len(st.locks))
	return sb.String()
}

func nilChanged(loc string, a, b Val, out *[]string) {
	switch x := a.(type) {
	case ChanV:
		if y, ok := b.(ChanV); ok {
			if m, n := nilCond(x), nilCond(y); m != n && n.isConst() {
				*out = append(*out, fmt.Sprintf("%s=nil:%d;", loc, n.c))
			}
		}
	case StructV:
		if y, ok := b.(StructV); ok && len(x) == len(y) {
			for i := range x {
				nilChanged(fmt.Sprintf("%s.%d", loc, i), x[i], y[i], out)
			}
		}
	}
}

// ---------------------------------------------------------------- joining

type joiner struct {
	r       *Run
	v       *variant
	b       *State // a state that arrives at the head
	sigma   map[*Term]*Term
	changed bool
	seen    map[*Obj]bool
	collect bool            // first pass: find the values of the unknowns
	related map[*Term]*Term // what other places tell about them
}

// join makes v.head cover state b; it reports whether the head had to change.
func (v *variant) join(r *Run, b *State, h *ssa.BasicBlock) bool {
	j := &joiner{r: r, v: v, b: b, sigma: map[*Term]*Term{}, related: map[*Term]*Term{}, collect: true}
	j.walk(h)
	j.collect = false
	for s, t := range j.related {
		if _, known := j.sigma[s]; !known {
			j.sigma[s] = t
		}
	}
	// what has been guessed too boldly is dropped first: the shapes that an
	// iteration leaves under a wrong guess mean nothing
	for k, t := range v.cands {
		if v.dropped[k] || !j.solved(t) {
			continue
		}
		if ok, dec := b.f.Decide(j.subst(t)); !dec || !ok {
			v.drop(k, j)
			j.changed = true
		}
	}
	if j.changed {
		return true
	}
	j.walk(h)
	// unknowns introduced during this pass are solved now
	for k, t := range v.cands {
		if v.dropped[k] {
			continue
		}
		if ok, dec := b.f.Decide(j.subst(t)); !dec || !ok {
			v.drop(k, j)
			j.changed = true
		}
	}
	if j.changed {
		v.compared(b)
		v.guess(r, h)
	}
	return j.changed
}

// solved reports that the values of all unknowns in a term are known.
func (j *joiner) solved(t *Term) bool {
	ok := true
	walkTerm(t, func(x *Term) {
		if _, hole := j.v.holes[x]; hole {
			if _, s := j.sigma[x]; !s {
				ok = false
			}
		}
	})
	return ok
}

func (j *joiner) walk(h *ssa.BasicBlock) {
	j.seen = map[*Obj]bool{}
	hd := j.v.head
	for i, fr := range hd.frames {
		bf := j.b.frames[i]
		var vs []ssa.Value
		for x := range fr.env {
			vs = append(vs, x)
		}
		// numbers first: others are expressed in terms of them
		sort.Slice(vs, func(a, b int) bool {
			_, n1 := fr.env[vs[a]].(*Term)
			_, n2 := fr.env[vs[b]].(*Term)
			if n1 != n2 {
				return n1
			}
			return vs[a].Name() < vs[b].Name()
		})
		for _, x := range vs {
			bv, ok := bf.env[x]
			if !ok {
				continue
			}
			loc := fmt.Sprintf("%d:%s", i, x.Name())
			nv := j.val(loc, x.Type(), fr.env[x], bv)
			if !j.collect {
				fr.env[x] = nv
			}
		}
		for _, d := range fr.defers {
			for _, a := range append(append([]Val(nil), d.args...), d.fn.binds...) {
				j.reach(a)
			}
		}
	}
	// globals of the repository
	var gs []*Obj
	for o := range hd.heap {
		if o.global != nil && j.r.w.mod[o.global.Pkg] {
			gs = append(gs, o)
		}
	}
	sort.Slice(gs, func(a, b int) bool { return gs[a].id < gs[b].id })
	for _, o := range gs {
		j.obj(o)
	}
	// states of unknown sources
	var ins []*Obj
	for o, c := range hd.heap {
		if _, ok := c.(InV); ok {
			ins = append(ins, o)
		}
	}
	sort.Slice(ins, func(a, b int) bool { return ins[a].id < ins[b].id })
	for _, o := range ins {
		j.obj(o)
	}
}

// reach joins the objects behind an unchanged value.
func (j *joiner) reach(v Val) {
	switch x := v.(type) {
	case Ptr:
		if x.obj != nil {
			j.obj(x.obj)
		}
	case SliceV:
		if x.base.obj != nil {
			j.obj(x.base.obj)
		}
	case IfaceV:
		if x.typ != nil {
			j.reach(x.v)
		}
	case StructV:
		for _, e := range x {
			j.reach(e)
		}
	case TupleV:
		for _, e := range x {
			j.reach(e)
		}
	case ArrV:
		for _, e := range x.elems {
			j.reach(e)
		}
		if x.sym != nil {
			for k, e := range x.sym.vals {
				// which element that is changes with the iteration
				if !hasHole(j.v, k) {
					j.reach(e)
				}
			}
		}
	case FuncV:
		for _, e := range x.binds {
			j.reach(e)
		}
	case MapV:
		if x.obj != nil {
			j.obj(x.obj)
		}
	case ChanV:
		if x.obj != nil {
			j.obj(x.obj)
		}
	case IterV:
		if x.cell != nil {
			j.obj(x.cell)
		}
		j.reach(x.m)
	}
}

// obj joins the contents of an object that both states know.
func (j *joiner) obj(o *Obj) {
	if j.seen[o] {
		return
	}
	j.seen[o] = true
	hd := j.v.head
	if _, ok := j.b.heap[o].(ChanC); ok && !j.outside(o) {
		// a channel of an element of an unknown map: each iteration has
		// its own
		return
	}
	hc, ok := hd.heap[o]
	if !ok {
		if bc, ok := j.b.heap[o]; ok && o.init != nil {
			hc = o.init
			if !j.collect {
				hd.heap[o] = hc
			}
			_ = bc
		} else {
			return
		}
	}
	bc, ok := j.b.heap[o]
	if !ok {
		return
	}
	nv := j.val(fmt.Sprintf("o%d", o.id), o.typ, hc, bc)
	if !j.collect {
		hd.heap[o] = nv
	}
}

// outside: the object can be reached at the head without looking into a map,
// and is not part of an element of a map.
func (j *joiner) outside(o *Obj) bool {
	for m, v := range j.b.heap {
		if mc, ok := v.(*MapC); ok && mc.base && m != nil {
			var es []Val
			for _, e := range append(append([]MapEnt(nil), mc.ents...), mc.looks...) {
				es = append(es, e.v)
			}
			for _, x := range reachFrom(j.b, false, es...) {
				if x == o {
					return false
				}
			}
		}
	}
	var vs []Val
	for _, fr := range j.v.entry.frames {
		for _, x := range fr.env {
			vs = append(vs, x)
		}
		for _, d := range fr.defers {
			vs = append(append(vs, d.args...), d.fn.binds...)
		}
	}
	for _, x := range reachFrom(j.v.entry, false, vs...) {
		if x == o {
			return true
		}
	}
	return false
}

func fieldType(t types.Type, i int) types.Type {
	if t == nil {
		return nil
	}
	if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i).Type()
	}
	return nil
}

func (j *joiner) opaqueVal(loc string, t types.Type, nilPossible bool) Val {
	j.changed = true
	if t == nil {
		j.r.note(nil, "loop changes %s of unknown type", loc)
		return TZero
	}
	v := j.r.symVal(t, "loop", nil)
	var n *Term
	if nilPossible {
		n = FreshBool("nil")
	}
	switch x := v.(type) {
	case Ptr:
		x.obj.top = true
		x.nilc = n
		return x
	case SliceV:
		x.base.obj.top = true
		return x
	case IfaceV:
		x.sym.data = "top"
		x.nilc = n
		return x
	case MapV:
		x.obj.top = true
		x.nilc = n
		return x
	case ChanV:
		x.obj.top = true
		x.nilc = n
		return x
	case FuncV:
		x.sym.data = "top"
		x.nilc = n
		return x
	}
	return v
}

func isTop(v Val) (top, nilable bool) {
	switch x := v.(type) {
	case Ptr:
		return x.obj != nil && x.obj.top, x.nilc != nil
	case SliceV:
		return x.base.obj != nil && x.base.obj.top, true
	case IfaceV:
		return x.sym != nil && x.sym.data == "top", x.nilc != nil
	case MapV:
		return x.obj != nil && x.obj.top, x.nilc != nil
	case ChanV:
		return x.obj != nil && x.obj.top, x.nilc != nil
	case FuncV:
		return x.sym != nil && x.sym.data == "top", x.nilc != nil
	}
	return false, false
}

func canNil(v Val) bool { return nilCond(v) != TFalse }

func (j *joiner) val(loc string, t types.Type, h, b Val) Val {
	if top, nilable := isTop(h); top {
		if nilable || !canNil(b) {
			return h
		}
		if !j.collect {
			return j.opaqueVal(loc, t, true)
		}
		return h
	}
	switch x := h.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return j.term(loc, x, y, t)
		}
	case Str:
		if y, ok := b.(Str); ok {
			return Str{j.seq(loc, x.s, y.s)}
		}
	case BytesV:
		if y, ok := b.(BytesV); ok {
			return BytesV{j.seq(loc, x.s, y.s)}
		}
	case BufV:
		if y, ok := b.(BufV); ok {
			n := x
			n.s = j.seq(loc, x.s, y.s)
			return n
		}
	case RdV:
		if y, ok := b.(RdV); ok {
			n := x
			n.s = j.seq(loc, x.s, y.s)
			return n
		}
	case InV:
		if y, ok := b.(InV); ok {
			n := x
			n.pos = j.term(loc+".pos", x.pos, y.pos, nil)
			n.rest = j.seq(loc+".rest", x.rest, y.rest)
			return n
		}
	case StructV:
		if y, ok := b.(StructV); ok && len(x) == len(y) {
			n := make(StructV, len(x))
			for i := range x {
				n[i] = j.val(fmt.Sprintf("%s.%d", loc, i), fieldType(t, i), x[i], y[i])
			}
			return n
		}
	case TupleV:
		if y, ok := b.(TupleV); ok && len(x) == len(y) {
			n := make(TupleV, len(x))
			tt, _ := t.(*types.Tuple)
			for i := range x {
				var et types.Type
				if tt != nil {
					et = tt.At(i).Type()
				}
				n[i] = j.val(fmt.Sprintf("%s.%d", loc, i), et, x[i], y[i])
			}
			return n
		}
	case ArrV:
		if y, ok := b.(ArrV); ok {
			if x.sym == y.sym && len(x.elems) == len(y.elems) {
				n := x
				n.elems = make([]Val, len(x.elems))
				for i := range x.elems {
					n.elems[i] = j.val(fmt.Sprintf("%s.%d", loc, i), x.elem, x.elems[i], y.elems[i])
				}
				if x.sym != nil {
					j.reach(ArrV{sym: x.sym})
				}
				return n
			}
			if j.collect {
				return h
			}
			if x.sym != nil && x.sym.top && len(x.elems) == 0 {
				return h
			}
			j.changed = true
			n := Fresh("len", 0, 1<<40)
			if x.sym != nil && y.sym != nil && len(x.elems) == 0 && len(y.elems) == 0 && x.sym.n == y.sym.n {
				n = x.sym.n // an array does not grow
			}
			a := newSymArr("loop", x.elem, n)
			a.top = true
			return ArrV{sym: a, elem: x.elem}
		}
	case Ptr:
		y, ok := b.(Ptr)
		if ok && x.obj == y.obj && x.path == y.path && x.nilc == y.nilc && (x.idx == nil) == (y.idx == nil) {
			if x.idx != nil {
				x.idx = j.term(loc+".idx", x.idx, y.idx, nil)
			}
			j.reach(x)
			return x
		}
	case SliceV:
		y, ok := b.(SliceV)
		if ok && (x.base.obj == y.base.obj && x.base.path == y.base.path && x.nilc == y.nilc) {
			n := x
			n.off = j.term(loc+".off", x.off, y.off, nil)
			n.len = j.term(loc+".len", x.len, y.len, nil)
			n.cap = j.term(loc+".cap", x.cap, y.cap, nil)
			j.reach(x)
			return n
		}
		if ok && t != nil {
			if sl, isS := t.Underlying().(*types.Slice); isS && isByte(sl.Elem()) {
				// another array: join what the slices hold
				q := j.seq(loc+".bytes", j.v.head.sliceSeq(x), j.b.sliceSeq(y))
				if j.collect {
					return h
				}
				o := newObj(types.NewArray(sl.Elem(), -1), "loop")
				o.fresh = true
				o.joined = true
				for _, p := range []*Obj{x.base.obj, y.base.obj} {
					if p != nil {
						o.parts = append(o.parts, p)
					}
				}
				j.v.head.heap[o] = BytesV{q}
				if !(x.base.obj != nil && x.base.obj.joined) {
					j.changed = true
				}
				n := q.Len()
				return SliceV{base: Ptr{obj: o}, off: TZero, len: n, cap: Add(n, Fresh("spare", 0, 1<<40)), nilc: nil}
			}
		}
	case IfaceV:
		y, ok := b.(IfaceV)
		if ok && x.sym == y.sym && x.nilc == y.nilc && (x.typ == nil) == (y.typ == nil) {
			if x.typ == nil {
				return x
			}
			if types.Identical(x.typ, y.typ) {
				n := x
				n.v = j.val(loc+".v", x.typ, x.v, y.v)
				return n
			}
		}
	case MapV:
		y, ok := b.(MapV)
		if ok && x.obj == y.obj {
			j.reach(x)
			return x
		}
	case ChanV:
		y, ok := b.(ChanV)
		if ok && x.obj == y.obj && x.nilc == y.nilc {
			j.reach(x)
			return x
		}
	case ChanC:
		y, ok := b.(ChanC)
		if ok && x == y {
			return x
		}
		if ok {
			if !j.collect {
				j.r.note(nil, "loop closes a channel of outside (%s)", loc)
			}
			return x
		}
	case *MapC:
		y, ok := b.(*MapC)
		if ok {
			return j.mapc(x, y)
		}
	case FuncV:
		if j.b.sameVal(h, b) {
			j.reach(x)
			return h
		}
	case IterV:
		if y, ok := b.(IterV); ok && x.cell == y.cell {
			j.reach(x)
			return x
		}
	case TypeV, ValueV, nil:
		if j.b.sameVal(h, b) {
			return h
		}
	}
	if j.collect {
		return h
	}
	return j.opaqueVal(loc, t, canNil(h) || canNil(b))
}

func (j *joiner) mapc(x, y *MapC) Val {
	if x.top {
		return x
	}
	same := x.base == y.base && x.id == y.id && len(x.ents) == len(y.ents)
	if same {
		for i := range x.ents {
			if x.ents[i].del != y.ents[i].del || !j.b.sameVal(x.ents[i].k, y.ents[i].k) || !j.b.sameVal(x.ents[i].v, y.ents[i].v) {
				same = false
			}
		}
	}
	if same {
		// have objects in its unknown content been changed?
		for _, l := range y.looks {
			if l.del {
				continue
			}
			for _, o := range reachObjs(j.b, l.v) {
				if o.init != nil && o.sym {
					if c, ok := j.b.heap[o]; ok && !j.b.sameVal(o.init, c) {
						same = false
					}
				}
			}
		}
	}
	if same {
		for _, e := range x.ents {
			j.reach(e.v)
		}
		return x
	}
	if j.collect {
		return x
	}
	j.changed = true
	mapSeq++
	return &MapC{base: true, top: true, id: mapSeq, kt: x.kt, vt: x.vt, name: x.name}
}

// reachObjs lists the objects reachable from a value.
func reachObjs(st *State, v Val) []*Obj { return reachFrom(st, true, v) }

func reachFrom(st *State, maps bool, vs ...Val) []*Obj {
	seen := map[*Obj]bool{}
	var out []*Obj
	var walk func(v Val)
	visit := func(o *Obj) {
		if o == nil || seen[o] {
			return
		}
		seen[o] = true
		out = append(out, o)
		if c, ok := st.heap[o]; ok {
			walk(c)
		} else if !maps && o.init != nil {
			walk(o.init)
		}
	}
	walk = func(v Val) {
		switch x := v.(type) {
		case Ptr:
			visit(x.obj)
		case SliceV:
			visit(x.base.obj)
		case IfaceV:
			if x.typ != nil {
				walk(x.v)
			}
		case StructV:
			for _, e := range x {
				walk(e)
			}
		case TupleV:
			for _, e := range x {
				walk(e)
			}
		case ArrV:
			for _, e := range x.elems {
				walk(e)
			}
			if x.sym != nil {
				for _, e := range x.sym.vals {
					walk(e)
				}
			}
		case FuncV:
			for _, e := range x.binds {
				walk(e)
			}
		case MapV:
			visit(x.obj)
		case ChanV:
			visit(x.obj)
		case *MapC:
			if !maps {
				return
			}
			for _, e := range x.ents {
				walk(e.k)
				walk(e.v)
			}
			for _, e := range x.looks {
				walk(e.k)
				walk(e.v)
			}
		}
	}
	for _, v := range vs {
		walk(v)
	}
	return out
}

func (j *joiner) subst(t *Term) *Term { return substTerm(t, j.sigma) }

// term joins a number.
func (j *joiner) term(loc string, h, b *Term, t types.Type) *Term {
	v := j.v
	if ho, ok := v.holes[h]; ok && ho.loc == loc {
		if j.collect {
			j.sigma[h] = b
		}
		return h
	}
	b = j.b.f.normPrefix(b)
	if j.collect {
		a, c, k, rest, ok := splitPrefix(b)
		a2, c2, k2, rest2, ok2 := splitPrefix(h)
		if ok && ok2 && a == a2 && c == c2 {
			j.term(loc+".k", k2, k, nil)
			j.term(loc+".r", rest2, rest, nil)
		} else if c, ls := linOf(h); len(ls) == 1 && (ls[0].c == 1 || ls[0].c == -1) && v.holes[ls[0].a] != nil {
			// related to an unknown that has come up elsewhere
			if _, known := j.related[ls[0].a]; !known {
				j.related[ls[0].a] = Scale(ls[0].c, AddC(b, -c))
			}
		}
		return h
	}
	if sh := j.subst(h); j.b.f.Equal(sh, b) {
		return h
	}
	// sums over the elements of a list
	if a, c, k, rest, ok := splitPrefix(b); ok {
		a2, c2, k2, rest2, ok2 := splitPrefix(h)
		if !ok2 {
			a2, c2, k2, rest2 = a, c, TZero, h
		}
		if a2 == a && c2 == c && !(rest2.k == KLin && rest2.isConst()) {
			nk := j.term(loc+".k", k2, k, nil)
			nr := j.term(loc+".r", rest2, rest, nil)
			j.changed = true
			return Add(Scale(c, a.prefix(nk)), nr)
		}
	}
	j.changed = true
	e := h
	if hasHole(v, h) {
		e = nil
		// a relation that does not hold: forget it
		v.noRel[loc] = true
		e = substTerm(h, v.entrySub())
	}
	if !v.noRel[loc] {
		for _, x := range v.order {
			bx, ok := j.sigma[x.sym]
			if !ok {
				continue
			}
			db := Sub(b, e)
			dx := Sub(bx, x.entry)
			for _, k := range []int64{1, -1} {
				if j.b.f.Equal(db, Scale(k, dx)) {
					return Add(e, Scale(k, Sub(x.sym, x.entry)))
				}
			}
			c1, ok1 := j.b.f.Range(db).single()
			c2, ok2 := j.b.f.Range(dx).single()
			if ok1 && ok2 && c2 != 0 && c1%c2 == 0 {
				return Add(e, Scale(c1/c2, Sub(x.sym, x.entry)))
			}
		}
	}
	lo, hi := negInf, posInf
	if t != nil {
		if _, _, l, h, ok := intRange(t); ok {
			lo, hi = l, h
		}
	}
	s := Fresh("it", lo, hi)
	ho := &hole{sym: s, entry: e, loc: loc}
	v.holes[s] = ho
	v.order = append(v.order, ho)
	j.sigma[s] = b
	return s
}

func (v *variant) entrySub() map[*Term]*Term {
	m := map[*Term]*Term{}
	for _, h := range v.order {
		m[h.sym] = h.entry
	}
	return m
}

func hasHole(v *variant, t *Term) bool {
	found := false
	walkTerm(t, func(x *Term) {
		if _, ok := v.holes[x]; ok {
			found = true
		}
	})
	return found
}

func walkTerm(t *Term, f func(*Term)) {
	f(t)
	for _, a := range t.args {
		walkTerm(a, f)
	}
	for _, l := range t.lin {
		walkTerm(l.a, f)
	}
	for _, p := range t.cat {
		if p.x != nil {
			walkTerm(p.x, f)
		}
	}
}

var prefixArrs, elemArrs = map[string]*SymArr{}, map[string]*SymArr{}

// splitPrefix recognises c*prefix_a(k) + rest.
func splitPrefix(t *Term) (a *SymArr, c int64, k, rest *Term, ok bool) {
	_, ls := linOf(t)
	for _, l := range ls {
		if l.a.k == KApp && strings.HasPrefix(l.a.name, "prefixlen") {
			a = prefixArrs[l.a.name]
			if a == nil {
				continue
			}
			return a, l.c, l.a.args[0], linComb(1, t, -l.c, l.a), true
		}
	}
	return
}

// seq joins byte sequences.
func (j *joiner) seq(loc string, h, b Seq) Seq {
	hf, bf := j.v.head.f, j.b.f
	if j.r.absorb != nil {
		tag, pos, ok := j.r.absorb(bf, b)
		htag, hpos, ok2 := j.r.absorb(hf, h)
		if ok && ok2 && tag == htag {
			if bf.SeqEqual(substSeq(h, j.sigma), b) && !isAbsorbed(h) {
				return h
			}
			np := j.term(loc+".pos", hpos, pos, nil)
			if j.collect {
				return h
			}
			if isAbsorbed(h) && np == hpos {
				return h
			}
			j.changed = true
			s := NewSrc("out:" + tag)
			s.tag, s.pos = tag, np
			n := Fresh("outlen", 0, 1<<41)
			return Seq{{src: s, off: TZero, n: n}}
		}
	}
	h, b = hf.canon(h), bf.canon(b)
	if !j.collect && bf.SeqEqual(substSeq(h, j.sigma), b) {
		return h
	}
	if len(h) == 1 && h[0].src != nil && h[0].src.top {
		// already unknown: only the length counts
		n := j.term(loc+".n", h[0].n, b.Len(), nil)
		if j.collect {
			return h
		}
		return Seq{{src: h[0].src, off: TZero, n: n}}
	}
	// a part that is empty in one of them
	ah, ab, ok := alignSeqs(h, b)
	if ok && !j.collect {
		j.v.shapes[loc]++
	}
	if ok && j.v.shapes[loc] < 8 {
		out := make(Seq, len(ah))
		rest := -1 // the zeros that are left: what makes up the full length
		for i := range ah {
			if !ah[i].explicit() && ah[i].src == nil {
				rest = i
			}
		}
		order := make([]int, 0, len(ah))
		for i := range ah {
			if i != rest {
				order = append(order, i)
			}
		}
		if rest >= 0 {
			order = append(order, rest)
		}
		for _, i := range order {
			g := ah[i]
			l := fmt.Sprintf("%s[%d]", loc, i)
			if g.explicit() {
				bs := make([]*Term, len(g.bytes))
				for k := range g.bytes {
					bs[k] = j.term(fmt.Sprintf("%s.%d", l, k), g.bytes[k], ab[i].bytes[k], types.Typ[types.Uint8])
				}
				out[i] = Seg{bytes: bs}
				continue
			}
			n := Seg{src: g.src, off: g.off}
			if g.src != nil {
				n.off = j.term(l+".off", g.off, ab[i].off, nil)
			}
			if i == rest && !j.collect && !bf.Equal(j.subst(g.n), ab[i].n) {
				left := h.Len()
				for k, o := range out {
					if k != rest {
						left = Sub(left, Seq{o}.Len())
					}
				}
				if left != g.n && bf.Equal(j.subst(left), ab[i].n) {
					j.changed = true
					n.n = left
					out[i] = n
					continue
				}
			}
			n.n = j.term(l+".n", g.n, ab[i].n, nil)
			out[i] = n
		}
		return out
	}
	if j.collect {
		return h
	}
	j.changed = true
	s := NewSrc("loop")
	s.top = true
	n := j.term(loc+".n", h.Len(), b.Len(), nil)
	return Seq{{src: s, off: TZero, n: n}}
}

func isAbsorbed(s Seq) bool {
	return len(s) == 1 && s[0].src != nil && s[0].src.tag != ""
}

// alignSeqs brings two sequences to the same shape, inserting empty ranges.
func alignSeqs(a, b Seq) (Seq, Seq, bool) {
	var oa, ob Seq
	i, k := 0, 0
	like := func(x, y Seg) bool {
		if x.explicit() || y.explicit() {
			return x.explicit() && y.explicit() && len(x.bytes) == len(y.bytes)
		}
		return x.src == y.src
	}
	for i < len(a) || k < len(b) {
		switch {
		case i < len(a) && k < len(b) && like(a[i], b[k]):
			oa, ob = append(oa, a[i]), append(ob, b[k])
			i++
			k++
		case k < len(b) && !b[k].explicit() && !containsLike(a[i:], b[k], like):
			// missing in a
			g := b[k]
			e := Seg{src: g.src, n: TZero}
			if g.src != nil {
				e.off = g.off
				if g.src.arr != nil {
					e.off = TZero
				}
			}
			oa, ob = append(oa, e), append(ob, g)
			k++
		case i < len(a) && !a[i].explicit() && !containsLike(b[k:], a[i], like):
			g := a[i]
			e := Seg{src: g.src, n: TZero}
			if g.src != nil {
				e.off = Add(g.off, g.n)
			}
			oa, ob = append(oa, g), append(ob, e)
			i++
		default:
			return nil, nil, false
		}
	}
	if len(oa) > 12 {
		return nil, nil, false
	}
	return oa, ob, true
}

func containsLike(s Seq, g Seg, like func(x, y Seg) bool) bool {
	for _, x := range s {
		if like(x, g) {
			return true
		}
	}
	return false
}

// guess sets up candidate facts about the unknowns of a head.
func (v *variant) guess(r *Run, h *ssa.BasicBlock) {
	v.cands = map[string]*Term{}
	es := v.entrySub()
	var terms []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if !seen[t] && hasHole(v, t) {
			seen[t] = true
			terms = append(terms, t)
		}
	}
	bounds := []*Term{TZero, TOne}
	bseen := map[*Term]bool{TZero: true, TOne: true}
	addB := func(t *Term) {
		if t != nil && !bseen[t] && !hasHole(v, t) && len(bounds) < 24 {
			bseen[t] = true
			bounds = append(bounds, t)
		}
	}
	for _, ho := range v.order {
		add(ho.sym)
		addB(ho.entry)
	}
	// what the loop compares with, and the values next to it
	var limits []*Term
	body := r.loopsOf(h.Parent())[h]
	for _, blk := range h.Parent().Blocks {
		if !body[blk] {
			continue
		}
		for _, in := range blk.Instrs {
			x, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch x.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ:
				for _, y := range []ssa.Value{x.X, x.Y} {
					if c, ok := y.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
						if n, exact := constant.Int64Val(c.Value); exact {
							for d := int64(-1); d <= 1; d++ {
								if t := Const(n + d); !bseen[t] && len(limits) < 12 {
									bseen[t] = true
									limits = append(limits, t)
								}
							}
						}
					}
				}
			}
		}
	}
	var scan func(x Val, d int)
	scanSeq := func(s Seq) {
		for _, g := range s {
			if !g.explicit() {
				add(g.n)
				addB(g.n)
				if g.src != nil {
					add(g.off)
					if g.src.pos != nil {
						add(g.src.pos)
					}
					if a := g.src.arr; a != nil {
						addB(a.n)
					}
				}
			}
		}
	}
	scan = func(x Val, d int) {
		switch y := x.(type) {
		case *Term:
			if y.k == KLt0 || y.k == KEq0 || y.k == KNot {
				return
			}
			add(y)
			addB(y)
		case SliceV:
			add(y.len)
			add(y.off)
			addB(y.len)
		case Str:
			scanSeq(y.s)
		case BufV:
			scanSeq(y.s)
		case BytesV:
			scanSeq(y.s)
		case InV:
			scanSeq(y.rest)
		case StructV:
			if d < 3 {
				for _, e := range y {
					scan(e, d+1)
				}
			}
		}
	}
	hd := v.head
	fr := hd.top()
	for _, k := range sortedVals(fr.env) {
		scan(fr.env[k], 0)
	}
	var os []*Obj
	for o := range hd.heap {
		os = append(os, o)
	}
	sort.Slice(os, func(a, b int) bool { return os[a].id < os[b].id })
	for _, o := range os {
		if _, isIn := hd.heap[o].(InV); isIn {
			continue
		}
		if o.global == nil {
			scan(hd.heap[o], 1)
		}
	}
	try := func(c *Term) {
		if c.isConst() {
			return
		}
		if ok, dec := v.entry.f.Decide(substTerm(c, es)); dec && ok {
			v.cands[c.String()+fmt.Sprint(c.id)] = c
		}
	}
	// ranges that are compared byte by byte
	for _, e := range v.inst.eqs {
		for _, ho := range v.order {
			n := Sub(ho.sym, e.at)
			if ho.loc != e.loc || hasHole(v, e.x) || hasHole(v, e.y) || hasHole(v, e.at) {
				continue
			}
			q := eqRange(e.p.a, e.x, e.p.b, e.y, n)
			try(q)
			try(Not(q))
			// from the end
			q = eqRange(e.p.a, AddC(Add(e.x, n), 1), e.p.b, AddC(Add(e.y, n), 1), Scale(-1, n))
			try(q)
			try(Not(q))
		}
	}
	for _, p := range collectors(h) {
		if t, ok := fr.env[p].(*Term); ok {
			if c := EqT(t, TZero); hasHole(v, c) {
				try(Not(c))
			}
		}
	}
	for _, t := range terms {
		for _, b := range bounds {
			try(Le(b, t))
			try(Le(t, b))
			try(Lt(t, b))
		}
		for _, b := range limits {
			for _, c := range []*Term{Le(b, t), Le(t, b)} {
				try(c)
				v.limits[c] = true
			}
		}
		for _, u := range terms {
			if t != u {
				try(Le(t, u))
			}
		}
	}
}

func sortedVals(m map[ssa.Value]Val) []ssa.Value {
	var vs []ssa.Value
	for x := range m {
		vs = append(vs, x)
	}
	sort.Slice(vs, func(a, b int) bool { return vs[a].Name() < vs[b].Name() })
	return vs
}

// ---------------------------------------------------------------- substitution

func substTerm(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	if r, ok := m[t]; ok {
		return r
	}
	switch t.k {
	case KApp:
		ch := false
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = substTerm(a, m)
			ch = ch || as[i] != a
		}
		if !ch {
			return t
		}
		if a := prefixArrs[t.name]; a != nil {
			return a.prefix(as[0])
		}
		return App(t.name, t.lo, t.hi, as...)
	case KLin:
		r := Const(t.c)
		for _, l := range t.lin {
			r = Add(r, Scale(l.c, substTerm(l.a, m)))
		}
		return r
	case KCat:
		ch := false
		for _, p := range t.cat {
			if p.x != nil && substTerm(p.x, m) != p.x {
				ch = true
			}
		}
		if !ch {
			return t
		}
		f := newFacts()
		r := TZero
		pos := 0
		for _, p := range t.cat {
			var q *Term
			if p.x == nil {
				q = Const(int64(p.c))
			} else {
				q = f.trunc(f.shr(substTerm(p.x, m), p.lo), p.n)
			}
			r = Add(r, f.shl(q, pos))
			pos += p.n
		}
		return f.simp(r)
	case KLt0:
		return mkLt0(substTerm(t.args[0], m))
	case KEq0:
		return mkEq0(substTerm(t.args[0], m))
	case KNot:
		return Not(substTerm(t.args[0], m))
	}
	return t
}

func substSeq(s Seq, m map[*Term]*Term) Seq {
	if len(m) == 0 {
		return s
	}
	out := make(Seq, len(s))
	for i, g := range s {
		if g.explicit() {
			bs := make([]*Term, len(g.bytes))
			for k, b := range g.bytes {
				bs[k] = substTerm(b, m)
			}
			out[i] = Seg{bytes: bs}
			continue
		}
		n := Seg{src: g.src, n: substTerm(g.n, m)}
		if g.src != nil {
			n.off = substTerm(g.off, m)
		}
		out[i] = n
	}
	return out
}

// solve replaces the unknowns of a loop that are determined where it is left.
func (st *State) solve(v *variant) {
	m := map[*Term]*Term{}
	for _, k := range st.f.keys {
		x, ok := st.f.m[k].single()
		if !ok {
			continue
		}
		_, ls := linOf(k)
		for _, l := range ls {
			if v.holes[l.a] == nil || m[l.a] != nil || l.c != 1 && l.c != -1 {
				continue
			}
			// x = c*a + rest  =>  a = c*(x - rest)
			e := st.f.normPrefix(Scale(l.c, Sub(Const(x), linComb(1, k, -l.c, l.a))))
			if !hasHole(v, e) {
				m[l.a] = e
			}
			break
		}
	}
	if len(m) == 0 {
		return
	}
	for _, k := range append([]*Term(nil), st.f.keys...) {
		set := st.f.m[k]
		if q := substTerm(k, m); q != k {
			st.f.restrict(q, func(s IvSet) IvSet { return s.intersect(set) })
		}
	}
	for _, fr := range st.frames {
		for x, val := range fr.env {
			fr.env[x] = st.f.substVal(val, m)
		}
	}
	for o, val := range st.heap {
		st.heap[o] = st.f.substVal(val, m)
	}
}

func (f *Facts) substVal(v Val, m map[*Term]*Term) Val {
	t := func(x *Term) *Term {
		if x == nil {
			return nil
		}
		if y := substTerm(x, m); y != x {
			return f.normPrefix(y)
		}
		return x
	}
	q := func(s Seq) Seq {
		s = substSeq(s, m)
		for i, g := range s {
			if !g.explicit() {
				s[i].n = f.normPrefix(g.n)
			}
		}
		return s
	}
	vals := func(vs []Val) []Val {
		out := make([]Val, len(vs))
		for i, x := range vs {
			out[i] = f.substVal(x, m)
		}
		return out
	}
	switch x := v.(type) {
	case *Term:
		return t(x)
	case Str:
		return Str{q(x.s)}
	case BytesV:
		return BytesV{q(x.s)}
	case Ptr:
		x.idx, x.nilc = t(x.idx), t(x.nilc)
		return x
	case SliceV:
		x.base.idx = t(x.base.idx)
		x.off, x.len, x.cap, x.nilc = t(x.off), t(x.len), t(x.cap), t(x.nilc)
		return x
	case StructV:
		return StructV(vals(x))
	case TupleV:
		return TupleV(vals(x))
	case ArrV:
		x.elems = vals(x.elems)
		return x
	case IfaceV:
		if x.v != nil {
			x.v = f.substVal(x.v, m)
		}
		x.nilc = t(x.nilc)
		return x
	case FuncV:
		x.nilc = t(x.nilc)
		return x
	case BufV:
		x.s = q(x.s)
		return x
	case RdV:
		x.s, x.full = q(x.s), q(x.full)
		return x
	case InV:
		x.rest, x.pos = q(x.rest), t(x.pos)
		return x
	}
	return v
}

func (v *variant) drop(k string, j *joiner) {
	v.dropped[k] = true
	if v.hurry && v.cands[k].k == KLt0 {
		// bounds that are weaker by a constant would follow one by one
		for l, t := range v.cands {
			if t.k == KLt0 && !v.dropped[l] && !v.limits[t] {
				if d := Sub(v.cands[k].args[0], t.args[0]); d.isConst() && d.c > 0 {
					v.dropped[l] = true
				}
			}
		}
	}
	if debugLoops {
		fmt.Fprintln(os.Stderr, "        drop", k, "as", j.subst(v.cands[k]), "is not known")
	}
}
