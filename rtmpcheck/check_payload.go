package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C28: the memory of payloads.
//
// The memory of a slice is described by its region: the array that it points
// into, arrays which that one may share memory with (an append that may have
// been done in place, what Bytes of a buffer returns, the parts of a joined
// slice) and the buffer that owns it.

func region(o *Obj) map[*Obj]bool {
	out := map[*Obj]bool{}
	var walk func(o *Obj)
	walk = func(o *Obj) {
		if o == nil || out[o] {
			return
		}
		out[o] = true
		walk(o.alias)
		walk(o.owner)
		for _, p := range o.parts {
			walk(p)
		}
	}
	walk(o)
	return out
}

func meet(a, b map[*Obj]bool) *Obj {
	for o := range a {
		if b[o] {
			return o
		}
	}
	return nil
}

// piece is a slice of bytes that something holds.
type piece struct {
	where string
	s     SliceV
}

// holdings lists the byte slices and buffers that are reachable from values.
// What skip says about a field is left out.
func holdings(st *State, skip func(o *Obj, field string) bool, roots map[string]Val) (slices []piece, objs map[*Obj]string) {
	objs = map[*Obj]string{}
	var walk func(at string, v Val)
	visit := func(at string, o *Obj) {
		if o == nil {
			return
		}
		if _, ok := objs[o]; ok {
			return
		}
		objs[o] = at
		c, ok := st.heap[o]
		if !ok {
			return // untouched: unknown, and apart from everything else
		}
		if s, ok := c.(StructV); ok {
			fs := structFields(o.typ)
			for i, e := range s {
				f := fmt.Sprint(i)
				if i < len(fs) {
					f = fs[i].Name()
				}
				if skip == nil || !skip(o, f) {
					walk(at+"."+f, e)
				}
			}
			return
		}
		walk(at, c)
	}
	walk = func(at string, v Val) {
		switch x := v.(type) {
		case Ptr:
			visit(at, x.obj)
		case SliceV:
			if x.base.obj != nil && isByteArray(x.base.obj.typ) {
				slices = append(slices, piece{at, x})
			}
			visit(at, x.base.obj)
		case IfaceV:
			if x.typ != nil {
				walk(at, x.v)
			}
		case StructV:
			for i, e := range x {
				walk(fmt.Sprintf("%s.%d", at, i), e)
			}
		case TupleV:
			for i, e := range x {
				walk(fmt.Sprintf("%s.%d", at, i), e)
			}
		case ArrV:
			for _, e := range x.elems {
				walk(at+"[]", e)
			}
			if x.sym != nil {
				for _, e := range x.sym.vals {
					walk(at+"[]", e)
				}
			}
		case FuncV:
			for _, e := range x.binds {
				walk(at+"()", e)
			}
		case MapV:
			visit(at, x.obj)
		case *MapC:
			for _, es := range [][]MapEnt{x.looks, x.ents} {
				for _, e := range es {
					if !e.del {
						if _, _, gone := mapNow(st, x, e.k); !gone {
							walk(at+"[]", e.v)
						}
					}
				}
			}
		}
	}
	for at, v := range roots {
		walk(at, v)
	}
	return
}

// mapNow says whether a key is known to have been deleted from a map.
func mapNow(st *State, m *MapC, k Val) (v Val, present, gone bool) {
	for i := len(m.ents) - 1; i >= 0; i-- {
		if st.sameVal(m.ents[i].k, k) {
			return m.ents[i].v, !m.ents[i].del, m.ents[i].del
		}
	}
	return nil, false, false
}

func isByteArray(t types.Type) bool {
	a, ok := t.Underlying().(*types.Array)
	return ok && isByte(a.Elem())
}

// byteWrite is a write to the memory of bytes.
type byteWrite struct {
	st   *State
	e    *Event
	seq  int // place among the events of the path
	obj  *Obj
	from *Term
	past bool // an append: past the end of a slice that the writer holds
}

// byteWrites lists the writes on a path, those in its loops included.
func byteWrites(st *State, evs []*Event) []byteWrite {
	var out []byteWrite
	seen := map[*LoopInst]bool{}
	var in func(st *State, evs []*Event, at int)
	in = func(st *State, evs []*Event, at int) {
		for i, e := range evs {
			n := at
			if n < 0 {
				n = i
			}
			switch e.kind {
			case "bytewrite":
				out = append(out, byteWrite{st, e, n, e.obj, e.n, false})
			case "append":
				s, ok := e.val.(SliceV)
				if ok && e.flag && isByteArray(s.base.obj.typ) {
					past, _ := e.data.(bool)
					out = append(out, byteWrite{st, e, n, e.obj, Add(s.off, s.len), past})
				}
			case "loop":
				if e.loop != nil && !seen[e.loop] {
					seen[e.loop] = true
					for _, it := range e.loop.iters {
						in(it.st, it.evs, n)
					}
				}
			}
		}
	}
	in(st, evs, -1)
	return out
}

// payloadSlice is the payload of a chunk.
func (c *Ctx) payloadSlice(st *State, v Val) (SliceV, bool) {
	if iv, ok := v.(IfaceV); ok && iv.typ != nil {
		v = iv.v
	}
	p, ok := v.(Ptr)
	if !ok || p.obj == nil || namedOf(p.obj.typ) != namedOf(c.typ("chunk", "Chunk")) {
		return SliceV{}, false
	}
	d, _ := st.fieldAt(p, types.NewPointer(c.typ("chunk", "Chunk")), "Data")
	s, ok := d.(SliceV)
	return s, ok && s.base.obj != nil
}

// overwrites says whether a write may hit the bytes of a slice.
func (w *byteWrite) overwrites(st *State, s SliceV, reg map[*Obj]bool) bool {
	if w.obj == nil || meet(region(w.obj), reg) == nil {
		return false
	}
	if w.obj == s.base.obj && w.from != nil {
		// past its end
		if v, ok := st.f.Decide(Le(Add(s.off, s.len), w.from)); ok && v {
			return false
		}
	}
	return true
}

// keeper is what outlives an operation and may write to memory that it keeps.
type keeper struct {
	name   string // type, or global
	writes []string
	direct bool // not only past the end of what it holds
}

// memory judges the payloads that operations hand out.
type memory struct {
	c     *Ctx
	keeps map[string]*keeper
}

func (m *memory) keeper(name string) *keeper {
	k := m.keeps[name]
	if k == nil {
		k = &keeper{name: name}
		m.keeps[name] = k
	}
	return k
}

// old says whether an object was there before.
func oldObj(o *Obj, before map[*Obj]Val, mark int) bool {
	if o.global != nil || o.pooled || !o.fresh && (o.sym || o.id <= mark) {
		return true
	}
	if before != nil {
		_, ok := before[o]
		return ok
	}
	return o.id <= mark
}

// owners are what the operation works on: its receiver, its arguments, globals.
func owners(st *State, named map[string]Val) map[string]Val {
	out := map[string]Val{}
	for n, v := range named {
		out[n] = v
	}
	for o := range st.heap {
		if o.global != nil {
			out["global "+o.name] = Ptr{obj: o}
		}
	}
	return out
}

// note records which of the owners' memory is written to.
func (m *memory) note(st *State, r *Run, at string, named map[string]Val, ws []byteWrite, isOld func(o *Obj) bool) {
	for _, w := range ws {
		if w.obj == nil || !isOld(w.obj) {
			hit := false
			for o := range region(w.obj) {
				hit = hit || isOld(o)
			}
			if !hit {
				continue
			}
		}
		reg := region(w.obj)
		for name, v := range owners(w.st, named) {
			// with what was reachable at any time: memory that has been
			// cut loose is found by its symbolic origin
			_, objs := holdings(w.st, nil, map[string]Val{name: v})
			hit := false
			for o := range objs {
				hit = hit || meet(region(o), reg) != nil
			}
			if hit {
				k := m.keeper(name)
				k.writes = append(k.writes, at+" "+r.posOf(w.e.pos))
				k.direct = k.direct || !w.past
			}
		}
	}
}

// handed judges a payload that is handed out while its owners go on.
func (m *memory) handed(rule, at string, r *Run, st *State, s SliceV, named map[string]Val) {
	c := m.c
	reg := region(s.base.obj)
	ok := true
	for name, v := range owners(st, named) {
		k := m.keeps[name]
		if k == nil || len(k.writes) == 0 {
			continue
		}
		pieces, objs := holdings(st, nil, map[string]Val{name: v})
		shared := ""
		for o, where := range objs {
			if meet(region(o), reg) != nil {
				shared = where
			}
		}
		if shared == "" {
			continue
		}
		if !k.direct {
			// it only appends: harmless to what ends before
			safe := true
			for _, p := range pieces {
				if meet(region(p.s.base.obj), reg) == nil {
					continue
				}
				v, dec := st.f.Decide(Le(Add(s.off, s.len), Add(p.s.off, p.s.len)))
				safe = safe && p.s.base.obj == s.base.obj && dec && v
			}
			if safe {
				continue
			}
		}
		ok = false
		c.check(false, rule, at, st, "the payload is kept in %s, which is written to at %s", shared, k.writes[0])
	}
	for o := range reg {
		if o.pooled {
			ok = false
			c.check(false, rule, at, st, "the payload is memory of a pool")
		}
	}
	if ok {
		c.check(true, rule, at, st, "")
	}
}

// returned are the payloads among the results of a function.
func (c *Ctx) returned(o *State, sig *types.Signature) []SliceV {
	var out []SliceV
	vals := []Val{o.ret}
	if t, ok := o.ret.(TupleV); ok {
		vals = t
	}
	for i := 0; i < sig.Results().Len() && i < len(vals); i++ {
		t := sig.Results().At(i).Type()
		if namedOf(t) == namedOf(c.typ("chunk", "Chunk")) {
			if s, ok := c.payloadSlice(o, vals[i]); ok {
				out = append(out, s)
			}
		}
		if sl, ok := t.Underlying().(*types.Slice); ok && isByte(sl.Elem()) {
			if s, ok := vals[i].(SliceV); ok && s.base.obj != nil {
				out = append(out, s)
			}
		}
	}
	return out
}

func (c *Ctx) handsOut(fn *ssa.Function) bool {
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		if namedOf(t) == namedOf(c.typ("chunk", "Chunk")) {
			return true
		}
		if sl, ok := t.Underlying().(*types.Slice); ok && isByte(sl.Elem()) {
			return true
		}
	}
	return false
}

func runC28(c *Ctx) {
	c.reusedPayloads()
	c.readerPayloads()
}

// named gives the arguments of an operation names that other operations on the
// same type share.
func (x *opRun) named() map[string]Val {
	out := map[string]Val{}
	for i, p := range x.op.fn.Params {
		if i < len(x.args) {
			n := typeName(p.Type())
			if _, dup := out[n]; dup {
				n = fmt.Sprintf("%s (%s)", n, p.Name())
			}
			out[n] = x.args[i]
		}
	}
	return out
}

// reusedPayloads judges what operations return, write and are given.
func (c *Ctx) reusedPayloads() {
	m := &memory{c: c, keeps: map[string]*keeper{}}
	cn := namedOf(c.typ("chunk", "Chunk"))
	var runs []*opRun
	var ops []operation
	for _, op := range c.operations(func(*ssa.Function) bool { return true }) {
		ops = append(ops, op)
		if op.fn.Signature.Recv() != nil {
			op.made = false // with a past
			ops = append(ops, op)
		}
	}
	for _, op := range ops {
		x := c.runOp(op)
		runs = append(runs, x)
		if len(x.args) == 0 && len(op.fn.Params) > 0 {
			continue // loops, and the writer: below
		}
		for _, o := range x.outs {
			ws := byteWrites(o, o.evs)
			// what an operation is handed by its caller is made after the mark
			isOld := func(b *Obj) bool { return b.global != nil || b.pooled || b.sym || !b.fresh || x.before[b] }
			m.note(o, x.r, op.name, x.named(), ws, isOld)
			// a chunk that is given is not written to
			for _, a := range x.args {
				p, ok := a.(Ptr)
				if !ok || p.obj == nil || namedOf(p.obj.typ) != cn {
					continue
				}
				s, ok := c.payloadSlice(o, p)
				if !ok {
					continue
				}
				reg := region(s.base.obj)
				bad := false
				for _, w := range ws {
					if w.overwrites(o, s, reg) {
						bad = true
						c.check(false, "given", op.name, o, "writes to the payload that it is given at %s", x.r.posOf(w.e.pos))
					}
				}
				if !bad {
					c.count("given", true)
				}
			}
		}
	}
	for _, x := range runs {
		if !c.handsOut(x.op.fn) || len(x.args) == 0 && len(x.op.fn.Params) > 0 {
			continue
		}
		for _, o := range x.outs {
			if o.status != Returned {
				continue
			}
			for _, s := range c.returned(o, x.op.fn.Signature) {
				m.handed("made", x.op.name, x.r, o, s, x.named())
			}
		}
		if x.op.made {
			c.end(x.r)
		}
	}
	// writing
	for _, format := range []int64{0, 3} {
		wr := c.writeMessage(format, csidClasses[len(csidClasses)-1], true)
		for _, o := range wr.outs {
			s, ok := c.payloadSlice(o, wr.chunk)
			if !ok {
				continue
			}
			reg := region(s.base.obj)
			bad := false
			for _, w := range byteWrites(o, o.evs) {
				if w.overwrites(w.st, s, reg) {
					bad = true
					c.check(false, "given", "chunk.DefaultWriter.Write", o, "writes to the payload at %s", wr.r.posOf(w.e.pos))
				}
			}
			if !bad {
				c.count("given", true)
			}
		}
		c.end(wr.r)
	}
	// the loops of the services
	for _, v := range services {
		s := c.runService(v, false)
		ms := &memory{c: c, keeps: map[string]*keeper{}}
		named := map[string]Val{v.name: s.recv}
		isOld := func(x *svcIter) func(o *Obj) bool {
			return func(o *Obj) bool { return oldObj(o, x.head.heap, -1) }
		}
		for _, x := range s.iters {
			ms.note(x.st, s.r, s.at(x), named, byteWrites(x.st, x.evs), isOld(x))
		}
		for _, x := range s.iters {
			ws := byteWrites(x.st, x.evs)
			for _, it := range x.items {
				d, ok := c.payloadSlice(x.st, it.val)
				if !ok {
					continue
				}
				reg := region(d.base.obj)
				bad := false
				for _, w := range ws {
					if w.overwrites(w.st, d, reg) {
						bad = true
						c.check(false, "given", s.at(x), x.st, "writes to the payload at %s", s.r.posOf(w.e.pos))
					}
				}
				if !bad {
					c.count("given", true)
				}
			}
			for _, w := range x.writes {
				for _, a := range w.args {
					if d, ok := c.payloadSlice(x.st, a); ok {
						ms.handed("made", s.at(x), s.r, x.st, d, named)
					}
				}
			}
		}
		c.end(s.r)
	}
}

// readerPayloads judges what the chunk reader delivers and collects.
func (c *Ctx) readerPayloads() {
	rr := c.recv()
	bn := namedOf(c.typ("chunk", "Builder"))
	m := &memory{c: c, keeps: map[string]*keeper{}}
	named := map[string]Val{"reader": rr.rd}
	isOld := func(x *recvIter) func(o *Obj) bool {
		return func(o *Obj) bool { return oldObj(o, x.head.heap, -1) }
	}
	for _, x := range rr.iters {
		m.note(x.st, rr.r, "DefaultReader.Recv", named, byteWrites(x.st, x.evs), isOld(x))
	}
	for _, x := range rr.iters {
		at := "DefaultReader.Recv"
		for _, e := range x.chunks {
			s, ok := c.payloadSlice(x.st, e.val)
			if !ok {
				continue
			}
			m.handed("delivered", at, rr.r, x.st, s, named)
			// nothing is written to it once it has been sent
			sent := 0
			for i, y := range x.evs {
				if y == e {
					sent = i
				}
			}
			reg := region(s.base.obj)
			for _, w := range byteWrites(x.st, x.evs) {
				if w.seq > sent && w.overwrites(x.st, s, reg) {
					c.check(false, "delivered", at, x.st, "written to at %s after it has been delivered", rr.r.posOf(w.e.pos))
				}
			}
		}
		// what a builder collects is its own
		direct := ""
		for _, k := range m.keeps {
			if len(k.writes) > 0 {
				direct = k.writes[0]
			}
		}
		skip := func(o *Obj, field string) bool { return namedOf(o.typ) == bn && field == "Payloads" }
		_, rest := holdings(x.st, skip, owners(x.st, named))
		seen := map[*Obj]bool{}
		for o := range holdingsOf(x.st, owners(x.st, named)) {
			if namedOf(o.typ) != bn || seen[o] {
				continue
			}
			seen[o] = true
			v, ok := x.st.heap[o]
			if !ok {
				continue
			}
			pv, _ := x.st.fieldAt(v, o.typ, "Payloads")
			parts, _ := holdings(x.st, nil, map[string]Val{"payloads": pv})
			for i, p := range parts {
				reg := region(p.s.base.obj)
				where := ""
				for q, w := range rest {
					if meet(region(q), reg) != nil {
						where = w
					}
				}
				for _, q := range parts[:i] {
					if q.s.base.obj != p.s.base.obj && meet(region(q.s.base.obj), reg) != nil {
						where = "another part of the payload"
					}
				}
				for q := range reg {
					if q.pooled {
						where = "a pool"
					}
				}
				c.check(where == "" || direct == "", "collected", at, x.st, "a part of a payload is kept in %s, too, which is written to at %s", where, direct)
			}
		}
	}
	c.end(rr.r)
}

func holdingsOf(st *State, roots map[string]Val) map[*Obj]string {
	_, objs := holdings(st, nil, roots)
	return objs
}

func init() {
	checks["C28"] = &checkDef{run: runC28, title: "payload memory",
		rule: "For every byte slice the analysis knows the array that it points into and those that it may share memory with (appends in place, buffers, joined slices). " +
			"A payload that an operation returns, the writer is given by a service loop or the chunk reader delivers must not be memory that is still reachable from the operation's receiver, its arguments, the reader or a global, if any operation on these writes to such memory; no operation writes to the payload of a chunk that it is given; the reader does not write to a payload after sending it, and what a builder collects is reachable through that builder alone.",
		needs: map[string]int{"made": 10, "given": 10, "delivered": 2, "collected": 2}}
}
