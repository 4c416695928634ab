package main

// What the checks of the properties have in common.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (c *Ctx) newRun() *Run {
	r := newRun(c.w)
	r.freeze = c.freeze
	return r
}

// an unknown implementation of an interface of another package.
func ioVal(r *Run, pkg, name, label string) IfaceV {
	t := r.extType(pkg, name)
	return IfaceV{sym: r.newSym(label, roleOf(t), t)}
}

func ioReader(r *Run, label string) IfaceV { return ioVal(r, "io", "Reader", label) }
func ioWriter(r *Run, label string) IfaceV { return ioVal(r, "io", "Writer", label) }
func ioConn(r *Run, label string) IfaceV   { return ioVal(r, "io", "ReadWriter", label) }

// typ looks a type up; a missing one is a violation (the rule cannot be applied).
func (c *Ctx) typ(rel, name string) types.Type {
	t := c.w.typ(rel, name)
	if t == nil {
		panic(fmt.Sprintf("there is no type %s.%s %v", rel, name, c.w.loadErrs))
	}
	return t
}

func (c *Ctx) fn(rel, name string) *ssa.Function {
	f := c.w.fn(rel, name)
	if f == nil {
		panic(fmt.Sprintf("there is no function %s.%s %v", rel, name, c.w.loadErrs))
	}
	return f
}

func (c *Ctx) method(t types.Type, name string) *ssa.Function {
	f := c.w.method(t, name)
	if f == nil {
		panic(fmt.Sprintf("%s has no method %s", t, name))
	}
	return f
}

// input makes an object with unknown content, an input of the analysis.
func (st *State) inputObj(t types.Type, name string) Ptr {
	o := newObj(t, name)
	o.sym = true
	st.content(o)
	return Ptr{obj: o}
}

// field reads a field by name, through embedded structs and pointers.
func (st *State) fieldAt(v Val, t types.Type, path ...string) (Val, types.Type) {
	for _, n := range path {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			ptr, isP := v.(Ptr)
			if !isP || ptr.obj == nil {
				return nil, nil
			}
			t = p.Elem()
			v = st.load(ptr, t)
		}
		i := fieldIndex(t, n)
		s, ok := v.(StructV)
		if i < 0 || !ok {
			return nil, nil
		}
		v, t = s[i], t.Underlying().(*types.Struct).Field(i).Type()
	}
	return v, t
}

// num reads a numeric field.
func (st *State) num(v Val, t types.Type, path ...string) *Term {
	x, _ := st.fieldAt(v, t, path...)
	if n, ok := x.(*Term); ok {
		return n
	}
	return nil
}

// setField stores into a field of the object behind p.
func (st *State) setField(p Ptr, t types.Type, v Val, path ...string) {
	for _, n := range path {
		i := fieldIndex(t, n)
		if i < 0 {
			panic(fmt.Sprintf("%s has no field %s", t, n))
		}
		p.path += fmt.Sprintf(".%d", i)
		t = t.Underlying().(*types.Struct).Field(i).Type()
	}
	st.store(p, v)
}

// written is what has been written to a writer, provided that all writes
// succeeded.
func written(evs []*Event, w IfaceV) (q Seq, n int, ok bool) {
	ok = true
	for _, e := range evs {
		if e.kind == "write" && e.data == w.sym {
			n++
			if !e.flag {
				ok = false
			}
			q = seqCat(q, e.seq)
		}
	}
	return q, n, ok
}

// consumed is how much has been read from a reader.
func (st *State) consumed(rd IfaceV) *Term { return st.input(rd.sym).pos }

func (st *State) failed() bool {
	for _, e := range st.evs {
		if e.kind == "fail" {
			return true
		}
	}
	return false
}

// isNil reports whether a value is known to be (not) nil.
func (st *State) isNil(v Val) (bool, bool) { return st.f.Decide(nilCond(v)) }

// errOf is the last result.
func errOf(v Val) Val {
	if t, ok := v.(TupleV); ok {
		return t[len(t)-1]
	}
	return v
}

// beBytes are the n low bytes of x, big-endian.
func (f *Facts) beBytes(x *Term, n int) Seq {
	bs := make([]*Term, n)
	for i := 0; i < n; i++ {
		bs[n-1-i] = f.trunc(f.shr(x, 8*i), 8)
	}
	return seqBytes(bs...)
}

func (f *Facts) leBytes(x *Term, n int) Seq {
	bs := make([]*Term, n)
	for i := 0; i < n; i++ {
		bs[i] = f.trunc(f.shr(x, 8*i), 8)
	}
	return seqBytes(bs...)
}

// beNum is the number that n bytes of a source spell out from an offset.
func (f *Facts) beNum(src *Src, off int64, n int) *Term {
	x := TZero
	for i := 0; i < n; i++ {
		x = Add(x, f.shl(sel(src, Const(off+int64(i))), 8*(n-1-i)))
	}
	return f.simp(x)
}

func (f *Facts) leNum(src *Src, off int64, n int) *Term {
	x := TZero
	for i := 0; i < n; i++ {
		x = Add(x, f.shl(sel(src, Const(off+int64(i))), 8*i))
	}
	return f.simp(x)
}

// ended judges how an operation ended; it returns the states that returned.
func (c *Ctx) ended(rule, what string, outs []*State) []*State {
	var out []*State
	for _, o := range outs {
		switch o.status {
		case Returned:
			out = append(out, o)
		case Panicked:
			c.fail(rule, what+" at "+o.r.posOf(o.at), o, "panics: %s", o.why)
		case Blocked:
			c.fail(rule, what, o, "waits for ever")
		}
	}
	return out
}

// setting: what an object is told to use is what it says it uses.
func (c *Ctx) setting(rule string, st *State, obj Val, what, set, get string, now *Term) {
	says := func(s *State, at string, want *Term) {
		for _, o := range c.ended(rule, at, s.r.callMethod(s.idle(), obj, get)) {
			t, ok := o.ret.(*Term)
			c.check(ok && o.f.Equal(t, want), rule, at, o, "%s is %s, expected %v", get, showVal(o.ret), want)
		}
	}
	says(st, what+", new", now)
	next := Fresh("next size", 1, 0x7fffffff)
	for _, o := range c.ended(rule, what+"."+set, st.r.callMethod(st.idle(), obj, set, next)) {
		says(o, what+", after "+set, next)
	}
}

func shortVals(vs ...Val) string {
	var ps []string
	for _, v := range vs {
		ps = append(ps, showVal(v))
	}
	return strings.Join(ps, ", ")
}

// chunkArg makes an arbitrary message: a chunk with a header of its own.
func (c *Ctx) chunkArg(st *State, name string) (ch, hd Ptr) {
	ct, ht := c.typ("chunk", "Chunk"), c.typ("chunk", "Header")
	ch = st.inputObj(ct, name)
	hd = st.inputObj(ht, name+".Header")
	st.setField(ch, ct, hd, "Header")
	return ch, hd
}

// bytesArg makes a byte slice with given content.
func (st *State) bytesArg(name string, q Seq) SliceV {
	s := st.bytesSlice(name, q)
	s.base.obj.sym = true
	return s
}

// ioTrace summarises what is read from and written to one connection: the
// lengths of the alternating runs of reads (R) and writes (W).
type ioRun struct {
	kind string
	n    *Term
}

func ioTrace(o *State, conn *SymObj) []ioRun {
	var out []ioRun
	add := func(kind string, n *Term) {
		if o.f.Equal(n, TZero) {
			return
		}
		if len(out) > 0 && out[len(out)-1].kind == kind {
			out[len(out)-1].n = Add(out[len(out)-1].n, n)
			return
		}
		out = append(out, ioRun{kind, n})
	}
	for _, e := range o.evs {
		if e.kind == "read" && e.obj != nil && e.obj == conn.obj {
			add("R", e.n)
		}
		if e.kind == "write" && e.data == conn {
			add("W", e.seq.Len())
		}
	}
	return out
}

func showTrace(t []ioRun) string {
	var ps []string
	for _, x := range t {
		ps = append(ps, fmt.Sprintf("%s%v", x.kind, x.n))
	}
	return strings.Join(ps, " ")
}

// typeName is the name of a type of the repository, without pointer.
func typeName(t types.Type) string {
	n := namedOf(t)
	return n[strings.LastIndex(n, ".")+1:]
}

// buffer is a bytes.Buffer with a content.
func (st *State) buffer(q Seq) IfaceV {
	t := st.r.extType("bytes", "Buffer")
	return IfaceV{typ: types.NewPointer(t), v: Ptr{obj: st.alloc(t, "input", BufV{s: q})}}
}
