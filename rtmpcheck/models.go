package main

// Models of the functions outside of the repository that it uses.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type modelFn func(st *State, fn *ssa.Function, args []Val) []Out

var models map[string]modelFn

func one(st *State, v Val) []Out { return []Out{{st, v}} }

func tup(vs ...Val) Val { return TupleV(vs) }

// split2 forks into a success and a failure.
func (st *State) split2(what string) (ok, bad *State) {
	bad = st.fork()
	st.trail = append(st.trail, what+" succeeds")
	bad.trail = append(bad.trail, what+" fails")
	return st, bad
}

// fail records a failed operation and makes its error.
func (st *State) fail(kind, what string) IfaceV {
	er := st.r.symErr("error of " + what)
	e := st.ev("fail")
	e.name = kind
	e.val = er
	return er
}

func asTerm(v Val) *Term {
	if t, ok := v.(*Term); ok {
		return t
	}
	return Fresh("n", negInf, posInf)
}

func (r *Run) extType(pkg, name string) types.Type {
	p := r.w.pkgs[pkg]
	if p == nil || p.Type(name) == nil {
		return nil
	}
	return p.Type(name).Type()
}

// globalVal is the value of another package's variable.
func (st *State) globalVal(pkg, name string) Val {
	p := st.r.w.pkgs[pkg]
	if p == nil || p.Var(name) == nil {
		st.undecided("no variable %s.%s", pkg, name)
		return st.r.symErr(name)
	}
	o := st.r.globalObj(p.Var(name))
	st.r.initGlobal(st, o)
	return st.heap[o]
}

// ---------------------------------------------------------------- sources

// source is what can be read from.
type source struct {
	sym *SymObj // unknown reader
	ptr Ptr     // *bytes.Buffer or *bytes.Reader
	buf bool
}

func (st *State) sourceOf(v Val) (source, bool) {
	iv, ok := v.(IfaceV)
	if !ok {
		if p, ok := v.(Ptr); ok {
			return st.sourcePtr(p)
		}
		return source{}, false
	}
	if iv.sym != nil {
		switch iv.sym.role {
		case "reader", "conn", "random":
			return source{sym: iv.sym}, true
		}
		return source{}, false
	}
	if p, ok := iv.v.(Ptr); ok {
		return st.sourcePtr(p)
	}
	return source{}, false
}

func (st *State) sourcePtr(p Ptr) (source, bool) {
	if p.obj == nil {
		return source{}, false
	}
	c, ok := getPath(st.content(p.obj), splitPath(p.path))
	if !ok {
		return source{}, false
	}
	switch c.(type) {
	case BufV:
		return source{ptr: p, buf: true}, true
	case RdV:
		return source{ptr: p}, true
	}
	return source{}, false
}

// input is the state of an unknown source.
func (st *State) input(s *SymObj) InV {
	if s.obj == nil {
		s.obj = newObj(types.Typ[types.Int], "state of "+s.name)
		src := NewSrc(s.name)
		s.data2 = src
		s.obj.init = InV{rest: seqRange(src, TZero, Fresh("len("+s.name+")", 1<<40, 1<<41)), pos: TZero}
	}
	v, _ := st.content(s.obj).(InV)
	return v
}

// inputSeq presets what an unknown source will deliver first.
func (st *State) presetInput(s *SymObj, q Seq) {
	in := st.input(s)
	in.rest = seqCat(q, in.rest)
	st.heap[s.obj] = in
}

// avail is what a modelled source holds.
func (st *State) avail(s source) Seq {
	c, _ := getPath(st.content(s.ptr.obj), splitPath(s.ptr.path))
	switch x := c.(type) {
	case BufV:
		return x.s
	case RdV:
		return x.s
	}
	return nil
}

// rewound says that what Bytes of a buffer returned may be overwritten.
func (st *State) rewound(buf *Obj) {
	e := st.ev("bytewrite")
	e.obj = buf
	e.name = "buffer"
}

// below says that a buffer writes to the array that it was made from.
func (st *State) below(b BufV) {
	o := b.root.obj
	if o == nil {
		return
	}
	if o.global != nil {
		st.r.initGlobal(st, o)
	}
	e := st.ev("bytewrite")
	e.obj = o
	e.n = b.from
	e.name = "buffer"
	old := st.content(o)
	steps := splitPath(b.root.path)
	v, _ := getPath(old, steps)
	c, ok := v.(BytesV)
	if !ok {
		return
	}
	n := c.s.Len()
	var keep Seq
	if b.from != nil {
		if q, ok := st.f.sub(c.s, TZero, b.from); ok {
			keep = q
			n = Sub(n, b.from)
		}
	}
	if nv, ok := setPath(old, steps, BytesV{seqCat(keep, seqRange(NewSrc("overwritten"), TZero, n))}); ok {
		st.heap[o] = nv
	}
}

func (st *State) setAvail(s source, q Seq) {
	old := st.content(s.ptr.obj)
	c, _ := getPath(old, splitPath(s.ptr.path))
	switch x := c.(type) {
	case BufV:
		x.s = q
		x.dirty = true
		x.from = nil
		st.rewound(s.ptr.obj)
		c = x
	case RdV:
		x.s = q
		c = x
	}
	nv, _ := setPath(old, splitPath(s.ptr.path), c)
	st.heap[s.ptr.obj] = nv
}

// take reads exactly n bytes: the states where that succeeds, and where not.
func (st *State) take(s source, n *Term, what string) (ok *State, q Seq, bad *State, er IfaceV) {
	if s.sym != nil {
		if s.sym.role == "random" {
			src := NewSrc("random")
			src.tag = "random"
			e := st.ev("random")
			e.n = n
			e.seq = seqRange(src, TZero, n)
			return st, e.seq, nil, errNil
		}
		st.input(s.sym)
		ok, bad = st.split2("reading from " + s.sym.name)
		// failure
		in := bad.input(s.sym)
		in.failed = true
		bad.heap[s.sym.obj] = in
		er = bad.fail("read", "reading from "+s.sym.name)
		bad.evs[len(bad.evs)-1].data = s.sym
		// success
		in = ok.input(s.sym)
		a, rest, found := ok.f.split(in.rest, n)
		if !found {
			a = seqRange(ok.r.namedSrc(fmt.Sprintf("take:%s@%d+%d", in.rest.key(), in.pos.id, n.id)), TZero, n)
			rest = seqRange(ok.r.namedSrc(fmt.Sprintf("rest:%s@%d+%d", in.rest.key(), in.pos.id, n.id)), TZero, Fresh("len", 1<<40, 1<<41))
		}
		e := ok.ev("read")
		e.obj = s.sym.obj
		e.n = n
		e.seq = a
		e.name = s.sym.name
		e.data = in.pos
		in.rest = rest
		in.pos = Add(in.pos, n)
		ok.heap[s.sym.obj] = in
		return ok, a, bad, er
	}
	av := st.avail(s)
	ok, bad = st.branch(Le(n, av.Len()), "enough bytes")
	if bad != nil {
		bad.setAvail(s, nil)
		e := bad.ev("fail")
		e.name = "read"
		er = bad.r.symErr("unexpected EOF")
		e.val = er
	}
	if ok != nil {
		a, rest, found := ok.f.split(av, n)
		if !found {
			a = seqRange(ok.r.namedSrc(fmt.Sprintf("take:%s+%d", av.key(), n.id)), TZero, n)
			rest = seqRange(ok.r.namedSrc(fmt.Sprintf("rest:%s+%d", av.key(), n.id)), TZero, Sub(av.Len(), n))
		}
		ok.setAvail(s, rest)
		e := ok.ev("bufread")
		e.n = n
		e.seq = a
		e.obj = s.ptr.obj
		q = a
	}
	return ok, q, bad, er
}

// takeAll reads to the end.
func (st *State) takeAll(s source, what string) (ok *State, q Seq, bad *State, er IfaceV) {
	if s.sym != nil {
		st.input(s.sym)
		return st.take(s, Fresh("remaining", 0, 1<<40), what)
	}
	q = st.avail(s)
	st.setAvail(s, nil)
	return st, q, nil, errNil
}

// rawRead is one call of Read: any number of bytes.
func (st *State) rawRead(s source, buf SliceV) []Out {
	var outs []Out
	if s.sym != nil && s.sym.role != "random" {
		st.blocking() // nobody knows how many reads it takes
		full, short := st, st.fork()
		short.trail = append(short.trail, "short read from "+s.sym.name)
		// short, without an error
		k := Fresh("short", 0, 1<<40)
		st.r.nSplits++
		if short.assume(Lt(k, buf.len), true) {
			in := short.input(s.sym)
			a, rest, found := short.f.split(in.rest, k)
			if !found {
				a = seqRange(NewSrc("short"), TZero, k)
				rest = seqRange(NewSrc("rest"), TZero, Fresh("len", 1<<40, 1<<41))
			}
			short.setSlice(buf, TZero, a)
			e := short.ev("read")
			e.obj = s.sym.obj
			e.n = k
			e.seq = a
			e.name = s.sym.name
			e.flag = true
			in.rest = rest
			in.pos = Add(in.pos, k)
			short.heap[s.sym.obj] = in
			outs = append(outs, Out{short, tup(k, errNil)})
		}
		ok, q, bad, er := full.take(s, buf.len, "read")
		if bad != nil {
			m := Fresh("partial", 0, 1<<40)
			bad.assume(Lt(m, buf.len), true)
			bad.setSlice(buf, TZero, seqRange(NewSrc("partial"), TZero, m))
			outs = append(outs, Out{bad, tup(m, er)})
		}
		if ok != nil {
			ok.setSlice(buf, TZero, q)
			outs = append(outs, Out{ok, tup(buf.len, errNil)})
		}
		return outs
	}
	if s.sym != nil {
		ok, q, _, _ := st.take(s, buf.len, "random")
		ok.setSlice(buf, TZero, q)
		return []Out{{ok, tup(buf.len, errNil)}}
	}
	// a buffer: min(len(buf), available); EOF when empty
	av := st.avail(s).Len()
	empty, some := st.branch(EqT(av, TZero), "")
	if empty != nil {
		zero, more := empty.branch(EqT(buf.len, TZero), "")
		if zero != nil {
			outs = append(outs, Out{zero, tup(TZero, errNil)})
		}
		if more != nil {
			e := more.ev("fail")
			e.name = "read"
			er := more.globalVal("io", "EOF")
			e.val = er
			outs = append(outs, Out{more, tup(TZero, er)})
		}
	}
	if some != nil {
		all, part := some.branch(Le(buf.len, av), "")
		if all != nil {
			ok, q, _, _ := all.take(s, buf.len, "read")
			if ok != nil {
				ok.setSlice(buf, TZero, q)
				outs = append(outs, Out{ok, tup(buf.len, errNil)})
			}
		}
		if part != nil {
			ok, q, _, _ := part.take(s, av, "read")
			if ok != nil {
				ok.setSlice(buf, TZero, q)
				outs = append(outs, Out{ok, tup(av, errNil)})
			}
		}
	}
	return outs
}

// readFull is io.ReadFull.
func (st *State) readFull(r Val, buf SliceV, min *Term) []Out {
	s, ok := st.sourceOf(r)
	if !ok {
		st.undecided("reading from %s", showVal(r))
		st.setSlice(buf, TZero, seqRange(NewSrc("read"), TZero, buf.len))
		return st.symResults(st.r.sigReadFull(), "io.ReadFull")
	}
	if st.f.Equal(buf.len, TZero) {
		return one(st, tup(TZero, errNil))
	}
	var outs []Out
	if v, dec := st.f.Decide(EqT(buf.len, TZero)); !dec || v {
		z, nz := st.branch(EqT(buf.len, TZero), "")
		if z != nil {
			outs = append(outs, Out{z, tup(TZero, errNil)})
		}
		if nz == nil {
			return outs
		}
		st = nz
	}
	good, q, bad, er := st.take(s, buf.len, "io.ReadFull")
	if bad != nil {
		m := Fresh("partial", 0, 1<<40)
		bad.assume(Lt(m, buf.len), true)
		bad.setSlice(buf, TZero, seqRange(NewSrc("partial"), TZero, m))
		outs = append(outs, Out{bad, tup(m, er)})
	}
	if good != nil {
		good.setSlice(buf, TZero, q)
		outs = append(outs, Out{good, tup(buf.len, errNil)})
	}
	return outs
}

func (r *Run) sigReadFull() *types.Signature {
	return r.w.pkgs["io"].Func("ReadFull").Signature
}

func (st *State) readByteFrom(s source) []Out {
	ok, q, bad, er := st.take(s, TOne, "ReadByte")
	var outs []Out
	if bad != nil {
		outs = append(outs, Out{bad, tup(TZero, er)})
	}
	if ok != nil {
		b, found := ok.f.byteAt(q, TZero)
		if !found {
			b = Fresh("byte", 0, 255)
		}
		outs = append(outs, Out{ok, tup(b, errNil)})
	}
	return outs
}

// ---------------------------------------------------------------- sinks

// writeTo writes bytes to a writer: (n, err).
func (st *State) writeTo(w Val, q Seq, base *Obj) []Out {
	iv, ok := w.(IfaceV)
	if ok && iv.typ != nil {
		if p, ok := iv.v.(Ptr); ok {
			return st.writePtr(p, iv, q, base)
		}
	}
	if p, ok := w.(Ptr); ok {
		return st.writePtr(p, IfaceV{}, q, base)
	}
	if ok && iv.sym != nil {
		switch iv.sym.role {
		case "writer", "conn":
			n := q.Len()
			good, bad := st.split2("writing to " + iv.sym.name)
			e := good.ev("write")
			e.name = iv.sym.name
			e.seq = q
			e.obj = base
			e.n = n
			e.data = iv.sym
			e.flag = true
			e = bad.ev("write")
			e.name = iv.sym.name
			e.seq = q
			e.obj = base
			e.n = n
			e.data = iv.sym
			er := bad.fail("write", "writing to "+iv.sym.name)
			bad.evs[len(bad.evs)-1].data = iv.sym
			m := Fresh("written", 0, 1<<41)
			bad.assume(Le(m, n), true)
			return []Out{{good, tup(n, errNil)}, {bad, tup(m, er)}}
		}
	}
	if nilCond(w) == TTrue {
		st.panics("write to a nil writer")
		return one(st, nil)
	}
	st.undecided("writing to %s", showVal(w))
	return st.symResults(st.r.w.pkgs["bytes"].Func("NewBuffer").Signature, "Write")
}

func (st *State) writePtr(p Ptr, iv IfaceV, q Seq, base *Obj) []Out {
	if p.obj == nil {
		st.panics("write to a nil buffer")
		return one(st, nil)
	}
	old := st.content(p.obj)
	c, _ := getPath(old, splitPath(p.path))
	b, ok := c.(BufV)
	if !ok {
		// a writer of the repository
		if iv.typ != nil {
			if fn := st.r.w.prog.LookupMethod(iv.typ, nil, "Write"); fn != nil && fn.Blocks != nil && st.r.inline(fn) {
				sl := st.bytesSlice("write", q)
				return st.invoke(fn, nil, []Val{p, sl}, nil, nil)
			}
		}
		st.undecided("writing to %s", showVal(p))
		return one(st, tup(q.Len(), errNil))
	}
	if b.dirty {
		st.rewound(p.obj)
		st.below(b)
	}
	b.s = seqCat(b.s, q)
	nv, _ := setPath(old, splitPath(p.path), b)
	st.heap[p.obj] = nv
	return one(st, tup(q.Len(), errNil))
}

// ---------------------------------------------------------------- ioCall

// ioCall calls a method of an unknown reader, writer or connection.
func (st *State) ioCall(s *SymObj, method string, sig *types.Signature, args []Val) ([]Out, bool) {
	rd := s.role == "reader" || s.role == "conn" || s.role == "random"
	wr := s.role == "writer" || s.role == "conn"
	switch {
	case rd && method == "Read" && len(args) == 1:
		if b, ok := args[0].(SliceV); ok {
			return st.rawRead(source{sym: s}, b), true
		}
	case rd && method == "ReadByte" && len(args) == 0:
		st.r.nSplits++
		return st.readByteFrom(source{sym: s}), true
	case wr && method == "Write" && len(args) == 1:
		if b, ok := args[0].(SliceV); ok {
			return st.writeTo(IfaceV{sym: s}, st.sliceSeq(b), b.base.obj), true
		}
	case wr && method == "WriteByte" && len(args) == 1:
		outs := st.writeTo(IfaceV{sym: s}, seqBytes(asTerm(args[0])), nil)
		for i := range outs {
			if t, ok := outs[i].val.(TupleV); ok {
				outs[i].val = t[1]
			}
		}
		return outs, true
	case wr && method == "WriteString" && len(args) == 1:
		if b, ok := args[0].(Str); ok {
			return st.writeTo(IfaceV{sym: s}, b.s, nil), true
		}
	}
	return nil, false
}

// ---------------------------------------------------------------- binary

// binSize is the encoded size of a fixed-size type, or -1.
func binSize(t types.Type) int64 {
	if w, _, _, _, ok := intRange(t); ok {
		if b, ok := t.Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Int, types.Uint, types.Uintptr:
				return -1
			case types.Bool:
				return 1
			}
		}
		return int64(w / 8)
	}
	switch u := t.Underlying().(type) {
	case *types.Array:
		if n := binSize(u.Elem()); n >= 0 {
			return n * u.Len()
		}
	case *types.Struct:
		var s int64
		for i := 0; i < u.NumFields(); i++ {
			n := binSize(u.Field(i).Type())
			if n < 0 {
				return -1
			}
			s += n
		}
		return s
	}
	return -1
}

func (st *State) binEncode(t types.Type, v Val, big bool) (Seq, bool) {
	if w, _, _, _, ok := intRange(t); ok {
		x, ok := v.(*Term)
		if !ok {
			return nil, false
		}
		n := w / 8
		if n == 0 {
			n = 1
		}
		bs := make([]*Term, n)
		for i := 0; i < n; i++ {
			b := st.f.trunc(st.f.shr(x, 8*i), 8)
			if big {
				bs[n-1-i] = b
			} else {
				bs[i] = b
			}
		}
		return seqBytes(bs...), true
	}
	switch x := v.(type) {
	case BytesV:
		return x.s, true
	case ArrV:
		if x.sym != nil {
			return nil, false
		}
		var q Seq
		for _, e := range x.elems {
			p, ok := st.binEncode(x.elem, e, big)
			if !ok {
				return nil, false
			}
			q = seqCat(q, p)
		}
		return q, true
	case StructV:
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil, false
		}
		var q Seq
		for i, e := range x {
			p, ok := st.binEncode(s.Field(i).Type(), e, big)
			if !ok {
				return nil, false
			}
			q = seqCat(q, p)
		}
		return q, true
	}
	return nil, false
}

func (st *State) binDecode(t types.Type, q Seq, big bool) (Val, bool) {
	if w, signed, lo, hi, ok := intRange(t); ok {
		n := w / 8
		if n == 0 {
			n = 1
		}
		x := TZero
		for i := 0; i < n; i++ {
			at := i
			if big {
				at = n - 1 - i
			}
			b, ok := st.f.byteAt(q, Const(int64(at)))
			if !ok {
				return nil, false
			}
			x = Add(x, st.f.shl(b, 8*i))
		}
		x = st.f.simp(x)
		if signed && n < 8 {
			x = st.wrap(x, w, true, lo, hi)
		}
		return x, true
	}
	switch u := t.Underlying().(type) {
	case *types.Array:
		if isByte(u.Elem()) {
			return BytesV{q}, true
		}
		es := binSize(u.Elem())
		a := ArrV{elem: u.Elem()}
		for i := int64(0); i < u.Len(); i++ {
			p, ok := st.f.sub(q, Const(i*es), Const((i+1)*es))
			if !ok {
				return nil, false
			}
			e, ok := st.binDecode(u.Elem(), p, big)
			if !ok {
				return nil, false
			}
			a.elems = append(a.elems, e)
		}
		return a, true
	case *types.Struct:
		s := make(StructV, u.NumFields())
		at := int64(0)
		for i := range s {
			n := binSize(u.Field(i).Type())
			p, ok := st.f.sub(q, Const(at), Const(at+n))
			if !ok {
				return nil, false
			}
			e, ok := st.binDecode(u.Field(i).Type(), p, big)
			if !ok {
				return nil, false
			}
			s[i] = e
			at += n
		}
		return s, true
	}
	return nil, false
}

func byteOrder(v Val) (big, ok bool) {
	iv, isI := v.(IfaceV)
	if !isI || iv.typ == nil {
		return false, false
	}
	switch namedOf(iv.typ) {
	case "encoding/binary.bigEndian":
		return true, true
	case "encoding/binary.littleEndian":
		return false, true
	}
	return false, false
}

func modelBinaryRead(st *State, fn *ssa.Function, args []Val) []Out {
	big, ok := byteOrder(args[1])
	d, _ := args[2].(IfaceV)
	if !ok || d.typ == nil {
		st.undecided("binary.Read with order %s into %s", showVal(args[1]), showVal(args[2]))
		return st.symResults(fn.Signature, "binary.Read")
	}
	s, found := st.sourceOf(args[0])
	if !found {
		st.undecided("binary.Read from %s", showVal(args[0]))
		return st.symResults(fn.Signature, "binary.Read")
	}
	switch dst := d.v.(type) {
	case Ptr:
		pt, ok := d.typ.Underlying().(*types.Pointer)
		n := int64(-1)
		if ok {
			n = binSize(pt.Elem())
		}
		if n < 0 {
			st.undecided("binary.Read into %s", d.typ)
			return st.symResults(fn.Signature, "binary.Read")
		}
		good, q, bad, er := st.take(s, Const(n), "binary.Read")
		var outs []Out
		if bad != nil {
			outs = append(outs, Out{bad, er})
		}
		if good != nil {
			v, ok := good.binDecode(pt.Elem(), q, big)
			if !ok {
				good.undecided("binary.Read into %s", d.typ)
				v = good.r.symVal(pt.Elem(), "binary.Read", nil)
			}
			good.accessed(dst, true)
			good.store(dst, v)
			outs = append(outs, Out{good, errNil})
		}
		return outs
	case SliceV:
		if sl, ok := d.typ.Underlying().(*types.Slice); ok && isByte(sl.Elem()) {
			outs := st.readFull(args[0], dst, dst.len)
			for i := range outs {
				if t, ok := outs[i].val.(TupleV); ok {
					outs[i].val = t[1]
				}
			}
			return outs
		}
	}
	st.undecided("binary.Read into %s", d.typ)
	return st.symResults(fn.Signature, "binary.Read")
}

func modelBinaryWrite(st *State, fn *ssa.Function, args []Val) []Out {
	big, ok := byteOrder(args[1])
	d, _ := args[2].(IfaceV)
	if !ok || d.typ == nil {
		st.undecided("binary.Write with order %s of %s", showVal(args[1]), showVal(args[2]))
		return st.symResults(fn.Signature, "binary.Write")
	}
	t, v := d.typ, d.v
	if pt, isP := t.Underlying().(*types.Pointer); isP {
		p, _ := v.(Ptr)
		if p.obj == nil {
			st.panics("binary.Write of a nil pointer")
			return one(st, nil)
		}
		t = pt.Elem()
		v = st.load(p, t)
	}
	var q Seq
	var base *Obj
	if sl, isS := t.Underlying().(*types.Slice); isS && isByte(sl.Elem()) {
		s, _ := v.(SliceV)
		q = st.sliceSeq(s)
		base = s.base.obj
	} else if q, ok = st.binEncode(t, v, big); !ok || binSize(t) < 0 {
		st.undecided("binary.Write of %s", t)
		return st.symResults(fn.Signature, "binary.Write")
	}
	return errOnly(st.writeTo(args[0], q, base))
}

func errOnly(outs []Out) []Out {
	for i := range outs {
		if t, ok := outs[i].val.(TupleV); ok {
			outs[i].val = t[1]
		}
	}
	return outs
}

// ---------------------------------------------------------------- buffers

func (st *State) bufAt(v Val) (Ptr, BufV, bool) {
	p, ok := v.(Ptr)
	if !ok {
		return p, BufV{}, false
	}
	if p.obj == nil {
		st.panics("method of a nil bytes.Buffer")
		return p, BufV{}, false
	}
	c, _ := getPath(st.content(p.obj), splitPath(p.path))
	b, ok := c.(BufV)
	if !ok {
		st.undecided("buffer %s", showVal(v))
	}
	return p, b, ok
}

func (st *State) setBuf(p Ptr, b Val) {
	nv, ok := setPath(st.content(p.obj), splitPath(p.path), b)
	if !ok {
		st.undecided("buffer %v", p)
		return
	}
	st.heap[p.obj] = nv
}

func onBuf(k func(st *State, fn *ssa.Function, p Ptr, b BufV, args []Val) []Out) modelFn {
	return func(st *State, fn *ssa.Function, args []Val) []Out {
		p, b, ok := st.bufAt(args[0])
		if !ok {
			if st.status == Running {
				return st.symResults(fn.Signature, fn.Name())
			}
			return one(st, nil)
		}
		return k(st, fn, p, b, args[1:])
	}
}

// listSeq is the concatenation of a list of byte slices.
func (st *State) listSeq(s SliceV) (Seq, bool) {
	if s.base.obj == nil {
		return nil, true
	}
	c, ok := getPath(st.content(s.base.obj), splitPath(s.base.path))
	a, ok2 := c.(ArrV)
	if !ok || !ok2 || !st.f.Equal(s.off, TZero) {
		return nil, false
	}
	var q Seq
	n := TZero
	if a.sym != nil {
		if a.sym.top {
			return nil, false
		}
		q = seqRange(a.sym.concat(), TZero, a.sym.total())
		n = a.sym.n
	}
	for _, e := range a.elems {
		if st.f.Equal(n, s.len) {
			break
		}
		b, ok := e.(SliceV)
		if !ok {
			return nil, false
		}
		q = seqCat(q, st.sliceSeq(b))
		n = AddC(n, 1)
	}
	if !st.f.Equal(n, s.len) {
		return nil, false
	}
	return q, true
}

func modelConcat(st *State, fn *ssa.Function, args []Val) []Out {
	s, _ := args[0].(SliceV)
	sig := fn.Signature
	if len(args) > 1 {
		if sep, ok := args[1].(SliceV); ok && !st.f.Equal(sep.len, TZero) && sep.base.obj != nil {
			st.undecided("join with a separator")
			return st.symResults(sig, fn.Name())
		}
	}
	q, ok := st.listSeq(s)
	if !ok {
		st.undecided("concatenation of %s", showVal(s))
		return st.symResults(sig, fn.Name())
	}
	return one(st, st.bytesSlice("concat", q))
}

func modelEqualBytes(st *State, fn *ssa.Function, args []Val) []Out {
	a, _ := args[0].(SliceV)
	b, _ := args[1].(SliceV)
	return one(st, st.bytesEq(a, b))
}

func byteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByte(s.Elem())
}

func (f *Facts) knownNonzero(t *Term) bool {
	zero, ok := f.Decide(EqT(t, TZero))
	return ok && !zero
}

// modelDeepEqual knows reflect.DeepEqual of byte arrays and of byte slices
// that are not empty (an empty and a nil slice are not deeply equal).
func modelDeepEqual(st *State, fn *ssa.Function, args []Val) []Out {
	x, xok := args[0].(IfaceV)
	y, yok := args[1].(IfaceV)
	if xok && yok && x.typ != nil && y.typ != nil {
		if !types.Identical(x.typ, y.typ) {
			return one(st, TFalse)
		}
		switch a := x.v.(type) {
		case BytesV:
			if b, ok := y.v.(BytesV); ok {
				return one(st, st.seqEq(a.s, b.s))
			}
		case SliceV:
			b, ok := y.v.(SliceV)
			if ok && byteSlice(x.typ) && st.f.knownNonzero(a.len) && st.f.knownNonzero(b.len) {
				return one(st, st.bytesEq(a, b))
			}
		}
	}
	st.undecided("reflect.DeepEqual of %s and %s", showVal(args[0]), showVal(args[1]))
	return one(st, FreshBool("deepequal"))
}

func (st *State) bytesEq(a, b SliceV) *Term {
	return st.seqEq(st.sliceSeq(a), st.sliceSeq(b))
}

// seqEq decides, as far as it can, whether two byte sequences are equal.
func (st *State) seqEq(x, y Seq) *Term {
	if st.f.SeqEqual(x, y) {
		return TTrue
	}
	if d, ok := st.f.Decide(EqT(x.Len(), y.Len())); ok && !d {
		return TFalse
	}
	return seqEqTerm(st.f, x, y)
}

// ---------------------------------------------------------------- locks

func modelLock(read bool) modelFn {
	return func(st *State, fn *ssa.Function, args []Val) []Out {
		p, ok := args[0].(Ptr)
		if !ok || p.obj == nil {
			st.panics("lock of a nil mutex")
			return one(st, nil)
		}
		key := p.lockKey()
		for _, l := range st.locks {
			if l.key == key && !(read && l.read) {
				e := st.ev("relock")
				e.name = key
				e.ptr = p
				st.status = Blocked
				return one(st, nil)
			}
		}
		e := st.ev("lock")
		e.name = key
		e.ptr = p
		e.flag = read
		st.locks = append(st.locks[:len(st.locks):len(st.locks)], lockHeld{key: key, read: read, pos: st.instr(), ptr: p})
		return one(st, nil)
	}
}

const unlockedMutex = "unlock of a mutex that is not locked"

func modelUnlock(st *State, fn *ssa.Function, args []Val) []Out {
	p, ok := args[0].(Ptr)
	if !ok || p.obj == nil {
		st.panics("unlock of a nil mutex")
		return one(st, nil)
	}
	key := p.lockKey()
	for i := len(st.locks) - 1; i >= 0; i-- {
		if st.locks[i].key == key {
			n := append([]lockHeld(nil), st.locks[:i]...)
			st.locks = append(n, st.locks[i+1:]...)
			e := st.ev("unlock")
			e.name = key
			e.ptr = p
			return one(st, nil)
		}
	}
	st.panics(unlockedMutex)
	return one(st, nil)
}

func modelNop(st *State, fn *ssa.Function, args []Val) []Out { return one(st, nil) }

// Operations of sync/atomic act on the cell at once; they are no unguarded
// accesses.
type atomicOp func(st *State, p Ptr, t types.Type, args []Val) []Out

func atomicLoad(st *State, p Ptr, t types.Type, args []Val) []Out { return one(st, st.load(p, t)) }

func atomicStore(st *State, p Ptr, t types.Type, args []Val) []Out {
	st.store(p, args[0])
	return one(st, nil)
}

func atomicSwap(st *State, p Ptr, t types.Type, args []Val) []Out {
	old := st.load(p, t)
	st.store(p, args[0])
	return one(st, old)
}

func atomicAdd(st *State, p Ptr, t types.Type, args []Val) []Out {
	x, ok1 := st.load(p, t).(*Term)
	y, ok2 := args[0].(*Term)
	w, signed, lo, hi, ok3 := intRange(t)
	if !ok1 || !ok2 || !ok3 {
		st.undecided("atomic addition of %s", showVal(args[0]))
		return one(st, args[0])
	}
	v := st.wrap(Add(x, y), w, signed, lo, hi)
	st.store(p, v)
	return one(st, v)
}

func atomicCAS(st *State, p Ptr, t types.Type, args []Val) []Out {
	x, ok1 := st.load(p, t).(*Term)
	y, ok2 := args[0].(*Term)
	if !ok1 || !ok2 {
		st.undecided("atomic comparison with %s", showVal(args[0]))
		return one(st, FreshBool("swapped"))
	}
	var outs []Out
	yes, no := st.branch(EqT(x, y), "compare and swap")
	if yes != nil {
		yes.store(p, args[1])
		outs = append(outs, Out{yes, TTrue})
	}
	if no != nil {
		outs = append(outs, Out{no, TFalse})
	}
	return outs
}

// atomicCell is the field that holds the value of an atomic type.
func atomicCell(fn *ssa.Function, p Ptr) (Ptr, types.Type, bool) {
	pt, ok := fn.Signature.Recv().Type().Underlying().(*types.Pointer)
	if !ok {
		return p, nil, false
	}
	s, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return p, nil, false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "v" {
			p.path += fmt.Sprintf(".%d", i)
			return p, s.Field(i).Type(), true
		}
	}
	return p, nil, false
}

func modelAtomic(op atomicOp) modelFn {
	return func(st *State, fn *ssa.Function, args []Val) []Out {
		p, ok := args[0].(Ptr)
		if !ok {
			st.undecided("atomic operation on %s", showVal(args[0]))
			return one(st, nil)
		}
		if p.obj == nil {
			st.panics("nil pointer dereference")
			return one(st, nil)
		}
		var t types.Type
		if fn.Signature.Recv() != nil {
			if p, t, ok = atomicCell(fn, p); !ok {
				st.undecided("atomic operation %s", fn)
				return one(st, nil)
			}
		} else {
			t = fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer).Elem()
		}
		return op(st, p, t, args[1:])
	}
}

// atomicBool is an operation on an atomic.Bool, which holds a number.
func atomicBool(op atomicOp) modelFn {
	return func(st *State, fn *ssa.Function, args []Val) []Out {
		p, ok := args[0].(Ptr)
		if !ok || p.obj == nil {
			st.undecided("atomic operation on %s", showVal(args[0]))
			return one(st, nil)
		}
		p, t, ok := atomicCell(fn, p)
		if !ok {
			st.undecided("atomic operation %s", fn)
			return one(st, nil)
		}
		cur := []Out{{st, nil}}
		vals := [][]Val{nil}
		for _, a := range args[1:] {
			var next []Out
			var nvals [][]Val
			for i, o := range cur {
				b, ok := a.(*Term)
				if !ok {
					b = FreshBool("b")
				}
				yes, no := o.st.branch(b, "")
				if yes != nil {
					next = append(next, Out{yes, nil})
					nvals = append(nvals, append(append([]Val(nil), vals[i]...), TOne))
				}
				if no != nil {
					next = append(next, Out{no, nil})
					nvals = append(nvals, append(append([]Val(nil), vals[i]...), TZero))
				}
			}
			cur, vals = next, nvals
		}
		var outs []Out
		for i, o := range cur {
			for _, q := range op(o.st, p, t, vals[i]) {
				if x, ok := q.val.(*Term); ok && x.k != KEq0 && x != TTrue && x != TFalse {
					q.val = Not(EqT(x, TZero))
				}
				outs = append(outs, q)
			}
		}
		return outs
	}
}

func atomicModels() {
	ops := map[string]atomicOp{"Load": atomicLoad, "Store": atomicStore, "Swap": atomicSwap, "Add": atomicAdd, "CompareAndSwap": atomicCAS}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		for name, op := range ops {
			models["(*sync/atomic."+t+")."+name] = modelAtomic(op)
			models["sync/atomic."+name+t] = modelAtomic(op)
		}
	}
}

func modelEvent(kind string) modelFn {
	return func(st *State, fn *ssa.Function, args []Val) []Out {
		e := st.ev(kind)
		e.args = args
		if p, ok := args[0].(Ptr); ok {
			e.ptr = p
		}
		if kind == "wgwait" {
			st.blocking()
		}
		return one(st, nil)
	}
}

func modelNewErr(st *State, fn *ssa.Function, args []Val) []Out {
	er := st.r.symErr(fn.Name())
	e := st.ev("newerr")
	e.val = er
	e.args = args
	return one(st, er)
}

func modelOpaque(st *State, fn *ssa.Function, args []Val) []Out {
	return st.symResults(fn.Signature, shortFn(fn))
}

// modelCall notes the call.
func modelCall(st *State, fn *ssa.Function, args []Val) []Out {
	e := st.ev("call")
	e.name = shortFn(fn)
	e.args = args
	return modelOpaque(st, fn, args)
}

func modelErrorsIs(st *State, fn *ssa.Function, args []Val) []Out {
	a, _ := args[0].(IfaceV)
	b, _ := args[1].(IfaceV)
	if nilCond(a) == TTrue || nilCond(b) == TTrue {
		return one(st, Bool(nilCond(a) == TTrue && nilCond(b) == TTrue))
	}
	if a.sym != nil && a.sym == b.sym {
		return one(st, TTrue)
	}
	var as, bs string
	as, bs = showVal(a), showVal(b)
	t := App("errors.Is:"+as+"|"+bs, 0, 1)
	if n := nilCond(a); n != TFalse {
		nl, ok := st.branch(n, "")
		var outs []Out
		if nl != nil {
			outs = append(outs, Out{nl, TFalse})
		}
		if ok != nil {
			outs = append(outs, Out{ok, t})
		}
		return outs
	}
	return one(st, t)
}

// modelErrorsAs: an error of the wanted type is found where the error is one, or may be anywhere in an unknown chain.
func modelErrorsAs(st *State, fn *ssa.Function, args []Val) []Out {
	a, _ := args[0].(IfaceV)
	b, _ := args[1].(IfaceV)
	p, ok := b.v.(Ptr)
	if !ok || p.obj == nil || p.nilc != nil {
		st.undecided("target of errors.As")
		return one(st, FreshBool("as"))
	}
	want := b.typ.Underlying().(*types.Pointer).Elem()
	if nilCond(a) == TTrue {
		return one(st, TFalse)
	}
	var outs []Out
	if n := nilCond(a); n != TFalse {
		nl, rest := st.branch(n, "")
		if nl != nil {
			outs = append(outs, Out{nl, TFalse})
		}
		if rest == nil {
			return outs
		}
		st = rest
		a.nilc = nil
	}
	if a.typ != nil && assertHolds(a.typ, want) {
		if _, iface := want.Underlying().(*types.Interface); iface {
			st.store(p, a)
		} else {
			st.store(p, a.v)
		}
		return append(outs, Out{st, TTrue})
	}
	if a.typ != nil {
		sel := types.NewMethodSet(a.typ)
		if sel.Lookup(nil, "Unwrap") == nil && sel.Lookup(nil, "As") == nil {
			return append(outs, Out{st, TFalse})
		}
	}
	key := "errors.As:" + showVal(a) + "|" + want.String()
	yes, no := st.branch(EqT(App(key, 0, 1), TOne), "errors.As")
	if yes != nil {
		v, ok := st.r.mapMemo[key]
		if !ok {
			v = st.r.symVal(want, "as", nil)
			st.r.mapMemo[key] = v
		}
		yes.store(p, v)
		outs = append(outs, Out{yes, TTrue})
	}
	if no != nil {
		outs = append(outs, Out{no, TFalse})
	}
	return outs
}

// rtype wraps a reflect.Type.
func (st *State) rtype(t types.Type) IfaceV {
	rt := st.r.extType("reflect", "rtype")
	if rt == nil {
		st.undecided("package reflect is not loaded")
		return IfaceV{}
	}
	return IfaceV{typ: types.NewPointer(rt), v: TypeV{t}}
}

func (st *State) reflectType(t TypeV, name string, args []Val) []Out {
	switch name {
	case "Elem":
		switch u := t.t.Underlying().(type) {
		case *types.Pointer:
			return one(st, st.rtype(u.Elem()))
		case *types.Slice:
			return one(st, st.rtype(u.Elem()))
		case *types.Array:
			return one(st, st.rtype(u.Elem()))
		case *types.Map:
			return one(st, st.rtype(u.Elem()))
		case *types.Chan:
			return one(st, st.rtype(u.Elem()))
		}
		st.panics("reflect: Elem of %s", t.t)
		return one(st, nil)
	case "String", "Name":
		return one(st, st.r.symVal(types.Typ[types.String], "type", nil))
	}
	st.undecided("reflect.Type.%s", name)
	return one(st, nil)
}

// havoc replaces what decoding fills in.
func (st *State) havoc(v Val, t types.Type, name string) Val {
	switch x := v.(type) {
	case StructV:
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return v
		}
		n := make(StructV, len(x))
		for i := range x {
			n[i] = st.havoc(x[i], s.Field(i).Type(), name+"."+s.Field(i).Name())
		}
		return n
	case *Term, Str:
		return st.r.symVal(t, name, nil)
	case Ptr:
		return v // filled in through the pointer, or set
	}
	return v
}

func (st *State) consume(v Val) {
	if s, ok := st.sourceOf(v); ok && s.sym == nil {
		av := st.avail(s)
		n := Fresh("rest", 0, 1<<40)
		st.assume(Le(n, av.Len()), true)
		if q, ok := st.f.sub(av, Sub(av.Len(), n), av.Len()); ok {
			st.setAvail(s, q)
		} else {
			st.setAvail(s, seqRange(NewSrc("rest"), TZero, n))
		}
	} else if ok {
		// as many bytes as it takes
		in := st.input(s.sym)
		in.pos = Add(in.pos, Fresh("decoded", 0, 1<<40))
		in.rest = seqRange(NewSrc("rest"), TZero, Fresh("len", 1<<40, 1<<41))
		st.heap[s.sym.obj] = in
	}
}

func init() {
	models = map[string]modelFn{
		"io.ReadFull": func(st *State, fn *ssa.Function, a []Val) []Out {
			b, _ := a[1].(SliceV)
			return st.readFull(a[0], b, b.len)
		},
		"io.ReadAtLeast": func(st *State, fn *ssa.Function, a []Val) []Out {
			b, _ := a[1].(SliceV)
			n := asTerm(a[2])
			if !st.f.Equal(n, b.len) {
				st.undecided("io.ReadAtLeast with less than the buffer")
			}
			return st.readFull(a[0], b, n)
		},
		"math.Pow":  floatFn(math.Pow),
		"math.Exp2": floatFn(func(x, _ float64) float64 { return math.Exp2(x) }),
		"math.Ldexp": func(st *State, fn *ssa.Function, a []Val) []Out {
			x, ok := floatOf(asTerm(a[0]))
			n, ok2 := st.f.Range(asTerm(a[1])).single()
			if ok && ok2 {
				return one(st, floatConst(math.Ldexp(x, int(n))))
			}
			return one(st, App("ldexp", negInf, posInf, asTerm(a[0]), asTerm(a[1])))
		},
		"io.ReadAll":        modelReadAll,
		"io/ioutil.ReadAll": modelReadAll,
		"io.CopyN":          modelCopyN,
		"io.Copy":           modelCopy,
		"io.WriteString": func(st *State, fn *ssa.Function, a []Val) []Out {
			s, _ := a[1].(Str)
			return st.writeTo(a[0], s.s, nil)
		},
		"encoding/binary.Read":  modelBinaryRead,
		"encoding/binary.Write": modelBinaryWrite,

		"bytes.NewBuffer": func(st *State, fn *ssa.Function, a []Val) []Out {
			s, _ := a[0].(SliceV)
			b := BufV{s: st.sliceSeq(s), back: s.base.obj}
			if s.base.obj != nil && !st.f.Equal(s.len, s.cap) {
				b.dirty = true
				b.root, b.from = s.base, Add(s.off, s.len)
			}
			o := st.alloc(st.r.extType("bytes", "Buffer"), "bytes.Buffer", b)
			return one(st, Ptr{obj: o})
		},
		"bytes.NewBufferString": func(st *State, fn *ssa.Function, a []Val) []Out {
			s, _ := a[0].(Str)
			return one(st, Ptr{obj: st.alloc(st.r.extType("bytes", "Buffer"), "bytes.Buffer", BufV{s: s.s})})
		},
		"bytes.NewReader": func(st *State, fn *ssa.Function, a []Val) []Out {
			s, _ := a[0].(SliceV)
			q := st.sliceSeq(s)
			return one(st, Ptr{obj: st.alloc(st.r.extType("bytes", "Reader"), "bytes.Reader", RdV{s: q, full: q})})
		},
		"bytes.Equal":                       modelEqualBytes,
		"crypto/subtle.ConstantTimeCompare": modelEqualBytes,
		"crypto/hmac.Equal":                 modelEqualBytes,
		"reflect.DeepEqual":                 modelDeepEqual,
		"bytes.Compare": func(st *State, fn *ssa.Function, a []Val) []Out {
			x, _ := a[0].(SliceV)
			y, _ := a[1].(SliceV)
			eq := st.bytesEq(x, y)
			yes, no := st.branch(eq, "")
			var outs []Out
			if yes != nil {
				outs = append(outs, Out{yes, TZero})
			}
			if no != nil {
				c := Fresh("cmp", -1, 1)
				no.assume(EqT(c, TZero), false)
				outs = append(outs, Out{no, c})
			}
			return outs
		},
		"bytes.Join":    modelConcat,
		"slices.Concat": modelConcat,
		"bytes.Clone":   modelClone,
		"slices.Clone":  modelClone,

		"(*bytes.Buffer).Write": func(st *State, fn *ssa.Function, a []Val) []Out {
			s, _ := a[1].(SliceV)
			return st.writeTo(a[0], st.sliceSeq(s), s.base.obj)
		},
		"(*bytes.Buffer).WriteString": func(st *State, fn *ssa.Function, a []Val) []Out {
			s, _ := a[1].(Str)
			return st.writeTo(a[0], s.s, nil)
		},
		"(*bytes.Buffer).WriteByte": func(st *State, fn *ssa.Function, a []Val) []Out {
			return errOnly(st.writeTo(a[0], seqBytes(asTerm(a[1])), nil))
		},
		"(*bytes.Buffer).Len": onBuf(func(st *State, fn *ssa.Function, p Ptr, b BufV, a []Val) []Out {
			return one(st, b.s.Len())
		}),
		"(*bytes.Buffer).Bytes": onBuf(func(st *State, fn *ssa.Function, p Ptr, b BufV, a []Val) []Out {
			n := b.s.Len()
			o := st.alloc(types.NewArray(types.Typ[types.Uint8], -1), "bytes.Buffer.Bytes", BytesV{b.s})
			o.alias = b.back
			o.owner = p.obj
			b.back = o
			st.setBuf(p, b)
			return one(st, SliceV{base: Ptr{obj: o}, off: TZero, len: n, cap: Add(n, Fresh("spare", 0, 1<<40))})
		}),
		"(*bytes.Buffer).String": onBuf(func(st *State, fn *ssa.Function, p Ptr, b BufV, a []Val) []Out {
			return one(st, Str{b.s})
		}),
		"(*bytes.Buffer).Reset": onBuf(func(st *State, fn *ssa.Function, p Ptr, b BufV, a []Val) []Out {
			b.s = nil
			b.dirty = true
			b.from = nil
			st.rewound(p.obj)
			st.setBuf(p, b)
			return one(st, nil)
		}),
		"(*bytes.Buffer).Truncate": onBuf(func(st *State, fn *ssa.Function, p Ptr, b BufV, a []Val) []Out {
			q, ok := st.f.sub(b.s, TZero, asTerm(a[0]))
			if !ok {
				st.undecided("Truncate")
			}
			b.s = q
			b.dirty = true
			st.rewound(p.obj)
			st.setBuf(p, b)
			return one(st, nil)
		}),
		"(*bytes.Buffer).Grow": func(st *State, fn *ssa.Function, a []Val) []Out {
			ok, neg := st.branch(Le(TZero, asTerm(a[1])), "")
			var outs []Out
			if neg != nil {
				neg.panics("bytes.Buffer.Grow: negative count %v", a[1])
				outs = append(outs, Out{neg, nil})
			}
			if ok != nil {
				e := ok.ev("make")
				e.n = asTerm(a[1])
				e.name = "bytes.Buffer"
				if ok.r.onMake != nil {
					ok.r.onMake(ok, e)
				}
				outs = append(outs, Out{ok, nil})
			}
			return outs
		},
		"(*bytes.Buffer).Read": func(st *State, fn *ssa.Function, a []Val) []Out {
			s, ok := st.sourceOf(a[0])
			b, _ := a[1].(SliceV)
			if !ok {
				st.undecided("read from %s", showVal(a[0]))
				return st.symResults(fn.Signature, "Read")
			}
			return st.rawRead(s, b)
		},
		"(*bytes.Buffer).Next": func(st *State, fn *ssa.Function, a []Val) []Out {
			s, ok := st.sourceOf(a[0])
			if !ok {
				st.undecided("next of %s", showVal(a[0]))
				return st.symResults(fn.Signature, "Next")
			}
			n := asTerm(a[1])
			var outs []Out
			yes, no := st.branch(Le(n, st.avail(s).Len()), "")
			for i, x := range []*State{yes, no} {
				if x == nil {
					continue
				}
				k := n
				if i == 1 {
					k = x.avail(s).Len()
				}
				g, q, _, _ := x.take(s, k, "Next")
				if g != nil {
					sl := g.bytesSlice("Next", q)
					_, b, _ := g.bufAt(a[0])
					sl.base.obj.alias = b.back
					outs = append(outs, Out{g, sl})
				}
			}
			return outs
		},
		"(*bytes.Buffer).ReadByte": modelReadByte,
		"(*bytes.Reader).ReadByte": modelReadByte,
		"(*bytes.Reader).Read": func(st *State, fn *ssa.Function, a []Val) []Out {
			s, ok := st.sourceOf(a[0])
			b, _ := a[1].(SliceV)
			if !ok {
				st.undecided("read from %s", showVal(a[0]))
				return st.symResults(fn.Signature, "Read")
			}
			return st.rawRead(s, b)
		},
		"(*bytes.Reader).Len": func(st *State, fn *ssa.Function, a []Val) []Out {
			if s, ok := st.sourceOf(a[0]); ok {
				return one(st, st.avail(s).Len())
			}
			return st.symResults(fn.Signature, "Len")
		},
		"(*bytes.Buffer).WriteTo": func(st *State, fn *ssa.Function, a []Val) []Out {
			s, ok := st.sourceOf(a[0])
			if !ok {
				st.undecided("WriteTo of %s", showVal(a[0]))
				return st.symResults(fn.Signature, "WriteTo")
			}
			q := st.avail(s)
			st.setAvail(s, nil)
			if st.f.Equal(q.Len(), TZero) {
				return one(st, tup(TZero, errNil))
			}
			return st.writeTo(a[1], q, nil)
		},
		"(*bytes.Buffer).ReadFrom": func(st *State, fn *ssa.Function, a []Val) []Out {
			return modelCopy(st, fn, []Val{a[0], a[1]})
		},

		"errors.New":         modelNewErr,
		"fmt.Errorf":         modelNewErr,
		"errors.Is":          modelErrorsIs,
		"errors.As":          modelErrorsAs,
		"fmt.Sprintf":        modelOpaque,
		"fmt.Sprint":         modelOpaque,
		"strconv.Itoa":       modelOpaque,
		"strconv.FormatUint": modelOpaque,
		"strconv.FormatInt":  modelOpaque,

		"(*sync.Mutex).Lock":      modelLock(false),
		"(*sync.Mutex).Unlock":    modelUnlock,
		"(*sync.RWMutex).Lock":    modelLock(false),
		"(*sync.RWMutex).Unlock":  modelUnlock,
		"(*sync.RWMutex).RLock":   modelLock(true),
		"(*sync.RWMutex).RUnlock": modelUnlock,
		"(*sync.WaitGroup).Add":   modelEvent("wgadd"),
		"(*sync.WaitGroup).Done":  modelEvent("wgdone"),
		"(*sync.WaitGroup).Wait":  modelEvent("wgwait"),
		"(*sync.WaitGroup).Go": func(st *State, fn *ssa.Function, a []Val) []Out {
			f, _ := a[1].(FuncV)
			p, _ := a[0].(Ptr)
			e := st.ev("wgadd")
			e.args = []Val{p, TOne}
			e.ptr = p
			e = st.ev("go")
			e.fv = f
			e.ptr = p
			if f.fn != nil {
				e.name = shortFn(f.fn)
			}
			e.data = "waitgroup"
			return one(st, nil)
		},
		"(*sync.Once).Do": func(st *State, fn *ssa.Function, a []Val) []Out {
			p, _ := a[0].(Ptr)
			key := "once:" + p.lockKey()
			f, _ := a[1].(FuncV)
			do := func(s *State) []Out {
				s.memo[key] = 1
				return s.callVal(f, nil, nil, false)
			}
			if st.memo[key] == 1 {
				return one(st, nil)
			}
			if p.obj != nil && p.obj.sym {
				o := st.fork()
				o.memo[key] = 1
				return append(do(st), Out{o, nil})
			}
			return do(st)
		},

		"(*sync/atomic.Bool).Load":           atomicBool(atomicLoad),
		"(*sync/atomic.Bool).Store":          atomicBool(atomicStore),
		"(*sync/atomic.Bool).Swap":           atomicBool(atomicSwap),
		"(*sync/atomic.Bool).CompareAndSwap": atomicBool(atomicCAS),

		"(*sync.Pool).Get": modelPoolGet,
		"(*sync.Pool).Put": func(st *State, fn *ssa.Function, a []Val) []Out {
			e := st.ev("pool-put")
			e.val = a[1]
			for _, o := range reachObjs(st, a[1]) {
				for x := range region(o) {
					x.pooled = true
				}
			}
			return one(st, nil)
		},

		"crypto/rand.Read": func(st *State, fn *ssa.Function, a []Val) []Out {
			b, _ := a[0].(SliceV)
			src := NewSrc("random")
			src.tag = "random"
			st.setSlice(b, TZero, seqRange(src, TZero, b.len))
			e := st.ev("random")
			e.n = b.len
			e.seq = seqRange(src, TZero, b.len)
			e.obj = b.base.obj
			return one(st, tup(b.len, errNil))
		},

		"net.Listen": modelCall,

		"reflect.TypeOf": func(st *State, fn *ssa.Function, a []Val) []Out {
			v, _ := a[0].(IfaceV)
			if v.typ == nil {
				if nilCond(v) == TTrue {
					return one(st, IfaceV{})
				}
				st.undecided("reflect.TypeOf of an unknown type")
				return st.symResults(fn.Signature, "TypeOf")
			}
			return one(st, st.rtype(v.typ))
		},
		"reflect.New": func(st *State, fn *ssa.Function, a []Val) []Out {
			v, _ := a[0].(IfaceV)
			t, ok := v.v.(TypeV)
			if !ok {
				if nilCond(v) == TTrue {
					st.panics("reflect: New(nil)")
					return one(st, nil)
				}
				st.undecided("reflect.New of %s", showVal(a[0]))
				return st.symResults(fn.Signature, "New")
			}
			o := st.alloc(t.t, "new "+shortType(t.t), zeroVal(t.t))
			return one(st, ValueV{t: types.NewPointer(t.t), v: Ptr{obj: o}})
		},
		"reflect.ValueOf": func(st *State, fn *ssa.Function, a []Val) []Out {
			v, _ := a[0].(IfaceV)
			if v.typ == nil {
				st.undecided("reflect.ValueOf of %s", showVal(v))
			}
			return one(st, ValueV{t: v.typ, v: v.v})
		},
		"(reflect.Value).Interface": func(st *State, fn *ssa.Function, a []Val) []Out {
			v, ok := a[0].(ValueV)
			if !ok {
				st.undecided("reflect.Value %s", showVal(a[0]))
				return st.symResults(fn.Signature, "Interface")
			}
			return one(st, IfaceV{typ: v.t, v: v.v})
		},
		"(reflect.Value).Type": func(st *State, fn *ssa.Function, a []Val) []Out {
			v, ok := a[0].(ValueV)
			if !ok {
				st.undecided("reflect.Value %s", showVal(a[0]))
				return st.symResults(fn.Signature, "Type")
			}
			return one(st, st.rtype(v.t))
		},
		"(reflect.Value).IsNil": func(st *State, fn *ssa.Function, a []Val) []Out {
			v, ok := a[0].(ValueV)
			if !ok {
				st.undecided("reflect.Value %s", showVal(a[0]))
				return st.symResults(fn.Signature, "IsNil")
			}
			return one(st, nilCond(v.v))
		},
		"reflect.Indirect":     modelReflectElem,
		"(reflect.Value).Elem": modelReflectElem,

		"github.com/WatchBeam/amf0/encoding.Unmarshal": func(st *State, fn *ssa.Function, a []Val) []Out {
			ok, bad := st.split2("encoding.Unmarshal")
			er := bad.fail("decode", "encoding.Unmarshal")
			bad.consume(a[0])
			e := bad.ev("unmarshal")
			e.args = a
			e.val = a[1]
			ok.consume(a[0])
			e = ok.ev("unmarshal")
			e.args = a
			e.val = a[1]
			e.flag = true
			if v, isI := a[1].(IfaceV); isI && v.typ != nil {
				if p, isP := v.v.(Ptr); isP && p.obj != nil {
					t := v.typ.Underlying().(*types.Pointer).Elem()
					e.data = ok.load(p, t)
					nv := ok.havoc(ok.load(p, t), t, "decoded")
					ok.store(p, nv)
				} else if isP {
					ok.panics("decoding into a nil pointer")
				}
			} else if v, isI := a[1].(IfaceV); isI && v.sym == nil {
				ok.panics("decoding into nil")
			}
			return []Out{{ok, errNil}, {bad, er}}
		},
		"github.com/WatchBeam/amf0/encoding.Marshal": func(st *State, fn *ssa.Function, a []Val) []Out {
			ok, bad := st.split2("encoding.Marshal")
			er := bad.fail("encode", "encoding.Marshal")
			s := ok.r.symVal(types.NewSlice(types.Typ[types.Uint8]), "encoded", nil).(SliceV)
			s.base.obj.sym = false
			s.base.obj.fresh = true
			s.base.obj.site = ok.instr()
			e := ok.ev("marshal")
			e.args = a
			e.val = s
			// what is encoded
			if v, isI := a[0].(IfaceV); isI && v.typ != nil {
				e.data = v.v
				if p, isP := v.v.(Ptr); isP && p.obj != nil {
					e.data = ok.load(p, v.typ.Underlying().(*types.Pointer).Elem())
				}
			}
			return []Out{{ok, tup(s, errNil)}, {bad, tup(SliceV{off: TZero, len: TZero, cap: TZero}, er)}}
		},
		"github.com/WatchBeam/amf0.Decode": func(st *State, fn *ssa.Function, a []Val) []Out {
			ok, bad := st.split2("amf0.Decode")
			er := bad.fail("decode", "amf0.Decode")
			bad.consume(a[0])
			ok.consume(a[0])
			v := ok.r.symVal(fn.Signature.Results().At(0).Type(), "amf0", nil)
			e := ok.ev("amfdecode")
			e.args = a
			e.val = v
			return []Out{{ok, tup(v, errNil)}, {bad, tup(IfaceV{}, er)}}
		},
	}
	for _, n := range []string{"NewObject", "NewArray", "NewPaired", "NewString", "NewNumber", "NewBool"} {
		models["github.com/WatchBeam/amf0."+n] = func(st *State, fn *ssa.Function, a []Val) []Out {
			t := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
			o := st.alloc(t, shortType(t), nil)
			st.heap[o] = st.r.symVal(t, shortType(t), nil)
			return one(st, Ptr{obj: o})
		}
	}
	atomicModels()
}

// floatFn is a function of floating-point numbers.
func floatFn(f func(x, y float64) float64) modelFn {
	return func(st *State, fn *ssa.Function, a []Val) []Out {
		var v [2]float64
		var ts []*Term
		known := true
		for i, x := range a {
			t := asTerm(x)
			ts = append(ts, t)
			c, ok := floatOf(t)
			known = known && ok
			v[i] = c
		}
		if known {
			return one(st, floatConst(f(v[0], v[1])))
		}
		return one(st, App(fn.Name(), negInf, posInf, ts...))
	}
}

func modelReflectElem(st *State, fn *ssa.Function, a []Val) []Out {
	v, ok := a[0].(ValueV)
	if ok {
		if p, isP := v.v.(Ptr); isP && p.obj != nil {
			t := v.t.Underlying().(*types.Pointer).Elem()
			return one(st, ValueV{t: t, v: st.load(p, t)})
		}
		if iv, isI := v.v.(IfaceV); isI && iv.typ != nil {
			return one(st, ValueV{t: iv.typ, v: iv.v})
		}
	}
	st.undecided("reflect.Value.Elem of %s", showVal(a[0]))
	return st.symResults(fn.Signature, "Elem")
}

func modelReadByte(st *State, fn *ssa.Function, a []Val) []Out {
	s, ok := st.sourceOf(a[0])
	if !ok {
		st.undecided("read from %s", showVal(a[0]))
		return st.symResults(fn.Signature, "ReadByte")
	}
	return st.readByteFrom(s)
}

func modelClone(st *State, fn *ssa.Function, a []Val) []Out {
	s, ok := a[0].(SliceV)
	if !ok {
		return st.symResults(fn.Signature, "Clone")
	}
	if sl, isS := fn.Signature.Params().At(0).Type().Underlying().(*types.Slice); isS && !isByte(sl.Elem()) {
		st.undecided("clone of %s", showVal(s))
	}
	if s.base.obj == nil {
		return one(st, s)
	}
	n := st.bytesSlice("clone", st.sliceSeq(s))
	n.nilc = s.nilc
	return one(st, n)
}

func modelReadAll(st *State, fn *ssa.Function, a []Val) []Out {
	s, ok := st.sourceOf(a[0])
	if !ok {
		st.undecided("io.ReadAll of %s", showVal(a[0]))
		return st.symResults(fn.Signature, "ReadAll")
	}
	e := st.ev("readall")
	if s.sym != nil {
		e.name = s.sym.name
	}
	good, q, bad, er := st.takeAll(s, "io.ReadAll")
	var outs []Out
	if bad != nil {
		outs = append(outs, Out{bad, tup(bad.bytesSlice("ReadAll", nil), er)})
	}
	if good != nil {
		outs = append(outs, Out{good, tup(good.bytesSlice("ReadAll", q), errNil)})
	}
	return outs
}

func modelCopyN(st *State, fn *ssa.Function, a []Val) []Out {
	s, ok := st.sourceOf(a[1])
	if !ok {
		st.undecided("io.CopyN from %s", showVal(a[1]))
		return st.symResults(fn.Signature, "CopyN")
	}
	n := asTerm(a[2])
	good, q, bad, er := st.take(s, n, "io.CopyN")
	var outs []Out
	if bad != nil {
		m := Fresh("copied", 0, 1<<40)
		bad.assume(Lt(m, n), true)
		for _, o := range bad.writeTo(a[0], seqRange(NewSrc("partial"), TZero, m), nil) {
			outs = append(outs, Out{o.st, tup(m, er)})
		}
	}
	if good != nil {
		outs = append(outs, good.writeTo(a[0], q, nil)...)
	}
	return outs
}

func modelCopy(st *State, fn *ssa.Function, a []Val) []Out {
	s, ok := st.sourceOf(a[1])
	if !ok {
		st.undecided("io.Copy from %s", showVal(a[1]))
		return st.symResults(fn.Signature, "Copy")
	}
	good, q, bad, er := st.takeAll(s, "io.Copy")
	var outs []Out
	if bad != nil {
		outs = append(outs, Out{bad, tup(TZero, er)})
	}
	if good != nil {
		outs = append(outs, good.writeTo(a[0], q, nil)...)
	}
	return outs
}

// ---------------------------------------------------------------- builtins

func (st *State) builtin(name string, args []Val, c *ssa.CallCommon) []Out {
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case Str:
			return one(st, x.s.Len())
		case SliceV:
			if x.base.obj == nil {
				return one(st, TZero)
			}
			if name == "cap" {
				return one(st, x.cap)
			}
			return one(st, x.len)
		case Ptr:
			if p, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
				if a, ok := p.Elem().Underlying().(*types.Array); ok {
					return one(st, Const(a.Len()))
				}
			}
		case BytesV:
			return one(st, x.s.Len())
		case ArrV:
			return one(st, Const(int64(len(x.elems))))
		case MapV:
			if x.obj == nil {
				return one(st, TZero)
			}
			if m, ok := st.mapContent(x); ok && !m.base {
				n := 0
				for _, e := range m.ents {
					if !e.del {
						n++
					}
				}
				return one(st, Const(int64(n)))
			}
			return one(st, Fresh("len(map)", 0, 1<<40))
		case ChanV:
			return one(st, Fresh("len(chan)", 0, 1<<40))
		}
	case "append":
		return st.appendTo(args, c)
	case "copy":
		return st.copyTo(args)
	case "delete":
		m, _ := args[0].(MapV)
		if m.obj != nil {
			st.mapSet(m, args[1], nil, true)
		}
		return one(st, nil)
	case "close":
		ch, _ := args[0].(ChanV)
		if ch.obj == nil {
			st.panics("close of a nil channel")
			return one(st, nil)
		}
		cc := st.chanC(ch)
		if cc.closed {
			st.panics("close of a closed channel")
			return one(st, nil)
		}
		e := st.ev("close")
		e.ch = ch.obj
		cc.closed = true
		st.heap[ch.obj] = cc
		return one(st, nil)
	case "min", "max":
		cur := []Out{{st, args[0]}}
		for _, b := range args[1:] {
			var next []Out
			for _, o := range cur {
				x, ok1 := o.val.(*Term)
				y, ok2 := b.(*Term)
				if !ok1 || !ok2 {
					o.st.undecided("%s of %s", name, showVal(b))
					return one(st, args[0])
				}
				yes, no := o.st.branch(Le(x, y), "")
				if yes != nil {
					v := x
					if name == "max" {
						v = y
					}
					next = append(next, Out{yes, v})
				}
				if no != nil {
					v := y
					if name == "max" {
						v = x
					}
					next = append(next, Out{no, v})
				}
			}
			cur = next
		}
		return cur
	case "panic":
		st.panics("panic(%s)", showVal(args[0]))
		return one(st, nil)
	case "print", "println":
		return one(st, nil)
	case "recover":
		return one(st, IfaceV{})
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.obj == nil {
			st.panics("nil pointer dereference")
			return one(st, nil)
		}
		return one(st, args[0])
	case "clear":
		if s, ok := args[0].(SliceV); ok {
			st.setSlice(s, TZero, seqZeros(s.len))
			return one(st, nil)
		}
		if m, ok := args[0].(MapV); ok && m.obj != nil {
			if c, ok := st.mapContent(m); ok {
				st.heap[m.obj] = &MapC{kt: c.kt, vt: c.vt, name: c.name}
				e := st.ev("mapclear")
				e.obj = m.obj
			}
			return one(st, nil)
		}
	}
	st.undecided("builtin %s", name)
	if c != nil && c.Signature().Results().Len() > 0 {
		return one(st, st.r.symVal(c.Signature().Results().At(0).Type(), name, nil))
	}
	return one(st, nil)
}

func (st *State) appendTo(args []Val, c *ssa.CallCommon) []Out {
	s, ok := args[0].(SliceV)
	if !ok {
		st.undecided("append to %s", showVal(args[0]))
		return one(st, args[0])
	}
	var el types.Type = types.Typ[types.Uint8]
	if c != nil {
		if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			el = sl.Elem()
		}
	}
	if len(args) < 2 {
		return one(st, s)
	}
	var n2 *Term
	var q Seq
	var t SliceV
	bytes := isByte(el)
	switch y := args[1].(type) {
	case Str:
		q = y.s
		n2 = q.Len()
	case SliceV:
		t = y
		n2 = y.len
		if y.base.obj == nil {
			n2 = TZero
		}
		if bytes {
			q = st.sliceSeq(y)
		}
	default:
		st.undecided("append of %s", showVal(args[1]))
		return one(st, s)
	}
	if st.f.Equal(n2, TZero) {
		return one(st, s)
	}
	n1 := s.len
	if s.base.obj == nil {
		n1 = TZero
	}
	n := Add(n1, n2)
	mayFit := false
	if s.base.obj != nil {
		e := st.ev("append")
		e.obj = s.base.obj
		e.n = n2
		e.val = s
		if bc, ok := st.heap[s.base.obj].(BytesV); ok {
			v, dec := st.f.Decide(Le(bc.s.Len(), Add(s.off, s.len)))
			e.data = dec && v // past all that has been written
		}
		fits, dec := st.f.Decide(Le(n, s.cap))
		mayFit = !dec || fits
		e.flag = mayFit // may write into the old array
		if dec && !fits {
			e.kind = "append-copy"
		}
		if dec && fits {
			if bytes {
				// in place
				ext := s
				ext.len = n
				st.setSlice(ext, n1, q)
				if e := st.evs[len(st.evs)-1]; e.kind == "bytewrite" {
					e.name = "append"
				}
				r := s
				r.len = n
				r.nilc = nil
				return one(st, r)
			}
			r, ok := st.appendElems(s, t, el, true)
			if ok {
				return one(st, r)
			}
		}
	}
	if bytes {
		var base Seq
		if s.base.obj != nil {
			base = st.sliceSeq(s)
		}
		r := st.bytesSlice("append", seqCat(base, q))
		r.len = n
		r.cap = Add(n, Fresh("spare", 0, 1<<40))
		if s.base.obj != nil && mayFit {
			r.base.obj.alias = s.base.obj
		}
		return one(st, r)
	}
	r, ok := st.appendElems(s, t, el, false)
	if !ok {
		st.undecided("append to %s", showVal(s))
		o := st.alloc(types.NewArray(el, -1), "append", ArrV{sym: newSymArr("append", el, n), elem: el})
		return one(st, SliceV{base: Ptr{obj: o}, off: TZero, len: n, cap: n})
	}
	return one(st, r)
}

// elems lists the elements of a slice as an unknown part and known ones.
func (st *State) elems(s SliceV) (ArrV, bool) {
	if s.base.obj == nil {
		return ArrV{}, true
	}
	c, ok := getPath(st.content(s.base.obj), splitPath(s.base.path))
	a, ok2 := c.(ArrV)
	if !ok || !ok2 {
		return ArrV{}, false
	}
	if a.sym != nil {
		if !st.f.Equal(s.off, TZero) {
			return ArrV{}, false
		}
		for k := 0; k <= len(a.elems); k++ {
			if st.f.Equal(s.len, AddC(a.sym.n, int64(k))) {
				return ArrV{sym: a.sym, elems: a.elems[:k:k], elem: a.elem}, true
			}
		}
		return ArrV{}, false
	}
	lo, ok1 := st.f.Range(s.off).single()
	n, ok3 := st.f.Range(s.len).single()
	if !ok1 || !ok3 || lo+n > int64(len(a.elems)) {
		return ArrV{}, false
	}
	return ArrV{elems: a.elems[lo : lo+n : lo+n], elem: a.elem}, true
}

func (st *State) appendElems(s, t SliceV, el types.Type, inPlace bool) (SliceV, bool) {
	a, ok1 := st.elems(s)
	b, ok2 := st.elems(t)
	if !ok1 || !ok2 || b.sym != nil && (a.sym != nil || len(a.elems) > 0) {
		return SliceV{}, false
	}
	r := ArrV{sym: a.sym, elem: el, elems: append(a.elems[:len(a.elems):len(a.elems)], b.elems...)}
	if b.sym != nil {
		r.sym = b.sym
	}
	if r.sym != nil && len(r.elems) > 0 {
		if sl, ok := el.Underlying().(*types.Slice); ok && isByte(sl.Elem()) {
			if e, ok := r.sym.extend(st, r.elems); ok {
				r.sym, r.elems = e, nil
			}
		}
	}
	n := Const(int64(len(r.elems)))
	if r.sym != nil {
		n = Add(n, r.sym.n)
	}
	if inPlace && s.base.obj != nil && st.f.Equal(s.off, TZero) {
		nv, ok := setPath(st.content(s.base.obj), splitPath(s.base.path), r)
		if ok {
			st.heap[s.base.obj] = nv
			s.len = n
			s.nilc = nil
			return s, true
		}
	}
	o := st.alloc(types.NewArray(el, -1), "append", r)
	return SliceV{base: Ptr{obj: o}, off: TZero, len: n, cap: Add(n, Fresh("spare", 0, 1<<40))}, true
}

func (st *State) copyTo(args []Val) []Out {
	d, ok := args[0].(SliceV)
	if !ok {
		st.undecided("copy to %s", showVal(args[0]))
		return one(st, TZero)
	}
	var q Seq
	var sn *Term
	switch y := args[1].(type) {
	case Str:
		q, sn = y.s, y.s.Len()
	case SliceV:
		sn = y.len
		if y.base.obj == nil {
			sn = TZero
		} else {
			c, _ := getPath(st.content(y.base.obj), splitPath(y.base.path))
			if _, isB := c.(BytesV); isB {
				q = st.sliceSeq(y)
			} else {
				return st.copyElems(d, y)
			}
		}
	}
	if d.base.obj == nil {
		return one(st, TZero)
	}
	var outs []Out
	yes, no := st.branch(Le(sn, d.len), "")
	if yes != nil {
		yes.setSlice(d, TZero, q)
		outs = append(outs, Out{yes, sn})
	}
	if no != nil {
		p, ok := no.f.sub(q, TZero, d.len)
		if !ok {
			p = seqRange(NewSrc("copy"), TZero, d.len)
		}
		no.setSlice(d, TZero, p)
		outs = append(outs, Out{no, d.len})
	}
	return outs
}

func (st *State) copyElems(d, s SliceV) []Out {
	a, ok := st.elems(s)
	b, ok2 := st.elems(d)
	if !ok || !ok2 || a.sym != nil && len(b.elems) > 0 || a.sym == nil && b.sym != nil {
		st.undecided("copy of %s to %s", showVal(s), showVal(d))
		return one(st, TZero)
	}
	if a.sym != nil {
		// make + copy of a whole unknown list
		if b.sym != nil && st.f.Equal(d.len, s.len) && st.f.Equal(d.off, TZero) {
			st.heap[d.base.obj] = a
			return one(st, s.len)
		}
		st.undecided("copy of %s to %s", showVal(s), showVal(d))
		return one(st, TZero)
	}
	off, okOff := st.f.Range(d.off).single()
	full, isArr := st.content(d.base.obj).(ArrV)
	if !okOff || !isArr || d.base.path != "" || full.sym != nil {
		st.undecided("copy to %s", showVal(d))
		return one(st, TZero)
	}
	n := min(len(a.elems), len(b.elems))
	c := full
	c.elems = append([]Val(nil), full.elems...)
	for i := 0; i < n; i++ {
		c.elems[int(off)+i] = a.elems[i]
	}
	st.heap[d.base.obj] = c
	return one(st, Const(int64(n)))
}

// constInt evaluates a constant of the repository.
func constInt(c *types.Const) (int64, bool) {
	if c == nil || c.Val().Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Val())
}

var _ = strings.HasPrefix

// modelPoolGet takes an object from a pool: one that New made, and that may
// have been used for anything since.
func modelPoolGet(st *State, fn *ssa.Function, a []Val) []Out {
	p, ok := a[0].(Ptr)
	pt := fn.Signature.Recv().Type().(*types.Pointer).Elem()
	var mk Val
	if ok && p.obj != nil {
		mk, _ = st.fieldAt(st.load(p, pt), pt, "New")
	}
	f, ok := mk.(FuncV)
	if !ok || f.fn == nil && f.bound == nil {
		st.undecided("pool without a known New")
		return st.symResults(fn.Signature, "Get")
	}
	before := map[*Obj]bool{}
	for o := range st.heap {
		before[o] = true
	}
	s := st.fork()
	s.frames = nil
	s.loops = nil
	fr := st.r.call(s, f.fn)
	if f.binds != nil || len(fr) != 1 || fr[0].status != Returned {
		st.undecided("New of a pool")
		return st.symResults(fn.Signature, "Get")
	}
	for o, c := range fr[0].heap {
		if before[o] {
			continue
		}
		o.pooled = true
		switch x := c.(type) {
		case BufV:
			c = BufV{s: seqRange(NewSrc("pooled"), TZero, Fresh("len(pooled)", 0, 1<<40)), dirty: true}
		case BytesV:
			c = BytesV{seqRange(NewSrc("pooled"), TZero, x.s.Len())}
		}
		st.heap[o] = c
	}
	return one(st, fr[0].ret)
}
