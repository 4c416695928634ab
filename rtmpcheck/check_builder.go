package main

import (
	"go/types"
)

// C35: what a chunk.Builder holds and what it lacks.

func init() {
	checks["C35"] = &checkDef{run: runC35, title: "what a builder holds and lacks",
		rule: "NewBuilder, and Append, Read, AddLeft and Build of a Builder with arbitrary content, are interpreted abstractly for unknown bytes of any length and an unknown reader. " +
			"On every path what BytesLeft returns afterwards, the bytes held, the count and error returned and what was read are compared with the specification; ErrTooManyBytes must be returned exactly on the paths on which what is left is known to be negative.",
		needs: map[string]int{"new": 3, "append": 6, "read": 6, "room": 2, "build": 3}}
}

func runC35(c *Ctx) {
	bt, ht := c.typ("chunk", "Builder"), c.typ("chunk", "Header")
	left := func(rule, at string, st *State, b Val, want *Term) {
		for _, o := range c.ended(rule, at, st.r.callMethod(st.idle(), b, "BytesLeft")) {
			t, ok := o.ret.(*Term)
			c.check(ok && o.f.Equal(t, want), rule, at, o, "BytesLeft is %s, expected %v", showVal(o.ret), want)
		}
	}
	holds := func(rule, at string, st *State, b Ptr, want Seq) {
		q := listBytes(st, st.load(b, bt), bt)
		c.check(st.f.SeqEqual(q, want), rule, at, st, "it holds %v, expected %v", q, want)
	}
	header := func(rule, at string, st *State, b, h Ptr, was Val) {
		v, _ := st.fieldAt(st.load(b, bt), bt, "Header")
		p, ok := v.(Ptr)
		c.check(ok && p.obj != nil && st.sameVal(st.load(p, ht), was), rule, at, st, "its header is %s", showVal(v))
	}

	// a new one
	{
		r := c.newRun()
		st := r.withInits()
		h := st.inputObj(ht, "header")
		own := st.content(h.obj)
		n := st.num(own, ht, "MessageHeader", "Length")
		st.f.Between(n, 0, 1<<24-1)
		at := "NewBuilder"
		for _, o := range c.ended("new", at, r.call(st, c.fn("chunk", "NewBuilder"), h)) {
			b, ok := o.ret.(Ptr)
			if !c.check(ok && b.obj != nil, "new", at, o, "returns %s", showVal(o.ret)) {
				continue
			}
			left("new", at, o, b, n)
			holds("new", at, o, b, nil)
			header("new", at, o, b, h, own)
		}
		c.end(r)
	}

	cnt := c.counterOf(bt, "BytesLeft")
	if cnt == nil {
		panic("BytesLeft does not add up fields of the Builder")
	}
	// an arbitrary one
	arbitrary := func() (r *Run, st *State, b Ptr, l *Term, held Seq, h Ptr, own Val) {
		r = c.newRun()
		st = r.withInits()
		b = st.inputObj(bt, "builder")
		h = st.inputObj(ht, "header")
		own = st.content(h.obj)
		st.setField(b, bt, h, "Header")
		l = Fresh("left", -1<<24, 1<<24)
		if !cnt.set(st, b, bt, l) {
			panic("what a builder lacks cannot be set")
		}
		return r, st, b, l, listBytes(st, st.load(b, bt), bt), h, own
	}
	tooMany := func(rule, at string, o *State, l *Term, err Val) {
		want := o.globalVal(c.w.pkg("chunk").Pkg.Path(), "ErrTooManyBytes")
		y, n := o.cases(Lt(l, TZero))
		if y != nil {
			c.check(y.sameVal(err, want), rule, at+", too many", y, "%v bytes are left, and %s is returned", l, showVal(err))
		}
		if n != nil {
			nl, ok := n.isNil(err)
			c.check(ok && nl, rule, at+", not too many", n, "%v bytes are left, and %s is returned", l, showVal(err))
		}
	}
	result := func(rule, at string, o *State) (n *Term, err Val, ok bool) {
		tv, ok := o.ret.(TupleV)
		if ok && len(tv) == 2 {
			n, ok = tv[0].(*Term)
			err = tv[1]
		}
		c.check(ok, rule, at, o, "returns %s", showVal(o.ret))
		return n, err, ok
	}
	{
		r, st, b, l, held, h, own := arbitrary()
		q := seqRange(NewSrc("bytes"), TZero, Fresh("n", 0, 1<<24))
		at := "Builder.Append"
		for _, o := range c.ended("append", at, r.callMethod(st, b, "Append", st.bytesArg("bytes", q))) {
			n, err, ok := result("append", at, o)
			if !ok {
				continue
			}
			c.check(o.f.Equal(n, q.Len()), "append", at, o, "returns %v, %v bytes were added", n, q.Len())
			now := Sub(l, q.Len())
			left("append", at, o, b, now)
			holds("append", at, o, b, seqCat(held, q))
			header("append", at, o, b, h, own)
			tooMany("append", at, o, now, err)
			c.sample("%s: %v left", at, now)
		}
		c.end(r)
	}
	{
		r, st, b, l, held, h, own := arbitrary()
		rd := ioReader(r, "source")
		st.input(rd.sym)
		src := rd.sym.data2
		n := Fresh("n", 0, 1<<24)
		at := "Builder.Read"
		good, bad := 0, 0
		for _, o := range c.ended("read", at, r.callMethod(st, b, "Read", rd, n)) {
			cn, err, ok := result("read", at, o)
			if !ok {
				continue
			}
			if o.failed() {
				bad++
				nl, ok := o.isNil(err)
				c.check(ok && !nl, "read", at+", failure", o, "reading fails, and %s is returned", showVal(err))
				left("read", at+", failure", o, b, l)
				holds("read", at+", failure", o, b, held)
				continue
			}
			good++
			c.check(o.f.Equal(cn, n), "read", at, o, "returns %v, %v bytes were to be read", cn, n)
			c.check(o.f.Equal(o.consumed(rd), n), "read", at, o, "%v bytes are taken, %v were to be read", o.consumed(rd), n)
			now := Sub(l, n)
			left("read", at, o, b, now)
			holds("read", at, o, b, seqCat(held, seqRange(src, TZero, n)))
			header("read", at, o, b, h, own)
			tooMany("read", at, o, now, err)
		}
		c.check(good > 0 && bad > 0, "read", at, nil, "%d successful and %d failing outcomes", good, bad)
		c.end(r)
	}
	{
		r, st, b, l, held, _, _ := arbitrary()
		d := Fresh("delta", -1<<24, 1<<24)
		at := "Builder.AddLeft"
		for _, o := range c.ended("room", at, r.callMethod(st, b, "AddLeft", d)) {
			left("room", at, o, b, Add(l, d))
			holds("room", at, o, b, held)
		}
		c.end(r)
	}
	{
		r, st, b, l, held, _, own := arbitrary()
		at := "Builder.Build"
		ct := c.typ("chunk", "Chunk")
		for _, o := range c.ended("build", at, r.callMethod(st, b, "Build")) {
			p, ok := o.ret.(Ptr)
			if !c.check(ok && p.obj != nil, "build", at, o, "returns %s", showVal(o.ret)) {
				continue
			}
			v := o.load(p, ct)
			hv, hvT := o.fieldAt(v, ct, "Header")
			if hp, ok := hv.(Ptr); ok && hp.obj != nil {
				if t, ok := hvT.(*types.Pointer); ok {
					hv = o.load(hp, t.Elem())
				}
			}
			c.check(o.sameVal(hv, own), "build", at, o, "the chunk's header is %s", showVal(hv))
			dv, _ := o.fieldAt(v, ct, "Data")
			d, ok := dv.(SliceV)
			if c.check(ok, "build", at, o, "the chunk's data are %s", showVal(dv)) {
				q := o.sliceSeq(d)
				c.check(o.f.SeqEqual(q, held), "build", at, o, "the chunk carries %v, the builder holds %v", q, held)
				c.sample("%s: %v", at, q)
			}
			left("build", at, o, b, l)
			holds("build", at, o, b, held)
		}
		c.end(r)
	}
}
