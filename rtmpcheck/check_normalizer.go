package main

import (
	"fmt"
	"go/types"
)

// hdrSnap are the fields of a header at some moment.
type hdrSnap struct {
	v Val
	t types.Type
}

func (s hdrSnap) get(st *State, path ...string) *Term { return st.num(s.v, s.t, path...) }

var msgFieldNames = []string{"FormatId", "Timestamp", "TimestampDelta", "Length", "TypeId", "StreamId"}

func init() {
	checks["C04"] = &checkDef{
		title: "completion of compressed headers",
		rule: "Normalize is interpreted abstractly from an arbitrary state of the DefaultNormalizer (its map and fields are unknown) for the history: an arbitrary header on chunk stream a, optionally an arbitrary header on another stream b, " +
			"then a header of format f on a. The arbitrary start makes this the inductive step for histories of any length. For every f the result's fields must be the terms of the previous header on a (as completed) or of the header itself. " +
			"From a new normalizer, a first header on a must be passed on unaltered whatever came on b. The header of the earlier message must not change. Last and Header must then hand out the header just completed. NoopNormalizer must leave an arbitrary header as it is.",
		needs: map[string]int{"completed": 8, "first on its stream": 4, "earlier header": 8, "latest": 16, "untouched": 1},
		run: func(c *Ctx) {
			c.untouched()
			nt := c.typ("chunk", "DefaultNormalizer")
			for format := int64(0); format <= 3; format++ {
				for _, other := range []bool{false, true} {
					r := c.newRun()
					st := r.withInits()
					n := st.inputObj(nt, "normalizer")
					c.normalized(st, IfaceV{typ: types.NewPointer(nt), v: n}, format, other, true)
					c.end(r)
				}
				r := c.newRun()
				st := r.withInits()
				for _, s := range c.ended("first on its stream", "NewNormalizer", r.call(st, c.fn("chunk", "NewNormalizer"))) {
					n := s.ret
					s.status = 0
					c.normalized(s, n, format, true, false)
				}
				c.end(r)
			}
		},
	}
}

// untouched: the normalizer that does nothing.
func (c *Ctx) untouched() {
	r := c.newRun()
	st := r.withInits()
	h := c.header(st, "header", Fresh("id", 0, 65599))
	own := c.snap(st, h)
	at := "NoopNormalizer.Normalize"
	outs, ps := c.normalize(st, c.global(st, "chunk", "NoopNormalizer"), h, "untouched", at)
	for i, o := range outs {
		c.check(o.sameVal(o.load(ps[i], own.t), own.v) && o.sameVal(o.load(h, own.t), own.v), "untouched", at, o, "the header %s becomes %s", showVal(own.v), showVal(o.load(ps[i], own.t)))
	}
	c.end(r)
}

func (c *Ctx) header(st *State, name string, id *Term) Ptr {
	ht := c.typ("chunk", "Header")
	p := st.inputObj(ht, name)
	st.setField(p, ht, id, "BasicHeader", "StreamId")
	st.f.Between(st.num(st.content(p.obj), ht, "BasicHeader", "FormatId"), 0, 3)
	return p
}

func (c *Ctx) snap(st *State, p Ptr) hdrSnap {
	ht := c.typ("chunk", "Header")
	return hdrSnap{st.load(p, ht), ht}
}

func (c *Ctx) normalize(st *State, n Val, h Ptr, rule, at string) (outs []*State, res []Ptr) {
	for _, o := range c.ended(rule, at, st.r.callMethod(st, n, "Normalize", h)) {
		p, ok := o.ret.(Ptr)
		if !c.check(ok && p.obj != nil, rule, at, o, "returns %s", showVal(o.ret)) {
			continue
		}
		o.status = 0
		outs = append(outs, o)
		res = append(res, p)
	}
	return
}

// normalized runs: (header on a), (header on b), header of the format on a.
func (c *Ctx) normalized(st *State, n Val, format int64, other, earlier bool) {
	ht := c.typ("chunk", "Header")
	a, b := Fresh("a", 2, 65599), Fresh("b", 2, 65599)
	st.f.Assume(EqT(a, b), false)
	rule := "completed"
	at := fmt.Sprintf("Normalize, format %d", format)
	if other {
		at += ", another stream in between"
	}
	if !earlier {
		rule = "first on its stream"
		at = fmt.Sprintf("Normalize, format %d, first on its stream", format)
	}
	type run struct {
		st   *State
		prev hdrSnap
		p    Ptr
	}
	runs := []run{{st: st}}
	if earlier {
		runs = nil
		h1 := c.header(st, "earlier", a)
		outs, ps := c.normalize(st, n, h1, rule, at)
		for i, o := range outs {
			runs = append(runs, run{o, c.snap(o, ps[i]), ps[i]})
		}
	}
	if other {
		var next []run
		for _, x := range runs {
			h2 := c.header(x.st, "other", b)
			outs, _ := c.normalize(x.st, n, h2, rule, at)
			for _, o := range outs {
				next = append(next, run{o, x.prev, x.p})
			}
		}
		runs = next
	}
	num := 0
	for _, x := range runs {
		h := c.header(x.st, "header", a)
		x.st.setField(h, ht, Const(format), "BasicHeader", "FormatId")
		own := c.snap(x.st, h)
		outs, ps := c.normalize(x.st, n, h, rule, at)
		for i, o := range outs {
			num++
			got := c.snap(o, ps[i])
			same := func(from hdrSnap, path ...string) {
				c.check(o.f.Equal(got.get(o, path...), from.get(o, path...)), rule, at+", "+path[len(path)-1], o, "%v is %v, expected %v", path, got.get(o, path...), from.get(o, path...))
			}
			same(own, "BasicHeader", "FormatId")
			same(own, "BasicHeader", "StreamId")
			if format < 3 {
				same(own, "ExtendedTimestamp", "Delta")
			}
			for _, f := range msgFieldNames {
				from := own
				if earlier && (format == 3 || format >= 1 && f == "StreamId" || format == 2 && (f == "Length" || f == "TypeId")) {
					from = x.prev
				}
				same(from, "MessageHeader", f)
			}
			c.sample("%s: %s", at, showVal(got.v))
			c.latest(o, n, nil, got, at)
			c.latest(o, n, a, got, at)
			if earlier {
				c.check(o.sameVal(o.load(x.p, ht), x.prev.v), "earlier header", at, o, "the earlier header becomes %s, it was %s", showVal(o.load(x.p, ht)), showVal(x.prev.v))
			}
		}
	}
	c.check(num > 0, rule, at+" (outcome)", nil, "no outcome")
}

// latest: the normalizer hands out the header that it has completed last, of
// all or of one chunk stream.
func (c *Ctx) latest(st *State, n Val, id *Term, want hdrSnap, at string) {
	name, args := "Last", []Val(nil)
	if id != nil {
		name, args = "Header", []Val{id}
	}
	at += ", " + name
	for _, o := range c.ended("latest", at, st.r.callMethod(st.idle(), n, name, args...)) {
		p, ok := o.ret.(Ptr)
		if c.check(ok && p.obj != nil, "latest", at, o, "it is %s", showVal(o.ret)) {
			got := c.snap(o, p)
			c.check(o.sameVal(got.v, want.v), "latest", at, o, "it is %s, the last completed header is %s", showVal(got.v), showVal(want.v))
		}
	}
}

// callMethod calls a method of a value whose concrete type is known.
func (r *Run) callMethod(st *State, recv Val, name string, args ...Val) []*State {
	switch x := recv.(type) {
	case IfaceV:
		if x.typ == nil && x.sym != nil {
			if it, ok := x.sym.typ.Underlying().(*types.Interface); ok {
				for i := 0; i < it.NumMethods(); i++ {
					if m := it.Method(i); m.Name() == name {
						st.status = Running
						return r.run(st.symInvoke(x.sym, name, m.Type().(*types.Signature), args))
					}
				}
			}
		}
		if x.typ == nil {
			panic(fmt.Sprintf("%s has no known type", showVal(recv)))
		}
		fn := r.w.method(x.typ, name)
		if fn == nil {
			panic(fmt.Sprintf("%s has no method %s", x.typ, name))
		}
		return r.call(st, fn, append([]Val{x.v}, args...)...)
	case Ptr:
		if x.obj != nil && x.path == "" {
			if fn := r.w.method(types.NewPointer(x.obj.typ), name); fn != nil {
				return r.call(st, fn, append([]Val{x}, args...)...)
			}
		}
		panic(fmt.Sprintf("%s has no method %s", showVal(recv), name))
	}
	panic(fmt.Sprintf("%s is not an interface value", showVal(recv)))
}
