package main

import (
	"fmt"
	"go/types"
)

// ctlSpec describes the body of a control sequence.
type ctlSpec struct {
	name   string
	id     int64
	fields []ctlField
	body   string // the rest of the payload
	capped bool   // SetChunkSize: the value is private and capped
}

type ctlField struct {
	name string
	n    int
}

var controls = []ctlSpec{
	{name: "SetChunkSize", id: 1, fields: []ctlField{{"ChunkSize", 4}}, capped: true},
	{name: "AbortMessage", id: 2, fields: []ctlField{{"ChunkStreamId", 4}}},
	{name: "Acknowledgement", id: 3, fields: []ctlField{{"SequenceNumber", 4}}},
	{name: "Event", id: 4, fields: []ctlField{{"Type", 2}}, body: "Body"},
	{name: "WindowAckSize", id: 5, fields: []ctlField{{"WindowAckSize", 4}}},
	{name: "SetPeerBandwidth", id: 6, fields: []ctlField{{"AckWindowSize", 4}, {"LimitType", 1}}},
}

func (k ctlSpec) size() (n int) {
	for _, f := range k.fields {
		n += f.n
	}
	return n
}

// states with the field's value; the accessor of a private field is called.
func (c *Ctx) ctlField(st *State, k ctlSpec, p Ptr, f ctlField) ([]*State, []*Term) {
	t := c.typ("control", k.name)
	if !k.capped {
		return []*State{st}, []*Term{st.num(st.content(p.obj), t, f.name)}
	}
	var ss []*State
	var vs []*Term
	for _, s := range c.ended("values", k.name+"."+f.name, st.r.call(st, c.method(t, f.name), p)) {
		ss = append(ss, s)
		vs = append(vs, asTerm(s.ret))
	}
	return ss, vs
}

func init() {
	checks["C09"] = &checkDef{
		title: "control sequence bodies",
		rule: "Read and Write of each of the six control sequences are interpreted abstractly. Write must emit exactly the fields' big-endian terms (and the event body); Read from an arbitrary stream must " +
			"hold exactly the values of its bytes; a stream that ends early must lead to an error on every path. The chunk size is partitioned at the cap 0xFFFFFF. The named event and limit types have the protocol's values.",
		needs: map[string]int{"write": 7, "read": 7, "short": 6, "constant": 5},
		run: func(c *Ctx) {
			for _, k := range controls {
				t := c.typ("control", k.name)
				ranges := [][2]int64{{0, 0xffffffff}}
				if k.capped {
					ranges = [][2]int64{{0, 0xffffff}, {0x1000000, 0xffffffff}}
				}
				for _, rg := range ranges {
					c.ctlWrite(k, t, rg[0], rg[1])
					c.ctlRead(k, t, rg[0], rg[1])
				}
				c.ctlShort(k, t)
			}
			c.constants("control", "the protocol", []flvConst{{"StreamBegin", 0}, {"SetBufferLength", 3}, {"LimitTypeHard", 0}, {"LimitTypeSoft", 1}, {"LimitTypeDynamic", 2}})
		},
	}
}

func (c *Ctx) ctlWrite(k ctlSpec, t types.Type, lo, hi int64) {
	r := c.newRun()
	st := r.withInits()
	at := fmt.Sprintf("%s.Write", k.name)
	var want Seq
	starts := []*State{st}
	var p Ptr
	if k.capped {
		at = fmt.Sprintf("%s.Write, size %#x..%#x", k.name, lo, hi)
		v := Fresh("size", lo, hi)
		starts = c.ended("write", "NewSetChunkSize", r.call(st, c.fn("control", "NewSetChunkSize"), v))
		if lo > 0 {
			v = Const(0xffffff)
		}
		want = st.f.beBytes(v, 4)
		var ok bool
		if p, ok = starts[0].ret.(Ptr); !ok || len(starts) != 1 {
			c.fail("write", "NewSetChunkSize", nil, "does not return one object")
			return
		}
		starts[0].status = 0
	} else {
		p = st.inputObj(t, "c")
		for _, f := range k.fields {
			want = seqCat(want, st.f.beBytes(st.num(st.content(p.obj), t, f.name), f.n))
		}
		if k.body != "" {
			q := seqRange(NewSrc("body"), TZero, Fresh("n", 0, 1<<24))
			st.setField(p, t, st.bytesArg("body", q), k.body)
			want = seqCat(want, q)
		}
	}
	n := 0
	w := ioWriter(r, "w")
	for _, s := range starts {
		for _, o := range c.ended("write", at, r.call(s, c.method(t, "Write"), p, w)) {
			if o.failed() {
				continue
			}
			if nl, ok := c.nilErr("write", at, o); !ok || !nl {
				c.check(!ok, "write", at, o, "returns an error although no write failed")
				continue
			}
			n++
			q, _, _ := written(o.evs, w)
			c.check(o.f.SeqEqual(q, want), "write", at, o, "emits %v, the protocol has %v", q, want)
			c.sample("%s: %v", at, q)
			if k.capped {
				ss, vs := c.ctlField(o, k, p, k.fields[0])
				for i, s := range ss {
					c.check(s.f.SeqEqual(s.f.beBytes(vs[i], 4), want), "write", at, s, "is used as %v", vs[i])
				}
			}
		}
	}
	c.check(n > 0, "write", at+" (success)", nil, "no successful outcome")
	c.end(r)
}

func (c *Ctx) ctlRead(k ctlSpec, t types.Type, lo, hi int64) {
	r := c.newRun()
	st := r.withInits()
	at := fmt.Sprintf("%s.Read", k.name)
	p := st.inputObj(t, "c")
	q := Seq(nil)
	var vals []*Term
	for _, f := range k.fields {
		v := Fresh(f.name, 0, 1<<(8*f.n)-1)
		if k.capped {
			at = fmt.Sprintf("%s.Read, size %#x..%#x", k.name, lo, hi)
			st.f.Between(v, lo, hi)
		}
		q = seqCat(q, st.f.beBytes(v, f.n))
		if k.capped && lo > 0 {
			v = Const(0xffffff)
		}
		vals = append(vals, v)
	}
	rest := seqRange(NewSrc("rest"), TZero, Fresh("n", 0, 1<<24))
	rd := st.buffer(seqCat(q, rest))
	n := 0
	for _, o := range c.ended("read", at, r.call(st, c.method(t, "Read"), p, rd)) {
		if o.failed() {
			continue
		}
		if nl, ok := c.nilErr("read", at, o); !ok || !nl {
			c.check(!ok, "read", at, o, "rejects %v", q)
			continue
		}
		n++
		c.ctlHas("read", at, o, k, t, p, vals, rest)
	}
	c.check(n > 0, "read", at+" (success)", nil, "no successful outcome")
	c.end(r)
}

// ctlHas checks the values of a decoded control sequence.
func (c *Ctx) ctlHas(rule, at string, o *State, k ctlSpec, t types.Type, p Ptr, vals []*Term, rest Seq) {
	for i, f := range k.fields {
		ss, vs := c.ctlField(o, k, p, f)
		for j, s := range ss {
			c.check(vs[j] != nil && s.f.Equal(vs[j], vals[i]), rule, at, s, "%s is %v, expected %v", f.name, vs[j], vals[i])
			c.sample("%s: %s is %v", at, f.name, vs[j])
		}
	}
	if k.body != "" {
		b, _ := o.fieldAt(o.content(p.obj), t, k.body)
		s, ok := b.(SliceV)
		c.check(ok && o.f.SeqEqual(o.sliceSeq(s), rest), rule, at, o, "%s is %s, expected %v", k.body, showVal(b), rest)
	}
}

func (c *Ctx) ctlShort(k ctlSpec, t types.Type) {
	for n := 0; n < k.size(); n++ {
		r := c.newRun()
		st := r.withInits()
		at := fmt.Sprintf("%s.Read, %d bytes", k.name, n)
		p := st.inputObj(t, "c")
		rd := st.buffer(seqRange(NewSrc("short"), TZero, Const(int64(n))))
		for _, o := range c.ended("short", at, r.call(st, c.method(t, "Read"), p, rd)) {
			nl, ok := c.nilErr("short", at, o)
			c.check(ok && !nl, "short", at, o, "accepts a body of %d bytes", n)
		}
		c.end(r)
	}
}

func init() {
	checks["C10"] = &checkDef{
		title: "control messages by type id",
		rule: "control.NewParser().Parse is interpreted abstractly, twice in a row, for every type id 1..6 and all others and for arbitrary payloads. A success must be an object of the id's type, allocated by this call, whose fields are " +
			"exactly the terms of this message's payload; for other ids the result must be UnknownControlType holding the id; a failed decoding must yield its own error.",
		needs: map[string]int{"decoded": 12, "own object": 12, "unknown": 2, "body error": 6, "short": 6},
		run: func(c *Ctx) {
			for i := range controls {
				// any kind before it, most of all the same
				for j := range controls {
					if i == j || j == (i+1)%len(controls) {
						c.ctlParse(&controls[j], &controls[i])
					}
				}
				c.ctlParse(nil, &controls[i])
			}
			c.ctlUnknown()
		},
	}
}

// message makes a message with a type id and a payload.
func (c *Ctx) message(st *State, name string, id *Term, payload Seq) Ptr {
	ch, hd := c.chunkArg(st, name)
	st.setField(hd, c.typ("chunk", "Header"), id, "MessageHeader", "TypeId")
	st.setField(ch, c.typ("chunk", "Chunk"), st.bytesArg(name+".Data", payload), "Data")
	return ch
}

func (c *Ctx) newParser(r *Run, st *State) (Val, []*State) {
	outs := c.ended("decoded", "control.NewParser", r.call(st, c.fn("control", "NewParser")))
	if len(outs) == 0 {
		panic("control.NewParser does not return")
	}
	for _, o := range outs {
		o.status = 0
	}
	return outs[0].ret, outs[:1]
}

func (c *Ctx) ctlParse(prev, k *ctlSpec) {
	r := c.newRun()
	st := r.withInits()
	parser, states := c.newParser(r, st)
	st = states[0]
	pt := c.typ("control", "DefaultParser")
	parse := c.method(pt, "Parse")
	before := map[*State]*Obj{st: nil}
	starts := []*State{st}
	at := fmt.Sprintf("control.DefaultParser.Parse, type %d", k.id)
	if prev != nil {
		at += fmt.Sprintf(" after %d", prev.id)
		src := NewSrc("earlier")
		m := c.message(st, "earlier", Const(prev.id), seqRange(src, TZero, Fresh("n", 0, 1<<24)))
		starts = nil
		for _, o := range c.ended("decoded", at, r.call(st, parse, parser, m)) {
			p, _ := resultObj(o.ret)
			o.status = 0
			before[o] = p.obj
			starts = append(starts, o)
		}
	}
	n := 0
	for _, s := range starts {
		old := before[s]
		evs := len(s.evs)
		known := map[*Obj]bool{}
		for o := range s.heap {
			known[o] = true
		}
		var vals []*Term
		src := NewSrc("payload")
		off := int64(0)
		for _, f := range k.fields {
			v := s.f.beNum(src, off, f.n)
			off += int64(f.n)
			vals = append(vals, v)
		}
		size := Fresh("n", 0, 1<<24)
		m := c.message(s, "message", Const(k.id), seqRange(src, TZero, size))
		for _, o := range c.ended("decoded", at, r.call(s, parse, parser, m)) {
			nl, ok := c.nilErr("decoded", at, o)
			if !ok {
				continue
			}
			if !nl {
				for _, e := range o.evs[evs:] {
					if e.kind == "fail" {
						c.check(o.sameVal(errOf(o.ret), e.val), "body error", at, o, "a failed decoding ends in %s", showVal(errOf(o.ret)))
						break
					}
				}
				short, dok := o.f.Decide(Lt(size, Const(int64(k.size()))))
				c.check(dok && short, "short", at, o, "rejects a body that is long enough")
				continue
			}
			n++
			long, dok := o.f.Decide(Le(Const(int64(k.size())), size))
			c.check(dok && long, "short", at, o, "accepts a body that may be too short")
			p, iv := resultObj(o.ret)
			if !c.check(p.obj != nil && iv.typ != nil && typeName(iv.typ) == k.name, "decoded", at, o, "decodes into %s, expected %s", showVal(o.ret), k.name) {
				continue
			}
			c.check(p.obj != old && !known[p.obj], "own object", at, o, "decodes into an object that existed before")
			vs := append([]*Term(nil), vals...)
			if k.capped {
				// the accessor caps it
				y, nn := o.branch(Le(vs[0], Const(0xffffff)), "cap")
				if y != nil {
					c.ctlHas("decoded", at, y, *k, c.typ("control", k.name), p, vs, nil)
				}
				if nn != nil {
					c.ctlHas("decoded", at, nn, *k, c.typ("control", k.name), p, []*Term{Const(0xffffff)}, nil)
				}
				continue
			}
			rest, rok := o.f.sub(seqRange(src, TZero, size), Const(int64(k.size())), size)
			c.check(rok, "decoded", at, o, "no rest")
			c.ctlHas("decoded", at, o, *k, c.typ("control", k.name), p, vs, rest)
		}
	}
	c.check(n > 0, "decoded", at+" (success)", nil, "no successful outcome")
	c.end(r)
}

func (c *Ctx) ctlUnknown() {
	r := c.newRun()
	st := r.withInits()
	parser, states := c.newParser(r, st)
	st = states[0]
	id := Fresh("type", 0, 255)
	m := c.message(st, "message", id, seqRange(NewSrc("payload"), TZero, Fresh("n", 0, 1<<24)))
	at := "control.DefaultParser.Parse, other types"
	for i := int64(1); i <= 6; i++ {
		st.f.Assume(EqT(id, Const(i)), false)
	}
	n := 0
	for _, o := range c.ended("unknown", at, r.call(st, c.method(c.typ("control", "DefaultParser"), "Parse"), parser, m)) {
		n++
		e, ok := errOf(o.ret).(IfaceV)
		if !c.check(ok && e.typ != nil && typeName(e.typ) == "UnknownControlType", "unknown", at, o, "ends in %s", showVal(o.ret)) {
			continue
		}
		c.check(o.f.Equal(asTerm(e.v), id), "unknown", at, o, "names type %s", showVal(e.v))
	}
	c.check(n > 0, "unknown", at+" (outcome)", nil, "no outcome")
	c.end(r)
}

// resultObj is the object behind the first result.
func resultObj(v Val) (Ptr, IfaceV) {
	t, ok := v.(TupleV)
	if !ok || len(t) == 0 {
		return Ptr{}, IfaceV{}
	}
	switch x := t[0].(type) {
	case IfaceV:
		p, _ := x.v.(Ptr)
		return p, x
	case Ptr:
		return x, IfaceV{}
	}
	return Ptr{}, IfaceV{}
}
