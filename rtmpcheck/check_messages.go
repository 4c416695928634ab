package main

// Messages that the library builds itself (C08).

import (
	"fmt"
	"go/types"
)

// framed is what the protocol says about the header of a message.
type framed struct {
	csid, msid int64
	typeID     *Term
}

// built judges a message that was made; false: it is none.
func (c *Ctx) built(at string, o *State, v Val, f framed, payload Seq) bool {
	ct, ht := c.typ("chunk", "Chunk"), c.typ("chunk", "Header")
	p, ok := v.(Ptr)
	if nl, known := o.isNil(v); !c.check(ok && p.obj != nil && known && !nl, "message", at, o, "the message is %s", showVal(v)) || nl {
		return false
	}
	cv := o.load(p, ct)
	hv, _ := o.fieldAt(cv, ct, "Header")
	hp, ok := hv.(Ptr)
	if nl, known := o.isNil(hv); !c.check(ok && hp.obj != nil && known && !nl, "message", at, o, "its header is %s", showVal(hv)) || nl {
		return false
	}
	dv, _ := o.fieldAt(cv, ct, "Data")
	d, ok := dv.(SliceV)
	if !c.check(ok, "message", at, o, "its payload is %s", showVal(dv)) {
		return false
	}
	h := o.load(hp, ht)
	for _, x := range []struct {
		name string
		path []string
		want *Term
	}{
		{"format", []string{"BasicHeader", "FormatId"}, TZero},
		{"chunk stream", []string{"BasicHeader", "StreamId"}, Const(f.csid)},
		{"message stream", []string{"MessageHeader", "StreamId"}, Const(f.msid)},
		{"type", []string{"MessageHeader", "TypeId"}, f.typeID},
	} {
		n := o.num(h, ht, x.path...)
		c.check(n != nil && o.f.Equal(n, x.want), "header", at+", "+x.name, o, "it is %v, the protocol has %v", n, x.want)
	}
	q := o.sliceSeq(d)
	n := o.num(h, ht, "MessageHeader", "Length")
	// longer ones cannot be announced
	if o, _ = o.cases(Le(d.len, Const(0xffffff))); o == nil {
		c.fail("length", at, o, "it carries %v", q)
		return false
	}
	c.check(n != nil && o.f.Equal(n, d.len) && o.f.Equal(q.Len(), d.len), "length", at, o, "it announces %v bytes and carries %v", n, d.len)
	if payload != nil {
		c.check(o.f.SeqEqual(q, payload), "payload", at, o, "it carries %v, expected %v", q, payload)
	}
	c.sample("%s: announces %v, carries %v", at, n, q)
	return true
}

// encoded follows an operation that builds a message. want says what
// the payload must be; it may give nil for a payload that it knows nothing of.
func (c *Ctx) encoded(at string, outs []*State, evs func(o *State) []*Event, f framed, want func(o *State, evs []*Event) Seq) (good []*State) {
	bad := 0
	for _, o := range c.ended("message", at, outs) {
		es := evs(o)
		var cause *Event
		for _, e := range es {
			if e.kind == "fail" && cause == nil {
				cause = e
			}
		}
		t, ok := o.ret.(TupleV)
		if !c.check(ok && len(t) == 2, "message", at, o, "the result is %s", showVal(o.ret)) {
			continue
		}
		if cause != nil {
			bad++
			c.check(o.sameVal(t[1], cause.val), "failure", at, o, "a failed encoding ends in %s", showVal(t[1]))
			nl, known := o.isNil(t[0])
			c.check(known && nl, "failure", at, o, "a message is built all the same")
			continue
		}
		if nl, ok := c.nilErr("message", at, o); !ok || !nl {
			c.check(!ok, "message", at, o, "returns an error although nothing failed")
			continue
		}
		if c.built(at, o, t[0], f, want(o, es)) {
			good = append(good, o)
		}
	}
	c.check(len(good) > 0, "message", at+" (success)", nil, "no message is built")
	if bad > 0 {
		c.count("failures followed", true)
	}
	return good
}

// marshalled is the encoding of a message of the library, in the operation
// that the events belong to: of an object of its type that has the fields that
// the message had, but for those that are set.
func (c *Ctx) marshalled(at string, o *State, evs []*Event, t types.Type, before Val, sets map[string]string) Seq {
	for _, e := range evs {
		if e.kind != "marshal" || len(e.args) != 1 {
			continue
		}
		iv, _ := e.args[0].(IfaceV)
		s, ok := e.val.(SliceV)
		if !ok || iv.typ == nil || typeName(iv.typ) != typeName(t) {
			continue
		}
		c.holds(at, o, e.data, t, sets)
		st, _ := t.Underlying().(*types.Struct)
		a, aok := before.(StructV)
		b, bok := e.data.(StructV)
		for i := 0; i < st.NumFields(); i++ {
			if _, ok := sets[st.Field(i).Name()]; ok || st.Field(i).Name() == "_" {
				continue
			}
			c.check(aok && bok && o.sameVal(a[i], b[i]), "payload", at+", "+st.Field(i).Name(), o, "another value is encoded")
		}
		return o.sliceSeq(s)
	}
	c.fail("payload", at, o, "the message is not what is encoded")
	return nil
}

func runC08(c *Ctx) {
	all := func(o *State) []*Event { return o.evs }
	// control sequences: an unknown one, and two known ones one after the other
	{
		r := c.newRun()
		st := r.withInits()
		ct := c.typ("control", "Control")
		ctl := IfaceV{sym: r.newSym("control sequence", "", ct)}
		id := Fresh("id", 0, 255)
		r.symCall = func(st *State, recv *SymObj, method string, sig *types.Signature, args []Val) ([]Out, bool) {
			if recv == ctl.sym && sig.Params().Len() == 0 && sig.Results().Len() == 1 {
				return []Out{{st, id}}, true
			}
			return nil, false
		}
		for _, s := range c.ended("message", "control.NewChunker", r.call(st, c.fn("control", "NewChunker"))) {
			ch := s.ret
			s.status = 0
			at := "control.DefaultChunker.Chunk"
			c.encoded(at, r.callMethod(s, ch, "Chunk", ctl), all, framed{2, 0, id}, func(o *State, evs []*Event) Seq {
				for _, e := range evs {
					if e.kind == "call" && e.data == ctl.sym && e.seq != nil {
						return e.seq
					}
				}
				return nil
			})
		}
		c.end(r)
	}
	for i := range controls {
		c.twoControls(controls[i], controls[(i+1)%len(controls)])
	}
	// responses
	for _, name := range []string{"", "ConnectResponse", "CreateStreamResponse"} {
		r := c.newRun()
		st := r.withInits()
		at := "conn.DefaultChunker.Chunk, " + name
		var m IfaceV
		var p Ptr
		if name == "" {
			at = "conn.DefaultChunker.Chunk"
			t := c.typ("cmd/conn", "Marshallable")
			m = IfaceV{sym: r.newSym("response", "", t)}
		} else {
			t := c.typ("cmd/conn", name)
			p = st.inputObj(t, name)
			m = IfaceV{typ: types.NewPointer(t), v: p}
		}
		var before Val
		if p.obj != nil {
			before = st.content(p.obj)
		}
		for _, s := range c.ended("message", "conn.NewChunker", r.call(st, c.fn("cmd/conn", "NewChunker"), Const(3))) {
			ch := s.ret
			s.status = 0
			c.encoded(at, r.callMethod(s, ch, "Chunk", m), all, framed{3, 0, Const(0x14)}, func(o *State, evs []*Event) Seq {
				if p.obj == nil {
					for _, e := range evs {
						if s, ok := e.val.(TupleV); ok && e.kind == "call" && e.data == m.sym {
							if d, ok := s[0].(SliceV); ok {
								return o.sliceSeq(d)
							}
						}
					}
				}
				if p.obj == nil {
					return nil
				}
				return c.marshalled(at, o, evs, c.typ("cmd/conn", name), before, map[string]string{"ResponseType": "_result"})
			})
		}
		c.end(r)
	}
	// statuses
	{
		r := c.newRun()
		st := r.withInits()
		at := "stream.Status.AsChunk"
		t := c.typ("cmd/stream", "Status")
		p := st.inputObj(t, "status")
		before := st.content(p.obj)
		var head Seq
		ok := false
		for _, e := range c.w.initEvs {
			if e.kind == "marshal" && len(e.args) == 1 {
				if iv, isI := e.args[0].(IfaceV); isI && iv.typ != nil && typeName(iv.typ) == "CommandHeader" {
					s, _ := e.val.(SliceV)
					head, ok = st.sliceSeq(s), true
					ht := c.typ("cmd/stream", "CommandHeader")
					c.holds(at+", command header", st, e.data, ht, map[string]string{"Name": "onStatus"})
					n := st.num(e.data, ht, "TransactionId")
					c.check(n != nil && n == asTerm(zeroVal(types.Typ[types.Float64])), "named", at+", command header", st, "the transaction is %v", n)
				}
			}
		}
		c.check(ok, "named", at+", command header", st, "there is no encoded command header")
		c.encoded(at, r.callMethod(st, p, "AsChunk"), all, framed{5, 1, Const(0x14)}, func(o *State, evs []*Event) Seq {
			return seqCat(append(Seq(nil), head...), c.marshalled(at, o, evs, t, before, nil))
		})
		c.end(r)
	}
	// data frames
	{
		r := c.newRun()
		st := r.withInits()
		at := "data.DataFrame.Marshal"
		t := c.typ("cmd/data", "DataFrame")
		p := st.inputObj(t, "frame")
		before := st.content(p.obj)
		c.encoded(at, r.callMethod(st, p, "Marshal"), all, framed{4, 1, Const(0x12)}, func(o *State, evs []*Event) Seq {
			return c.marshalled(at, o, evs, t, before, nil)
		})
		c.end(r)
	}
}

// twoControls builds messages from two control sequences with one chunker: the
// second one must not disturb the first.
func (c *Ctx) twoControls(k, k2 ctlSpec) {
	r := c.newRun()
	st := r.withInits()
	at := fmt.Sprintf("control.DefaultChunker.Chunk, %s before %s", k.name, k2.name)
	mk := func(k ctlSpec) (IfaceV, Seq) {
		t := c.typ("control", k.name)
		p := st.inputObj(t, k.name)
		var q Seq
		if k.capped {
			return IfaceV{typ: types.NewPointer(t), v: p}, nil
		}
		for _, f := range k.fields {
			q = seqCat(q, st.f.beBytes(st.num(st.content(p.obj), t, f.name), f.n))
		}
		if k.body != "" {
			b := seqRange(NewSrc("body"), TZero, Fresh("n", 0, 1<<24))
			st.setField(p, t, st.bytesArg("body", b), k.body)
			q = seqCat(q, b)
		}
		return IfaceV{typ: types.NewPointer(t), v: p}, q
	}
	a, qa := mk(k)
	b, qb := mk(k2)
	for _, s := range c.ended("message", "control.NewChunker", r.call(st, c.fn("control", "NewChunker"))) {
		ch := s.ret
		s.status = 0
		for _, s := range c.encoded(at, r.callMethod(s, ch, "Chunk", a), func(o *State) []*Event { return o.evs }, framed{2, 0, Const(k.id)}, func(*State, []*Event) Seq { return qa }) {
			first := s.ret.(TupleV)[0]
			n := len(s.evs)
			s.status = 0
			for _, o := range c.encoded(at+", second", r.callMethod(s, ch, "Chunk", b), func(o *State) []*Event { return o.evs[n:] }, framed{2, 0, Const(k2.id)}, func(*State, []*Event) Seq { return qb }) {
				c.built(at+", afterwards", o, first, framed{2, 0, Const(k.id)}, qa)
			}
		}
	}
	c.end(r)
}

// holds checks string fields of an object.
func (c *Ctx) holds(at string, o *State, v interface{}, t types.Type, want map[string]string) {
	for n, w := range want {
		fv, _ := o.fieldAt(v, t, n)
		s, ok := fv.(Str)
		c.check(ok && o.f.SeqEqual(s.s, seqConst(w)), "named", at, o, "%s is %s, expected %q", n, showVal(fv), w)
	}
}

func init() {
	checks["C08"] = &checkDef{run: runC08, title: "messages that the library builds",
		rule: "control.DefaultChunker.Chunk, conn.DefaultChunker.Chunk, Status.AsChunk and DataFrame.Marshal are interpreted abstractly for arbitrary contents (unknown implementations of Control and Marshallable, and all kinds of the library with symbolic fields). On every successful path format, chunk stream, message stream, type and announced length of the header are compared, as terms, with the protocol's and with the length of the payload, " +
			"and the payload with what the encoding has produced; on every path on which the encoding fails, its own error and no message must be returned. A message must stay as it is when another one is built.",
		needs: map[string]int{"message": 30, "header": 60, "length": 15, "payload": 15, "failure": 10, "failures followed": 5, "named": 4}}
}
