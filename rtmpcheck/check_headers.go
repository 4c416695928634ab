package main

import (
	"fmt"
	"go/types"
)

var checks = map[string]*checkDef{}

type csidClass struct {
	name   string
	lo, hi int64
	form   int
}

var csidClasses = []csidClass{
	{"2..62", 2, 62, 1}, {"63", 63, 63, 1}, {"64..319", 64, 319, 2}, {"320..65599", 320, 65599, 3},
}

// basicBytes is the protocol's form of a basic header.
func basicBytes(f *Facts, fm, id *Term, form int) Seq {
	hi := f.shl(fm, 6)
	switch form {
	case 1:
		return seqBytes(f.bitop("or", hi, id))
	case 2:
		return seqBytes(hi, f.trunc(AddC(id, -64), 8))
	}
	return seqCat(seqBytes(f.bitop("or", hi, Const(0x3f))), f.beBytes(AddC(id, -64), 2))
}

func init() {
	checks["C01"] = &checkDef{
		title: "basic headers round-trip",
		rule: "BasicHeader.Write and BasicHeader.Read are interpreted abstractly for a symbolic format 0..3 and a symbolic chunk stream id, " +
			"partitioned into the ranges in which the protocol has one form (2..62, 63, 64..319, 320..65599). Every outcome that reports success must have " +
			"emitted exactly the protocol's bytes (compared as bit-slice terms), must have consumed exactly those bytes, and must hold the same format and id.",
		needs: map[string]int{"write": 4, "read": 4},
		run: func(c *Ctx) {
			bh := c.typ("chunk", "BasicHeader")
			for _, k := range csidClasses {
				// writing
				r := c.newRun()
				st := r.withInits()
				p := st.inputObj(bh, "h")
				fm := st.num(st.content(p.obj), bh, "FormatId")
				id := st.num(st.content(p.obj), bh, "StreamId")
				st.f.Between(fm, 0, 3)
				st.f.Between(id, k.lo, k.hi)
				w := ioWriter(r, "w")
				n := 0
				for _, o := range c.ended("write", "BasicHeader.Write, id "+k.name, r.call(st, c.method(bh, "Write"), p, w)) {
					if nl, ok := o.isNil(o.ret); ok && !nl {
						if !o.failed() {
							c.fail("write", "BasicHeader.Write, id "+k.name, o, "returns an error although no write failed")
						}
						continue
					}
					if o.failed() {
						continue // C15
					}
					n++
					q, _, _ := written(o.evs, w)
					want := basicBytes(o.f, fm, id, k.form)
					c.check(o.f.SeqEqual(q, want), "write", "BasicHeader.Write, id "+k.name, o, "emits %v, the protocol has %v", q, want)
					c.sample("write id %s: emits %v", k.name, q)
				}
				c.check(n > 0, "write", "BasicHeader.Write, id "+k.name+" (success)", nil, "no successful outcome")
				c.end(r)

				// reading
				r = c.newRun()
				st = r.withInits()
				p = st.inputObj(bh, "h")
				fm, id = Fresh("fmt", 0, 3), Fresh("id", k.lo, k.hi)
				rd := ioReader(r, "r")
				want := basicBytes(st.f, fm, id, k.form)
				st.presetInput(rd.sym, want)
				n = 0
				for _, o := range c.ended("read", "BasicHeader.Read, id "+k.name, r.call(st, c.method(bh, "Read"), p, rd)) {
					if o.failed() {
						continue
					}
					at := "BasicHeader.Read, id " + k.name
					if nl, ok := o.isNil(o.ret); !ok || !nl {
						c.fail("read", at, o, "rejects %v", want)
						continue
					}
					n++
					gf := o.num(o.content(p.obj), bh, "FormatId")
					gi := o.num(o.content(p.obj), bh, "StreamId")
					used := o.consumed(rd)
					good := o.f.Equal(gf, fm) && o.f.Equal(gi, id) && o.f.Equal(used, want.Len())
					c.check(good, "read", at, o, "reading %v gives format %v, id %v and consumes %v bytes", want, gf, gi, used)
					c.sample("read id %s: format %v, id %v, %v bytes", k.name, gf, gi, used)
				}
				c.check(n > 0, "read", fmt.Sprintf("BasicHeader.Read, id %s (success)", k.name), nil, "no successful outcome")
				c.end(r)
			}
		},
	}
}

// ---------------------------------------------------------------- C02, C03

type msgFields struct{ ts, length, typ, sid *Term }

func msgFieldsOf(st *State, v Val, t types.Type, path ...string) msgFields {
	at := func(n string) *Term { return st.num(v, t, append(append([]string(nil), path...), n)...) }
	return msgFields{at("Timestamp"), at("Length"), at("TypeId"), at("StreamId")}
}

// bound keeps the 24-bit fields to the values that the protocol can carry.
func (m msgFields) bound(f *Facts) {
	f.Between(m.ts, 0, 0xffffff)
	f.Between(m.length, 0, 0xffffff)
}

// bytes is the protocol's form of a message header.
func (m msgFields) bytes(f *Facts, format int) Seq {
	var q Seq
	if format < 3 {
		q = f.beBytes(m.ts, 3)
	}
	if format < 2 {
		q = seqCat(q, f.beBytes(m.length, 3), seqBytes(m.typ))
	}
	if format < 1 {
		q = seqCat(q, f.leBytes(m.sid, 4))
	}
	return q
}

func freshMsg() msgFields {
	return msgFields{Fresh("ts", 0, 0xffffff), Fresh("len", 0, 0xffffff), Fresh("type", 0, 255), Fresh("sid", 0, 0xffffffff)}
}

// nilErr reports whether the outcome is a success; an error of which it is not
// known whether it is nil counts as undecided.
func (c *Ctx) nilErr(rule, at string, o *State) (bool, bool) {
	nl, ok := o.isNil(errOf(o.ret))
	if !ok {
		c.fail(rule, at, o, "cannot tell whether %s is an error", showVal(errOf(o.ret)))
	}
	return nl, ok
}

// stopsAtFailure: after the first failed read or write nothing more is read or
// written, and its error is the result.
func (c *Ctx) stopsAtFailure(rule, at string, o *State) {
	var first *Event
	for _, e := range o.evs {
		switch {
		case e.kind == "fail" && first == nil:
			first = e
		case first != nil && (e.kind == "read" || e.kind == "write" || e.kind == "bufread" || e.kind == "fail"):
			c.fail(rule, at, o, "goes on after a failed %s", first.name)
			return
		}
	}
	if first != nil {
		c.check(o.sameVal(errOf(o.ret), first.val), rule, at, o, "a failed %s ends in %s instead of its error", first.name, showVal(errOf(o.ret)))
	}
}

func (m msgFields) same(f *Facts, o msgFields) bool {
	return f.Equal(m.ts, o.ts) && f.Equal(m.length, o.length) && f.Equal(m.typ, o.typ) && f.Equal(m.sid, o.sid)
}

func (m msgFields) String() string {
	return fmt.Sprintf("timestamp %v, length %v, type %v, stream %v", m.ts, m.length, m.typ, m.sid)
}

// carried takes from m the fields that the format carries and the others from old.
func (m msgFields) carried(format int, old msgFields) msgFields {
	if format < 1 {
		old.sid = m.sid
	}
	if format < 2 {
		old.length, old.typ = m.length, m.typ
	}
	if format < 3 {
		old.ts = m.ts
	}
	return old
}

func init() {
	checks["C02"] = &checkDef{
		title: "message header layout",
		rule: "MessageHeader.Read and MessageHeader.Write are interpreted abstractly for each format 0..3 with symbolic fields, and Read for the formats 4..255. " +
			"Every successful outcome must have emitted exactly the layout, or have consumed exactly its length and hold exactly the bytes' values as terms, with the omitted fields equal to their old terms.",
		needs: map[string]int{"write": 4, "read": 4, "unknown format": 1},
		run: func(c *Ctx) {
			mh := c.typ("chunk", "MessageHeader")
			for format := 0; format <= 3; format++ {
				r := c.newRun()
				st := r.withInits()
				p := st.inputObj(mh, "m")
				at := fmt.Sprintf("MessageHeader.Write, format %d", format)
				st.setField(p, mh, Const(int64(format)), "FormatId")
				m := msgFieldsOf(st, st.content(p.obj), mh)
				m.bound(st.f)
				w := ioWriter(r, "w")
				n := 0
				for _, o := range c.ended("write", at, r.call(st, c.method(mh, "Write"), p, w)) {
					if o.failed() {
						continue
					}
					if nl, ok := c.nilErr("write", at, o); !ok || !nl {
						c.check(!ok, "write", at, o, "returns an error although no write failed")
						continue
					}
					n++
					q, _, _ := written(o.evs, w)
					want := m.bytes(o.f, format)
					c.check(o.f.SeqEqual(q, want), "write", at, o, "emits %v, the protocol has %v", q, want)
					c.sample("%s: emits %v", at, q)
				}
				c.check(n > 0, "write", at+" (success)", nil, "no successful outcome")
				c.end(r)

				r = c.newRun()
				st = r.withInits()
				p = st.inputObj(mh, "m")
				at = fmt.Sprintf("MessageHeader.Read, format %d", format)
				st.setField(p, mh, Const(int64(format)), "FormatId")
				old := st.content(p.obj)
				om := msgFieldsOf(st, old, mh)
				m = freshMsg()
				rd := ioReader(r, "r")
				want := m.bytes(st.f, format)
				src := NewSrc("rest")
				st.presetInput(rd.sym, seqCat(want, seqRange(src, TZero, Fresh("n", 0, 1<<20))))
				n = 0
				for _, o := range c.ended("read", at, r.call(st, c.method(mh, "Read"), p, rd)) {
					if o.failed() {
						continue
					}
					if nl, ok := c.nilErr("read", at, o); !ok || !nl {
						c.check(!ok, "read", at, o, "rejects %v", want)
						continue
					}
					n++
					v := o.content(p.obj)
					got := msgFieldsOf(o, v, mh)
					exp := m.carried(format, om)
					c.check(got.same(o.f, exp), "read", at, o, "reads %v from %v, expected %v", got, want, exp)
					c.check(o.f.Equal(o.consumed(rd), want.Len()), "read", at, o, "consumes %v of %v bytes", o.consumed(rd), want.Len())
					d := o.num(v, mh, "TimestampDelta")
					switch format {
					case 0:
						c.check(o.f.Equal(d, TZero), "read", at, o, "says that the timestamp is a delta")
					case 1, 2:
						c.check(o.f.Equal(d, TOne), "read", at, o, "does not say that the timestamp is a delta")
					default:
						c.check(o.f.Equal(d, o.num(old, mh, "TimestampDelta")), "read", at, o, "changes the kind of the timestamp")
					}
					c.check(o.f.Equal(o.num(v, mh, "FormatId"), Const(int64(format))), "read", at, o, "changes the format")
					c.sample("%s: %v", at, got)
				}
				c.check(n > 0, "read", at+" (success)", nil, "no successful outcome")
				c.end(r)
			}
			r := c.newRun()
			st := r.withInits()
			p := st.inputObj(mh, "m")
			at := "MessageHeader.Read, format 4..255"
			st.f.Between(st.num(st.content(p.obj), mh, "FormatId"), 4, 255)
			for _, o := range c.ended("unknown format", at, r.call(st, c.method(mh, "Read"), p, ioReader(r, "r"))) {
				nl, ok := c.nilErr("unknown format", at, o)
				c.check(ok && !nl, "unknown format", at, o, "accepts a format that does not exist")
			}
			c.end(r)
		},
	}

	checks["C03"] = &checkDef{
		title: "chunk header as one unit",
		rule: "Header.Write and Header.Read are interpreted abstractly for every format 0..3, chunk stream id range, and with or without extended timestamp, with symbolic fields. " +
			"Successful outcomes must have emitted, or consumed and restored, exactly basic header, message header in the announced format and extended timestamp iff the timestamp field is 0xFFFFFF. " +
			"Outcomes with a failed read or write must touch the stream no more and return that error.",
		needs: map[string]int{"write": 24, "read": 24, "first error": 24},
		run: func(c *Ctx) {
			hd := c.typ("chunk", "Header")
			for format := 0; format <= 3; format++ {
				fm := Const(int64(format))
				for _, k := range csidClasses {
					for _, ext := range []bool{false, true} {
						name := fmt.Sprintf("format %d, id %s, extended %v", format, k.name, ext)
						setTs := func(f *Facts, ts *Term) bool {
							if ext {
								return f.Between(ts, 0xffffff, 0xffffff)
							}
							return f.Between(ts, 0, 0xfffffe)
						}
						r := c.newRun()
						st := r.withInits()
						p := st.inputObj(hd, "h")
						st.setField(p, hd, fm, "BasicHeader", "FormatId")
						v := st.content(p.obj)
						id := st.num(v, hd, "BasicHeader", "StreamId")
						st.f.Between(id, k.lo, k.hi)
						m := msgFieldsOf(st, v, hd, "MessageHeader")
						m.bound(st.f)
						setTs(st.f, m.ts)
						et := st.num(v, hd, "ExtendedTimestamp", "Delta")
						bytes := func(f *Facts, id *Term, m msgFields, et *Term) Seq {
							q := seqCat(basicBytes(f, fm, id, k.form), m.bytes(f, format))
							if ext {
								q = seqCat(q, f.beBytes(et, 4))
							}
							return q
						}
						w := ioWriter(r, "w")
						at := "Header.Write, " + name
						n := 0
						for _, o := range c.ended("write", at, r.call(st, c.method(hd, "Write"), p, w)) {
							if o.failed() {
								c.stopsAtFailure("first error", at, o)
								continue
							}
							if nl, ok := c.nilErr("write", at, o); !ok || !nl {
								c.check(!ok, "write", at, o, "returns an error although no write failed")
								continue
							}
							n++
							q, _, _ := written(o.evs, w)
							want := bytes(o.f, id, m, et)
							c.check(o.f.SeqEqual(q, want), "write", at, o, "emits %v, the protocol has %v", q, want)
							c.sample("%s: %v", at, q)
						}
						c.check(n > 0, "write", at+" (success)", nil, "no successful outcome")
						c.end(r)

						if k.lo == 63 {
							continue // C01 reports it: the reader cannot tell 63 from the three-byte form
						}
						r = c.newRun()
						st = r.withInits()
						p = st.inputObj(hd, "h")
						v = st.content(p.obj)
						om := msgFieldsOf(st, v, hd, "MessageHeader")
						m = freshMsg()
						if format == 3 {
							setTs(st.f, om.ts)
						} else {
							setTs(st.f, m.ts)
						}
						id, et = Fresh("id", k.lo, k.hi), Fresh("ext", 0, 0xffffffff)
						rd := ioReader(r, "r")
						want := bytes(st.f, id, m, et)
						st.presetInput(rd.sym, seqCat(want, seqRange(NewSrc("rest"), TZero, Fresh("n", 0, 1<<20))))
						at = "Header.Read, " + name
						n = 0
						for _, o := range c.ended("read", at, r.call(st, c.method(hd, "Read"), p, rd)) {
							if o.failed() {
								c.stopsAtFailure("first error", at, o)
								continue
							}
							if nl, ok := c.nilErr("read", at, o); !ok || !nl {
								c.check(!ok, "read", at, o, "rejects %v", want)
								continue
							}
							n++
							v := o.content(p.obj)
							exp := m.carried(format, om)
							got := msgFieldsOf(o, v, hd, "MessageHeader")
							c.check(o.f.Equal(o.num(v, hd, "BasicHeader", "FormatId"), fm) && o.f.Equal(o.num(v, hd, "BasicHeader", "StreamId"), id),
								"read", at, o, "reads the basic header as %v/%v", o.num(v, hd, "BasicHeader", "FormatId"), o.num(v, hd, "BasicHeader", "StreamId"))
							c.check(o.f.Equal(o.num(v, hd, "MessageHeader", "FormatId"), fm), "read", at, o, "reads the message header in another format")
							c.check(got.same(o.f, exp), "read", at, o, "reads %v, expected %v", got, exp)
							if ext {
								c.check(o.f.Equal(o.num(v, hd, "ExtendedTimestamp", "Delta"), et), "read", at, o, "reads the extended timestamp as %v", o.num(v, hd, "ExtendedTimestamp", "Delta"))
							}
							c.check(o.f.Equal(o.consumed(rd), want.Len()), "read", at, o, "consumes %v of %v bytes", o.consumed(rd), want.Len())
						}
						c.check(n > 0, "read", at+" (success)", nil, "no successful outcome")
						c.end(r)
					}
				}
			}
		},
	}
}
