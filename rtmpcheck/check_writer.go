package main

import (
	"fmt"
)

// chunkAutomaton recognises what the protocol prescribes for one message:
//
//	header, payload[0:s], continuation, payload[s:2s], continuation, …
//
// Bytes that have been recognised are replaced by the state that they lead to
// and the number of payload bytes that they carry, so that the loop of the
// writer has a finite description.
type chunkAutomaton struct {
	hdr  func(f *Facts) Seq
	cont func(f *Facts) Seq
	data *Src
	n    *Term // payload bytes
	size *Term // chunk size
}

func (a *chunkAutomaton) run(f *Facts, s Seq) (tag string, pos *Term, ok bool) {
	tag, pos = "start", TZero
	s = f.canon(s)
	if len(s) > 0 && s[0].src != nil && s[0].src.tag != "" {
		tag, pos = s[0].src.tag, s[0].src.pos
		s = s[1:]
	}
	literal := func(w Seq) bool {
		head, rest, ok := f.split(s, w.Len())
		if !ok || !f.SeqEqual(head, w) {
			return false
		}
		s = f.canon(rest)
		return true
	}
	for {
		s = f.dropEmpty(s)
		if len(s) == 0 {
			return tag, pos, tag != "start"
		}
		switch tag {
		case "start":
			if !literal(a.hdr(f)) {
				return "", nil, false
			}
			tag = "header"
		case "piece":
			// the payload must not be complete
			if more, ok := f.Decide(Lt(pos, a.n)); !ok || !more || !literal(a.cont(f)) {
				return "", nil, false
			}
			tag = "continuation"
		case "header", "continuation":
			g := s[0]
			if g.explicit() || g.src != a.data || !f.Equal(g.off, pos) {
				return "", nil, false
			}
			end := Add(pos, g.n)
			full := f.Equal(g.n, a.size)
			last := f.Equal(end, a.n)
			if last {
				// not longer than a chunk
				fits, ok := f.Decide(Le(g.n, a.size))
				last = ok && fits
			}
			if !full && !last {
				return "", nil, false
			}
			if full && !last {
				if in, ok := f.Decide(Le(end, a.n)); !ok || !in {
					return "", nil, false
				}
			}
			tag, pos = "piece", end
			if last {
				tag, pos = "complete", a.n
			}
			s = s[1:]
		default:
			return "", nil, false
		}
	}
}

func init() {
	checks["C07"] = &checkDef{
		title: "chunking of outgoing messages",
		rule: "NewWriter and DefaultWriter.Write are interpreted abstractly with an unknown destination, a symbolic chunk size (1 or more) and a message with symbolic fields and a payload of symbolic length, for each format, chunk stream id range, and with or without extended timestamp. " +
			"The bytes that are put together are abstracted by the states of an automaton for header (piece continuation)* piece, with the number of payload bytes as its counter; the loop is brought to a fixed point over these states. " +
			"The bytes written must lead to its accepting state with the whole payload, in one write, whose error is returned. After SetWriteSize(n), WriteSize returns n.",
		needs: map[string]int{"setting": 2, "chunks": 32, "single write": 32, "error": 32},
		run: func(c *Ctx) {
			r := c.newRun()
			size := Fresh("size", 1, 0x7fffffff)
			for _, s := range c.ended("setting", "NewWriter", r.call(r.withInits(), c.fn("chunk", "NewWriter"), ioWriter(r, "w"), size)) {
				c.setting("setting", s, s.ret, "Writer", "SetWriteSize", "WriteSize", size)
			}
			c.end(r)
			for format := int64(0); format <= 3; format++ {
				for _, k := range csidClasses {
					for _, ext := range []bool{false, true} {
						c.chunked(format, k, ext)
					}
				}
			}
		},
	}
}

// writeRun is the analysis of DefaultWriter.Write for one kind of message.
type writeRun struct {
	r     *Run
	w     IfaceV
	auto  *chunkAutomaton
	n     *Term
	outs  []*State
	chunk Ptr
}

func (c *Ctx) writeMessage(format int64, k csidClass, ext bool) *writeRun {
	ct, ht := c.typ("chunk", "Chunk"), c.typ("chunk", "Header")
	r := c.newRun()
	st := r.withInits()
	ch, hd := c.chunkArg(st, "message")
	fm := Const(format)
	st.setField(hd, ht, fm, "BasicHeader", "FormatId")
	hv := st.content(hd.obj)
	id := st.num(hv, ht, "BasicHeader", "StreamId")
	st.f.Between(id, k.lo, k.hi)
	m := msgFieldsOf(st, hv, ht, "MessageHeader")
	m.bound(st.f)
	if ext {
		st.f.Between(m.ts, 0xffffff, 0xffffff)
	} else {
		st.f.Between(m.ts, 0, 0xfffffe)
	}
	et := st.num(hv, ht, "ExtendedTimestamp", "Delta")
	src, n := NewSrc("payload"), Fresh("n", 0, 1<<24-1)
	// there may be more behind the payload
	data := st.bytesArg("payload", seqRange(src, TZero, Add(n, Fresh("spare", 0, 1<<24))))
	data.len = n
	st.setField(ch, ct, data, "Data")
	w, size := ioWriter(r, "w"), Fresh("size", 1, 0x7fffffff)
	tail := func(f *Facts) (q Seq) {
		if ext {
			q = f.beBytes(et, 4)
		}
		return q
	}
	x := &writeRun{r: r, w: w, n: n, chunk: ch}
	x.auto = &chunkAutomaton{
		hdr: func(f *Facts) Seq {
			return seqCat(basicBytes(f, fm, id, k.form), m.bytes(f, int(format)), tail(f))
		},
		cont: func(f *Facts) Seq { return seqCat(basicBytes(f, Const(3), id, k.form), tail(f)) },
		data: src, n: n, size: size,
	}
	for _, s := range c.ended("chunks", "NewWriter", r.call(st, c.fn("chunk", "NewWriter"), w, size)) {
		wr := s.ret
		s.status = 0
		r.absorb = x.auto.run
		c.share(r, s, wr)
		x.outs = append(x.outs, r.callMethod(s, wr, "Write", ch)...)
	}
	return x
}

func (c *Ctx) chunked(format int64, k csidClass, ext bool) {
	at := fmt.Sprintf("Write, format %d, id %s, extended %v", format, k.name, ext)
	x := c.writeMessage(format, k, ext)
	good, bad := 0, 0
	for _, o := range c.ended("chunks", at, x.outs) {
		q, writes, _ := written(o.evs, x.w)
		if o.failed() {
			bad++
			c.stopsAtFailure("error", at, o)
			nl, ok := o.isNil(errOf(o.ret))
			c.check(ok && !nl, "error", at, o, "a failed write ends in %s", showVal(errOf(o.ret)))
			continue
		}
		if nl, ok := c.nilErr("chunks", at, o); !ok || !nl {
			c.check(!ok, "chunks", at, o, "returns an error although no write failed")
			continue
		}
		good++
		c.check(writes == 1, "single write", at, o, "%d writes", writes)
		tag, pos, ok := x.auto.run(o.f, q)
		c.check(ok, "chunks", at, o, "the bytes written do not follow the protocol: %v", q)
		if ok {
			c.check((tag == "complete" || tag == "piece" || tag == "header") && o.f.Equal(pos, x.n), "chunks", at, o, "the bytes written end after %s with %v of %v payload bytes", tag, pos, x.n)
			c.sample("%s: accepted in state %s after %v payload bytes", at, tag, pos)
		}
	}
	c.check(good > 0 && bad > 0, "chunks", at+" (outcomes)", nil, "%d successful and %d failed outcomes", good, bad)
	c.end(x.r)
}
