package main

import (
	"fmt"
	"go/types"
)

const payloadLen = 1528
const packetLen = 1536

func init() {
	checks["C13"] = &checkDef{
		title: "handshake packets",
		rule: "AckPacket.Write is interpreted abstractly for a symbolic packet, AckPacket.Read for a symbolic target and an arbitrary stream. Every successful outcome must have " +
			"emitted exactly time 1, time 2 (32-bit big-endian terms) and the 1528 challenge bytes, or have consumed exactly 1536 bytes and hold exactly their values.",
		needs: map[string]int{"write": 2, "read": 2},
		run: func(c *Ctx) {
			t := c.typ("handshake", "AckPacket")
			r := c.newRun()
			st := r.withInits()
			p := st.inputObj(t, "packet")
			v := st.content(p.obj)
			w := ioWriter(r, "w")
			at := "AckPacket.Write"
			n := 0
			for _, o := range c.ended("write", at, r.call(st, c.method(t, "Write"), p, w)) {
				if o.failed() {
					continue
				}
				if nl, ok := c.nilErr("write", at, o); !ok || !nl {
					c.check(!ok, "write", at, o, "returns an error although no write failed")
					continue
				}
				n++
				q, _, _ := written(o.evs, w)
				want := seqCat(o.f.beBytes(o.num(v, t, "Time1"), 4), o.f.beBytes(o.num(v, t, "Time2"), 4), c.payloadOf(o, v, t, "Payload"))
				c.check(o.f.SeqEqual(q, want), "write", at, o, "emits %v, the protocol has %v", q, want)
				c.sample("%s: %v", at, q)
			}
			c.check(n > 0, "write", at+" (success)", nil, "no successful outcome")
			c.end(r)

			r = c.newRun()
			st = r.withInits()
			p = st.inputObj(t, "packet")
			rd := ioReader(r, "r")
			st.input(rd.sym)
			src := rd.sym.data2
			at = "AckPacket.Read"
			n = 0
			for _, o := range c.ended("read", at, r.call(st, c.method(t, "Read"), p, rd)) {
				if o.failed() {
					continue
				}
				if nl, ok := c.nilErr("read", at, o); !ok || !nl {
					c.check(!ok, "read", at, o, "rejects a packet")
					continue
				}
				n++
				v := o.content(p.obj)
				c.check(o.f.Equal(o.num(v, t, "Time1"), o.f.beNum(src, 0, 4)), "read", at, o, "reads time 1 as %v", o.num(v, t, "Time1"))
				c.check(o.f.Equal(o.num(v, t, "Time2"), o.f.beNum(src, 4, 4)), "read", at, o, "reads time 2 as %v", o.num(v, t, "Time2"))
				want := seqRange(src, Const(8), Const(payloadLen))
				got := c.payloadOf(o, v, t, "Payload")
				c.check(o.f.SeqEqual(got, want), "read", at, o, "reads the challenge as %v", got)
				c.check(o.f.Equal(o.consumed(rd), Const(packetLen)), "read", at, o, "consumes %v bytes", o.consumed(rd))
				c.sample("%s: %v", at, got)
			}
			c.check(n > 0, "read", at+" (success)", nil, "no successful outcome")
			c.end(r)
		},
	}

	checks["C11"] = &checkDef{
		title: "handshake dialogue",
		rule: "Handshaker.Handshake is interpreted abstractly from handshake.With with an unknown connection. On every path the sequence of reads and writes on the connection is compared with the dialogue " +
			"(read 1, write 1, read 1536, write 3072, read 1536); success needs all of it, a failed read or write must end it at once with that error, and any other refusal must come directly after a read. With an unknown initial sequence that is followed by one other, each must be read, then written, then asked for the next, on that connection, until one fails, whose error is returned.",
		needs: map[string]int{"dialogue": 1, "first error": 3, "refusal": 1, "given sequence": 5},
		run: func(c *Ctx) {
			r := c.newRun()
			st := r.withInits()
			conn := ioConn(r, "conn")
			full := []ioRun{{"R", Const(1)}, {"W", Const(1)}, {"R", Const(packetLen)}, {"W", Const(2 * packetLen)}, {"R", Const(packetLen)}}
			outs := c.handshake(st, "dialogue", conn)
			at := "Handshaker.Handshake"
			n := 0
			for _, o := range outs {
				tr := ioTrace(o, conn.sym)
				nl, ok := c.nilErr("dialogue", at, o)
				if !ok {
					continue
				}
				switch {
				case nl:
					if o.failed() {
						c.fail("first error", at, o, "reports success although a step failed")
						continue
					}
					n++
					good := len(tr) == len(full)
					for i := 0; good && i < len(full); i++ {
						good = tr[i].kind == full[i].kind && o.f.Equal(tr[i].n, full[i].n)
					}
					c.check(good, "dialogue", at, o, "succeeds after %s; the dialogue is %s", showTrace(tr), showTrace(full))
					c.sample("success after %s", showTrace(tr))
				case o.failed():
					c.stopsAtFailure("first error", at, o)
					c.check(c.prefix(o, tr, full), "first error", at+" (order)", o, "reads and writes %s; the dialogue is %s", showTrace(tr), showTrace(full))
				default:
					good := c.prefix(o, tr, full) && len(tr) > 0 && tr[len(tr)-1].kind == "R" && o.f.Equal(tr[len(tr)-1].n, full[len(tr)-1].n)
					c.check(good, "refusal", at, o, "refuses the peer after %s; the dialogue is %s", showTrace(tr), showTrace(full))
					c.sample("refusal after %s", showTrace(tr))
				}
			}
			c.check(n > 0, "dialogue", at+" (success)", nil, "no successful outcome")
			c.end(r)
			c.givenSequences()
		},
	}

	checks["C12"] = &checkDef{
		title: "handshake acceptance",
		rule: "Handshaker.Handshake is interpreted abstractly from handshake.With with an unknown connection, twice in a row. On every successful path the version byte must be known to be 3 and the 1528 bytes " +
			"of the third packet known to equal the challenge sent; on every refusing path one of the two must be known to be false. The challenge sent must be bytes of crypto/rand drawn during that handshake, and the " +
			"acknowledgement must carry the client's timestamp and challenge (terms over the input stream).",
		needs: map[string]int{"accepted": 2, "refused": 2, "challenge": 2, "acknowledgement": 2},
		run: func(c *Ctx) {
			r := c.newRun()
			st := r.withInits()
			first := ioConn(r, "conn")
			done := c.acceptance(st, first, "first handshake", len(st.evs))
			if len(done) > 0 {
				s := done[0]
				s.status = 0
				c.acceptance(s, ioConn(r, "conn2"), "later handshake", len(s.evs))
			}
			c.end(r)
		},
	}
}

// givenSequences: a dialogue of sequences that the caller provides.
func (c *Ctx) givenSequences() {
	r := c.newRun()
	st := r.withInits()
	conn := ioConn(r, "conn")
	t := c.typ("handshake", "Sequence")
	seqs := []IfaceV{{sym: r.newSym("sequence1", roleOf(t), t)}, {sym: r.newSym("sequence2", roleOf(t), t)}}
	r.symCall = func(st *State, recv *SymObj, method string, sig *types.Signature, args []Val) ([]Out, bool) {
		for i, s := range seqs {
			if recv != s.sym {
				continue
			}
			if sig.Results().Len() != 1 {
				return nil, false
			}
			e := st.ev("step")
			e.name, e.data, e.args = method, s.sym, args
			e.flag = true
			if sig.Params().Len() == 0 {
				if i+1 < len(seqs) {
					return []Out{{st, seqs[i+1]}}, true
				}
				return []Out{{st, zeroVal(t)}}, true
			}
			o := st.fork()
			c := *e
			c.flag = false
			c.val = o.r.symErr("error of " + s.sym.name + "." + method)
			o.evs = append(append([]*Event(nil), o.evs[:len(o.evs)-1]...), &c)
			return []Out{{st, errNil}, {o, c.val}}, true
		}
		return nil, false
	}
	rule, at := "given sequence", "Handshaker.Handshake, given sequences"
	pt := c.typ("handshake", "Param")
	o := st.alloc(pt, "param", zeroVal(pt))
	st.setField(Ptr{obj: o}, pt, conn, "Conn")
	st.setField(Ptr{obj: o}, pt, seqs[0], "Initial")
	all := []string{"Read", "WriteTo", "Next", "Read", "WriteTo", "Next"}
	good, bad := 0, 0
	for _, s := range c.ended(rule, at, r.call(st, c.fn("handshake", "With"), Ptr{obj: o})) {
		h := s.ret
		s.status = 0
		for _, o := range c.ended(rule, at, r.call(s, c.method(c.typ("handshake", "Handshaker"), "Handshake"), h)) {
			n, stop := 0, Val(errNil)
			for _, e := range o.evs {
				if e.kind != "step" {
					continue
				}
				if !c.check(stop == Val(errNil), rule, at, o, "it goes on after an error") {
					break
				}
				right := n < len(all) && e.name == all[n] && e.data == seqs[n/3].sym
				if right && len(e.args) == 1 {
					v, is := e.args[0].(IfaceV)
					right = is && v.sym == conn.sym
				}
				if !c.check(right, rule, at, o, "step %d is %s of %s", n+1, e.name, e.data.(*SymObj).name) {
					break
				}
				if !e.flag {
					stop = e.val
				}
				n++
			}
			nl, ok := c.nilErr(rule, at, o)
			switch {
			case !ok:
			case nl:
				good++
				c.check(n == len(all) && o.sameVal(stop, errNil), rule, at, o, "reports success after %d steps of %d", n, len(all))
			default:
				bad++
				c.check(o.sameVal(o.ret, stop), rule, at, o, "ends with another error than that of the step that failed")
			}
			c.sample("%s: %d steps, %s", at, n, showVal(o.ret))
		}
	}
	c.check(good == 1 && bad == 4, rule, at, nil, "%d successful and %d failing outcomes", good, bad)
	c.end(r)
}

// payloadOf is the content of an array of bytes.
func (c *Ctx) payloadOf(st *State, v Val, t types.Type, path ...string) Seq {
	x, _ := st.fieldAt(v, t, path...)
	if b, ok := x.(BytesV); ok {
		return b.s
	}
	if s, ok := x.(SliceV); ok {
		return st.sliceSeq(s)
	}
	panic(fmt.Sprintf("%s is not an array of bytes: %s", path, showVal(x)))
}

func (c *Ctx) handshake(st *State, rule string, conn IfaceV) []*State {
	r := st.r
	pt := c.typ("handshake", "Param")
	o := st.alloc(pt, "param", zeroVal(pt))
	st.setField(Ptr{obj: o}, pt, conn, "Conn")
	var outs []*State
	for _, s := range c.ended(rule, "handshake.With", r.call(st, c.fn("handshake", "With"), Ptr{obj: o})) {
		h := s.ret
		s.status = 0
		outs = append(outs, c.ended(rule, "Handshaker.Handshake", r.call(s, c.method(c.typ("handshake", "Handshaker"), "Handshake"), h))...)
	}
	return outs
}

// prefix says whether tr is the beginning of the dialogue.
func (c *Ctx) prefix(o *State, tr, full []ioRun) bool {
	if len(tr) > len(full) {
		return false
	}
	for i := range tr {
		if tr[i].kind != full[i].kind {
			return false
		}
		if i < len(tr)-1 {
			if !o.f.Equal(tr[i].n, full[i].n) {
				return false
			}
			continue
		}
		if d, ok := o.f.Decide(Le(tr[i].n, full[i].n)); !ok || !d {
			return false
		}
	}
	return true
}

func (c *Ctx) acceptance(st *State, conn IfaceV, which string, from int) (good []*State) {
	st.input(conn.sym)
	return c.accepts(c.handshake(st, "accepted", conn), conn, "Handshaker.Handshake, "+which, from)
}

// accepts judges the outcomes of a handshake.
func (c *Ctx) accepts(outs []*State, conn IfaceV, at string, from int) (good []*State) {
	src := conn.sym.data2
	for _, o := range outs {
		evs := o.evs[from:]
		io := false
		for _, e := range evs {
			io = io || e.kind == "fail"
		}
		if io {
			continue
		}
		q, _, _ := written(evs, conn)
		nl, ok := c.nilErr("accepted", at, o)
		if !ok {
			continue
		}
		v := sel(src, TZero)
		challenge, cok := o.f.sub(q, Const(1+8), Const(1+8+payloadLen))
		answer := seqRange(src, Const(1+packetLen+8), Const(payloadLen))
		same := seqEqTerm(o.f, challenge, answer)
		if nl {
			good = append(good, o)
			ver, vok := o.f.byteAt(q, TZero)
			c.check(o.f.Equal(v, Const(3)), "accepted", at, o, "accepts a version that is not known to be 3")
			c.check(vok && o.f.Equal(ver, Const(3)), "accepted", at, o, "announces version %v", ver)
			d, dok := o.f.Decide(same)
			c.check(cok && (dok && d || o.f.SeqEqual(challenge, answer)), "accepted", at, o, "accepts an answer that is not known to equal the challenge")
			// the challenge
			fresh := cok
			for _, g := range o.f.canon(challenge) {
				if g.explicit() || g.src == nil || g.src.tag != "random" || !drawn(evs, g.src) {
					fresh = false
				}
			}
			c.check(fresh, "challenge", at, o, "the challenge %v is not drawn from crypto/rand in this handshake", challenge)
			ts, tok := o.f.sub(q, Const(1+packetLen), Const(1+packetLen+4))
			c.check(tok && o.f.SeqEqual(ts, seqRange(src, Const(1), Const(4))), "acknowledgement", at, o, "acknowledges the timestamp as %v", ts)
			ec, eok := o.f.sub(q, Const(1+packetLen+8), Const(1+2*packetLen))
			c.check(eok && o.f.SeqEqual(ec, seqRange(src, Const(1+8), Const(payloadLen))), "acknowledgement", at, o, "acknowledges the challenge as %v", ec)
			c.sample("accepted: wrote %v", q)
			continue
		}
		wrong := o.f.Distinct(v, Const(3))
		if !wrong && cok {
			d, dok := o.f.Decide(same)
			wrong = dok && !d
		}
		c.check(wrong, "refused", at, o, "refuses a peer whose version and answer may be right")
		c.sample("refused after %s", showTrace(ioTrace(o, conn.sym)))
	}
	c.check(len(good) > 0, "accepted", at+" (success)", nil, "no successful outcome")
	return good
}

// drawn says whether a source of random bytes was drawn in these events.
func drawn(evs []*Event, src *Src) bool {
	for _, e := range evs {
		if e.kind == "random" {
			for _, g := range e.seq {
				if g.src == src {
					return true
				}
			}
		}
	}
	return false
}
