package main

// Properties of all decoders and encoders at once: that it does not matter how
// reads split the input, that truncated input and failed writes are reported,
// that nothing panics, that memory is bounded and that payloads stay as they
// are.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// splitRead reports whether a read on a path returned less than was asked for,
// or depended on what else than reading the source offers.
func splitRead(st *State) bool {
	for k, v := range st.memo {
		if v == 1 && strings.HasPrefix(k, "assert:") {
			return true
		}
	}
	seen := map[*LoopInst]bool{}
	var in func(evs []*Event) bool
	in = func(evs []*Event) bool {
		for _, e := range evs {
			if e.kind == "read" && e.flag {
				return true
			}
			if e.kind == "loop" && e.loop != nil && !seen[e.loop] {
				seen[e.loop] = true
				for _, it := range e.loop.iters {
					if in(it.evs) {
						return true
					}
				}
			}
		}
		return false
	}
	return in(st.evs)
}

// sub runs the check of another property.
func (c *Ctx) sub(id string) *Ctx {
	s := newCtx(c.w, id)
	checks[id].run(s)
	c.runs += s.runs
	c.states += s.states
	c.forks += s.forks
	c.loops += s.loops
	c.iters += s.iters
	for f := range s.fns {
		c.fns[f] = true
	}
	return s
}

func (s *Ctx) obligations() (n int) {
	for _, r := range s.rules {
		n += r.total
	}
	return n
}

func runC14(c *Ctx) {
	for _, id := range []string{"C01", "C02", "C03", "C05", "C09", "C11", "C12", "C13"} {
		s := c.sub(id)
		whole := map[string]bool{}
		for _, f := range s.fails {
			if !f.split {
				whole[f.rule+"|"+f.construct] = true
			}
		}
		bad := map[string]bool{}
		for _, f := range s.fails {
			k := f.rule + "|" + f.construct
			switch {
			case f.split && !whole[k]:
				bad[k] = true
				f.construct = "(" + id + ") " + f.construct
				f.detail = "only when the input arrives in other pieces: " + f.detail
				c.addFailure(f)
			case f.rule == "decided" && s.splits > 0:
				f.construct = "(" + id + ") " + f.construct
				c.addFailure(f)
			case f.rule == "analysis":
				c.addFailure(f)
			}
		}
		n := s.obligations() - len(bad)
		for i := 0; i < n; i++ {
			c.count("any split", true)
		}
		c.sample("%s: %d obligations on what is decoded, %d reads that may return less than was asked for", id, n, s.splits)
	}
}

// addFailure takes over a failure of another check.
func (c *Ctx) addFailure(f failure) {
	c.count(f.rule, false)
	k := f.rule + "|" + f.construct
	if !c.seen[k] {
		c.seen[k] = true
		c.fails = append(c.fails, f)
	}
}

func init() {
	checks["C14"] = &checkDef{run: runC14, title: "decoding does not depend on how bytes arrive",
		rule: "Every decoder (basic header, message header, whole header, chunk reader, control bodies, handshake and its packets) is interpreted abstractly on a source of unknown bytes. A plain call of Read on it has as outcomes the full read, an error, and a short read of any length, without an error, after which the rest of the bytes are still to come; where the code asks the source for more than Read (io.ByteReader), both answers are followed. " +
			"On each path with a short read, or where the source offered more, the values decoded and the bytes consumed must be the same functions of the input bytes as on the other paths.",
		needs: map[string]int{"any split": 500}}
}

// ioFailure says whether an operation on something outside, or the decoding or
// encoding of a body, has failed.
func ioFailure(e *Event) bool {
	_, out := e.data.(*SymObj)
	return e.kind == "fail" && (out || e.name == "decode" || e.name == "encode")
}

// failing finds the loop heads that are only reached after a failure.
func failing(r *Run) map[*variant]bool {
	bad := map[*variant]bool{}
	for more := true; more; {
		more = false
		for _, l := range r.loops {
			for _, it := range l.iters {
				if it.to != nil && !bad[it.to] && (bad[it.from] || hasFailed(it.evs, bad)) {
					bad[it.to] = true
					more = true
				}
			}
		}
	}
	return bad
}

func hasFailed(evs []*Event, bad map[*variant]bool) bool {
	for _, e := range evs {
		if ioFailure(e) {
			return true
		}
		if v, ok := e.data.(*variant); ok && e.kind == "iter" && bad[v] {
			return true
		}
	}
	return false
}

// returnsError says whether the last result of a function is an error.
func returnsError(fn *ssa.Function) bool {
	rs := fn.Signature.Results()
	return rs.Len() > 0 && rs.At(rs.Len()-1).Type().String() == "error"
}

// operations are the exported functions and methods of the repository.
func (c *Ctx) operations(keep func(fn *ssa.Function) bool) []operation {
	var out []operation
	for p := range c.w.mod {
		sc := p.Pkg.Scope()
		for _, name := range sc.Names() {
			switch x := sc.Lookup(name).(type) {
			case *types.Func:
				if fn := c.w.prog.FuncValue(x); x.Exported() && fn != nil && keep(fn) {
					out = append(out, operation{fn, p.Pkg.Name() + "." + name, false, true})
				}
			case *types.TypeName:
				n, ok := x.Type().(*types.Named)
				if !ok || x.IsAlias() || n.TypeParams().Len() > 0 || types.IsInterface(n) {
					continue
				}
				for _, op := range c.methodsOf(n, nil) {
					if keep(op.fn) {
						out = append(out, operation{op.fn, p.Pkg.Name() + "." + op.name, false, true})
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

func runC15(c *Ctx) {
	reported := func(at string, r *Run, outs []*State) {
		bad := failing(r)
		n := 0
		for _, o := range outs {
			if o.status != Returned || !hasFailed(o.evs, bad) {
				continue
			}
			n++
			nl, ok := o.isNil(errOf(o.ret))
			c.check(ok && !nl, "reported", at, o, "a read or write fails, and the operation returns the error %s", showVal(errOf(o.ret)))
		}
		if n > 0 {
			c.sample("%s: %d ways to fail", at, n)
		}
		c.end(r)
	}
	for _, op := range c.operations(returnsError) {
		x := c.runOp(op)
		reported(op.name, x.r, x.outs)
	}
	for _, format := range []int64{0, 3} {
		wr := c.writeMessage(format, csidClasses[len(csidClasses)-1], true)
		reported("chunk.DefaultWriter.Write", wr.r, wr.outs)
	}
	r := c.newRun()
	reported("handshake.Handshaker.Handshake", r, c.handshake(r.withInits(), "reported", ioConn(r, "conn")))

	rr := c.recv()
	bad := failing(rr.r)
	for _, x := range rr.iters {
		if !hasFailed(x.evs, bad) {
			continue
		}
		at := "DefaultReader.Recv"
		if x.hdr != nil {
			at += ", after a header"
		}
		c.check(len(x.chunks) == 0, "reader", at, x.st, "%d messages are delivered although a read fails", len(x.chunks))
		c.check(len(x.errs) == 1 || x.closed && len(x.errs) == 0, "reader", at, x.st, "a read fails, and %d errors are reported", len(x.errs))
		for _, e := range x.errs {
			nl, ok := x.st.isNil(e.val)
			c.check(ok && !nl, "reader", at, x.st, "a read fails, and %s is reported", showVal(e.val))
		}
	}
	told := false
	for _, x := range rr.iters {
		told = told || len(x.errs) > 0
	}
	c.check(told && rr.channel("Errs") != nil, "reader", "DefaultReader.Errs", rr.st, "no error is ever sent on the channel of errors")
	c.end(rr.r)
	for _, v := range services {
		s := c.runService(v, true)
		bad := failing(s.r)
		for _, x := range s.iters {
			if !hasFailed(x.evs, bad) {
				continue
			}
			at := s.at(x)
			c.check(len(x.errs) == 1 || x.stop != nil, "service", at, x.st, "an operation fails, and %d errors are reported", len(x.errs))
			for _, e := range x.errs {
				nl, ok := x.st.isNil(e.val)
				c.check(ok && !nl, "service", at, x.st, "an operation fails, and %s is reported", showVal(e.val))
			}
		}
		c.end(s.r)
	}
}

func init() {
	checks["C15"] = &checkDef{run: runC15, title: "truncated input and failed writes are reported",
		rule: "Every exported function and method of the repository that returns an error is interpreted abstractly with unknown arguments and receiver; every read of an unknown source, write to an unknown destination and call of an unknown collaborator may fail. " +
			"On each path on which one does (in a loop: also in an earlier iteration), the error that is returned must be known not to be nil. Likewise for each iteration of the chunk reader (exactly one error sent, unless it is told to close, and no message) and of the service loops.",
		needs: map[string]int{"reported": 60, "reader": 4, "service": 4}}
}

// fromPeer says whether all that a function is given comes from the peer.
func (c *Ctx) fromPeer(fn *ssa.Function) bool {
	sig := fn.Signature
	ct, ht := namedOf(c.typ("chunk", "Chunk")), namedOf(c.typ("chunk", "Header"))
	for i := 0; i < sig.Params().Len(); i++ {
		switch t := sig.Params().At(i).Type(); namedOf(t) {
		case "io.Reader", "io.ReadWriter", ct, ht, "github.com/WatchBeam/amf0.String":
		default:
			return false
		}
	}
	return sig.Params().Len() > 0
}

// panicked reports the paths that panic.
func (c *Ctx) panicked(rule, at string, o *State) {
	if o.status == Panicked {
		c.fail(rule, at+" at "+o.r.posOf(o.at), o, "panics: %s", o.why)
		return
	}
	c.count(rule, true)
}

func runC23(c *Ctx) {
	for _, op := range c.operations(c.fromPeer) {
		x := c.runOp(op)
		for _, o := range x.outs {
			c.panicked("decoder", op.name, o)
		}
		c.sample("%s: %d outcomes", op.name, len(x.outs))
		c.end(x.r)
	}
	// frames that have been decoded
	for _, n := range []string{"Audio", "Video"} {
		c.frame(n, func(r *Run, st *State, p Ptr) {
			t := types.NewPointer(c.typ("cmd/data", n))
			ms := c.w.prog.MethodSets.MethodSet(t)
			for i := 0; i < ms.Len(); i++ {
				f, _ := ms.At(i).Obj().(*types.Func)
				if f == nil || !f.Exported() || f.Signature().Params().Len() > 0 {
					continue
				}
				for _, o := range r.call(st.fork(), c.w.prog.MethodValue(ms.At(i)), p) {
					c.panicked("frame", n+"."+f.Name(), o)
				}
			}
		})
	}
	r := c.newRun()
	for _, o := range c.handshake(r.withInits(), "handshake", ioConn(r, "conn")) {
		c.panicked("handshake", "Handshaker.Handshake", o)
	}
	c.end(r)

	rr := c.recv()
	for _, x := range rr.iters {
		at := "DefaultReader.Recv"
		if x.hdr != nil {
			at += ", after a header"
		}
		c.panicked("reader", at, x.st)
	}
	for _, o := range rr.outs {
		c.panicked("reader", "DefaultReader.Recv", o)
	}
	// what the builders in the table lack is what the next chunk makes room for
	inv := c.sub("C05")
	for _, f := range inv.fails {
		if f.rule == "invariant" && strings.Contains(f.construct, "not negative") {
			f.detail = "the next chunk can ask for a negative number of bytes: " + f.detail
			c.addFailure(f)
		}
	}
	c.count("invariant", true)
	c.end(rr.r)

	for _, v := range append(append([]service{}, services...), dispatcher, chunkParser) {
		if v.name == dispatcher.name {
			v.args = []Val{TFalse}
		}
		s := c.runService(v, v.name != chunkParser.name)
		for _, x := range s.iters {
			if len(x.items) > 0 && x.items[0].ch == s.send && s.send != nil {
				continue // not from the peer
			}
			c.panicked("service", s.at(x), x.st)
		}
		c.end(s.r)
	}
}

// frame decodes an arbitrary message into a frame.
func (c *Ctx) frame(name string, then func(r *Run, st *State, p Ptr)) {
	r := c.newRun()
	st := r.withInits()
	t := c.typ("cmd/data", name)
	p := st.inputObj(t, name)
	ch, _ := c.chunkArg(st, "message")
	for _, o := range c.ended("frame", name+".Read", r.call(st, c.method(types.NewPointer(t), "Read"), p, ch)) {
		if nl, ok := o.isNil(o.ret); !ok || !nl {
			continue
		}
		o.status = Running
		o.frames = nil
		then(r, o, p)
	}
	c.end(r)
}

func init() {
	checks["C23"] = &checkDef{run: runC23, title: "no input makes the library panic",
		rule: "Every exported function and method whose arguments all come from the peer (a reader, a message, a header, a name) is interpreted abstractly with unknown content of any length, and so are the handshake, an arbitrary iteration of the chunk reader's loop, the accessors of a decoded frame, and the service loops for an arbitrary received message. " +
			"Every index, slice bound, pointer, type assertion, division, allocation size and map is an obligation of the interpreter: a path on which it can fail ends in a panic, and no path may. Pointers that the caller provides are taken to be valid.",
		needs: map[string]int{"decoder": 40, "frame": 8, "handshake": 5, "reader": 8, "service": 20, "invariant": 1}}
}

// allocations visits what is set aside on a path, in its loops too.
func allocations(st *State, evs []*Event, visit func(st *State, e *Event)) {
	seen := map[*LoopInst]bool{}
	var in func(st *State, evs []*Event)
	in = func(st *State, evs []*Event) {
		for _, e := range evs {
			if e.kind == "make" {
				visit(st, e)
			}
			if e.kind == "loop" && e.loop != nil && !seen[e.loop] {
				seen[e.loop] = true
				for _, it := range e.loop.iters {
					in(it.st, it.evs)
				}
			}
		}
	}
	in(st, evs)
}

const fieldMax = 4096 // no field of a fixed size is longer

func runC24(c *Ctx) {
	most := func(st *State, n, max *Term) bool {
		v, ok := st.f.Decide(Le(n, max))
		return ok && v
	}
	bt, ht := c.typ("chunk", "Builder"), c.typ("chunk", "Header")
	rr := c.recv()
	for _, x := range rr.iters {
		// what is known about the message that the chunk belongs to
		var lacks, held *Term
		at := "DefaultReader.Recv"
		if x.hdr != nil && x.norm != nil {
			comp := hdrSnap{x.norm.obj.init, ht}
			msg, before := comp, Seq(nil)
			old, had, known := looked(x.st, rr.table(x.st), comp.get(x.st, "BasicHeader", "StreamId"))
			if known && had {
				p, _ := old.(Ptr)
				if p.obj == nil || p.obj.init == nil {
					known = false
				} else {
					hv, _ := x.st.fieldAt(p.obj.init, bt, "Header")
					msg = hdrSnap{hv.(Ptr).obj.init, ht}
					before = listBytes(x.st, p.obj.init, bt)
				}
			}
			if known {
				lacks = Sub(msg.get(x.st, "MessageHeader", "Length"), before.Len())
				held = before.Len()
				at += ", first chunk of a message"
				if had {
					at = "DefaultReader.Recv, further chunk of a message"
				}
			}
		}
		size := rr.readSize(x.head)
		if size == nil {
			c.fail("decided", "ReadSize", x.st, "has no single outcome")
			continue
		}
		allocations(x.st, x.evs, func(st *State, e *Event) {
			ok := most(st, e.n, Const(fieldMax))
			if pos, isT := e.data.(*Term); isT && held != nil && !ok {
				// for bytes that have arrived
				hd := x.hdr.data.(hdrEvent)
				ok = most(st, e.n, Add(held, Sub(pos, hd.pos)))
			}
			if lacks != nil && !ok {
				ok = most(st, e.n, lacks) && most(st, e.n, size) ||
					most(st, Sub(e.n, held), lacks) && most(st, Sub(e.n, held), size)
			}
			c.check(ok, "announced", at, st, "%s: %v bytes are set aside; the message lacks %v, the chunk size is %v", rr.r.posOf(e.pos), e.n, lacks, size)
			if ok && lacks != nil {
				c.sample("%s: %v at %s", at, e.n, rr.r.posOf(e.pos))
			}
		})
	}
	c.end(rr.r)

	for _, op := range c.operations(c.fromPeer) {
		x := c.runOp(op)
		for _, o := range x.outs {
			var given *Term
			for _, a := range x.args {
				p, ok := a.(Ptr)
				if ok && p.obj != nil && namedOf(p.obj.typ) == namedOf(c.typ("chunk", "Chunk")) {
					if d, _ := o.fieldAt(o.load(p, p.obj.typ), p.obj.typ, "Data"); d != nil {
						if s, ok := d.(SliceV); ok {
							given = s.len
						}
					}
				}
			}
			allocations(o, o.evs, func(st *State, e *Event) {
				ok := most(st, e.n, Const(fieldMax)) || given != nil && most(st, e.n, given)
				c.check(ok, "fields", op.name, st, "%s: %v bytes are set aside", x.r.posOf(e.pos), e.n)
			})
		}
		c.count("fields", true)
		c.end(x.r)
	}
	r := c.newRun()
	for _, o := range c.handshake(r.withInits(), "fields", ioConn(r, "conn")) {
		allocations(o, o.evs, func(st *State, e *Event) {
			c.check(most(st, e.n, Const(fieldMax)), "fields", "Handshaker.Handshake", st, "%s: %v bytes are set aside", r.posOf(e.pos), e.n)
		})
	}
	c.end(r)
}

func init() {
	checks["C24"] = &checkDef{run: runC24, title: "memory for announced data",
		rule: readerRule + "Every allocation of unknown size on each path through the body must be known to be, beyond what has arrived of the message, at most what it still lacks and the chunk size at the start of the iteration. " +
			"In every function whose arguments all come from the peer, and in the handshake, every allocation is at most 4096 bytes or as long as the message that it was given.",
		needs: map[string]int{"announced": 4, "fields": 40}}
}
