package main

// The chunk reader: one arbitrary iteration of its loop is interpreted from an
// arbitrary state that satisfies the invariant of its builders.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// recvRun is the analysis of DefaultReader.Recv.
type recvRun struct {
	c     *Ctx
	r     *Run
	src   IfaceV
	norm  *SymObj
	rd    Val
	st    *State // after the constructor
	size  *Term
	inst  *LoopInst
	iters []*recvIter
	outs  []*State
	left  *counter // how the builder counts what it lacks
}

// recvIter is one way through the loop of the reader.
type recvIter struct {
	*Iter
	hdr    *Event // the header has been read
	norm   *Event // and completed
	reads  []*Event
	fails  []*Event
	chunks []*Event // sends
	errs   []*Event
	other  []*Event
	closed bool
}

type hdrEvent struct {
	p    Ptr
	snap hdrSnap
	rest Seq   // the input after it
	pos  *Term // where it ends
}

// A counter is what an accessor returns: a sum of fields of its receiver.
type counter struct {
	c     int64
	parts []counterPart
}

type counterPart struct {
	k     int64
	field string
}

// counterOf finds the fields that an accessor adds up; nil if it does not.
func (c *Ctx) counterOf(t types.Type, method string) *counter {
	r := c.newRun()
	st := r.withInits()
	p := st.inputObj(t, "probe")
	before := st.content(p.obj)
	s, ok := before.(StructV)
	if !ok {
		return nil
	}
	field := map[*Term]string{}
	for i := range s {
		if x, ok := s[i].(*Term); ok && x.k == KSym {
			field[x] = t.Underlying().(*types.Struct).Field(i).Name()
		}
	}
	var found *counter
	for _, o := range r.call(st, c.method(types.NewPointer(t), method), p) {
		if o.status != Returned {
			continue
		}
		x, ok := o.ret.(*Term)
		if !ok {
			return nil
		}
		k, ls := linOf(x)
		n := &counter{c: k}
		for _, l := range ls {
			if field[l.a] == "" {
				return nil
			}
			n.parts = append(n.parts, counterPart{l.c, field[l.a]})
		}
		if found != nil && fmt.Sprint(*found) != fmt.Sprint(*n) {
			return nil
		}
		found = n
	}
	if found == nil || len(found.parts) == 0 {
		return nil
	}
	return found
}

// value is what the accessor returns for a receiver.
func (n *counter) value(st *State, v Val, t types.Type) *Term {
	sum := Const(n.c)
	for _, p := range n.parts {
		sum = Add(sum, Scale(p.k, st.num(v, t, p.field)))
	}
	return sum
}

// set changes one of the fields so that the accessor returns x.
func (n *counter) set(st *State, p Ptr, t types.Type, x *Term) bool {
	own := st.load(p, t)
	for i, f := range n.parts {
		if f.k != 1 && f.k != -1 {
			continue
		}
		rest := Const(n.c)
		for j, g := range n.parts {
			if j != i {
				rest = Add(rest, Scale(g.k, st.num(own, t, g.field)))
			}
		}
		st.setField(p, t, Scale(f.k, Sub(x, rest)), f.field)
		return true
	}
	return false
}

// interceptHeaderRead stands for (*Header).Read, as property C03 describes it.
func (c *Ctx) interceptHeaderRead(src IfaceV) func(st *State, fn *ssa.Function, args []Val) ([]Out, bool) {
	ht := c.typ("chunk", "Header")
	target := c.method(types.NewPointer(ht), "Read")
	return func(st *State, fn *ssa.Function, args []Val) ([]Out, bool) {
		if fn != target || len(args) != 2 {
			return nil, false
		}
		p, ok := args[0].(Ptr)
		rd, ok2 := args[1].(IfaceV)
		if !ok || !ok2 || p.obj == nil || rd.sym == nil || rd.sym != src.sym {
			return nil, false
		}
		r := st.r
		own := st.load(p, ht)
		var outs []Out
		n := Fresh("header length", 1, 18)
		sc, ok := st.sourceOf(rd)
		if !ok {
			return nil, false
		}
		good, _, bad, er := st.take(sc, n, "the header")
		if bad != nil {
			// a part of the header may have been stored
			bad.store(p, bad.havoc(own, ht, "partial header"))
			outs = append(outs, Out{bad, er})
		}
		if good == nil {
			return outs, true
		}
		put := func(s *State, full bool) {
			h := r.symVal(ht, "header", nil)
			h2, ok := h.(StructV)
			if !ok {
				s.undecided("header")
			}
			s.store(p, h2)
			fid := s.num(h2, ht, "BasicHeader", "FormatId")
			s.f.Between(s.num(h2, ht, "BasicHeader", "StreamId"), 2, 65599)
			if full {
				s.f.Between(fid, 0, 2)
				s.f.Between(s.num(h2, ht, "MessageHeader", "Timestamp"), 0, 0xffffff)
				s.f.Between(s.num(h2, ht, "MessageHeader", "Length"), 0, 0xffffff)
			} else {
				s.setField(p, ht, Const(3), "BasicHeader", "FormatId")
				s.setField(p, ht, Const(3), "MessageHeader", "FormatId")
				for _, f := range []string{"Timestamp", "TimestampDelta", "Length", "TypeId", "StreamId"} {
					v, _ := s.fieldAt(own, ht, "MessageHeader", f)
					s.setField(p, ht, v, "MessageHeader", f)
				}
				v, _ := s.fieldAt(own, ht, "ExtendedTimestamp", "Delta")
				s.setField(p, ht, v, "ExtendedTimestamp", "Delta")
			}
			// the header's read is one event
			for i := len(s.evs) - 1; i >= 0; i-- {
				if s.evs[i].kind == "read" {
					e := *s.evs[i]
					e.kind = "header"
					e.val = p
					in := s.input(src.sym)
					e.data = hdrEvent{p, hdrSnap{s.load(p, ht), ht}, in.rest, in.pos}
					s.evs = append(s.evs[:i:i], &e)
					break
				}
			}
			outs = append(outs, Out{s, errNil})
		}
		comp := good.fork()
		good.trail = append(good.trail, "header of format 0, 1 or 2")
		comp.trail = append(comp.trail, "header of format 3")
		put(good, true)
		put(comp, false)
		return outs, true
	}
}

// symNormalizer stands for a Normalizer, as property C04 describes it.
func (c *Ctx) symNormalizer(r *Run) (IfaceV, func(st *State, recv *SymObj, method string, sig *types.Signature, args []Val) ([]Out, bool)) {
	ht := c.typ("chunk", "Header")
	norm := r.newSym("normalizer", "normalizer", c.typ("chunk", "Normalizer"))
	return IfaceV{sym: norm}, func(st *State, recv *SymObj, method string, sig *types.Signature, args []Val) ([]Out, bool) {
		if recv != norm || method != "Normalize" {
			return nil, false
		}
		h, ok := args[0].(Ptr)
		if !ok || h.obj == nil {
			return nil, false
		}
		own := hdrSnap{st.load(h, ht), ht}
		o := newObj(ht, "completed header")
		o.fresh = true
		v := st.r.symVal(ht, "completed", nil)
		st.heap[o] = v
		p := Ptr{obj: o}
		bh, _ := st.fieldAt(own.v, ht, "BasicHeader")
		st.setField(p, ht, bh, "BasicHeader")
		xt, _ := st.fieldAt(own.v, ht, "ExtendedTimestamp")
		st.setField(p, ht, xt, "ExtendedTimestamp")
		n := hdrSnap{st.load(p, ht), ht}
		st.f.Between(n.get(st, "MessageHeader", "Length"), 0, 0xffffff)
		st.f.Between(n.get(st, "MessageHeader", "Timestamp"), 0, 0xffffff)
		e := st.ev("normalize")
		e.args = []Val{h}
		e.val = p
		e.data = hdrEvent{p: h, snap: own}
		e.obj = o
		st.heap[o] = n.v
		o.init = n.v
		return []Out{{st, p}}, true
	}
}

// builderInvariant makes up the builders in the reader's table.
func (c *Ctx) builderInvariant(left *counter) func(st *State, o *Obj, v Val) {
	bt, ht := c.typ("chunk", "Builder"), c.typ("chunk", "Header")
	bn := namedOf(bt)
	return func(st *State, o *Obj, v Val) {
		if namedOf(o.typ) != bn {
			return
		}
		var key *Term
		for m, cv := range st.heap {
			mc, ok := cv.(*MapC)
			if !ok || m == nil {
				continue
			}
			for _, l := range mc.looks {
				if p, ok := l.v.(Ptr); ok && p.obj == o && !l.del {
					key, _ = l.k.(*Term)
				}
			}
		}
		if key == nil {
			return
		}
		p := Ptr{obj: o}
		hv, _ := st.fieldAt(v, bt, "Header")
		hp, ok := hv.(Ptr)
		if !ok || hp.obj == nil {
			st.undecided("builder without header")
			return
		}
		if hp.obj.init == nil {
			st.content(hp.obj)
			st.setField(hp, ht, key, "BasicHeader", "StreamId")
			hp.obj.init = st.heap[hp.obj]
		}
		hs := hdrSnap{st.load(hp, ht), ht}
		length := hs.get(st, "MessageHeader", "Length")
		st.f.Between(length, 0, 0xffffff)
		st.f.Between(hs.get(st, "MessageHeader", "Timestamp"), 0, 0xffffff)
		lack := Sub(length, listTotal(st, v, bt))
		st.f.Between(lack, 0, 0xffffff)
		if !left.set(st, p, bt, lack) {
			st.undecided("what a builder lacks")
		}
		o.init = st.heap[o]
	}
}

// listTotal is the number of bytes that a builder holds.
func listTotal(st *State, v Val, bt types.Type) *Term {
	return listBytes(st, v, bt).Len()
}

// listBytes are the bytes that a builder holds, one payload after the other.
func listBytes(st *State, v Val, bt types.Type) Seq {
	pv, _ := st.fieldAt(v, bt, "Payloads")
	s, ok := pv.(SliceV)
	if !ok {
		return nil
	}
	q, ok := st.listSeq(s)
	if !ok {
		st.undecided("payloads of a builder: %s", showVal(pv))
	}
	return q
}

// recv analyses the loop of the reader.
func (c *Ctx) recv() *recvRun {
	rr := &recvRun{c: c}
	r := c.newRun()
	rr.r = r
	bt := c.typ("chunk", "Builder")
	rr.left = c.counterOf(bt, "BytesLeft")
	if rr.left == nil {
		panic("BytesLeft does not add up fields of the Builder")
	}
	st := r.withInits()
	rr.src = ioReader(r, "src")
	rr.size = Fresh("size", 1, 0x7fffffff)
	norm, call := c.symNormalizer(r)
	rr.norm = norm.sym
	r.symCall = call
	news := c.ended("new", "NewReader", r.call(st, c.fn("chunk", "NewReader"), rr.src, rr.size, norm))
	if len(news) != 1 {
		panic(fmt.Sprintf("NewReader has %d outcomes", len(news)))
	}
	s := news[0]
	rr.rd = s.ret
	s.status = 0
	r.onMake = func(st *State, e *Event) { e.data = st.consumed(rr.src) }
	rr.st = s.fork()
	r.intercept = c.interceptHeaderRead(rr.src)
	r.onSym = c.builderInvariant(rr.left)
	c.share(r, s, rr.rd)
	rr.outs = r.callMethod(s, rr.rd, "Recv")
	c.ended("recv", "Recv", rr.outs)
	for _, l := range r.loops {
		if rr.inst == nil || l.depth < rr.inst.depth {
			rr.inst = l
		}
	}
	if rr.inst == nil {
		panic("Recv has no loop")
	}
	chunks := rr.channel("Chunks")
	errs := rr.channel("Errs")
	stopped := stoppedHeads(rr.inst, func(it *Iter) bool {
		for _, e := range it.evs {
			if e.kind == "recv" {
				return true
			}
		}
		return false
	})
	for _, it := range rr.inst.iters {
		if stopped[it.from] {
			continue
		}
		x := &recvIter{Iter: it}
		if stopped[it.to] {
			cp := *it
			cp.to = nil
			x.Iter = &cp
		}
		for _, e := range it.evs {
			switch e.kind {
			case "header":
				x.hdr = e
			case "normalize":
				x.norm = e
			case "read":
				x.reads = append(x.reads, e)
			case "fail":
				x.fails = append(x.fails, e)
			case "send":
				switch e.ch {
				case chunks:
					x.chunks = append(x.chunks, e)
				case errs:
					x.errs = append(x.errs, e)
				default:
					x.other = append(x.other, e)
				}
			case "recv":
				x.closed = true
			}
		}
		rr.iters = append(rr.iters, x)
	}
	return rr
}

// channel is the object of the channel that an accessor returns.
func (rr *recvRun) channel(method string) *Obj {
	s := rr.st.fork()
	for _, o := range rr.r.callMethod(s, rr.rd, method) {
		if ch, ok := o.ret.(ChanV); ok && o.status == Returned {
			return ch.obj
		}
	}
	panic("no channel " + method)
}

// accessor calls a method of an object on a copy of a state in the middle of a
// function; it must have exactly one outcome.
func (r *Run) accessor(st *State, recv Val, method string, args ...Val) (Val, *State) {
	s := st.fork()
	s.frames = nil
	s.loops = nil
	s.status = Running
	s.locks = nil
	var ret Val
	var fin *State
	n := 0
	for _, o := range r.callMethod(s, recv, method, args...) {
		if o.status == Returned {
			ret, fin = o.ret, o
		}
		n++
	}
	if n != 1 || fin == nil {
		return nil, nil
	}
	return ret, fin
}

func (rr *recvRun) readSize(st *State) *Term {
	v, _ := rr.r.accessor(st, rr.rd, "ReadSize")
	t, _ := v.(*Term)
	return t
}

// entry finds what a table holds for a chunk stream.
func entryOf(st *State, m *Obj, id *Term) (v Val, present, known bool) {
	mc, ok := st.heap[m].(*MapC)
	if !ok {
		return nil, false, false
	}
	for _, es := range [][]MapEnt{mc.ents, mc.looks} {
		for i := len(es) - 1; i >= 0; i-- {
			k, _ := es[i].k.(*Term)
			if k != nil && st.f.Equal(k, id) {
				return es[i].v, !es[i].del, true
			}
		}
	}
	if !mc.base {
		return nil, false, true
	}
	return nil, false, false
}

// looked finds what the unknown content of a table had for a chunk stream.
func looked(st *State, m *Obj, id *Term) (v Val, present, known bool) {
	mc, ok := st.heap[m].(*MapC)
	if !ok {
		return nil, false, false
	}
	for i := len(mc.looks) - 1; i >= 0; i-- {
		k, _ := mc.looks[i].k.(*Term)
		if k != nil && st.f.Equal(k, id) {
			return mc.looks[i].v, !mc.looks[i].del, true
		}
	}
	if !mc.base {
		return nil, false, true
	}
	return nil, false, false
}

// table is the map of builders.
func (rr *recvRun) table(st *State) *Obj {
	bn := namedOf(rr.c.typ("chunk", "Builder"))
	var found *Obj
	for _, o := range reachObjs(rr.st, rr.rd) {
		if m, ok := rr.st.heap[o].(*MapC); ok {
			if p, ok := m.vt.Underlying().(*types.Pointer); ok && namedOf(p) == bn {
				if found != nil {
					panic("the reader has several tables of builders")
				}
				found = o
			}
		}
	}
	if found == nil {
		panic("the reader has no table of builders")
	}
	return found
}

func (x *recvIter) at() string {
	var ps []string
	for _, t := range x.st.trail[len(x.head.trail):] {
		if strings.Contains(t, "src") || strings.Contains(t, "format") || strings.Contains(t, "builders") {
			ps = append(ps, t)
		}
	}
	return strings.Join(ps, "; ")
}

// assume gives the states in which a condition holds and does not hold.
func (st *State) cases(b *Term) (yes, no *State) {
	if v, ok := st.f.Decide(b); ok {
		if v {
			return st, nil
		}
		return nil, st
	}
	y, n := st.fork(), st.fork()
	if !y.f.Assume(b, true) {
		y = nil
	}
	if !n.f.Assume(b, false) {
		n = nil
	}
	return y, n
}

// judge compares one iteration of the reader with what properties C05 and C06
// prescribe.
func (rr *recvRun) judge(x *recvIter, assembly, sizes bool) {
	c, o := rr.c, x.st
	bt, ht := c.typ("chunk", "Builder"), c.typ("chunk", "Header")
	ct := c.typ("chunk", "Chunk")
	table := rr.table(o)
	check := func(on bool, cond bool, rule, what string, st *State, format string, args ...interface{}) {
		if on {
			c.check(cond, rule, what, st, format, args...)
		}
	}
	oldSize, newSize := rr.readSize(x.head), rr.readSize(o)
	if oldSize == nil || newSize == nil {
		c.fail("decided", "ReadSize", o, "has no single outcome")
		return
	}
	sameSize := func(st *State) bool { return st.f.Equal(oldSize, newSize) }

	// the table of the builders
	var id *Term
	if x.norm != nil {
		id = hdrSnap{x.norm.obj.init, ht}.get(o, "BasicHeader", "StreamId")
	}
	for _, e := range x.evs {
		switch e.kind {
		case "mapset", "mapdel":
			if e.obj == table {
				k, _ := e.args[0].(*Term)
				check(assembly, id != nil && k != nil && o.f.Equal(k, id), "other streams", "table of builders", o, "the entry of %s is changed while a chunk of %v is read", showVal(e.args[0]), id)
			}
		case "mapclear":
			check(assembly, false, "other streams", "table of builders", o, "all entries are dropped")
		}
	}
	var old Val
	var had, known bool
	if id != nil {
		old, had, known = looked(o, table, id)
	}
	oldPtr, _ := old.(Ptr)
	for b, v := range o.heap {
		if namedOf(b.typ) == namedOf(bt) && b.sym && b.init != nil && (!had || b != oldPtr.obj) {
			check(assembly, o.sameVal(b.init, v), "other streams", "builder of another stream", o, "%s becomes %s", showVal(b.init), showVal(v))
		}
	}
	// the invariant of the builders
	if id != nil {
		if v, present, ok := entryOf(o, table, id); ok && present {
			p, isP := v.(Ptr)
			if !isP || p.obj == nil {
				check(assembly, false, "invariant", "entry of the stream", o, "is %s", showVal(v))
			} else {
				bv := o.load(p, bt)
				hv, _ := o.fieldAt(bv, bt, "Header")
				hp, _ := hv.(Ptr)
				if hp.obj == nil {
					check(assembly, false, "invariant", "entry of the stream", o, "has no header")
				} else {
					hs := hdrSnap{o.load(hp, ht), ht}
					length := hs.get(o, "MessageHeader", "Length")
					l := rr.left.value(o, bv, bt)
					check(assembly, o.f.Equal(hs.get(o, "BasicHeader", "StreamId"), id), "invariant", "stream of an entry", o, "%v", hs.get(o, "BasicHeader", "StreamId"))
					check(assembly, o.f.Equal(Add(l, listTotal(o, bv, bt)), length), "invariant", "what an entry lacks", o, "%v after %v of %v bytes", l, listTotal(o, bv, bt), length)
					ok1, d1 := o.f.Decide(Le(TZero, l))
					check(assembly, ok1 && d1, "invariant", "what an entry lacks is not negative", o, "%v", l)
				}
			}
		}
	}
	ok, dec := o.f.Decide(Le(TOne, newSize))
	check(sizes, ok && dec, "invariant", "chunk size", o, "the chunk size becomes %v", newSize)

	if x.to == nil {
		return // it ends: property C20
	}
	if len(x.fails) > 0 {
		at := "a read that fails"
		if x.hdr != nil {
			at = "a read that fails after the header"
		}
		check(assembly, len(x.chunks) == 0, "incomplete", at, o, "%d messages are delivered", len(x.chunks))
		check(sizes, sameSize(o), "kept", at, o, "the chunk size becomes %v", newSize)
		if had && assembly {
			v, present, _ := entryOf(o, table, id)
			p, _ := v.(Ptr)
			c.check(present && p.obj == oldPtr.obj && o.sameVal(oldPtr.obj.init, o.load(p, bt)), "incomplete", at+", message under way", o, "the builder changes")
		}
		return
	}
	if x.hdr == nil {
		check(assembly, false, "one chunk", "an iteration", o, "no header is read, and nothing fails")
		return
	}
	if x.norm == nil {
		check(assembly, false, "one chunk", "an iteration", o, "the header is not completed")
		return
	}
	hd := x.hdr.data.(hdrEvent)
	nd := x.norm.data.(hdrEvent)
	check(assembly, o.sameVal(hd.snap.v, nd.snap.v), "one chunk", "completed header", o, "the header read is %s, the one completed %s", showVal(hd.snap.v), showVal(nd.snap.v))
	hp, isPtr := x.norm.args[0].(Ptr)
	_, earlier := x.head.heap[hp.obj]
	check(assembly, isPtr && hp.obj != nil && hp.obj.fresh && !earlier, "one chunk", "header of its own", o, "the header is read into %s, which an earlier chunk may have been read into: who keeps that one's header sees it change", showVal(x.norm.args[0]))
	if !known {
		check(assembly, false, "one chunk", "message under way", o, "the reader does not look for one")
		return
	}
	comp := hdrSnap{x.norm.obj.init, ht}
	msg := comp
	var before Seq
	at := "first chunk of a message"
	if had {
		at = "further chunk of a message"
		if oldPtr.obj.init == nil {
			check(assembly, false, "one chunk", at, o, "the message under way is not used")
			return
		}
		hv, _ := o.fieldAt(oldPtr.obj.init, bt, "Header")
		hp := hv.(Ptr)
		msg = hdrSnap{hp.obj.init, ht}
		check(assembly, o.sameVal(hp.obj.init, o.load(hp, ht)), "header", at, o, "the header of the message under way becomes %s", showVal(o.load(hp, ht)))
		before = listBytes(o, oldPtr.obj.init, bt)
	}
	lacks := Sub(msg.get(o, "MessageHeader", "Length"), before.Len())
	for i, o := range split2(o, EqT(comp.get(o, "BasicHeader", "FormatId"), Const(3))) {
		if o == nil {
			continue
		}
		for j, o := range split2(o, EqT(msg.get(o, "MessageHeader", "Timestamp"), Const(0xffffff))) {
			if o == nil {
				continue
			}
			// the bytes between the header and where the input stands now
			got, _, ok := o.f.split(hd.rest, Sub(o.consumed(rr.src), hd.pos))
			if !ok {
				got = nil
				for _, e := range x.reads {
					got = seqCat(got, e.seq)
				}
			}
			ext := msg
			if i == 0 && j == 0 {
				head, rest, ok := o.f.split(got, Const(4))
				if !ok || !o.f.Equal(head.Len(), Const(4)) {
					check(assembly, false, "taken", at+" of format 3 with an extended timestamp", o, "%v is read", got)
					continue
				}
				got = rest
				if !had {
					var num *Term = TZero
					for k := int64(0); k < 4; k++ {
						b, ok := o.f.byteAt(head, Const(k))
						if !ok {
							b = Fresh("byte", 0, 255)
						}
						num = Add(num, o.f.shl(b, int(8*(3-k))))
					}
					num = o.f.simp(num)
					tmp := Ptr{obj: o.alloc(ht, "tmp", msg.v)}
					o.setField(tmp, ht, num, "ExtendedTimestamp", "Delta")
					ext = hdrSnap{o.load(tmp, ht), ht}
				}
			}
			rr.judgePayload(x, o, at, ext, comp, before, lacks, got, had, assembly, sizes, bt, ht, ct, table, id, oldSize, newSize)
		}
	}
}

func split2(st *State, b *Term) []*State {
	y, n := st.cases(b)
	return []*State{y, n}
}

func (rr *recvRun) judgePayload(x *recvIter, o *State, at string, msg, comp hdrSnap, before Seq, lacks *Term, got Seq, had, assembly, sizes bool, bt, ht, ct types.Type, table *Obj, id, oldSize, newSize *Term) {
	c := rr.c
	check := func(on bool, cond bool, rule, what string, st *State, format string, args ...interface{}) {
		if on {
			c.check(cond, rule, what, st, format, args...)
		}
	}
	for i, o := range split2(o, Le(lacks, oldSize)) {
		if o == nil {
			continue
		}
		n := lacks
		if i == 1 {
			n = oldSize
		}
		check(assembly, o.f.Equal(got.Len(), n), "taken", at, o, "%v bytes of payload are read, the message lacks %v, the chunk size is %v", got.Len(), lacks, oldSize)
		data := seqCat(before, got)
		for j, o := range split2(o, EqT(lacks, n)) {
			if o == nil {
				continue
			}
			if j == 1 {
				// not complete
				check(assembly, len(x.chunks) == 0, "delivered", at+", incomplete", o, "a message is delivered although it lacks %v", Sub(lacks, n))
				check(assembly, len(x.errs) == 0, "delivered", at+", incomplete", o, "an error is reported")
				check(sizes, o.f.Equal(oldSize, newSize), "kept", at+", incomplete", o, "the chunk size becomes %v", newSize)
				v, present, _ := entryOf(o, table, id)
				p, _ := v.(Ptr)
				if !present || p.obj == nil {
					check(assembly, false, "kept", at+", incomplete", o, "the message is forgotten")
					continue
				}
				bv := o.load(p, bt)
				if assembly {
					q := listBytes(o, bv, bt)
					c.check(o.f.SeqEqual(q, data), "assembled", at+", incomplete", o, "the builder holds %v, expected %v", q, data)
					c.check(o.f.Equal(rr.left.value(o, bv, bt), Sub(lacks, n)), "assembled", at+", incomplete", o, "it lacks %v, expected %v", rr.left.value(o, bv, bt), Sub(lacks, n))
					hv, _ := o.fieldAt(bv, bt, "Header")
					hp, _ := hv.(Ptr)
					c.check(hp.obj != nil && o.sameVal(o.load(hp, ht), msg.v), "header", at+", incomplete", o, "the message's header is %s", showVal(hv))
					c.sample("%s, incomplete: %v", at, q)
				}
				continue
			}
			v, present, known := entryOf(o, table, id)
			check(assembly, known && !present, "once", at+", complete", o, "the builder stays in the table: %s", showVal(v))
			typ := msg.get(o, "MessageHeader", "TypeId")
			for k, o := range split2(o, EqT(typ, Const(1))) {
				if o == nil {
					continue
				}
				if k == 1 {
					rr.delivered(x, o, at+", complete", msg, data, assembly, ct, ht)
					check(sizes, o.f.Equal(oldSize, newSize), "kept", at+", not of type 1", o, "the chunk size becomes %v", newSize)
					check(sizes, len(x.chunks) == 1, "kept", at+", not of type 1", o, "it is withheld")
					continue
				}
				for l, o := range split2(o, Le(Const(4), data.Len())) {
					if o == nil {
						continue
					}
					if l == 1 {
						check(sizes, o.f.Equal(oldSize, newSize), "malformed", at+", too short a size", o, "the chunk size becomes %v", newSize)
						check(sizes, len(x.chunks)+len(x.errs) == 1, "malformed", at+", too short a size", o, "%d messages and %d errors", len(x.chunks), len(x.errs))
						continue
					}
					num := rr.sizeValue(x, o, data)
					if num == nil {
						check(sizes, o.f.Equal(oldSize, newSize) && len(x.chunks)+len(x.errs) == 1, "applied", at+", type 1", o, "the chunk size becomes %v, which cannot be told from the payload %v", newSize, data)
						continue
					}
					for m, o := range split2(o, EqT(num, TZero)) {
						if o == nil {
							continue
						}
						for q, o := range split2(o, Lt(num, Const(0x80000000))) {
							if o == nil {
								continue
							}
							if m == 0 || q == 1 {
								check(sizes, o.f.Equal(oldSize, newSize), "malformed", at+", invalid size", o, "the chunk size becomes %v", newSize)
								check(sizes, len(x.chunks)+len(x.errs) == 1, "malformed", at+", invalid size", o, "%d messages and %d errors", len(x.chunks), len(x.errs))
								continue
							}
							check(sizes, o.f.Equal(newSize, num), "applied", at+", type 1", o, "the chunk size becomes %v, expected %v", newSize, num)
							check(sizes, len(x.chunks) == 0, "applied", at+", type 1", o, "it is delivered")
							check(sizes, len(x.errs) == 0, "applied", at+", type 1", o, "an error is reported")
							if sizes {
								c.sample("%s, type 1: size %v", at, newSize)
							}
						}
					}
				}
			}
		}
	}
}

// sizeValue is the number that the first four bytes of a payload spell out.
func (rr *recvRun) sizeValue(x *recvIter, o *State, data Seq) *Term {
	num := TZero
	// a message in several chunks: the bytes of the builder's list
	bt := rr.c.typ("chunk", "Builder")
	if old, had, _ := looked(o, rr.table(o), hdrSnap{x.norm.obj.init, rr.c.typ("chunk", "Header")}.get(o, "BasicHeader", "StreamId")); had {
		if p, ok := old.(Ptr); ok && p.obj != nil {
			if q := listBytes(o, o.load(p, bt), bt); o.f.SeqEqual(q, data) {
				data = q
			}
		}
	}
	data = o.f.dropEmpty(data)
	for k := int64(0); k < 4; k++ {
		b, ok := o.f.byteAt(data, Const(k))
		if !ok {
			return nil
		}
		num = Add(num, o.f.shl(b, int(8*(3-k))))
	}
	return o.f.simp(num)
}

func (rr *recvRun) delivered(x *recvIter, o *State, at string, msg hdrSnap, data Seq, assembly bool, ct, ht types.Type) {
	if !assembly {
		return
	}
	c := rr.c
	if !c.check(len(x.chunks) == 1 && len(x.errs) == 0, "delivered", at, o, "%d messages are delivered and %d errors reported", len(x.chunks), len(x.errs)) {
		return
	}
	p, ok := x.chunks[0].val.(Ptr)
	if !ok || p.obj == nil {
		c.fail("delivered", at, o, "%s is delivered", showVal(x.chunks[0].val))
		return
	}
	cv := o.load(p, ct)
	hv, _ := o.fieldAt(cv, ct, "Header")
	hp, _ := hv.(Ptr)
	c.check(hp.obj != nil && o.sameVal(o.load(hp, ht), msg.v), "header", at, o, "the message has the header %s", showVal(hv))
	dv, _ := o.fieldAt(cv, ct, "Data")
	d, _ := dv.(SliceV)
	q := o.sliceSeq(d)
	c.check(o.f.SeqEqual(q, data), "assembled", at, o, "the message carries %v, expected %v", q, data)
	c.sample("%s: %v", at, q)
}

const readerRule = "NewReader and Recv are interpreted abstractly with an unknown source, chunk size and normalizer. The loop is brought to a fixed point, so each iteration starts from an arbitrary table of builders, of which only the invariant is known " +
	"(a builder's header is of the stream it is filed under; what it lacks is its header's length less the bytes it holds, and not negative), and the invariant is shown to hold again at the end of each iteration. " +
	"(*Header).Read and Normalize are represented by what C03 and C04 establish. "

func init() {
	checks["C05"] = &checkDef{
		title: "assembly of messages",
		rule:  readerRule + "On each path through the body, the payload bytes taken, the builder's content afterwards, what is sent and to where, and which builders change are compared with the specification.",
		needs: map[string]int{"taken": 4, "delivered": 4, "assembled": 4, "other streams": 2, "invariant": 4, "once": 2},
		run: func(c *Ctx) {
			rr := c.recv()
			for _, x := range rr.iters {
				rr.judge(x, true, false)
			}
			mc, _ := rr.st.heap[rr.table(rr.st)].(*MapC)
			c.check(mc != nil && !mc.base && len(mc.ents) == 0, "invariant", "new reader", rr.st, "has messages under way")
			c.end(rr.r)
		},
	}
	checks["C06"] = &checkDef{
		title: "received Set Chunk Size",
		rule:  readerRule + "On each path through the body, the chunk size afterwards (as ReadSize returns it) and whether the message is sent on are compared with the specification; the limit on the bytes taken by a chunk is the chunk size at its start (see C05).",
		needs: map[string]int{"applied": 2, "malformed": 2, "kept": 4},
		run: func(c *Ctx) {
			rr := c.recv()
			for _, x := range rr.iters {
				rr.judge(x, false, true)
			}
			c.setting("kept", rr.st, rr.rd, "Reader", "SetReadSize", "ReadSize", rr.size)
			c.end(rr.r)
		},
	}
}
