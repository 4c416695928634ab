package main

// Routing: the chunk parser, its table of streams, and combined streams.

import (
	"fmt"
	"go/types"
	"strings"
)

// memoChans makes unknown collaborators hand out the same channel each time.
func (r *Run) memoChans(inputs map[*Obj]string) {
	memo := map[string]ChanV{}
	r.symCall = func(st *State, recv *SymObj, method string, sig *types.Signature, args []Val) ([]Out, bool) {
		if sig.Params().Len() != 0 || sig.Results().Len() != 1 {
			return nil, false
		}
		t, ok := sig.Results().At(0).Type().Underlying().(*types.Chan)
		if !ok {
			return nil, false
		}
		k := fmt.Sprintf("%d.%s", recv.id, method)
		ch, ok := memo[k]
		if !ok {
			ch = r.symVal(t, recv.name+"."+method, nil).(ChanV)
			memo[k] = ch
			inputs[ch.obj] = recv.name + "." + method
		}
		return []Out{{st, ch}}, true
	}
}

// listArg makes a slice with the given elements.
func (st *State) listArg(name string, elem types.Type, vs ...Val) SliceV {
	if len(vs) == 0 {
		return SliceV{off: TZero, len: TZero, cap: TZero, nilc: TTrue}
	}
	n := Const(int64(len(vs)))
	o := st.alloc(types.NewArray(elem, int64(len(vs))), name, ArrV{elems: vs, elem: elem})
	return SliceV{base: Ptr{obj: o}, off: TZero, len: n, cap: n}
}

// chanOf is the channel that an accessor without effects returns.
func (r *Run) chanOf(st *State, recv Val, method string) *Obj {
	v, _ := r.accessor(st, recv, method)
	if ch, ok := v.(ChanV); ok {
		return ch.obj
	}
	return nil
}

// feeder is what a goroutine of a combined stream does.
type feeder struct {
	from, to *Obj
	wg       Ptr
}

// feeder judges a goroutine that passes on everything from one channel to
// another until that ends.
func (c *Ctx) feeder(r *Run, st *State, e *Event, rule, at string) *feeder {
	saved := r.canEnd
	r.canEnd = func(st *State, ch *Obj) bool { return true }
	defer func() { r.canEnd = saved }()
	nl := len(r.loops)
	outs := r.runGo(st, e)
	var inst *LoopInst
	for _, l := range r.loops[nl:] {
		if inst == nil || l.depth < inst.depth {
			inst = l
		}
	}
	if !c.check(inst != nil, rule, at, st, "the goroutine that should pass chunks on has no loop") {
		return nil
	}
	f := &feeder{}
	same := func(p **Obj, o *Obj) bool {
		if *p == nil {
			*p = o
		}
		return *p == o && o != nil
	}
	ended := false
	for _, it := range inst.iters {
		var got, sent []*Event
		end := false
		for _, e := range it.evs {
			switch e.kind {
			case "recv":
				got = append(got, e)
			case "recv-end":
				end = true
			case "send":
				sent = append(sent, e)
			}
		}
		if it.st.status == Panicked {
			c.fail(rule, at, it.st, "passing chunks on panics: %s", it.st.why)
			continue
		}
		if end {
			ended = true
			c.check(len(sent) == 0, rule, at+", end", it.st, "something is passed on when a stream ends: %d", len(sent))
			c.check(it.to == nil, rule, at+", end", it.st, "the goroutine goes on after the end of its stream")
			continue
		}
		if !c.check(len(got) == 1 && same(&f.from, got[0].ch), rule, at+", chunk", it.st, "%d chunks are taken in at once", len(got)) {
			continue
		}
		if c.check(len(sent) == 1 && same(&f.to, sent[0].ch), rule, at+", chunk", it.st, "a chunk is passed on %d times", len(sent)) {
			c.check(it.st.sameVal(got[0].val, sent[0].val), rule, at+", chunk", it.st, "what is passed on is %s, not the chunk", showVal(sent[0].val))
			c.check(!sent[0].flag, rule, at+", chunk", it.st, "a chunk may be dropped instead of passed on")
		}
		c.check(it.to != nil, rule, at+", chunk", it.st, "the goroutine ends after a chunk")
	}
	c.check(ended, rule, at+", end", st, "the goroutine does not notice the end of its stream")
	for _, o := range outs {
		if !c.check(o.status == Returned, rule, at+", end", o, "the goroutine ends with %v %s", o.status, o.why) {
			continue
		}
		done, seenEnd := 0, false
		for _, e := range o.evs {
			switch e.kind {
			case "wgdone":
				done++
				f.wg = e.ptr
				c.check(seenEnd, rule, at+", end", o, "it counts as ended before its stream has ended")
			case "loop":
				seenEnd = true
			}
		}
		if e.data == "waitgroup" {
			done++
			f.wg = e.ptr
		}
		c.check(done == 1, rule, at+", end", o, "the end of a stream is counted %d times", done)
	}
	return f
}

// fanIn judges the goroutines that were started to feed a combined stream:
// one for each channel of want.
func (c *Ctx) fanIn(r *Run, o *State, evs []*Event, out *Obj, want []*Obj, wait Ptr, at string) {
	rule := "combined"
	adds, gos := TZero, int64(0)
	fed := map[*Obj]int{}
	for _, e := range evs {
		switch e.kind {
		case "wgadd":
			if t, ok := e.args[1].(*Term); ok && e.ptr == wait {
				adds = Add(adds, t)
			}
		case "go":
			gos++
			ok, dec := o.f.Decide(Le(Const(gos), adds))
			c.check(ok && dec, rule, at, o, "a goroutine is started before it is counted: waiting for the end may miss it")
			if f := c.feeder(r, o, e, rule, at); f != nil {
				fed[f.from]++
				c.check(f.to == out && out != nil, rule, at, o, "chunks are passed on to another channel than that of the combined stream")
				c.check(f.wg == wait, rule, at, o, "the end of a stream is counted elsewhere than it is waited for")
			}
		}
	}
	c.check(o.f.Equal(adds, Const(gos)), rule, at, o, "%d goroutines are started, %v counted", gos, adds)
	c.check(int(gos) == len(want), rule, at, o, "%d goroutines for %d streams", gos, len(want))
	for i, w := range want {
		c.check(w != nil && fed[w] == 1, rule, fmt.Sprintf("%s, stream %d", at, i), o, "its channel is read by %d goroutines", fed[w])
	}
}

// awaitClose finds what AwaitClose of a combined stream waits for, and judges it.
func (c *Ctx) awaitClose(r *Run, st *State, multi Val, out *Obj, at string) Ptr {
	var wait Ptr
	for _, o := range c.ended("combined", at, r.callMethod(st.idle(), multi, "AwaitClose")) {
		waits, closes := 0, 0
		for _, e := range o.evs {
			switch e.kind {
			case "wgwait":
				waits++
				wait = e.ptr
				c.check(closes == 0, "combined", at, o, "the stream is closed before its members have ended")
			case "close":
				closes++
				c.check(e.ch == out, "combined", at, o, "another channel is closed")
			case "send", "recv", "select":
				c.fail("combined", at, o, "AwaitClose uses a channel")
			}
		}
		c.check(waits >= 1 && closes == 1, "combined", at, o, "it waits %d times and closes the stream %d times", waits, closes)
	}
	return wait
}

// idle is a copy of the state in which a new call can begin.
func (st *State) idle() *State {
	s := st.fork()
	s.frames, s.loops, s.locks, s.evs = nil, nil, nil, nil
	s.status = Running
	return s
}

func (c *Ctx) multiStreams() {
	for _, n := range []int{0, 1, 2, 3, 4, 12} {
		r := c.newRun()
		r.memoChans(map[*Obj]string{})
		st := r.withInits()
		news := c.ended("combined", "NewMultiStream", r.call(st, c.fn("chunk", "NewMultiStream")))
		if len(news) != 1 {
			c.fail("combined", "NewMultiStream", nil, "%d outcomes", len(news))
			return
		}
		st = news[0]
		multi := st.ret
		at := fmt.Sprintf("MultiStream of %d", n)
		out := r.chanOf(st, multi, "In")
		c.check(out != nil, "combined", at, st, "it has no channel")
		wait := c.awaitClose(r, st, multi, out, at+", AwaitClose")
		t := c.typ("chunk", "Stream")
		var vs []Val
		var want []*Obj
		for i := 0; i < n; i++ {
			v := IfaceV{sym: r.newSym(fmt.Sprintf("member%d", i), roleOf(t), t)}
			vs = append(vs, v)
			want = append(want, r.chanOf(st, v, "In"))
		}
		s := st.idle()
		for _, o := range c.ended("combined", at+", Append", r.callMethod(s, multi, "Append", s.listArg("others", t, vs...))) {
			c.check(o.sameVal(o.ret, multi), "combined", at+", Append", o, "returns %s", showVal(o.ret))
			c.fanIn(r, o, o.evs, out, want, wait, at+", Append")
			c.sample("%s: %d goroutines feed it", at, n)
		}
		c.end(r)
	}
}

// atomic: nobody else can create a stream between the moment that the table is
// found to have none for an id and the moment that one is put into it.
func (c *Ctx) atomic(o *State, at string) {
	for i, e := range o.evs {
		if e.kind != "mapset" {
			continue
		}
		k, _ := e.args[0].(*Term)
		look, held := -1, false
		for j := i - 1; j >= 0 && look < 0; j-- {
			l := o.evs[j]
			if l.kind == "maplook" && l.obj == e.obj {
				if lk, _ := l.args[0].(*Term); lk != nil && k != nil && o.f.Equal(lk, k) {
					look = j
				}
			}
		}
		if !c.check(look >= 0, "atomic", at, o, "a stream is put into the table without having looked for one") {
			continue
		}
		for _, l := range o.evs[look].held {
			same := !l.read
			for _, u := range o.evs[look:i] {
				same = same && !(u.kind == "unlock" && u.name == l.key)
			}
			held = held || same
		}
		c.check(held, "atomic", at, o, "no mutex is held from the lookup of an id (%s) to the moment its stream is put into the table (%s)", o.r.posOf(o.evs[look].pos), o.r.posOf(e.pos))
	}
}

// parserStreams judges the table lookups of the parser.
func (c *Ctx) parserStreams() {
	for n := 0; n <= 6; n++ {
		s := c.newChunkParser()
		r := s.r
		st := s.st.idle()
		table := s.streams()
		// any streams may have been asked for before
		mc := st.heap[table].(*MapC)
		mapSeq++
		st.heap[table] = &MapC{base: true, id: mapSeq, kt: mc.kt, vt: mc.vt, name: mc.name}
		var ids []Val
		var terms []*Term
		for i := 0; i < n; i++ {
			t := Fresh("id", 0, 1<<32-1)
			for _, u := range terms {
				st.f.Assume(EqT(t, u), false)
			}
			terms = append(terms, t)
			ids = append(ids, t)
		}
		at0 := fmt.Sprintf("Parser.Stream of %d ids", n)
		list := st.listArg("ids", types.Typ[types.Uint32], ids...)
		nerr, nok := 0, 0
		for _, o := range c.ended("lookup", at0, r.callMethod(st, s.recv, "Stream", list)) {
			ret, ok := o.ret.(TupleV)
			if !c.check(ok && len(ret) == 2, "lookup", at0, o, "returns %s", showVal(o.ret)) {
				continue
			}
			nl, dec := o.isNil(ret[1])
			if !c.check(dec, "lookup", at0, o, "an error may or may not be returned: %s", showVal(ret[1])) {
				continue
			}
			changes := 0
			for _, e := range o.evs {
				if e.kind == "mapset" || e.kind == "mapdel" || e.kind == "mapclear" {
					changes++
				}
			}
			c.atomic(o, at0)
			had, unknown := 0, 0
			for _, id := range terms {
				if _, present, known := looked(o, table, id); !known {
					unknown++
				} else if present {
					had++
				}
			}
			at := fmt.Sprintf("%s, %d of them existing", at0, had)
			switch {
			case n == 0:
				c.check(!nl, "lookup", at0, o, "asking for no stream is not an error")
				c.check(changes == 0, "lookup", at0, o, "the table changes")
				nerr++
			case n == 1:
				if !c.check(nl, "lookup", at, o, "asking for one stream is an error") {
					continue
				}
				nok++
				old, present, _ := looked(o, table, terms[0])
				now, is, _ := entryOf(o, table, terms[0])
				c.check(is, "lookup", at, o, "the stream is not in the table afterwards")
				c.check(s.isStream(o, ret[0], now), "lookup", at, o, "what is returned, %s, is not the stream of the table, %s", showVal(ret[0]), showVal(now))
				if present {
					c.check(o.sameVal(old, now) && changes == 0, "lookup", at, o, "the stream of the table is replaced")
				} else {
					c.check(changes == 1, "lookup", at, o, "the table changes %d times", changes)
					c.check(s.newStream(o, now), "lookup", at, o, "the stream that is filed, %s, has no channel of its own", showVal(now))
					c.ownID(o, at, now, terms[0])
				}
				c.sample("%s: the stream of the table", at)
			case !nl:
				nerr++
				c.check(had > 0, "lookup", at, o, "asking for new streams is an error")
				c.check(changes == 0, "lookup", at, o, "streams are created in spite of the error")
				c.sample("%s: error, no change", at)
			default:
				nok++
				c.check(had == 0 && unknown == 0, "lookup", at, o, "a stream exists already (%d), or it is not known (%d)", had, unknown)
				c.check(changes == n, "lookup", at, o, "%d streams are filed", changes)
				var want []*Obj
				seen := map[*Obj]bool{}
				for _, id := range terms {
					now, is, _ := entryOf(o, table, id)
					if !c.check(is && s.newStream(o, now), "lookup", at, o, "the stream that is filed, %s, has no channel of its own", showVal(now)) {
						continue
					}
					c.ownID(o, at, now, id)
					ch := s.in(o, now)
					c.check(!seen[ch], "lookup", at, o, "two streams share a channel")
					seen[ch] = true
					want = append(want, ch)
				}
				out := r.chanOf(o, ret[0], "In")
				c.check(out != nil && !seen[out], "combined", at, o, "the combined stream has no channel of its own")
				wait := c.awaitClose(r, o, ret[0], out, at+", AwaitClose")
				c.fanIn(r, o, o.evs, out, want, wait, at)
				c.sample("%s: combined stream with %d feeders", at, n)
			}
		}
		c.check(nok > 0 || n == 0, "lookup", at0, nil, "never succeeds")
		c.check(nerr > 0 || n == 1, "lookup", at0, nil, "never fails")
		c.end(r)
	}
}

// ownID: a stream says which chunk stream it is for.
func (c *Ctx) ownID(o *State, at string, v Val, id *Term) {
	p, ok := v.(Ptr)
	if !ok || p.obj == nil || fieldIndex(p.obj.typ, "ID") < 0 {
		return
	}
	got := o.num(o.load(p, p.obj.typ), p.obj.typ, "ID")
	c.check(got != nil && o.f.Equal(got, id), "lookup", at, o, "the stream's ID is %v, expected %v", got, id)
}

// newParser is a parser right after its construction.
func (c *Ctx) newChunkParser() *svcRun {
	v := chunkParser
	s := &svcRun{c: c, svc: v, r: c.newRun(), inputs: map[*Obj]string{}, memo: map[string]Val{}}
	s.r.memoChans(s.inputs)
	st := s.r.withInits()
	news := c.ended("new", v.ctor, s.r.call(st, c.fn(v.pkg, v.ctor), v.ctorArgs(s, st)...))
	if len(news) != 1 {
		panic(fmt.Sprintf("%s.%s has %d outcomes", v.pkg, v.ctor, len(news)))
	}
	s.st = news[0].idle()
	s.recv = news[0].ret
	return s
}

// in is the channel of a stream of the table.
func (s *svcRun) in(st *State, v Val) *Obj {
	if ch, ok := v.(ChanV); ok {
		return ch.obj
	}
	return s.r.chanOf(st, v, "In")
}

// isStream reports that a Stream is the entry of the table.
func (s *svcRun) isStream(st *State, ret, entry Val) bool {
	if nl, ok := st.isNil(ret); !ok || nl {
		return false
	}
	a, b := s.r.chanOf(st, ret, "In"), s.in(st, entry)
	return a != nil && a == b
}

// newStream reports that an entry is new, with a channel that is new too.
func (s *svcRun) newStream(st *State, entry Val) bool {
	ch := s.in(st, entry)
	if ch == nil || ch.sym {
		return false
	}
	if _, before := s.st.heap[ch]; before {
		return false
	}
	cc, ok := st.heap[ch].(ChanC)
	return ok && !cc.closed
}

// routing judges the loop of the parser.
func (s *svcRun) routing() {
	c := s.c
	table := s.streams()
	for _, x := range s.iters {
		at, o := s.at(x), x.st
		if o.status == Panicked {
			c.fail("routes", at, o, "panics: %s", o.why)
			continue
		}
		var sends []*Event
		for _, e := range x.evs {
			if e.kind == "send" {
				sends = append(sends, e)
			}
		}
		if len(x.items) == 0 {
			c.check(len(sends) == 0, "routes", at, o, "something is sent without a chunk")
			continue
		}
		if !c.check(len(x.items) == 1, "routes", at, o, "%d items are taken in at once", len(x.items)) {
			continue
		}
		item := x.items[0]
		if x.stop != nil {
			c.check(len(sends) == 0, "routes", at, o, "something is sent although it was told to close")
			continue
		}
		src := s.inputs[item.ch]
		switch {
		case strings.HasSuffix(src, ".Chunks"):
			id, _, _ := c.chunkFields(o, item.val)
			if !c.check(id != nil, "routes", at, o, "what comes from the reader is %s", showVal(item.val)) {
				continue
			}
			for _, e := range x.evs {
				if e.kind == "mapset" || e.kind == "mapdel" || e.kind == "mapclear" {
					k, _ := Val(nil), 0
					if len(e.args) > 0 {
						k = e.args[0]
					}
					t, _ := k.(*Term)
					c.check(e.kind == "mapset" && t != nil && o.f.Equal(t, id), "routes", at, o, "the stream of another id changes")
				}
			}
			now, is, _ := entryOf(o, table, id)
			if !c.check(is, "routes", at, o, "the chunk's stream is not in the table") {
				continue
			}
			if old, present, known := looked(o, table, id); known && present {
				c.check(o.sameVal(old, now), "routes", at, o, "the stream of the chunk is replaced")
			} else {
				c.check(known, "routes", at, o, "the table is not consulted")
				c.check(s.newStream(o, now), "routes", at, o, "the stream that is filed has no channel of its own")
			}
			if c.check(len(sends) == 1, "routes", at, o, "the chunk is sent %d times", len(sends)) {
				e := sends[0]
				c.check(e.ch != nil && e.ch == s.in(o, now), "routes", at, o, "the chunk is not sent to the stream of its id")
				c.check(o.sameVal(e.val, item.val), "routes", at, o, "what is sent is %s, not the chunk", showVal(e.val))
			}
			c.sample("%s: sent to the stream filed under its id", at)
		case strings.HasSuffix(src, ".Errs"):
			if c.check(len(sends) == 1 && sends[0].ch == s.errs, "errors", at, o, "an error of the reader is passed on %d times", len(sends)) {
				c.check(o.sameVal(sends[0].val, item.val), "errors", at, o, "what is passed on is %s, not the error", showVal(sends[0].val))
			}
		}
		c.check(x.to != nil, "routes", at, o, "the loop is left (%v)", o.status)
	}
	// the reader is started, once
	for _, o := range s.outs {
		if o.status != Returned {
			continue
		}
		n := 0
		for _, e := range o.evs {
			if e.kind == "go" {
				n += s.starts(o, e)
			}
			if e.kind == "loop" {
				break
			}
		}
		c.check(n == 1, "starts", s.svc.name, o, "the reader is started %d times", n)
	}
}

// starts counts how often a goroutine runs the reader.
func (s *svcRun) starts(o *State, e *Event) int {
	if e.meth != nil {
		if iv, ok := e.args[0].(IfaceV); ok && iv.sym != nil && strings.HasPrefix(iv.sym.name, "reader") && e.meth.Name() == "Recv" {
			return 1
		}
		return 0
	}
	n := 0
	for _, f := range s.r.runGo(o, e) {
		n = 0
		for _, e := range f.evs {
			if e.kind == "call" && strings.HasSuffix(e.name, ".Recv") {
				n++
			}
		}
	}
	return n
}

// abandons judges that every delivery can be given up for closing.
func (c *Ctx) abandons(name, at string, closer *Obj, o *State, evs []*Event) {
	var last *Event
	stop := false
	for _, e := range evs {
		switch e.kind {
		case "select":
			last = e
			if stop {
				c.check(!e.flag, "abandons", at, o, "after it was told to close, it waits at a channel")
			}
		case "send":
			ok := false
			if e.flag && last != nil {
				ok = !last.flag
				for _, k := range last.cases {
					if k.ch == closer && !k.send {
						ok = true
					}
				}
			}
			c.check(ok && !stop, "abandons", at, o, "%s waits for a receiver without listening to its close signal", name)
		case "recv", "recv-end":
			if e.ch == closer {
				stop = true
				c.count("abandons", true)
				continue
			}
			ok := false
			if e.flag && last != nil {
				ok = !last.flag
				for _, k := range last.cases {
					if k.ch == closer && !k.send {
						ok = true
					}
				}
			}
			c.check(ok && !stop, "abandons", at, o, "%s waits at a channel without listening to its close signal", name)
		case "block", "wgwait", "relock":
			c.fail("abandons", at, o, "%s waits (%s)", name, e.kind)
		}
	}
}

func init() {
	checks["C17"] = &checkDef{
		title: "chunks reach the stream that was asked for",
		rule: "Parser.Recv is interpreted abstractly, brought to a fixed point with an unknown reader and an arbitrary table: each path that takes in a chunk must send that chunk once, on the channel of the table's entry for its chunk stream id, which must be the one found or, if none was, a new one; errors of the reader are sent on once. " +
			"Parser.Stream is interpreted with 0 to 6 distinct symbolic ids over an arbitrary table: results, errors and changes of the table are compared. Of combined streams, every goroutine started is interpreted: it must read the channel of its member, pass each chunk on unchanged, end when that ends and count that once; AwaitClose must wait for that count before closing.",
		needs: map[string]int{"routes": 4, "errors": 1, "starts": 1, "lookup": 15, "combined": 30},
		run: func(c *Ctx) {
			s := c.runService(chunkParser, false)
			s.routing()
			c.end(s.r)
			c.parserStreams()
			c.multiStreams()
			c.assume = append(c.assume, "the ids given to one call of Parser.Stream are distinct, and at most six")
		},
	}
	checks["C22"] = &checkDef{
		title: "closing never waits for a receiver",
		rule:  "All paths through one iteration of Parser.Recv and DefaultReader.Recv, from the fixed point of the loop: each send and each receive must be a case of a select that also receives the close signal (or that does not wait), and after the close signal there is no waiting at a channel.",
		needs: map[string]int{"abandons": 6},
		run: func(c *Ctx) {
			s := c.runService(chunkParser, false)
			for _, x := range s.iters {
				c.abandons(s.svc.name, s.at(x), s.closer, x.st, x.evs)
			}
			for _, o := range s.outs {
				if o.status != Returned {
					continue
				}
				var evs []*Event
				for i, e := range o.evs {
					if e.kind == "loop" && e.loop == s.inst {
						evs = o.evs[i+1:]
						break
					}
				}
				c.abandons(s.svc.name, s.svc.name+", closing", s.closer, o, evs)
			}
			c.end(s.r)
			rr := c.recv()
			closer := rr.closer()
			for _, x := range rr.iters {
				c.abandons("chunk.DefaultReader", "chunk.DefaultReader, "+x.at(), closer, x.st, x.evs)
			}
			c.end(rr.r)
			c.closerSignal(rr)
		},
	}
}

// closerSignal: closing means one message on the closer channel, nothing else
// that waits.
func (c *Ctx) closerSignal(rr *recvRun) {
	for _, o := range c.ended("abandons", "DefaultReader.Close", rr.r.callMethod(rr.st.idle(), rr.rd, "Close")) {
		n := 0
		for _, e := range o.evs {
			switch e.kind {
			case "send", "close", "recv", "select", "wgwait", "block", "relock":
				n++
			}
		}
		c.check(n == 1, "abandons", "DefaultReader.Close", o, "it waits in %d places", n)
	}
}
