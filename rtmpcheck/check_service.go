package main

// The service loops: control, command and data streams, the dispatcher and the
// chunk parser. One arbitrary iteration of each is interpreted from the fixed
// point of the loop, with unknown collaborators.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// service describes a loop.
type service struct {
	name      string
	pkg, typ  string
	loop      string
	args      []Val
	ctor      string
	ctorArgs  func(s *svcRun, st *State) []Val
	results   string // accessor of the channel with what is received
	sends     string // accessor of the channel with what is to be sent
	errs      string
	closesOut bool // closes its output channels when it is told to close
}

var services = []service{
	{name: "control.Stream", pkg: "control", typ: "Stream", loop: "Recv", ctor: "NewStream",
		ctorArgs: func(s *svcRun, st *State) []Val {
			return []Val{s.sym("chunk", "Stream", "chunks"), s.writer(), s.sym("control", "Parser", "parser"), s.sym("control", "Chunker", "chunker")}
		}, results: "In", sends: "Out", errs: "Errs", closesOut: true},
	{name: "conn.NetConn", pkg: "cmd/conn", typ: "NetConn", loop: "Listen", ctor: "NewNetConnection",
		ctorArgs: func(s *svcRun, st *State) []Val {
			return []Val{s.chunkChan(), s.writer()}
		}, results: "In", sends: "Out", errs: "Errs"},
	{name: "stream.NetStream", pkg: "cmd/stream", typ: "NetStream", loop: "Listen", ctor: "New",
		ctorArgs: func(s *svcRun, st *State) []Val {
			return []Val{s.chunkChan(), s.writer()}
		}, results: "In", sends: "Status", errs: "Errs", closesOut: true},
	{name: "data.Stream", pkg: "cmd/data", typ: "Stream", loop: "Recv", ctor: "NewStream",
		ctorArgs: func(s *svcRun, st *State) []Val {
			return []Val{s.chunkChan(), s.writer()}
		}, results: "Out", sends: "In", errs: "Errs", closesOut: true},
}

var dispatcher = service{name: "cmd.Manager", pkg: "cmd", typ: "Manager", loop: "Dispatch", ctor: "New",
	ctorArgs: func(s *svcRun, st *State) []Val {
		return []Val{s.sym("chunk", "Stream", "chunks"), s.writer()}
	}}

var chunkParser = service{name: "chunk.Parser", pkg: "chunk", typ: "Parser", loop: "Recv", ctor: "NewParser",
	ctorArgs: func(s *svcRun, st *State) []Val {
		return []Val{s.sym("chunk", "Reader", "reader")}
	}, errs: "Errs", closesOut: true}

// svcRun is the analysis of one loop.
type svcRun struct {
	c    *Ctx
	r    *Run
	svc  service
	recv Val
	st   *State // after the constructor
	outs []*State
	inst *LoopInst

	inputs  map[*Obj]string
	memo    map[string]Val
	w       IfaceV
	result  *Obj
	send    *Obj
	errs    *Obj
	closer  *Obj
	closeEv []*Event // what Close does
	iters   []*svcIter
	stopped map[*variant]bool // the loop has been told to close
}

// svcIter is one way through the loop.
type svcIter struct {
	*Iter
	items   []*Event // taken in
	ended   []*Event // an input has ended
	stop    *Event   // told to close
	stopAt  int
	results []*Event
	errs    []*Event
	others  []*Event // sends elsewhere
	writes  []*Event
	calls   []*Event
	fails   []*Event
}

func (s *svcRun) sym(rel, name, label string) IfaceV {
	t := s.c.typ(rel, name)
	return IfaceV{sym: s.r.newSym(label, roleOf(t), t)}
}

func (s *svcRun) writer() IfaceV {
	s.w = s.sym("chunk", "Writer", "writer")
	return s.w
}

func (s *svcRun) chunkChan() Val {
	t := types.NewChan(types.SendRecv, types.NewPointer(s.c.typ("chunk", "Chunk")))
	v := s.r.symVal(t, "chunks", nil).(ChanV)
	s.inputs[v.obj] = "chunks"
	return v
}

// runService analyses a loop. ends says whether its input may end.
func (c *Ctx) runService(v service, ends bool) *svcRun {
	return c.runPrepared(v, ends, nil)
}

// runPrepared does so after something has been done with the new service.
func (c *Ctx) runPrepared(v service, ends bool, prepare func(s *svcRun, st *State) *State) *svcRun {
	s := &svcRun{c: c, svc: v, r: c.newRun(), inputs: map[*Obj]string{}, memo: map[string]Val{}}
	r := s.r
	// the same unknown collaborator always hands out the same channel
	r.symCall = func(st *State, recv *SymObj, method string, sig *types.Signature, args []Val) ([]Out, bool) {
		if sig.Params().Len() != 0 || sig.Results().Len() != 1 {
			return nil, false
		}
		t, ok := sig.Results().At(0).Type().Underlying().(*types.Chan)
		if !ok {
			return nil, false
		}
		k := fmt.Sprintf("%d.%s", recv.id, method)
		ch, ok := s.memo[k].(ChanV)
		if !ok {
			ch = r.symVal(t, recv.name+"."+method, nil).(ChanV)
			s.memo[k] = ch
			s.inputs[ch.obj] = recv.name + "." + method
		}
		return []Out{{st, ch}}, true
	}
	r.canEnd = func(st *State, ch *Obj) bool { return ends && s.inputs[ch] != "" }
	st := r.withInits()
	news := c.ended("new", v.ctor, r.call(st, c.fn(v.pkg, v.ctor), v.ctorArgs(s, st)...))
	if len(news) != 1 {
		panic(fmt.Sprintf("%s.%s has %d outcomes", v.pkg, v.ctor, len(news)))
	}
	s.st = news[0]
	s.recv = s.st.ret
	s.st.status = Running
	s.st.evs = nil
	if prepare != nil {
		if s.st = prepare(s, s.st); s.st == nil {
			panic(v.name + " cannot be prepared")
		}
		s.st.status = Running
		s.st.evs = nil
	}
	s.result = s.channel(v.results)
	s.send = s.channel(v.sends)
	s.errs = s.channel(v.errs)
	s.findCloser()
	start := s.st.fork()
	c.share(r, start, s.recv)
	s.outs = r.call(start, c.method(s.recvType(), v.loop), append([]Val{s.recv}, v.args...)...)
	s.inst = s.mainLoop()
	if s.inst == nil {
		panic(v.name + "." + v.loop + " has no loop")
	}
	s.stopped = stoppedHeads(s.inst, func(it *Iter) bool { return s.classify(it).stop != nil })
	for _, it := range s.inst.iters {
		if s.stopped[it.from] {
			continue
		}
		x := *it
		if s.stopped[x.to] {
			x.to = nil
		}
		s.iters = append(s.iters, s.classify(&x))
	}
	return s
}

func (s *svcRun) recvType() types.Type {
	return types.NewPointer(s.c.typ(s.svc.pkg, s.svc.typ))
}

// mainLoop is the outermost loop that waits for something.
func (s *svcRun) mainLoop() *LoopInst {
	var best *LoopInst
	for _, l := range s.r.loops {
		waits := false
		for _, it := range l.iters {
			for _, e := range it.evs {
				switch e.kind {
				case "recv", "recv-end", "select":
					waits = true
				}
			}
		}
		if waits && (best == nil || l.depth < best.depth) {
			best = l
		}
	}
	return best
}

func (s *svcRun) channel(method string) *Obj {
	if method == "" {
		return nil
	}
	for _, o := range s.r.callMethod(s.st.fork(), s.recv, method) {
		if ch, ok := o.ret.(ChanV); ok && o.status == Returned && ch.obj != nil {
			return ch.obj
		}
	}
	panic(s.svc.name + " has no channel " + method)
}

// findCloser finds the channel by which Close speaks to the loop.
func (s *svcRun) findCloser() {
	for _, o := range s.r.callMethod(s.st.idle(), s.recv, "Close") {
		for _, e := range s.r.signals(o) {
			if s.closer == nil {
				s.closer = e.ch
			}
			s.closeEv = append(s.closeEv, e)
		}
	}
	if s.closer == nil {
		panic(s.svc.name + ".Close sends nothing")
	}
}

// signals are the channels that an operation sends on or closes, itself or in
// a goroutine that it starts.
func (r *Run) signals(o *State) (evs []*Event) {
	for _, e := range o.evs {
		switch {
		case (e.kind == "send" || e.kind == "close") && e.ch != nil:
			evs = append(evs, e)
		case e.kind == "go":
			var all []*Event
			for i, x := range r.runGo(o.idle(), e) {
				evs := []*Event{}
				for _, d := range x.evs {
					if (d.kind == "send" || d.kind == "close") && d.ch != nil && (i == 0 || has(all, d.ch)) {
						evs = append(evs, d)
					}
				}
				all = evs
			}
			evs = append(evs, all...)
		}
	}
	return evs
}

func has(evs []*Event, ch *Obj) bool {
	for _, e := range evs {
		if e.ch == ch {
			return true
		}
	}
	return false
}

// tells: whenever Close returns, the loop has been told to close, or has ended.
// ended are the channels that the loop closes in the end.
func (c *Ctx) tells(r *Run, st *State, recv Val, name string, closer *Obj, ended map[*Obj]bool) {
	for _, o := range c.ended("told", name, r.callMethod(st.idle(), recv, "Close")) {
		over := false
		for _, e := range o.evs {
			if (e.kind == "recv" || e.kind == "recv-end") && ended[e.ch] {
				over = true
			}
		}
		c.check(over || has(r.signals(o), closer), "told", name, o, "it returns although the loop has not been told to close")
	}
}

// closedBy are the channels that are closed on each way out of the loop.
func closedBy(outs []*State) map[*Obj]bool {
	var all map[*Obj]bool
	for _, o := range outs {
		if o.status != Returned {
			continue
		}
		m := map[*Obj]bool{}
		for _, e := range o.evs {
			if e.kind == "close" && (all == nil || all[e.ch]) {
				m[e.ch] = true
			}
		}
		all = m
	}
	return all
}

func (s *svcRun) classify(it *Iter) *svcIter {
	x := &svcIter{Iter: it}
	for i, e := range it.evs {
		switch e.kind {
		case "recv", "recv-end":
			switch {
			case e.ch == s.closer:
				if x.stop == nil {
					x.stop, x.stopAt = e, i
				}
			case e.kind == "recv" && (s.inputs[e.ch] != "" || e.ch == s.send):
				x.items = append(x.items, e)
			case e.kind == "recv-end" && s.inputs[e.ch] != "":
				x.ended = append(x.ended, e)
			}
		case "send":
			switch e.ch {
			case s.result:
				x.results = append(x.results, e)
			case s.errs:
				x.errs = append(x.errs, e)
			default:
				x.others = append(x.others, e)
			}
		case "call":
			x.calls = append(x.calls, e)
			if s.w.sym != nil && e.data == s.w.sym && strings.HasSuffix(e.name, ".Write") {
				x.writes = append(x.writes, e)
			}
		case "fail", "newerr":
			x.fails = append(x.fails, e)
		}
	}
	return x
}

func (s *svcRun) at(x *svcIter) string {
	what := "idle"
	switch {
	case len(x.items) > 0 && x.items[0].ch == s.send:
		what = "item to send"
	case len(x.items) > 0:
		what = "item from " + s.inputs[x.items[0].ch]
	case len(x.ended) > 0:
		what = "end of " + s.inputs[x.ended[0].ch]
	case x.stop != nil:
		what = "closing"
	}
	at := s.svc.name + ", " + what
	var ps []string
	for _, t := range x.st.trail[len(x.head.trail):] {
		if strings.HasSuffix(t, " fails") {
			ps = append(ps, t)
		}
	}
	if len(ps) > 0 {
		at += " (" + strings.Join(ps, ", ") + ")"
	}
	return at
}

// made reports that a value is an object that this iteration has made out of
// the item: the result of a call that was given the item, or a new object.
func (x *svcIter) made(v, item Val) bool {
	o := x.st
	if nl, ok := o.isNil(v); !ok || nl {
		return false
	}
	for _, e := range x.calls {
		res := e.val
		if t, ok := res.(TupleV); ok && len(t) > 0 {
			res = t[0]
		}
		if res == nil || !o.sameVal(res, v) {
			continue
		}
		args := e.args
		if iv, ok := item.(IfaceV); ok && iv.sym != nil && e.data == iv.sym {
			return true
		}
		for _, a := range args {
			if o.sameVal(a, item) {
				return true
			}
		}
	}
	if iv, ok := v.(IfaceV); ok {
		v = iv.v
	}
	if p, ok := v.(Ptr); ok && p.obj != nil {
		_, before := x.head.heap[p.obj]
		return !before && !p.obj.sym
	}
	return false
}

// outcome judges what becomes of the items.
func (s *svcRun) outcome(x *svcIter) {
	c, o := s.c, x.st
	at := s.at(x)
	if !c.check(len(x.items) <= 1, "one outcome", at, o, "%d items are taken in at once", len(x.items)) {
		return
	}
	if len(x.items) == 0 {
		if len(x.ended) == 0 && x.stop == nil {
			c.check(len(x.results)+len(x.errs)+len(x.writes)+len(x.others) == 0, "one outcome", at, o, "something is reported without an item")
		}
		return
	}
	if o.status == Panicked {
		c.fail("one outcome", at, o, "panics: %s", o.why)
		return
	}
	if x.stop != nil {
		// it was told to close while the outcome was pending
		c.check(len(x.results)+len(x.errs) == 0, "one outcome", at, o, "%d outcomes before closing", len(x.results)+len(x.errs))
		return
	}
	item := x.items[0]
	c.check(len(x.others) == 0, "one outcome", at, o, "%d messages are sent elsewhere", len(x.others))
	failed := false
	for _, e := range x.fails {
		if e.kind == "fail" {
			failed = true
		}
	}
	for _, e := range x.errs {
		nl, ok := o.isNil(e.val)
		c.check(ok && !nl, "one outcome", at, o, "the error that is reported is %s", showVal(e.val))
	}
	if item.ch != s.send {
		c.check(len(x.writes) == 0, "one outcome", at, o, "a received message is written to the peer")
		if failed {
			c.check(len(x.errs) == 1 && len(x.results) == 0, "one outcome", at, o, "%d errors and %d results are delivered although decoding fails", len(x.errs), len(x.results))
		} else {
			c.check(len(x.errs)+len(x.results) == 1, "one outcome", at, o, "%d errors and %d results are delivered", len(x.errs), len(x.results))
		}
		for _, e := range x.results {
			c.check(x.made(e.val, item.val), "decoded", at, o, "what is passed on, %s, is not made from the message", showVal(e.val))
		}
		c.sample("%s: %d results, %d errors", at, len(x.results), len(x.errs))
	} else {
		c.check(len(x.results) == 0, "one outcome", at, o, "a message to be sent is delivered")
		if failed {
			c.check(len(x.errs) == 1 && len(x.writes) <= 1, "one outcome", at, o, "%d errors are reported, %d messages written although sending fails", len(x.errs), len(x.writes))
		} else {
			c.check(len(x.errs) == 0 && len(x.writes) == 1, "one outcome", at, o, "%d errors are reported, %d messages written", len(x.errs), len(x.writes))
		}
		for _, e := range x.writes {
			c.check(len(e.args) == 1 && x.made(e.args[0], item.val), "written", at, o, "what is written, %s, is not made from the message", showVal(e.args[0]))
		}
		c.sample("%s: %d written, %d errors", at, len(x.writes), len(x.errs))
	}
	c.check(x.to != nil, "carries on", at, o, "the loop is left (%v)", o.status)
}

func init() {
	checks["C16"] = &checkDef{
		title: "one outcome for each item of a service loop",
		rule: "The loops of control.Stream, conn.NetConn, stream.NetStream and data.Stream are interpreted abstractly, brought to a fixed point with unknown collaborators (every call may fail). On each path through an iteration that takes in an item, " +
			"the deliveries, reports and writes are counted: exactly one, an error exactly where something failed (and then not nil), what is delivered or written made from that item, and the iteration must return to the head of the loop.",
		needs: map[string]int{"one outcome": 20, "carries on": 20, "decoded": 4, "written": 4},
		run: func(c *Ctx) {
			for _, v := range services {
				s := c.runService(v, false)
				for _, x := range s.iters {
					s.outcome(x)
				}
				c.end(s.r)
			}
		},
	}
	checks["C20"] = &checkDef{
		title: "closing ends the loop and closes each output once",
		rule: "In the loops of control.Stream, conn.NetConn, stream.NetStream, data.Stream, cmd.Manager, chunk.Parser and chunk.DefaultReader, each way through Close must give the close signal, and each path on which it is received must leave the function without taking in, delivering, reporting or writing anything further; " +
			"the output channels must each be closed exactly once on it, the parser must close its reader and every stream in its table, and its Close must wait for what the loop does last. What a loop counts in a WaitGroup must come to zero and never fall below it. No path may send on a channel that is closed, and every wait for work must also wait for the close signal.",
		needs: map[string]int{"told": 7, "listens": 7, "leaves": 7, "outputs": 4, "children": 2, "waits": 3},
		run: func(c *Ctx) {
			for _, v := range append(append([]service{}, services...), chunkParser, dispatcher) {
				args := [][]Val{nil}
				if v.typ == "Manager" {
					args = [][]Val{{TFalse}, {TTrue}}
				}
				for _, a := range args {
					v.args = a
					s := c.runService(v, v.typ != "Parser")
					s.closing()
					c.end(s.r)
				}
			}
			c.readerClosing()
		},
	}
	checks["C21"] = &checkDef{
		title: "the end of an input is not a message",
		rule: "The loops of control.Stream, conn.NetConn, stream.NetStream, data.Stream and cmd.Manager are interpreted abstractly with input channels that may end at any time. A path on which the input has ended must not panic, must not decode, deliver, dispatch, write or report anything, " +
			"and must return to the head of the loop, where the close signal is still listened to and the ended input no longer is.",
		needs: map[string]int{"ended": 5, "once": 5, "still closes": 5},
		run: func(c *Ctx) {
			for _, v := range append(append([]service{}, services...), dispatcher) {
				if v.typ == "Manager" {
					v.args = []Val{TFalse}
				}
				s := c.runService(v, true)
				n := 0
				for _, x := range s.iters {
					if len(x.ended) == 0 {
						continue
					}
					n++
					at := s.at(x)
					o := x.st
					if o.status == Panicked {
						c.fail("ended", at, o, "panics: %s", o.why)
						continue
					}
					c.check(len(x.items)+len(x.results)+len(x.errs)+len(x.others)+len(x.writes) == 0, "ended", at, o, "something is delivered, reported or written")
					for _, e := range x.calls {
						c.check(strings.HasSuffix(e.name, ".In"), "ended", at, o, "%s is called", e.name)
					}
					for _, e := range x.evs {
						if e.kind == "unmarshal" || e.kind == "amfdecode" || e.kind == "marshal" || e.kind == "close" {
							c.fail("ended", at, o, "something is decoded or closed")
						}
					}
					if c.check(x.to != nil || x.stop != nil, "ended", at, o, "the loop is left (%v)", o.status) && x.to != nil {
						// from where it goes on, the close signal is listened to
						ok, again := false, false
						for _, y := range s.iters {
							if y.from == x.to && y.stop != nil {
								ok = true
							}
							if y.from != x.to {
								continue
							}
							for _, e := range y.ended {
								again = again || e.ch == x.ended[0].ch
							}
						}
						c.check(!again, "once", at, o, "the end of the input is taken notice of again and again")
						c.check(ok, "still closes", at, o, "afterwards the loop does not listen to its close signal")
					}
					c.sample("%s: nothing happens", at)
				}
				c.check(n > 0, "ended", s.svc.name+" (input)", nil, "no input of the loop can end: none was found")
				s.listens("still closes")
				c.end(s.r)
			}
		},
	}
}

// listens: each wait for work is also a wait for the close signal.
func (s *svcRun) listens(rule string) {
	c := s.c
	for _, x := range s.iters {
		for _, e := range x.evs {
			if e.kind == "select" && !e.flag {
				// does not wait
				continue
			}
			if e.kind == "select" {
				ok := false
				for _, k := range e.cases {
					if k.ch == s.closer && !k.send {
						ok = true
					}
				}
				c.check(ok, rule, s.at(x), x.st, "it waits for work without listening to its close signal")
				break
			}
			if e.kind == "recv" || e.kind == "recv-end" || e.kind == "block" {
				if e.ch == s.closer && e.ch != nil {
					c.count(rule, true)
				} else {
					c.check(e.flag, rule, s.at(x), x.st, "it waits for work without listening to its close signal")
				}
				break
			}
		}
	}
}

// closing judges how a loop ends.
func (s *svcRun) closing() {
	c := s.c
	s.listens("listens")
	c.tells(s.r, s.st, s.recv, s.svc.name+".Close", s.closer, closedBy(s.outs))
	for _, x := range s.iters {
		at := s.at(x)
		if x.st.status == Panicked {
			c.fail("leaves", at, x.st, "panics: %s", x.st.why)
			continue
		}
		if x.to != nil {
			for _, e := range x.evs {
				if e.kind == "close" {
					c.fail("outputs", at, x.st, "a channel is closed although the loop goes on")
				}
			}
		}
		if x.stop == nil {
			continue
		}
		c.check(x.to == nil, "leaves", at, x.st, "the loop goes on after it was told to close")
	}
	var outputs []*Obj
	var names []string
	for i, o := range []*Obj{s.result, s.errs} {
		if o != nil && s.svc.closesOut {
			outputs = append(outputs, o)
			names = append(names, []string{s.svc.results, s.svc.errs}[i])
		}
	}
	n := 0
	for _, o := range s.outs {
		if o.status == Panicked {
			c.fail("leaves", s.svc.name+", at "+s.r.posOf(o.at), o, "panics: %s", o.why)
			continue
		}
		if o.status == Blocked {
			c.fail("leaves", s.svc.name, o, "waits for ever")
			continue
		}
		if o.status != Returned {
			continue
		}
		n++
		stop := -1
		for i, e := range o.evs {
			if (e.kind == "recv" || e.kind == "recv-end") && e.ch == s.closer {
				stop = i
				break
			}
			if v, ok := e.data.(*variant); ok && e.kind == "iter" && e.loop == s.inst && s.stopped[v] {
				stop = i
				break
			}
		}
		at := s.svc.name + ", closing"
		if !c.check(stop >= 0, "leaves", s.svc.name+", returning", o, "the loop is left although it was not told to close") {
			continue
		}
		closed := map[*Obj]int{}
		for i, e := range o.evs {
			if e.kind == "close" {
				closed[e.ch]++
			}
			if i <= stop {
				continue
			}
			switch e.kind {
			case "recv":
				c.check(s.inputs[e.ch] == "" && e.ch != s.send, "leaves", at, o, "another item is taken in")
			case "send":
				if e.ch == s.result || e.ch == s.errs {
					c.fail("leaves", at, o, "something is delivered or reported after the close signal")
				}
			case "call":
				if s.w.sym != nil && e.data == s.w.sym {
					c.fail("leaves", at, o, "something is written after the close signal")
				}
			}
		}
		c.count("leaves", true)
		for i, ch := range outputs {
			c.check(closed[ch] == 1, "outputs", at+" "+names[i], o, "the channel %s is closed %d times", names[i], closed[ch])
		}
		for _, e := range s.closeEv {
			if e.kind == "close" {
				c.check(closed[e.ch] == 0, "outputs", at, o, "Close and the loop both close the channel of the close signal")
			}
		}
		s.counted(o, at)
		if s.svc.typ == "Parser" {
			s.parserChildren(o, stop, at)
			s.waitedFor(o, at)
		}
	}
	c.check(n > 0, "leaves", s.svc.name+" (closing)", nil, "no path leaves the loop")
}

// counted: a loop that counts itself as running counts itself as ended once.
func (s *svcRun) counted(o *State, at string) {
	sums := map[Ptr]*Term{}
	for _, e := range o.evs {
		switch e.kind {
		case "wgadd":
			n, ok := e.args[1].(*Term)
			if !ok {
				n = Fresh("count", -1<<31, 1<<31)
			}
			if sums[e.ptr] == nil {
				sums[e.ptr] = TZero
			}
			sums[e.ptr] = Add(sums[e.ptr], n)
		case "wgdone":
			if sums[e.ptr] == nil {
				sums[e.ptr] = TZero
			}
			sums[e.ptr] = Sub(sums[e.ptr], TOne)
		default:
			continue
		}
		ok, dec := o.f.Decide(Le(TZero, sums[e.ptr]))
		s.c.check(ok && dec, "waits", at, o, "more ends are counted than beginnings: this panics")
	}
	for _, p := range sortedPtrs(sums) {
		s.c.check(o.f.Equal(sums[p], TZero), "waits", at, o, "after the loop has ended, %v are counted as running", sums[p])
	}
}

func sortedPtrs(m map[Ptr]*Term) []Ptr {
	var ps []Ptr
	for p := range m {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool { return fieldPath(ps[i]) < fieldPath(ps[j]) })
	return ps
}

// waitedFor: Close returns only after the loop has closed everything.
func (s *svcRun) waitedFor(o *State, at string) {
	c := s.c
	for _, x := range c.ended("waits", s.svc.name+".Close", s.r.callMethod(s.st.idle(), s.recv, "Close")) {
		told, waits := false, false
		for _, e := range x.evs {
			switch e.kind {
			case "send", "close", "go":
				told = told || e.ch == s.closer || e.kind == "go" && has(s.r.signals(x), s.closer)
			case "wgwait", "recv", "recv-end":
				if !told {
					continue
				}
				// what it waits for comes last, and has to come
				last, came, begun, busy := -1, -1, e.kind != "wgwait", false
				for i, d := range o.evs {
					switch d.kind {
					case "wgadd":
						// counted before it can be told to close
						begun = begun || d.ptr == e.ptr && !busy
					case "wgdone":
						if e.kind == "wgwait" && d.ptr == e.ptr && begun {
							came = i
						}
					case "recv", "select", "iter":
						busy = true
					case "close", "send", "call", "loop":
						if e.kind != "wgwait" && d.ch == e.ch {
							came = i
						} else {
							last = i
						}
					}
				}
				waits = waits || came > last && begun
			}
		}
		c.check(told, "waits", s.svc.name+".Close", x, "it does not tell the loop to close")
		c.check(waits, "waits", s.svc.name+".Close", o, "it returns although the loop may not have closed its channels")
	}
}

// stoppedHeads are the states at the head of a loop that are only reached
// after the close signal, and from which the loop is left at once.
func stoppedHeads(inst *LoopInst, told func(it *Iter) bool) map[*variant]bool {
	out := map[*variant]bool{}
	for _, v := range inst.variants[1:] {
		ok := true
		for _, it := range inst.iters {
			if it.to == v && !told(it) || it.from == v && (it.to != nil || len(it.evs) > 0) {
				ok = false
			}
		}
		if ok {
			out[v] = true
		}
	}
	return out
}

// parserChildren: the parser closes its reader and every stream it handed out.
func (s *svcRun) parserChildren(o *State, stop int, at string) {
	c := s.c
	n := 0
	for _, e := range o.evs[stop:] {
		if e.kind == "call" && strings.HasSuffix(e.name, ".Close") {
			n++
		}
	}
	c.check(n == 1, "children", at, o, "the reader is closed %d times", n)
	// the loop over the table closes the channel of each stream, once
	table := s.streams()
	found := 0
	for _, e := range o.evs[stop:] {
		if e.kind != "loop" {
			continue
		}
		l := e.loop
		over := false
		good := true
		why := ""
		for _, it := range l.iters {
			closes := 0
			var elem Val
			for _, e := range it.evs {
				switch e.kind {
				case "mapiter":
					if e.obj == table {
						over = true
						if len(e.args) > 1 {
							elem = e.args[1]
						}
					}
				case "close":
					closes++
					if p, ok := elem.(Ptr); !ok || !s.owns(it.st, p, e.ch) {
						good, why = false, "a channel is closed that is not the stream's"
					}
				}
			}
			if elem != nil && closes != 1 {
				good, why = false, fmt.Sprintf("the channel of a stream is closed %d times", closes)
			}
			if elem != nil && it.to == nil {
				good, why = false, "the loop over the streams is left early"
			}
		}
		if over {
			found++
			c.check(good, "children", at, o, "%s", why)
		}
	}
	c.check(found == 1, "children", at, o, "%d loops close the streams of the table", found)
}

// streams is the table of the parser.
func (s *svcRun) streams() *Obj {
	var found *Obj
	for _, o := range reachObjs(s.st, s.recv) {
		if m, ok := s.st.heap[o].(*MapC); ok {
			if _, ok := m.vt.Underlying().(*types.Pointer); ok {
				found = o
			} else if _, ok := m.vt.Underlying().(*types.Chan); ok {
				found = o
			}
		}
	}
	if found == nil {
		panic(s.svc.name + " has no table of streams")
	}
	return found
}

// owns reports that a channel is the one that a stream hands out.
func (s *svcRun) owns(st *State, p Ptr, ch *Obj) bool {
	v, _ := s.r.accessor(st, p, "In")
	cv, ok := v.(ChanV)
	return ok && cv.obj == ch
}

// readerClosing: the chunk reader.
func (c *Ctx) readerClosing() {
	rr := c.recv()
	for _, x := range rr.iters {
		if !x.closed {
			if x.st.status != Panicked {
				c.check(x.to != nil, "leaves", "chunk.DefaultReader, returning", x.st, "the loop is left although it was not told to close: whoever closes the reader then waits for ever")
			}
			continue
		}
		at := "chunk.DefaultReader, closing"
		c.check(x.to == nil, "leaves", at, x.st, "the loop goes on after it was told to close")
		after := false
		for _, e := range x.evs {
			switch {
			case e.kind == "recv" || e.kind == "recv-end":
				after = true
			case after && (e.kind == "send" || e.kind == "read" || e.kind == "header"):
				c.fail("leaves", at, x.st, "something is read, delivered or reported after the close signal")
			}
		}
		c.count("leaves", true)
	}
	// each iteration looks at the close signal before it reads
	closer := rr.closer()
	c.tells(rr.r, rr.st, rr.rd, "chunk.DefaultReader.Close", closer, closedBy(rr.outs))
	for _, x := range rr.iters {
		looked := false
		for _, e := range x.evs {
			if e.kind == "select" {
				for _, k := range e.cases {
					if k.ch == closer && !k.send && closer != nil {
						looked = true
					}
				}
			}
			if e.kind == "header" || e.kind == "read" {
				break
			}
		}
		c.check(looked, "listens", "chunk.DefaultReader, "+x.at(), x.st, "a chunk is read without looking at the close signal first")
	}
	c.end(rr.r)
}

// closer is the channel by which Close speaks to the loop.
func (rr *recvRun) closer() (closer *Obj) {
	for _, o := range rr.r.callMethod(rr.st.idle(), rr.rd, "Close") {
		for _, e := range rr.r.signals(o) {
			closer = e.ch
		}
	}
	return closer
}
