package main

// The client's wiring (C30) and the server's accept loop (C29).

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- C30

// newClient makes a client of an unknown connection.
func (c *Ctx) newClient(rule string) (r *Run, st *State, conn IfaceV) {
	r = c.newRun()
	st = r.withInits()
	conn = ioConn(r, "conn")
	st.input(conn.sym)
	news := c.ended(rule, "client.New", r.call(st, c.fn("client", "New"), conn))
	if !c.check(len(news) == 1, rule, "client.New", st, "%d outcomes", len(news)) {
		return r, nil, conn
	}
	return r, news[0], conn
}

// reachable finds the objects of a type that a value holds.
func (c *Ctx) reachable(st *State, v Val, rel, name string) []Ptr {
	t := c.typ(rel, name)
	var out []Ptr
	for _, o := range reachObjs(st, v) {
		if o.typ != nil && types.Identical(o.typ, t) {
			out = append(out, Ptr{obj: o})
		}
	}
	return out
}

// activity runs a loop and gathers what it does, on all paths.
func (c *Ctx) activity(r *Run, st *State, recv Val, method string, args ...Val) (evs []*Event) {
	nl := len(r.loops)
	seen := map[*Event]bool{}
	take := func(es []*Event) {
		for _, e := range es {
			if !seen[e] {
				seen[e] = true
				evs = append(evs, e)
			}
		}
	}
	for _, o := range r.callMethod(st.idle(), recv, method, args...) {
		take(o.evs)
	}
	for _, l := range r.loops[nl:] {
		for _, it := range l.iters {
			take(it.evs)
		}
	}
	return evs
}

func isChunkChan(o *Obj, st *State) bool {
	if o == nil {
		return false
	}
	t, ok := o.typ.(*types.Chan)
	if !ok {
		cc, is := st.heap[o].(ChanC)
		if !is {
			return false
		}
		return typeName(cc.elem) == "Chunk"
	}
	return typeName(t.Elem()) == "Chunk"
}

// reads lists the channels from which a loop takes chunks.
func chunkInputs(st *State, evs []*Event) map[*Obj]bool {
	in := map[*Obj]bool{}
	for _, e := range evs {
		if e.kind == "recv" && isChunkChan(e.ch, st) {
			in[e.ch] = true
		}
	}
	return in
}

// onlyConn judges that all reading and writing is done on the connection.
func (c *Ctx) onlyConn(at string, st *State, conn IfaceV, evs []*Event, reads, writes bool) {
	nr, nw := 0, 0
	for _, e := range evs {
		switch e.kind {
		case "header":
			// read from the connection, see interceptHeaderRead
			nr++
		case "send-message":
			nw++
		case "read":
			if e.obj == nil {
				continue
			}
			if e.obj == conn.sym.obj {
				nr++
				continue
			}
			if e.obj.sym {
				c.fail("connection", at, st, "it reads from %s", e.obj)
			}
		case "write":
			s, ok := e.data.(*SymObj)
			if !ok {
				continue
			}
			if s == conn.sym {
				nw++
				continue
			}
			c.fail("connection", at, st, "it writes to %s", s.name)
		}
	}
	if reads {
		c.check(nr > 0, "connection", at, st, "nothing is read from the connection")
	}
	if writes {
		c.check(nw > 0, "connection", at, st, "nothing is written to the connection")
	}
}

func runC30(c *Ctx) {
	r, st, conn := c.newClient("wired")
	if st == nil {
		return
	}
	cl := st.ret
	made := st.evs
	at := "client.New"
	if ct := c.typ("client", "Client"); fieldIndex(ct, "Conn") >= 0 {
		v, _ := st.fieldAt(cl, types.NewPointer(ct), "Conn")
		c.check(v != nil && st.sameVal(v, conn), "connection", at+", Conn", st, "the client's connection is %s", showVal(v))
	}
	for _, e := range made {
		if e.kind == "read" && e.obj == conn.sym.obj || e.kind == "write" && e.data == conn.sym {
			c.fail("order", at, st, "it uses the connection before the handshake")
		}
	}
	// the parts
	ps := c.reachable(st, cl, "chunk", "Parser")
	if !c.check(len(ps) == 1, "wired", at, st, "the client holds %d chunk parsers", len(ps)) {
		return
	}
	parser := ps[0]
	controls, _ := r.accessor(st, cl, "Controls")
	net, _ := r.accessor(st, cl, "Net")
	held := func(v Val, what string) bool {
		p, ok := v.(Ptr)
		if ok && p.obj != nil {
			for _, o := range reachObjs(st, cl) {
				if o == p.obj {
					return c.check(true, "wired", at+", "+what, st, "")
				}
			}
		}
		return c.check(false, "wired", at+", "+what, st, "the accessor returns %s, which is no part of the client", showVal(v))
	}
	if !held(controls, "Controls") || !held(net, "Net") {
		return
	}
	// where the messages of a chunk stream end up
	var feeds []*feeder
	for _, e := range made {
		if e.kind == "go" {
			if f := c.feeder(r, st, e, "wired", at); f != nil {
				feeds = append(feeds, f)
			}
		}
	}
	end := func(ch *Obj) *Obj {
		for i := 0; i < 4; i++ {
			var next *Obj
			n := 0
			for _, f := range feeds {
				if f.from == ch {
					next = f.to
					n++
				}
			}
			if n != 1 {
				break
			}
			ch = next
		}
		return ch
	}
	streamOf := func(id int64) *Obj {
		s := st.idle()
		for _, o := range r.callMethod(s, parser, "Stream", s.listArg("ids", types.Typ[types.Uint32], Const(id))) {
			if tv, ok := o.ret.(TupleV); ok && o.status == Returned && len(tv) == 2 {
				if nl, ok := o.isNil(tv[1]); ok && nl {
					ch := r.chanOf(o, tv[0], "In")
					if _, before := st.heap[ch]; ch != nil && before {
						return end(ch)
					}
				}
			}
		}
		return nil
	}
	// what the services write goes through writers, which are judged once
	wt := types.NewPointer(c.typ("chunk", "DefaultWriter"))
	writeFn := c.method(wt, "Write")
	writers := map[*Obj]bool{}
	r.intercept = func(s *State, fn *ssa.Function, args []Val) ([]Out, bool) {
		if fn != writeFn || len(args) != 2 {
			return nil, false
		}
		p, ok := args[0].(Ptr)
		if !ok || p.obj == nil || p.path != "" {
			return nil, false
		}
		if _, before := st.heap[p.obj]; !before {
			return nil, false
		}
		writers[p.obj] = true
		s.ev("send-message").ptr = p
		return s.symResults(fn.Signature, "Write"), true
	}
	ctl := c.activity(r, st, controls, "Recv")
	ctlIn := chunkInputs(st, ctl)
	c.onlyConn("client, control stream", st, conn, ctl, false, true)
	dis := c.activity(r, st, net, "Dispatch", TFalse)
	netIn := chunkInputs(st, dis)
	c.check(len(ctlIn) == 1, "wired", at+", control stream", st, "it takes chunks from %d channels", len(ctlIn))
	c.check(len(netIn) == 1, "wired", at+", command services", st, "they take chunks from %d channels", len(netIn))
	for _, id := range []int64{2, 3, 4, 5, 8} {
		ch := streamOf(id)
		where := fmt.Sprintf("%s, chunk stream %d", at, id)
		if !c.check(ch != nil, "wired", where, st, "nobody takes its messages") {
			continue
		}
		c.check(ctlIn[ch] == (id == 2), "wired", where, st, "its messages go to the control service: %v", ctlIn[ch])
		c.check(netIn[ch] == (id != 2), "wired", where, st, "its messages go to the command services: %v", netIn[ch])
		c.sample("chunk stream %d: %s", id, ch)
	}
	for ch := range ctlIn {
		n := 0
		for _, f := range feeds {
			if end(f.to) == ch {
				n++
			}
		}
		c.check(n == 0, "wired", at+", control stream", st, "%d more streams feed it", n)
	}
	for ch := range netIn {
		n := 0
		for _, f := range feeds {
			if end(f.to) == ch {
				n++
			}
		}
		c.check(n == 4, "wired", at+", command services", st, "%d streams feed them", n)
	}
	// the services write to the connection
	for _, s := range []struct{ acc, loop string }{{"NetConn", "Listen"}, {"NetStream", "Listen"}, {"DataStream", "Recv"}} {
		v, _ := r.accessor(st, net, s.acc)
		if v == nil {
			c.fail("wired", at+", "+s.acc, st, "there is no such service")
			continue
		}
		c.onlyConn("client, "+s.acc, st, conn, c.activity(r, st, v, s.loop), false, true)
	}
	r.intercept = nil
	for _, w := range sortedObjs(writers) {
		s := st.idle()
		ch, _ := c.chunkArg(s, "message")
		c.onlyConn("client, writer", st, conn, c.activity(r, s, Ptr{obj: w}, "Write", ch), false, true)
	}
	// the reader reads from it
	r.intercept = c.interceptHeaderRead(conn)
	rds := c.reachable(st, parser, "chunk", "DefaultReader")
	if c.check(len(rds) == 1, "wired", at, st, "the parser holds %d readers", len(rds)) {
		c.onlyConn("client, reader", st, conn, c.activity(r, st, rds[0], "Recv"), true, false)
		v, _ := r.accessor(st, rds[0], "ReadSize")
		t, _ := v.(*Term)
		c.check(t != nil && st.f.Equal(t, Const(128)), "chunk size", "client.New, reading", st, "messages are taken to come in chunks of %s bytes; peers begin with 128", showVal(v))
	}
	r.intercept = nil
	for _, w := range c.reachable(st, cl, "chunk", "DefaultWriter") {
		v, _ := r.accessor(st, w, "WriteSize")
		t, _ := v.(*Term)
		n := "unknown"
		if t != nil {
			n = fmt.Sprint(t)
		}
		c.check(t != nil && st.f.Equal(t, Const(128)), "chunk size", "client.New, writing in chunks of "+n, st, "messages are written in chunks of %s bytes before the peer is told so; peers begin with 128", n)
	}
	c.end(r)
	c.clientHandshake()
}

// clientHandshake: reading starts after a successful handshake, and only then.
func (c *Ctx) clientHandshake() {
	r, st, conn := c.newClient("order")
	if st == nil {
		return
	}
	cl := st.ret
	ps := c.reachable(st, cl, "chunk", "Parser")
	ref := map[string]bool{}
	for _, o := range c.handshake(st.idle(), "order", conn) {
		if nl, ok := o.isNil(errOf(o.ret)); ok && nl {
			ref[showTrace(ioTrace(o, conn.sym))] = true
		}
	}
	at := "Client.Handshake"
	good, bad := 0, 0
	outs := c.ended("order", at, r.callMethod(st.idle(), cl, "Handshake"))
	c.accepts(outs, conn, at, 0)
	for _, o := range outs {
		nl, ok := c.nilErr("order", at, o)
		if !ok {
			continue
		}
		var gos []*Event
		other, after := false, false
		for _, e := range o.evs {
			switch e.kind {
			case "go":
				gos = append(gos, e)
			case "send", "recv", "close":
				other = true
			case "read", "write":
				after = after || len(gos) > 0 && (e.obj == conn.sym.obj || e.data == conn.sym)
			}
		}
		c.check(!other, "order", at, o, "it uses channels")
		if !nl {
			bad++
			c.check(len(gos) == 0, "order", at+" (failure)", o, "%d goroutines are started although the handshake failed", len(gos))
			if o.failed() {
				c.stopsAtFailure("order", at+" (failure)", o)
			}
			continue
		}
		good++
		tr := showTrace(ioTrace(o, conn.sym))
		c.check(ref[tr], "order", at, o, "on the connection it does %q before chunks are read, which is no successful handshake", tr)
		c.check(!after, "order", at, o, "chunks may be read before the handshake is over")
		if !c.check(len(gos) == 1, "order", at, o, "%d goroutines are started", len(gos)) {
			continue
		}
		// it is the chunk parser's loop
		nl2 := len(r.loops)
		evs := map[*Event]bool{}
		outs := r.runGo(o, gos[0])
		started := false
		seen := func(es []*Event) {
			for _, e := range es {
				evs[e] = true
			}
		}
		for _, x := range outs {
			seen(x.evs)
		}
		for _, l := range r.loops[nl2:] {
			for _, it := range l.iters {
				seen(it.evs)
			}
		}
		var from *Obj
		if len(ps) == 1 {
			for _, rd := range c.reachable(o, ps[0], "chunk", "DefaultReader") {
				from = r.chanOf(o, rd, "Chunks")
			}
		}
		for e := range evs {
			if e.kind == "recv" && e.ch == from && from != nil {
				started = true
			}
		}
		c.check(started, "order", at, o, "what is started does not take chunks from the client's reader")
		c.sample("%s: %s, then reads chunks", at, tr)
	}
	c.check(good > 0 && bad > 0, "order", at, nil, "%d successful and %d failing outcomes", good, bad)
	c.end(r)
}

// ---------------------------------------------------------------- C29

func runC29(c *Ctx) {
	r := c.newRun()
	st := r.withInits()
	addr := Str{seqRange(NewSrc("address"), TZero, Fresh("n", 0, 1<<10))}
	var good []*State
	nbad := 0
	at := "server.New"
	for _, o := range c.ended("listens", at, r.call(st, c.fn("server", "New"), addr)) {
		tv, ok := o.ret.(TupleV)
		if !ok || len(tv) != 2 {
			c.fail("listens", at, o, "returns %s", showVal(o.ret))
			continue
		}
		nl, ok := o.isNil(tv[1])
		if !c.check(ok, "listens", at, o, "whether it fails is not known") {
			continue
		}
		c.check(nl == !o.failed(), "listens", at, o, "its error does not tell whether listening failed")
		if !nl {
			nbad++
			continue
		}
		n := 0
		for _, e := range o.evs {
			if e.kind == "call" && strings.HasSuffix(e.name, "Listen") && len(e.args) > 0 {
				n++
				if net, is := e.args[0].(Str); is && len(e.args) > 1 {
					c.check(o.f.SeqEqual(net.s, seqConst("tcp")), "listens", at, o, "it listens on the network %s", shortVals(e.args...))
				}
				a, is := e.args[len(e.args)-1].(Str)
				c.check(is && o.f.SeqEqual(a.s, addr.s), "listens", at, o, "it listens on %s", shortVals(e.args...))
			}
		}
		c.check(n == 1, "listens", at, o, "it listens %d times", n)
		o.ret = tv[0]
		good = append(good, o)
	}
	if !c.check(len(good) == 1 && nbad > 0, "listens", at, st, "%d successful and %d failing outcomes", len(good), nbad) {
		return
	}
	st = good[0]
	srv := st.ret
	st.evs = nil
	clients, errs := r.chanOf(st, srv, "Clients"), r.chanOf(st, srv, "Errs")
	if !c.check(clients != nil && errs != nil && clients != errs, "listens", at, st, "there are no two channels for clients and errors") {
		return
	}
	var socket *SymObj
	// closing
	for _, o := range c.ended("closed", "Server.Close", r.callMethod(st.idle(), srv, "Close")) {
		n := 0
		for _, e := range o.evs {
			if s, ok := e.data.(*SymObj); ok && e.kind == "call" && strings.HasSuffix(e.name, ".Close") {
				n++
				socket = s
			}
			if e.kind == "close" || e.kind == "send" {
				c.check(e.ch != clients && e.ch != errs, "closed", "Server.Close", o, "it sends on or closes a channel on which the accept loop may be about to send")
			}
		}
		c.check(n == 1, "closed", "Server.Close", o, "the listener is closed %d times", n)
		nl, ok := o.isNil(errOf(o.ret))
		c.check(ok && nl == !o.failed(), "closed", "Server.Close", o, "the outcome of closing is not reported")
	}
	if socket == nil {
		return
	}
	// accepting
	outs := r.callMethod(st.idle(), srv, "Accept")
	for _, o := range outs {
		if o.status == Panicked {
			c.fail("one outcome", "Server.Accept", o, "panics: %s", o.why)
		}
	}
	var inst *LoopInst
	for _, l := range r.loops {
		if inst != nil && l.depth >= inst.depth {
			continue
		}
		for _, it := range l.iters {
			for _, e := range it.evs {
				if e.kind == "call" && e.data == socket && strings.HasSuffix(e.name, ".Accept") {
					inst = l
				}
			}
		}
	}
	if !c.check(inst != nil, "one outcome", "Server.Accept", st, "it has no loop that accepts connections") {
		return
	}
	ct := c.typ("client", "Client")
	nGood, nErr, nClosed := 0, 0, 0
	for _, it := range inst.iters {
		o := it.st
		var acc, sends []*Event
		var failed *Event
		for _, e := range it.evs {
			switch e.kind {
			case "call":
				if e.data == socket {
					acc = append(acc, e)
				}
			case "fail":
				if e.data == socket && failed == nil {
					failed = e
				}
			case "send", "close":
				sends = append(sends, e)
			}
		}
		at := "Server.Accept"
		if o.status == Panicked {
			c.fail("one outcome", at, o, "panics: %s", o.why)
			continue
		}
		if !c.check(len(acc) == 1 && strings.HasSuffix(acc[0].name, ".Accept"), "one outcome", at, o, "%d operations of the listener in one round", len(acc)) {
			continue
		}
		if failed == nil {
			at += ", connection"
			nGood++
			if !c.check(len(sends) == 1 && sends[0].kind == "send" && sends[0].ch == clients, "one outcome", at, o, "a connection leads to %d messages, one client expected", len(sends)) {
				continue
			}
			c.check(!sends[0].flag, "one outcome", at, o, "the client may be dropped")
			c.check(it.to != nil, "one outcome", at, o, "it stops accepting after a connection")
			cn := acc[0].val
			if tv, ok := cn.(TupleV); ok && len(tv) > 0 {
				cn = tv[0]
			}
			v := sends[0].val
			p, ok := v.(Ptr)
			if !c.check(ok && p.obj != nil, "one outcome", at, o, "what is delivered is %s", showVal(v)) {
				continue
			}
			_, before := it.head.heap[p.obj]
			c.check(!before, "one outcome", at, o, "the client is not a new one")
			got, _ := o.fieldAt(v, types.NewPointer(ct), "Conn")
			iv, ok := got.(IfaceV)
			cv, ok2 := cn.(IfaceV)
			c.check(ok && ok2 && iv.sym != nil && iv.sym == cv.sym, "one outcome", at, o, "the client's connection is %s, accepted was %s", showVal(got), showVal(cn))
			c.check(!failsAfter(it.evs, acc[0]), "one outcome", at, o, "something else fails")
			continue
		}
		// closed?
		closed, ok := c.netClosed(o, failed.val)
		if !c.check(ok, "closed", at+", error", o, "package net is not used") {
			continue
		}
		y, n := o.cases(closed)
		if y != nil {
			nClosed++
			at := at + ", closed"
			c.check(it.to == nil, "closed", at, y, "it goes on after the listener has been closed")
			c.check(len(sends) == 0, "closed", at, y, "something is reported when the listener is closed: %d", len(sends))
		}
		if n != nil {
			nErr++
			at := at + ", error"
			if c.check(len(sends) == 1 && sends[0].kind == "send" && sends[0].ch == errs, "one outcome", at, n, "a failed accept leads to %d messages, one error expected", len(sends)) {
				c.check(!sends[0].flag, "one outcome", at, n, "the error may be dropped")
				c.check(n.sameVal(sends[0].val, failed.val), "one outcome", at, n, "what is reported is %s", showVal(sends[0].val))
			}
			c.check(it.to != nil, "one outcome", at, n, "it stops accepting after an error")
		}
	}
	for _, o := range outs {
		c.check(o.status == Returned, "closed", "Server.Accept", o, "it ends with %v", o.status)
		for i := len(o.evs) - 1; i >= 0 && o.evs[i].kind != "loop"; i-- {
			if o.evs[i].kind == "send" {
				c.fail("closed", "Server.Accept", o, "something is reported at the end")
			}
		}
	}
	c.check(nGood > 0 && nErr > 0 && nClosed > 0, "one outcome", "Server.Accept", st, "%d connections, %d errors and %d ends", nGood, nErr, nClosed)
	c.sample("Server.Accept: %d ways with a connection, %d with an error, %d when closed", nGood, nErr, nClosed)
	c.end(r)
}

// failsAfter reports failures after an event.
func failsAfter(evs []*Event, e *Event) bool {
	on := false
	for _, x := range evs {
		if x == e {
			on = true
		} else if on && x.kind == "fail" {
			return true
		}
	}
	return false
}

func init() {
	checks["C30"] = &checkDef{run: runC30, title: "client wiring",
		rule: "client.New is interpreted abstractly for an unknown connection, and then, on what it has built: the parser's table of streams and the goroutines that combine them (which channel the messages of chunk streams 2, 3, 4, 5 and 8 end up in), the loops of all services (which channel they take chunks from, what they write to), the reader's loop (what it reads) and Client.Handshake. " +
			"On every path, chunk stream 2 ends at the control service and 3, 4, 5 and 8 at the dispatcher; every read and write is one of the connection; the parser's loop is started exactly when the handshake has succeeded, after its last byte; the chunk sizes are the protocol's 128.",
		needs: map[string]int{"wired": 15, "connection": 6, "chunk size": 2, "order": 10}}
	checks["C29"] = &checkDef{run: runC29, title: "accept loop",
		rule: "server.New, Close and an arbitrary iteration of the accept loop are interpreted abstractly for an unknown listener. " +
			"An accepted connection must be sent on as one new client of exactly that connection, an error other than net.ErrClosed must be sent once on the channel of errors, both in an unconditional send after which the loop goes on; where the error is net.ErrClosed the loop ends without sending.",
		needs: map[string]int{"listens": 4, "one outcome": 6, "closed": 4}}
}

// netClosed is the condition under which an error says that the listener has
// been closed.
func (c *Ctx) netClosed(o *State, err Val) (*Term, bool) {
	outs := modelErrorsIs(o, nil, []Val{err, o.globalVal("net", "ErrClosed")})
	if len(outs) != 1 {
		return nil, false
	}
	t, ok := outs[0].val.(*Term)
	return t, ok
}

func sortedObjs(m map[*Obj]bool) (out []*Obj) {
	for o := range m {
		out = append(out, o)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}
