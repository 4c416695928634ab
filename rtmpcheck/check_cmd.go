package main

// The command packages: which service a chunk goes to (C25), what names and
// type ids are decoded into (C26), and audio and video frames (C27).

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- C25

// dest is what the protocol says about where a chunk goes.
type dest struct{ conn, stream, data bool }

// route follows a chunk's fields through the protocol's decision table.
func route(o *State, csid, msid, typ *Term, visit func(o *State, at string, d dest)) {
	each := func(o *State, t *Term, vals []int64, then func(o *State, v int64)) {
		for _, v := range vals {
			var y *State
			y, o = o.cases(EqT(t, Const(v)))
			if y != nil {
				then(y, v)
			}
			if o == nil {
				return
			}
		}
		then(o, -1)
	}
	show := func(v int64) string {
		if v < 0 {
			return "other"
		}
		return fmt.Sprint(v)
	}
	each(o, csid, []int64{3, 4, 8}, func(o *State, cs int64) {
		each(o, msid, []int64{0, 1}, func(o *State, ms int64) {
			each(o, typ, []int64{8, 9, 0x12, 0x14}, func(o *State, ty int64) {
				d := dest{
					conn:   cs == 3 || cs == 8 && ms == 0,
					stream: ty == 0x14 && (cs == 4 || cs == 8 && ms == 1),
					data:   cs == 4 && (ty == 8 || ty == 9 || ty == 0x12),
				}
				visit(o, fmt.Sprintf("chunk stream %s, message stream %s, type %s", show(cs), show(ms), show(ty)), d)
			})
		})
	})
}

// chunkFields are the fields of a chunk that routing looks at.
func (c *Ctx) chunkFields(o *State, v Val) (csid, msid, typ *Term) {
	ct := c.typ("chunk", "Chunk")
	p, ok := v.(Ptr)
	if !ok || p.obj == nil {
		return nil, nil, nil
	}
	cv := o.load(p, ct)
	return o.num(cv, ct, "Header", "BasicHeader", "StreamId"), o.num(cv, ct, "Header", "MessageHeader", "StreamId"), o.num(cv, ct, "Header", "MessageHeader", "TypeId")
}

// inputOf finds the channel of chunks of a service.
func (c *Ctx) inputOf(s *svcRun, method string) *Obj {
	v, _ := s.r.accessor(s.st, s.recv, method)
	var found *Obj
	for _, o := range reachObjs(s.st, v) {
		cc, ok := s.st.heap[o].(ChanC)
		if !ok {
			continue
		}
		if p, ok := cc.elem.(*types.Pointer); ok && typeName(p) == "Chunk" {
			if found != nil && found != o {
				return nil
			}
			found = o
		}
	}
	return found
}

func runC25(c *Ctx) {
	v := dispatcher
	v.args = []Val{TFalse}
	s := c.runService(v, false)
	names := []string{"NetConn", "NetStream", "DataStream"}
	in := map[*Obj]string{}
	for _, n := range names {
		o := c.inputOf(s, n)
		if !c.check(o != nil && in[o] == "", "routed", "cmd.Manager, "+n, nil, "the service has no input of its own") {
			continue
		}
		in[o] = n
	}
	for _, x := range s.iters {
		if len(x.items) == 0 {
			c.check(len(x.others) == 0, "routed", s.at(x), x.st, "something is passed on without a chunk")
			continue
		}
		if x.st.status == Panicked {
			c.fail("routed", s.at(x), x.st, "panics: %s", x.st.why)
			continue
		}
		item := x.items[0]
		csid, msid, typ := c.chunkFields(x.st, item.val)
		if csid == nil || msid == nil || typ == nil {
			c.fail("routed", s.at(x), x.st, "the chunk is %s", showVal(item.val))
			continue
		}
		got := map[string]int{}
		for _, e := range x.others {
			n := in[e.ch]
			c.check(n != "", "routed", s.at(x), x.st, "a chunk is sent to %s, which is no service", e.ch)
			c.check(x.st.sameVal(e.val, item.val), "routed", s.at(x), x.st, "%s is passed on instead of the chunk", showVal(e.val))
			got[n]++
		}
		route(x.st, csid, msid, typ, func(o *State, at string, d dest) {
			for i, want := range []bool{d.conn, d.stream, d.data} {
				n := names[i]
				k := got[n]
				if want && x.stop != nil && k == 0 {
					// told to close while the service was busy
					continue
				}
				w := 0
				if want {
					w = 1
				}
				c.check(k == w, "routed", at+", "+n, o, "the service gets the chunk %d times, expected %d", k, w)
			}
			c.sample("%s: %v", at, got)
		})
	}
	c.end(s.r)
	c.gates()
}

// gates: the conditions and their combinations, on their own.
func (c *Ctx) gates() {
	for _, g := range []struct {
		typ, field string
		path       int
	}{{"StreamIdGate", "StreamId", 0}, {"MessageStreamGate", "StreamId", 1}, {"TypeIdGate", "TypeId", 2}} {
		r := c.newRun()
		st := r.withInits()
		t := c.typ("cmd", g.typ)
		p := st.inputObj(t, "gate")
		ch, _ := c.chunkArg(st, "chunk")
		at := "cmd." + g.typ + ".Open"
		want := st.num(st.content(p.obj), t, g.field)
		a, b, d := c.chunkFields(st, ch)
		is := []*Term{a, b, d}[g.path]
		n := 0
		for _, o := range c.ended("condition", at, r.callMethod(st, p, "Open", ch)) {
			n++
			c.same("condition", at, o, o.ret, EqT(is, want))
		}
		c.check(n > 0, "condition", at, nil, "no outcome")
		c.end(r)
	}
	for _, g := range []struct {
		ctor string
		all  bool
	}{{"NewUnionGate", true}, {"NewAnyGate", false}} {
		for n := 0; n <= 6; n++ {
			r := c.newRun()
			st := r.withInits()
			gt := c.typ("cmd", "Gate")
			open := map[*SymObj]*Term{}
			var parts []Val
			var conds []*Term
			for i := 0; i < n; i++ {
				y := r.newSym(fmt.Sprintf("part %d", i), "", gt)
				open[y] = FreshBool(fmt.Sprintf("open%d", i))
				conds = append(conds, open[y])
				parts = append(parts, IfaceV{sym: y})
			}
			r.symCall = func(st *State, recv *SymObj, method string, sig *types.Signature, args []Val) ([]Out, bool) {
				if t, ok := open[recv]; ok && method == "Open" {
					return []Out{{st, t}}, true
				}
				return nil, false
			}
			ch, _ := c.chunkArg(st, "chunk")
			at := fmt.Sprintf("cmd.%s of %d parts", g.ctor, n)
			k := 0
			for _, s := range c.ended("combination", at, r.call(st, c.fn("cmd", g.ctor), st.listOf(gt, parts))) {
				gate := s.ret
				s.status = 0
				for _, o := range c.ended("combination", at, r.callMethod(s, gate, "Open", ch)) {
					// fold over the parts
					var fold func(o *State, i int, acc bool)
					fold = func(o *State, i int, acc bool) {
						if i == len(conds) {
							k++
							if n == 0 {
								acc = false
							}
							c.same("combination", at, o, o.ret, Bool(acc))
							return
						}
						y, no := o.cases(conds[i])
						if y != nil {
							fold(y, i+1, acc || !g.all)
						}
						if no != nil {
							fold(no, i+1, acc && !g.all)
						}
					}
					fold(o, 0, g.all)
				}
			}
			c.check(k > 0, "combination", at, nil, "no outcome")
			c.end(r)
		}
	}
}

// same checks that a boolean result agrees with a condition on all its cases.
func (c *Ctx) same(rule, at string, o *State, got Val, want *Term) {
	g, ok := got.(*Term)
	if !c.check(ok, rule, at, o, "the result is %s", showVal(got)) {
		return
	}
	y, n := o.cases(want)
	for i, s := range []*State{y, n} {
		if s == nil {
			continue
		}
		v, known := s.f.Decide(g)
		c.check(known && v == (i == 0), rule, at, s, "it is %v where the condition is %v", g, i == 0)
	}
}

// listOf makes a slice of known values.
func (st *State) listOf(elem types.Type, vals []Val) SliceV {
	if len(vals) == 0 {
		return SliceV{off: TZero, len: TZero, cap: TZero}
	}
	n := Const(int64(len(vals)))
	o := st.alloc(types.NewArray(elem, int64(len(vals))), "list", ArrV{elems: vals, elem: elem})
	return SliceV{base: Ptr{obj: o}, off: TZero, len: n, cap: n}
}

// ---------------------------------------------------------------- C26

// kind is what a name or type id is decoded into.
type kind struct {
	name string
	id   int64
	typ  string
	set  []string // pointers that decoding fills in
}

var connKinds = []kind{
	{"connect", 0, "ConnectCommand", []string{"Metadata"}},
	{"createStream", 0, "CreateStreamCommand", []string{"Metadata"}},
	{"releaseStream", 0, "ReleaseCommand", nil},
	{"FCPublish", 0, "FCPublishCommand", nil},
	{"getStreamLength", 0, "GetStreamLength", nil},
}

var streamKinds = []kind{
	{"play", 0, "CommandPlay", nil},
	{"play2", 0, "CommandPlay2", nil},
	{"deleteStream", 0, "CommandDeleteStream", nil},
	{"receiveAudio", 0, "CommandReceiveAudio", nil},
	{"receiveVideo", 0, "CommandReceiveVideo", nil},
	{"publish", 0, "CommandPublish", nil},
	{"seek", 0, "CommandSeek", nil},
	{"pause", 0, "CommandPause", nil},
}

var dataKinds = []kind{
	{"audio", 8, "Audio", nil},
	{"video", 9, "Video", nil},
	{"data frame", 0x12, "DataFrame", []string{"Arguments"}},
}

// global is the value of a package's variable.
func (c *Ctx) global(st *State, rel, name string) Val {
	p := c.w.pkg(rel)
	if p == nil {
		panic(fmt.Sprintf("there is no package %s %v", rel, c.w.loadErrs))
	}
	g, ok := p.Members[name].(*ssa.Global)
	if !ok {
		panic("there is no variable " + rel + "." + name)
	}
	o := st.r.globalObj(g)
	return st.content(o)
}

// parserCase is one parser of the library.
type parserCase struct {
	pkg   string
	kinds []kind
	args  func(st *State) []Val
	// the condition under which a message is of a kind
	is func(o *State, k kind) *Term
}

// recognised judges the default parser of a package, and the parser that its
// service is made with if that is another one.
func (c *Ctx) recognised(pc parserCase) {
	r := c.newRun()
	st := r.withInits()
	parser := c.global(st, pc.pkg, "DefaultParser")
	c.recognises(pc, r, st, parser, pc.pkg+".DefaultParser")
	c.end(r)
	for _, v := range services {
		if v.pkg != pc.pkg {
			continue
		}
		s := &svcRun{c: c, svc: v, r: c.newRun(), inputs: map[*Obj]string{}, memo: map[string]Val{}}
		st := s.r.withInits()
		def, _ := c.global(st, pc.pkg, "DefaultParser").(IfaceV)
		if def.typ == nil {
			def.v = c.global(st, pc.pkg, "DefaultParser")
		}
		parsers, _ := c.typ(pc.pkg, "Parser").Underlying().(*types.Interface)
		for _, o := range c.ended("kind", v.name+", new", s.r.call(st, c.fn(v.pkg, v.ctor), v.ctorArgs(s, st)...)) {
			for _, p := range reachObjs(o, o.ret) {
				t := types.NewPointer(p.typ)
				if namedOf(p.typ) == "" || !types.Implements(t, parsers) {
					continue
				}
				if q, ok := def.v.(Ptr); ok && q.obj == p {
					c.count("kind", true)
					continue
				}
				c.recognises(pc, s.r, o.idle(), IfaceV{typ: t, v: Ptr{obj: p}}, v.name+", its parser")
			}
		}
		c.end(s.r)
	}
}

// ownParser: a data stream uses the parser that it has been given.
func (c *Ctx) ownParser() {
	for _, v := range services {
		if v.pkg != "cmd/data" {
			continue
		}
		var given *SymObj
		s := c.runPrepared(v, false, func(s *svcRun, st *State) *State {
			p := s.sym(v.pkg, "Parser", "own parser")
			given = p.sym
			_, o := s.r.accessor(st, s.recv, "SetParser", p)
			return o
		})
		for _, x := range s.iters {
			if len(x.items) != 1 || s.inputs[x.items[0].ch] == "" || x.stop != nil {
				continue
			}
			n := 0
			for _, e := range x.calls {
				if e.data == given && strings.HasSuffix(e.name, ".Parse") && len(e.args) == 1 && x.st.sameVal(e.args[0], x.items[0].val) {
					n++
				}
			}
			c.check(n == 1, "own parser", s.at(x), x.st, "the parser that it was given decodes the message %d times", n)
		}
		c.end(s.r)
	}
}

func (c *Ctx) recognises(pc parserCase, r *Run, st *State, parser Val, name string) {
	args := pc.args(st)
	known := map[*Obj]bool{}
	for o := range st.heap {
		known[o] = true
	}
	seen := map[string]int{}
	for _, o := range c.ended("kind", name, r.callMethod(st, parser, "Parse", args...)) {
		// which kind is it?
		rest := o
		for _, k := range pc.kinds {
			cond := pc.is(rest, k)
			if cond == nil {
				break
			}
			var y *State
			y, rest = rest.cases(cond)
			if y != nil {
				c.decodedKind(name, y, &k, known, seen)
			}
			if rest == nil {
				break
			}
		}
		if rest != nil {
			c.decodedKind(name, rest, nil, known, seen)
		}
	}
	for _, k := range pc.kinds {
		c.check(seen[k.name] > 0, "kind", name+", "+k.name, nil, "it is never decoded")
	}
	c.check(seen["unknown"] > 0, "unknown", name, nil, "no outcome for what is unknown")
	c.check(seen["failed"] > 0, "failed body", name, nil, "no outcome for a body that fails to decode")
}

func (c *Ctx) decodedKind(name string, o *State, k *kind, known map[*Obj]bool, seen map[string]int) {
	at := name + ", unknown"
	if k != nil {
		at = name + ", " + k.name
	}
	var cause *Event
	for _, e := range o.evs {
		if ioFailure(e) && cause == nil {
			cause = e
		}
	}
	if cause != nil {
		seen["failed"]++
		t, ok := o.ret.(TupleV)
		if !c.check(ok && len(t) == 2, "failed body", at, o, "the result is %s", showVal(o.ret)) {
			return
		}
		c.check(o.sameVal(t[1], cause.val), "failed body", at, o, "a failed decoding ends in %s", showVal(t[1]))
		nl, ok := o.isNil(t[0])
		c.check(ok && nl, "failed body", at, o, "an object is returned although decoding fails")
		return
	}
	t, ok := o.ret.(TupleV)
	if !c.check(ok && len(t) == 2, "kind", at, o, "the result is %s", showVal(o.ret)) {
		return
	}
	nl, ok := o.isNil(t[1])
	if k == nil {
		seen["unknown"]++
		c.check(ok && !nl, "unknown", at, o, "it is not refused: %s", showVal(o.ret))
		nl, ok = o.isNil(t[0])
		c.check(ok && nl, "unknown", at, o, "an object is returned")
		c.sample("%s: %s", at, showVal(t[1]))
		return
	}
	if k.typ == "Audio" || k.typ == "Video" {
		// empty frames are an error (C27)
		if ok && !nl {
			return
		}
	}
	if !c.check(ok && nl, "kind", at, o, "it is refused: %s", showVal(t[1])) {
		return
	}
	p, iv := resultObj(o.ret)
	if !c.check(p.obj != nil && iv.typ != nil && typeName(iv.typ) == k.typ, "kind", at, o, "it is decoded into %s, expected %s", showVal(t[0]), k.typ) {
		return
	}
	seen[k.name]++
	c.check(!known[p.obj] && !p.obj.pooled, "fresh", at, o, "it is decoded into an object that existed before")
	// decoded from its body, once, by the time it is returned
	n := 0
	for _, e := range o.evs {
		if e.kind != "unmarshal" || !e.flag {
			continue
		}
		v, _ := e.val.(IfaceV)
		if q, ok := v.v.(Ptr); !ok || q.obj != p.obj {
			continue
		}
		n++
		for _, f := range k.set {
			fv, _ := o.fieldAt(e.data, iv.typ.Underlying().(*types.Pointer).Elem(), f)
			nl, ok := o.isNil(fv)
			c.check(ok && !nl, "set up", at+", "+f, o, "it is %s when the body is decoded into it", showVal(fv))
			if q, ok := fv.(Ptr); ok && q.obj != nil {
				c.check(!known[q.obj], "fresh", at+", "+f, o, "it existed before")
			}
		}
	}
	if k.typ != "Audio" && k.typ != "Video" {
		c.check(n == 1, "body", at, o, "the body is decoded into it %d times", n)
	}
	c.sample("%s: %s", at, iv.typ)
}

func runC26(c *Ctx) {
	c.ownParser()
	// connection commands: the name is passed in
	{
		var str Val
		c.recognised(parserCase{pkg: "cmd/conn", kinds: connKinds,
			args: func(st *State) []Val {
				t := st.r.extType("github.com/WatchBeam/amf0", "String")
				p := st.inputObj(t, "name")
				str = st.content(p.obj)
				return []Val{p, st.buffer(seqRange(NewSrc("body"), TZero, Fresh("n", 0, 1<<24)))}
			},
			is: func(o *State, k kind) *Term { return o.eqTerm(str, Str{seqConst(k.name)}) },
		})
	}
	// stream commands: the name is what is decoded first
	c.recognised(parserCase{pkg: "cmd/stream", kinds: streamKinds,
		args: func(st *State) []Val {
			return []Val{st.buffer(seqRange(NewSrc("message"), TZero, Fresh("n", 0, 1<<24)))}
		},
		is: func(o *State, k kind) *Term {
			for _, e := range o.evs {
				if e.kind != "unmarshal" || !e.flag {
					continue
				}
				v, _ := e.val.(IfaceV)
				p, ok := v.v.(Ptr)
				if !ok || v.typ == nil {
					return nil
				}
				t := v.typ.Underlying().(*types.Pointer).Elem()
				fv, _ := o.fieldAt(o.load(p, t), t, "Name")
				if _, ok := fv.(Str); !ok {
					return nil
				}
				return o.eqTerm(fv, Str{seqConst(k.name)})
			}
			return nil
		},
	})
	// data: by type id
	{
		var id *Term
		c.recognised(parserCase{pkg: "cmd/data", kinds: dataKinds,
			args: func(st *State) []Val {
				id = Fresh("type", 0, 255)
				m := c.message(st, "message", id, seqRange(NewSrc("payload"), TZero, Fresh("n", 0, 1<<24)))
				return []Val{m}
			},
			is: func(o *State, k kind) *Term { return EqT(id, Const(k.id)) },
		})
	}
}

// ---------------------------------------------------------------- C27

// flvConst is a constant of the library for what FLV defines.
type flvConst struct {
	name string
	val  int64
}

var flvConsts = []flvConst{
	{"UncompressedAudioCodec", 0}, {"ADPCMAudioCodec", 1}, {"MP3AudioCodec", 2}, {"UncompressedLittleEndianAudioCodec", 3},
	{"Nellymoser16AudioCodec", 4}, {"Nellymoser8AudioCodec", 5}, {"NellymoserAudioCodec", 6}, {"G711AAudioCodec", 7}, {"G711UAudioCodec", 8},
	{"HE_AACAudioCodec", 10}, {"SPEEXAudioCodec", 11},
	{"MonoAudioType", 0}, {"StereoAudioType", 1},
	{"SorensenH263VideoCodec", 2}, {"ScreenVideoVideoCodec", 3}, {"On2VP6VideoCodec", 4}, {"On2VP6AlphaVideoCodec", 5}, {"ScreenVideo2VideoCodec", 6}, {"H264VideoCodec", 7},
	{"KeyframeVideoType", 1}, {"InterframeVideoType", 2}, {"DisposableInterframeVideoType", 3}, {"GeneratedKeyFrameVideoType", 4}, {"CommandFrameVideoType", 5},
}

func runC27(c *Ctx) {
	for _, k := range []string{"Audio", "Video"} {
		c.verbatim(k)
		c.bits(k)
	}
	c.constants("cmd/data", "FLV", flvConsts)
}

// constants: named constants have the values of a specification.
func (c *Ctx) constants(pkg, spec string, want []flvConst) {
	p := c.w.pkg(pkg)
	for _, k := range want {
		m, ok := p.Members[k.name].(*ssa.NamedConst)
		if !c.check(ok, "constant", k.name, nil, "there is no such constant") {
			continue
		}
		v, _ := constant.Int64Val(m.Value.Value)
		at := k.name
		if v != k.val {
			at = fmt.Sprintf("%s = %d", k.name, v)
		}
		c.check(v == k.val, "constant", at, nil, "%s has %d", spec, k.val)
	}
}

// verbatim: what is read from a message is what is sent again.
func (c *Ctx) verbatim(kind string) {
	for _, empty := range []bool{false, true} {
		r := c.newRun()
		st := r.withInits()
		t := c.typ("cmd/data", kind)
		ht := c.typ("chunk", "Header")
		d := st.inputObj(t, "frame")
		src, n := NewSrc("payload"), Fresh("n", 1, 1<<24)
		at := "data." + kind + ".Read"
		if empty {
			n = TZero
			at += ", empty"
		}
		q := seqRange(src, TZero, n)
		ch, hd := c.chunkArg(st, "message")
		st.setField(ch, c.typ("chunk", "Chunk"), st.bytesArg("payload", q), "Data")
		head := st.content(hd.obj)
		good := 0
		for _, o := range c.ended("verbatim", at, r.callMethod(st, d, "Read", ch)) {
			nl, ok := c.nilErr("verbatim", at, o)
			if empty {
				c.check(ok && !nl, "empty", at, o, "an empty frame is accepted")
				continue
			}
			if !c.check(ok && nl, "verbatim", at, o, "a frame is refused") {
				continue
			}
			o.status = 0
			for _, s := range c.ended("verbatim", "data."+kind+".Control", r.callMethod(o.fork(), d, "Control")) {
				v, _ := s.ret.(*Term)
				c.check(v != nil && s.f.Equal(v, sel(src, TZero)), "control", "data."+kind+".Control", s, "it is %s", showVal(s.ret))
			}
			for _, s := range c.ended("verbatim", "data."+kind+".Payload", r.callMethod(o.fork(), d, "Payload")) {
				v, _ := s.ret.(SliceV)
				rest, ok := s.f.sub(q, Const(1), n)
				c.check(ok && s.f.SeqEqual(s.sliceSeq(v), rest), "data", "data."+kind+".Payload", s, "it is %v", s.sliceSeq(v))
			}
			at := "data." + kind + ".Marshal"
			for _, s := range c.ended("verbatim", at, r.callMethod(o.fork(), d, "Marshal")) {
				if nl, ok := c.nilErr("verbatim", at, s); !c.check(ok && nl, "verbatim", at, s, "it fails") {
					continue
				}
				good++
				p, _ := resultObj(s.ret)
				if !c.check(p.obj != nil, "verbatim", at, s, "the message is %s", showVal(s.ret)) {
					continue
				}
				ct := c.typ("chunk", "Chunk")
				cv := s.load(p, ct)
				hv, _ := s.fieldAt(cv, ct, "Header")
				hp, _ := hv.(Ptr)
				c.check(hp.obj != nil && s.sameVal(s.load(hp, ht), head), "verbatim", at+", header", s, "it is %s", showVal(hv))
				dv, _ := s.fieldAt(cv, ct, "Data")
				sl, _ := dv.(SliceV)
				c.check(s.f.SeqEqual(s.sliceSeq(sl), q), "verbatim", at+", payload", s, "it is %v", s.sliceSeq(sl))
				c.sample("%s: %v", at, s.sliceSeq(sl))
			}
		}
		c.check(empty || good > 0, "verbatim", at, nil, "no outcome")
		c.end(r)
	}
	// the type id
	r := c.newRun()
	st := r.withInits()
	id := map[string]int64{"Audio": 8, "Video": 9}[kind]
	for _, o := range c.ended("type id", "data."+kind+".Id", r.callMethod(st, st.inputObj(c.typ("cmd/data", kind), "frame"), "Id")) {
		v, _ := o.ret.(*Term)
		c.check(v != nil && o.f.Equal(v, Const(id)), "type id", "data."+kind+".Id", o, "it is %s, the protocol has %d", showVal(o.ret), id)
	}
	c.end(r)
}

// bits: what the control byte says, for each of its values.
func (c *Ctx) bits(kind string) {
	r := c.newRun()
	t := c.typ("cmd/data", kind)
	for b := int64(0); b < 256; b++ {
		st := r.withInits()
		d := st.inputObj(t, "frame")
		ch, _ := c.chunkArg(st, "message")
		q := seqCat(seqBytes(Const(b)), seqRange(NewSrc("payload"), TZero, Fresh("n", 0, 1<<24)))
		st.setField(ch, c.typ("chunk", "Chunk"), st.bytesArg("payload", q), "Data")
		for _, o := range r.callMethod(st, d, "Read", ch) {
			if o.status != Returned {
				continue
			}
			o.status = 0
			num := func(method string, want int64, what string) {
				for _, s := range c.ended("bits", "data."+kind+"."+method, r.callMethod(o.fork(), d, method)) {
					v, _ := s.ret.(*Term)
					got, ok := s.f.Range(asTerm(s.ret)).single()
					at := fmt.Sprintf("data.%s.%s, %s", kind, method, what)
					if v != nil && ok && got != want {
						at += fmt.Sprintf(", gives %d", got)
					}
					c.check(v != nil && ok && got == want, "bits", at, s, "it is %s, FLV has %d", showVal(s.ret), want)
				}
			}
			if kind == "Audio" {
				num("Codec", b>>4, fmt.Sprintf("format %d", b>>4))
				num("Type", b&1, fmt.Sprintf("type bit %d", b&1))
				num("Size", 8<<uint(b>>1&1), fmt.Sprintf("size bit %d", b>>1&1))
				x := b >> 2 & 3
				want := []float64{5.5, 11, 22, 44}[x]
				for _, s := range c.ended("bits", "data.Audio.Rate", r.callMethod(o.fork(), d, "Rate")) {
					v, ok := floatOf(asTerm(s.ret))
					at := fmt.Sprintf("data.Audio.Rate, rate bits %d", x)
					if ok && v != want {
						at += fmt.Sprintf(", gives %v", v)
					}
					c.check(ok && v == want, "bits", at, s, "it is %s, FLV has %v", showVal(s.ret), want)
				}
			} else {
				num("Codec", b&15, fmt.Sprintf("codec %d", b&15))
				num("Type", b>>4, fmt.Sprintf("frame type %d", b>>4))
			}
		}
	}
	c.end(r)
}

func init() {
	checks["C25"] = &checkDef{run: runC25, title: "routing of incoming chunks",
		rule: "An arbitrary iteration of Manager.Dispatch is interpreted abstractly on a chunk with symbolic header fields. On every path, for every row of the protocol's decision table (chunk stream 3, 4, 8 or other; message stream 0, 1 or other; type 8, 9, 0x12, 0x14 or other) that the path's facts allow, the chunk itself must have been sent, once, to exactly the services of that row (found by the channel that each service owns). " +
			"Each simple gate must be open exactly where its field has its value, and combinations of 0 to 3 unknown gates exactly where the combination holds.",
		needs: map[string]int{"routed": 150, "condition": 6, "combination": 20}}
	checks["C26"] = &checkDef{run: runC26, title: "kinds of commands and data",
		rule:  "Parse of the three default parsers (and of any other that a service is made with) is interpreted abstractly with a symbolic name or type id and body. Each outcome is split by the known names or ids; it must be an error and no object for any other one, the decoder's own error where decoding has failed, and otherwise an object of the kind of that name, allocated by this call, into which the body has been decoded once while the pointers that decoding fills in were not nil. The loop of a data stream that has been given an unknown parser must hand each message to that one.",
		needs: map[string]int{"kind": 32, "fresh": 16, "unknown": 6, "failed body": 20, "set up": 3, "body": 14, "own parser": 2}}
	checks["C27"] = &checkDef{run: runC27, title: "audio and video frames",
		rule:  "Read, Control, Payload, Marshal and Id of audio and video frames are interpreted abstractly for a payload of symbolic content and length (1 or more; and 0, which must be an error): header and bytes must come out as they went in. Codec, Type, Rate and Size are evaluated for each value of the control byte, with any payload behind it, and compared with the FLV specification, as are the library's constants.",
		needs: map[string]int{"verbatim": 8, "empty": 2, "control": 2, "data": 2, "type id": 2, "bits": 1500, "constant": 24}}
}
