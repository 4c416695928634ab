package main

// Messages stay as they are: nobody who handles a message changes it.

import (
	"go/types"
)

// constantRun watches the messages that are met on the way.
type constantRun struct {
	c      *Ctx
	ct, ht string
}

// outside are the parts of the messages that come from elsewhere.
func (k *constantRun) outside(st *State) map[*Obj]string {
	out := map[*Obj]string{}
	part := func(v Val) {
		switch x := v.(type) {
		case Ptr:
			if x.obj != nil && namedOf(x.obj.typ) == k.ht && !x.obj.fresh {
				out[x.obj] = "header"
			}
		case SliceV:
			if x.base.obj != nil && (!x.base.obj.fresh || x.base.obj.site == nil) {
				out[x.base.obj] = "payload"
			}
		}
	}
	for o, v := range st.heap {
		if namedOf(o.typ) != k.ct || o.fresh {
			continue
		}
		out[o] = "message"
		for _, x := range []Val{o.init, v} {
			if s, ok := x.(StructV); ok {
				for _, f := range s {
					part(f)
				}
			}
		}
	}
	return out
}

func (k *constantRun) judge(at string, st *State, evs []*Event, more map[*Obj]string) (n int) {
	msgs := k.outside(st)
	for o, what := range more {
		msgs[o] = what
	}
	n = len(msgs)
	for _, e := range evs {
		if e.kind != "bytewrite" && !(e.flag && (e.kind == "access" || e.kind == "append")) {
			continue
		}
		what := msgs[e.obj]
		for _, o := range e.sent {
			if o == e.obj && what == "" {
				what = "message that it has sent before"
			}
		}
		switch {
		case what == "":
		case e.kind == "access":
			k.c.fail("left alone", at, st, "%s changes the %s: %s is written at %s", at, what, e.ptr, st.r.posOf(e.pos))
		default:
			k.c.fail("left alone", at, st, "%s changes the %s: it is written at %s", at, what, st.r.posOf(e.pos))
		}
	}
	return
}

func (k *constantRun) run(at string, r *Run, outs []*State, more map[*Obj]string) {
	n := 0
	for _, o := range outs {
		n += k.judge(at, o, o.evs, more)
		for _, e := range o.evs {
			if e.kind == "go" && e.data == nil {
				for _, g := range r.runGo(o.idle(), e) {
					n += k.judge(at, g, g.evs, more)
				}
			}
		}
	}
	for _, l := range r.loops {
		for _, it := range l.iters {
			n += k.judge(at, it.st, it.evs, more)
		}
	}
	if n > 0 {
		k.c.count("left alone", true)
		k.c.sample("%s: nothing of a message is written", at)
	}
	k.c.end(r)
}

func runC37(c *Ctx) {
	c.access, c.freeze = true, true
	k := &constantRun{c: c, ct: namedOf(c.typ("chunk", "Chunk")), ht: namedOf(c.typ("chunk", "Header"))}
	parts := map[string]bool{k.ct: true, k.ht: true}
	for _, n := range []string{"BasicHeader", "MessageHeader", "ExtendedTimestamp"} {
		parts[namedOf(c.typ("chunk", n))] = true
	}
	norm, _ := c.typ("chunk", "Normalizer").Underlying().(*types.Interface)
	spawned := c.spawned()
	for _, f := range c.w.modFuncs() {
		obj, _ := f.Object().(*types.Func)
		if obj == nil || !obj.Exported() || f.Parent() != nil || f.Blocks == nil {
			continue
		}
		recv := f.Signature.Recv()
		if recv != nil && parts[namedOf(recv.Type())] && f.Name() == "Read" {
			continue // fills it in
		}
		if recv != nil && f.Name() == "Normalize" && types.Implements(recv.Type(), norm) {
			continue // completes it: C04
		}
		x := c.runOpOn(operation{f, shortFn(f), spawned[f.Name()], true}, func(st *State) Val {
			if recv == nil || parts[namedOf(recv.Type())] {
				return nil
			}
			return c.maker(st, recv.Type())
		})
		more := map[*Obj]string{}
		for i, a := range x.args {
			p, ok := a.(Ptr)
			if !ok || p.obj == nil || !parts[namedOf(p.obj.typ)] {
				continue
			}
			more[p.obj] = "header"
			if i == 0 && recv != nil {
				more[p.obj] = typeName(p.obj.typ)
			}
		}
		// a frame holds the header and the payload that it was read from
		if recv != nil && f.Pkg.Pkg.Path() != modPath+"/chunk" && len(x.args) > 0 {
			for _, o := range x.outs {
				for _, p := range reachObjs(o, x.args[0]) {
					switch {
					case p.fresh:
					case namedOf(p.typ) == k.ht:
						more[p] = "header of the message that it was read from"
					case isByteArray(p.typ) && namedOf(recv.Type()) != "" && len(f.Params) == 1:
						more[p] = "payload of the message that it was read from"
					}
				}
			}
		}
		k.run(x.op.name, x.r, x.outs, more)
	}
	// writing, for the other forms of headers
	for format := int64(0); format < 4; format++ {
		for i, cl := range csidClasses {
			if format == 0 && i == 0 {
				continue
			}
			w := c.writeMessage(format, cl, i == 0)
			k.run("chunk.DefaultWriter.Write", w.r, w.outs, nil)
		}
	}
}

func init() {
	checks["C37"] = &checkDef{run: runC37,
		title: "messages stay as they are",
		rule: "left alone: every exported operation and loop is interpreted abstractly on unknown messages (what it is given, what a channel delivers, what a header method is called on), " +
			"and every write to memory on every path and in every loop iteration is compared with the objects that these messages consist of: the message, its header, the array of its payload, and those of messages sent earlier on the path. There must be none, not even one that is undone later.",
		needs: map[string]int{"left alone": 30}}
}
