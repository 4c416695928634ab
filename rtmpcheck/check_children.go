package main

// C34: the dispatcher manages its services.

import "fmt"

var children = []struct{ accessor, loop string }{
	{"NetConn", "Listen"}, {"NetStream", "Listen"}, {"DataStream", "Recv"},
}

func init() {
	checks["C34"] = &checkDef{run: runC34, title: "the dispatcher manages its services",
		rule: "Manager.Dispatch is interpreted abstractly with and without managing. The goroutines that it starts are interpreted too and recognised by the channel from which they take chunks; the services are told to close where something is sent on the channel on which their Close sends. " +
			"On every path through a managing dispatcher each of the three services is started exactly once before the first wait and told to close exactly once, after the dispatcher was told to; on every path through one that does not manage, none is.",
		needs: map[string]int{"started": 6, "stopped": 6, "left alone": 2}}
}

func runC34(c *Ctx) {
	for _, manage := range []bool{true, false} {
		v := dispatcher
		v.args = []Val{Bool(manage)}
		s := c.runService(v, true)
		r := s.r
		type child struct {
			name   string
			in     map[*Obj]bool
			closer *Obj
		}
		var kids []child
		for _, k := range children {
			p, _ := r.accessor(s.st, s.recv, k.accessor)
			if p == nil {
				panic("Manager has no " + k.accessor)
			}
			kid := child{name: k.accessor, in: chunkInputs(s.st, c.activity(r, s.st, p, k.loop))}
			for _, o := range r.callMethod(s.st.idle(), p, "Close") {
				for _, e := range o.evs {
					if e.kind == "send" || e.kind == "close" {
						kid.closer = e.ch
					}
				}
			}
			if !c.check(len(kid.in) == 1 && kid.closer != nil, "started", k.accessor, s.st, "its loop takes chunks from %d channels, and Close speaks to it over %v", len(kid.in), kid.closer) {
				return
			}
			kids = append(kids, kid)
		}
		// whom a goroutine serves
		who := func(st *State, e *Event) string {
			nl := len(r.loops)
			var evs []*Event
			for _, o := range r.runGo(st, e) {
				evs = append(evs, o.evs...)
			}
			for _, l := range r.loops[nl:] {
				for _, it := range l.iters {
					evs = append(evs, it.evs...)
				}
			}
			for _, e := range evs {
				if e.kind != "recv" && e.kind != "recv-end" {
					continue
				}
				for _, k := range kids {
					if k.in[e.ch] {
						return k.name
					}
				}
			}
			return ""
		}
		// in the loop nothing is started or stopped
		for _, x := range s.iters {
			n := 0
			for _, e := range x.evs {
				if e.kind == "go" {
					n++
				}
				for _, k := range kids {
					if x.stop == nil && (e.kind == "send" || e.kind == "close") && e.ch == k.closer {
						n++
					}
				}
			}
			c.check(n == 0, "left alone", s.at(x), x.st, "services are started or closed on the way")
		}
		for _, o := range s.outs {
			if o.status != Returned {
				continue
			}
			at := fmt.Sprintf("Manager.Dispatch(%v)", manage)
			started, stopped := map[string]int{}, map[string]int{}
			looping, told := false, false
			for _, e := range o.evs {
				switch e.kind {
				case "loop", "iter", "recv", "select":
					looping = true
					told = told || e.kind == "recv" && e.ch == s.closer || e.loop == s.inst
				case "go":
					k := who(o, e)
					started[k]++
					c.check(!looping, "started", at, o, "%s is started late", k)
				case "send", "close":
					for _, k := range kids {
						if e.ch == k.closer {
							stopped[k.name]++
							c.check(told, "stopped", at, o, "%s is closed although the dispatcher was not told to close", k.name)
						}
					}
				}
			}
			want := 0
			if manage {
				want = 1
			}
			for _, k := range kids {
				c.check(started[k.name] == want, "started", at+", "+k.name, o, "it is started %d times", started[k.name])
				c.check(stopped[k.name] == want, "stopped", at+", "+k.name, o, "it is told to close %d times", stopped[k.name])
			}
			c.sample("%s: starts %v, closes %v", at, started, stopped)
		}
		c.end(r)
	}
}
