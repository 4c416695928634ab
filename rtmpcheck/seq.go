package main

// Byte sequences: concatenations of explicit bytes and of ranges of unknown
// sources (the input stream, a payload), with symbolic offsets and lengths.

import (
	"fmt"
	"strings"
)

type Src struct {
	id   int
	name string
	// arr is set for the concatenation of the elements of an unknown
	// list of byte slices.
	arr *SymArr
	// tag and pos describe a sequence that a property has recognised.
	tag string
	pos *Term
	top bool
}

var srcSeq int

func NewSrc(name string) *Src {
	srcSeq++
	return &Src{id: srcSeq, name: fmt.Sprintf("%s.%d", name, srcSeq)}
}

type Seg struct {
	bytes []*Term // explicit
	src   *Src    // range of src; nil with n set: zeros
	off   *Term
	n     *Term
}

func (s Seg) explicit() bool { return s.n == nil }

type Seq []Seg

func seqBytes(bs ...*Term) Seq {
	if len(bs) == 0 {
		return nil
	}
	return Seq{{bytes: bs}}
}

func seqConst(s string) Seq {
	bs := make([]*Term, len(s))
	for i := range bs {
		bs[i] = Const(int64(s[i]))
	}
	return seqBytes(bs...)
}

func seqRange(src *Src, off, n *Term) Seq {
	if n.isConst() && n.c == 0 {
		return nil
	}
	return Seq{{src: src, off: off, n: n}}
}

func seqZeros(n *Term) Seq {
	if n.isConst() {
		if n.c <= 0 {
			return nil
		}
		if n.c <= 64 {
			bs := make([]*Term, n.c)
			for i := range bs {
				bs[i] = TZero
			}
			return seqBytes(bs...)
		}
	}
	return Seq{{n: n}}
}

func (s Seg) len() *Term {
	if s.explicit() {
		return Const(int64(len(s.bytes)))
	}
	return s.n
}

func (s Seq) Len() *Term {
	t := TZero
	for _, g := range s {
		t = Add(t, g.len())
	}
	return t
}

func sel(src *Src, off *Term) *Term {
	srcByID[fmt.Sprintf("sel%d", src.id)] = src
	return App(fmt.Sprintf("sel%d", src.id), 0, 255, off)
}

var srcByID = map[string]*Src{}

// selOf recognises a byte of a source.
func selOf(t *Term) (string, *Term, bool) {
	if t.k == KApp && strings.HasPrefix(t.name, "sel") {
		return t.name, t.args[0], true
	}
	return "", nil, false
}

func (s Seg) at(i *Term) *Term {
	if s.src == nil {
		return TZero
	}
	return sel(s.src, Add(s.off, i))
}

func seqCat(parts ...Seq) Seq {
	var out Seq
	for _, p := range parts {
		for _, g := range p {
			if g.explicit() && len(g.bytes) == 0 {
				continue
			}
			if n := len(out); n > 0 && g.explicit() && out[n-1].explicit() {
				bs := append(append([]*Term(nil), out[n-1].bytes...), g.bytes...)
				out[n-1] = Seg{bytes: bs}
				continue
			}
			out = append(out, g)
		}
	}
	return out
}

// canon coalesces adjacent ranges and explicit bytes of one source, and drops
// empty segments.
func (f *Facts) canon(s Seq) Seq {
	var out Seq
	push := func(g Seg) {
		if !g.explicit() {
			if v, ok := f.Range(g.n).single(); ok && v == 0 {
				return
			}
		}
		n := len(out)
		if n > 0 && !g.explicit() && !out[n-1].explicit() && out[n-1].src == g.src {
			l := out[n-1]
			if g.src == nil {
				out[n-1].n = Add(l.n, g.n)
				return
			}
			if f.Equal(Add(l.off, l.n), g.off) {
				out[n-1] = Seg{src: l.src, off: l.off, n: f.normPrefix(Add(l.n, g.n))}
				return
			}
		}
		if n > 0 && g.explicit() && out[n-1].explicit() {
			out[n-1] = Seg{bytes: append(append([]*Term(nil), out[n-1].bytes...), g.bytes...)}
			return
		}
		if !g.explicit() && g.src != nil && g.src.arr != nil {
			g.off, g.n = f.normPrefix(g.off), f.normPrefix(g.n)
		}
		out = append(out, g)
	}
	for _, g := range s {
		if !g.explicit() {
			push(g)
			continue
		}
		for _, b := range g.bytes {
			if name, off, ok := selOf(b); ok && srcByID[name] != nil {
				push(Seg{src: srcByID[name], off: off, n: TOne})
			} else if b.isConst() && b.c == 0 {
				push(Seg{n: TOne})
			} else {
				push(Seg{bytes: []*Term{b}})
			}
		}
	}
	return out
}

// SeqEqual reports that two sequences are known to be equal.
func (f *Facts) SeqEqual(a, b Seq) bool {
	x, y := f.canon(a), f.canon(b)
	if f.seqEqual(x, y) {
		return true
	}
	ex, ch1 := f.expandLists(x)
	ey, ch2 := f.expandLists(y)
	return (ch1 || ch2) && f.seqEqual(f.canon(ex), f.canon(ey))
}

// expandLists replaces the concatenation of all elements of an extended list
// by what it consists of.
func (f *Facts) expandLists(s Seq) (Seq, bool) {
	var out Seq
	ch := false
	for _, g := range s {
		if !g.explicit() && g.src != nil && g.src.arr != nil && g.src.arr.parent != nil &&
			f.Equal(g.off, TZero) && f.Equal(g.n, g.src.arr.total()) {
			out = seqCat(out, g.src.arr.whole())
			ch = true
			continue
		}
		out = append(out, g)
	}
	return out, ch
}

func (f *Facts) seqEqual(x, y Seq) bool {
	for len(x) > 0 && len(y) > 0 {
		p, q := x[0], y[0]
		switch {
		case p.explicit() && q.explicit():
			n := min(len(p.bytes), len(q.bytes))
			for i := 0; i < n; i++ {
				if !f.Equal(p.bytes[i], q.bytes[i]) {
					return false
				}
			}
			x, y = dropBytes(x, n), dropBytes(y, n)
		case !p.explicit() && !q.explicit():
			if p.src == q.src && (p.src == nil || f.Equal(p.off, q.off)) && f.Equal(p.n, q.n) {
				x, y = x[1:], y[1:]
				continue
			}
			// common constant-length prefix
			pn, ok1 := f.Range(p.n).single()
			qn, ok2 := f.Range(q.n).single()
			switch {
			case ok1 && pn <= 64:
				x = expandHead(x, pn)
			case ok2 && qn <= 64:
				y = expandHead(y, qn)
			case ok1 && ok2 && p.src == q.src && (p.src == nil || f.Equal(p.off, q.off)):
				m := min(pn, qn)
				x, y = dropRange(x, m), dropRange(y, m)
			default:
				return false
			}
		case p.explicit():
			if v, ok := f.Range(q.n).single(); ok {
				y = expandHeadN(y, v, int64(len(p.bytes)))
			} else {
				return false
			}
		default:
			if v, ok := f.Range(p.n).single(); ok {
				x = expandHeadN(x, v, int64(len(q.bytes)))
			} else {
				return false
			}
		}
	}
	return len(x) == 0 && len(y) == 0
}

func dropRange(s Seq, m int64) Seq {
	g := s[0]
	n := AddC(g.n, -m)
	if n.isConst() && n.c == 0 {
		return s[1:]
	}
	h := Seg{src: g.src, n: n}
	if g.src != nil {
		h.off = AddC(g.off, m)
	}
	return append(Seq{h}, s[1:]...)
}

func dropBytes(s Seq, n int) Seq {
	if n == len(s[0].bytes) {
		return s[1:]
	}
	return append(Seq{{bytes: s[0].bytes[n:]}}, s[1:]...)
}

func expandHead(s Seq, n int64) Seq { return expandHeadN(s, n, n) }

func expandHeadN(s Seq, total, n int64) Seq {
	if n > total {
		n = total
	}
	bs := make([]*Term, n)
	for i := range bs {
		bs[i] = s[0].at(Const(int64(i)))
	}
	out := Seq{{bytes: bs}}
	if n < total {
		h := Seg{src: s[0].src, n: Const(total - n)}
		if s[0].src != nil {
			h.off = AddC(s[0].off, n)
		}
		out = append(out, h)
	}
	return append(out, s[1:]...)
}

// split cuts s at position p. It fails if the position cannot be located.
func (f *Facts) split(s Seq, p *Term) (Seq, Seq, bool) {
	if f.Equal(p, TZero) {
		return nil, s, true
	}
	pos := TZero
	for i, g := range s {
		end := Add(pos, g.len())
		if f.Equal(p, end) {
			return s[: i+1 : i+1], s[i+1:], true
		}
		in, ok := f.Decide(Lt(p, end))
		if !ok {
			in, ok = f.Decide(Le(p, end))
		}
		if !ok {
			// p might lie in this segment or behind it; if this is the
			// last segment it must lie in it
			if i < len(s)-1 {
				return nil, nil, false
			}
			in = true
		}
		if in {
			if lo, ok := f.Decide(Lt(p, pos)); !ok || lo {
				if !f.Equal(p, pos) {
					return nil, nil, false
				}
			}
			k := Sub(p, pos)
			if g.explicit() {
				kc, ok := f.Range(k).single()
				if !ok {
					return nil, nil, false
				}
				return append(append(Seq{}, s[:i]...), Seg{bytes: g.bytes[:kc]}),
					append(Seq{{bytes: g.bytes[kc:]}}, s[i+1:]...), true
			}
			a, b := Seg{src: g.src, n: k}, Seg{src: g.src, n: Sub(g.n, k)}
			if g.src != nil {
				a.off, b.off = g.off, Add(g.off, k)
			}
			return append(append(Seq{}, s[:i]...), a), append(Seq{b}, s[i+1:]...), true
		}
		pos = end
	}
	return nil, nil, false
}

// sub returns s[lo:hi].
func (f *Facts) sub(s Seq, lo, hi *Term) (Seq, bool) {
	if f.Equal(lo, hi) {
		return nil, true
	}
	a, _, ok := f.split(s, hi)
	if !ok {
		// try from the front first
		_, b, ok := f.split(s, lo)
		if !ok {
			return nil, false
		}
		c, _, ok := f.split(b, Sub(hi, lo))
		return c, ok
	}
	_, b, ok := f.split(a, lo)
	return b, ok
}

func (f *Facts) byteAt(s Seq, i *Term) (*Term, bool) {
	b, ok := f.sub(s, i, AddC(i, 1))
	if !ok {
		return nil, false
	}
	b = f.dropEmpty(b)
	if len(b) != 1 {
		return nil, false
	}
	if b[0].explicit() {
		if len(b[0].bytes) != 1 {
			return nil, false
		}
		return b[0].bytes[0], true
	}
	return b[0].at(TZero), true
}

func (f *Facts) dropEmpty(s Seq) Seq {
	var out Seq
	for _, g := range s {
		if g.explicit() && len(g.bytes) == 0 {
			continue
		}
		if !g.explicit() {
			if v, ok := f.Range(g.n).single(); ok && v == 0 {
				continue
			}
		}
		out = append(out, g)
	}
	return out
}

func (s Seq) String() string {
	if len(s) == 0 {
		return "[]"
	}
	var ps []string
	for _, g := range s {
		switch {
		case g.explicit():
			var bs []string
			for i, b := range g.bytes {
				if i > 24 {
					bs = append(bs, "…")
					break
				}
				bs = append(bs, b.String())
			}
			ps = append(ps, "["+strings.Join(bs, " ")+"]")
		case g.src == nil:
			ps = append(ps, fmt.Sprintf("zeros(%v)", g.n))
		default:
			ps = append(ps, fmt.Sprintf("%s[%v:+%v]", g.src.name, g.off, g.n))
		}
	}
	return strings.Join(ps, "++")
}

// constString returns the text of a sequence of constant bytes.
func (s Seq) constString() (string, bool) {
	var sb strings.Builder
	for _, g := range s {
		if !g.explicit() {
			return "", false
		}
		for _, b := range g.bytes {
			if !b.isConst() {
				return "", false
			}
			sb.WriteByte(byte(b.c))
		}
	}
	return sb.String(), true
}

// key is a text that identifies the sequence.
func (s Seq) key() string {
	var sb strings.Builder
	for _, g := range s {
		switch {
		case g.explicit():
			for _, b := range g.bytes {
				fmt.Fprintf(&sb, "%d,", b.id)
			}
		case g.src == nil:
			fmt.Fprintf(&sb, "z%d;", g.n.id)
		default:
			fmt.Fprintf(&sb, "s%d@%d+%d;", g.src.id, g.off.id, g.n.id)
		}
	}
	return sb.String()
}

func (s Seg) ranged() bool { return !s.explicit() && s.src != nil }

// Equality of ranges of two sources: eqRange(a, x, b, y, n) says that the n
// bytes of a from x are those of b from y. It is an unknown of its own, which
// is related to shorter ranges and to single bytes in decideEq.
type eqPair struct{ a, b *Src }

var eqPairs = map[string]eqPair{}

func eqRange(a *Src, x *Term, b *Src, y, n *Term) *Term {
	if a.id > b.id {
		a, x, b, y = b, y, a, x
	}
	name := fmt.Sprintf("eqr%d:%d", a.id, b.id)
	eqPairs[name] = eqPair{a, b}
	return App(name, 0, 1, x, y, n)
}

func (f *Facts) decideEq(t *Term, p eqPair) (bool, bool) {
	x, y, n := t.args[0], t.args[1], t.args[2]
	if f.Equal(n, TZero) {
		return true, true
	}
	less := func(a, b *Term) bool { // a <= b
		v, ok := f.Decide(Le(a, b))
		return ok && v
	}
	last := AddC(n, -1)
	for _, k := range f.keys {
		if k.k == KApp && k.name == t.name {
			v, ok := f.m[k].single()
			if !ok {
				continue
			}
			m := k.args[2]
			if !f.Equal(k.args[0], x) || !f.Equal(k.args[1], y) {
				d := Sub(k.args[0], x)
				if !f.Equal(d, Sub(k.args[1], y)) {
					continue
				}
				// another range of the same alignment
				switch inner := less(TZero, d) && less(Add(m, d), n); {
				case inner && v == 0:
					return false, true
				case inner && v != 0 && f.Equal(d, TOne) && f.Equal(m, last) && f.Equal(sel(p.a, x), sel(p.b, y)):
					return true, true
				}
				continue
			}
			switch {
			case v == 0 && less(m, n):
				return false, true
			case v != 0 && less(n, m):
				return true, true
			case v != 0 && f.Equal(m, last) && f.Equal(sel(p.a, Add(x, last)), sel(p.b, Add(y, last))):
				return true, true
			}
			continue
		}
		// a byte that differs
		i, j, ok := selPair(k, p)
		if !ok || f.m[k].has(0) {
			continue
		}
		d := Sub(i, x)
		if f.Equal(d, Sub(j, y)) && less(TZero, d) && less(AddC(d, 1), n) {
			return false, true
		}
	}
	if f.Equal(n, TOne) && f.Equal(sel(p.a, x), sel(p.b, y)) {
		return true, true
	}
	return false, false
}

// selPair recognises the difference of a byte of a and one of b.
func selPair(k *Term, p eqPair) (*Term, *Term, bool) {
	c, ls := linOf(k)
	if c != 0 || len(ls) != 2 || ls[0].c+ls[1].c != 0 || ls[0].c != 1 && ls[0].c != -1 {
		return nil, nil, false
	}
	n0, x0, ok0 := selOf(ls[0].a)
	n1, x1, ok1 := selOf(ls[1].a)
	if !ok0 || !ok1 {
		return nil, nil, false
	}
	switch {
	case srcByID[n0] == p.a && srcByID[n1] == p.b:
		return x0, x1, true
	case srcByID[n1] == p.a && srcByID[n0] == p.b:
		return x1, x0, true
	}
	return nil, nil, false
}

// eqFact is a byte of one source that was found to equal one of another.
type eqFact struct {
	p    eqPair
	x, y *Term
}

// eqFacts are the bytes of two sources that are known to be equal.
func (f *Facts) eqFacts() []eqFact {
	var fs []eqFact
	for _, k := range f.keys {
		if v, ok := f.m[k].single(); !ok || v != 0 {
			continue
		}
		_, ls := linOf(k)
		if len(ls) != 2 {
			continue
		}
		n0, _, ok0 := selOf(ls[0].a)
		n1, _, ok1 := selOf(ls[1].a)
		if !ok0 || !ok1 || n0 == n1 {
			continue
		}
		p := eqPair{srcByID[n0], srcByID[n1]}
		if p.a.id > p.b.id {
			p.a, p.b = p.b, p.a
		}
		if x, y, ok := selPair(k, p); ok {
			fs = append(fs, eqFact{p, x, y})
		}
	}
	return fs
}
