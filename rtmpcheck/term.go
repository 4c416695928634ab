package main

// The value domain: hash-consed terms over mathematical integers.
//
// A term denotes one integer (or boolean, 0/1) whose value is fixed by the
// inputs of the analysed operation. Terms are kept in normal forms so that two
// program fragments which compute the same value by different means (shifts,
// masks, byte swaps, multiplication, addition) get the same term:
//
//   - Lin: constant + sum of coefficient * atom
//   - Cat: a word put together from bit slices of atoms and constant bits
//   - App: an uninterpreted function of terms
//
// What is known about terms on a path is kept in Facts: sets of intervals for
// linear combinations. There is no solver: a comparison is decided by interval
// arithmetic over these sets, or it is not decided and both branches are taken.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

const (
	posInf = int64(1) << 62
	negInf = -posInf
)

type Kind uint8

const (
	KConst Kind = iota
	KSym
	KApp
	KLin
	KCat
	KLt0
	KEq0
	KNot
)

type LinT struct {
	c int64
	a *Term
}

// Piece is a run of bits of a Cat, least significant first: n bits of x from
// bit lo, or n constant bits c if x is nil.
type Piece struct {
	x  *Term
	lo int
	n  int
	c  uint64
}

type Term struct {
	id     int
	k      Kind
	c      int64
	name   string
	lo, hi int64
	args   []*Term
	lin    []LinT
	cat    []Piece
	w      int
}

var (
	termTab = map[string]*Term{}
	termSeq int
	symSeq  int
)

func intern(key string, mk func() *Term) *Term {
	if t, ok := termTab[key]; ok {
		return t
	}
	t := mk()
	termSeq++
	t.id = termSeq
	termTab[key] = t
	return t
}

func Const(c int64) *Term {
	return intern(fmt.Sprintf("c%d", c), func() *Term { return &Term{k: KConst, c: c, lo: c, hi: c} })
}

var (
	TZero  = Const(0)
	TOne   = Const(1)
	TTrue  = TOne
	TFalse = TZero
)

func Bool(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}

// Fresh returns a new unknown in [lo, hi].
func Fresh(name string, lo, hi int64) *Term {
	symSeq++
	n := fmt.Sprintf("%s#%d", name, symSeq)
	return intern("s"+n, func() *Term { return &Term{k: KSym, name: n, lo: lo, hi: hi} })
}

func FreshBool(name string) *Term { return Fresh(name, 0, 1) }

// App is an uninterpreted function application with result in [lo, hi].
func App(fn string, lo, hi int64, args ...*Term) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "a%s[%d,%d](", fn, lo, hi)
	for _, a := range args {
		fmt.Fprintf(&sb, "%d,", a.id)
	}
	return intern(sb.String(), func() *Term {
		return &Term{k: KApp, name: fn, lo: lo, hi: hi, args: append([]*Term(nil), args...)}
	})
}

func (t *Term) isConst() bool { return t.k == KConst }

func satAdd(a, b int64) int64 {
	if a <= negInf || b <= negInf {
		if a >= posInf || b >= posInf {
			return 0 // undefined; callers guard
		}
		return negInf
	}
	if a >= posInf || b >= posInf {
		return posInf
	}
	s := a + b
	if s > posInf {
		return posInf
	}
	if s < negInf {
		return negInf
	}
	return s
}

func satMul(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	neg := (a < 0) != (b < 0)
	ua, ub := uint64(a), uint64(b)
	if a < 0 {
		ua = uint64(-a)
	}
	if b < 0 {
		ub = uint64(-b)
	}
	h, l := bits.Mul64(ua, ub)
	if h != 0 || l > uint64(posInf) {
		if neg {
			return negInf
		}
		return posInf
	}
	if neg {
		return -int64(l)
	}
	return int64(l)
}

// linOf views a term as constant + combination.
func linOf(t *Term) (int64, []LinT) {
	switch t.k {
	case KConst:
		return t.c, nil
	case KLin:
		return t.c, t.lin
	}
	return 0, []LinT{{1, t}}
}

func mkLin(c int64, ls []LinT) *Term {
	if len(ls) == 0 {
		return Const(c)
	}
	if c == 0 && len(ls) == 1 && ls[0].c == 1 {
		return ls[0].a
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "l%d", c)
	for _, l := range ls {
		fmt.Fprintf(&sb, "+%d*%d", l.c, l.a.id)
	}
	return intern(sb.String(), func() *Term {
		return &Term{k: KLin, c: c, lin: append([]LinT(nil), ls...)}
	})
}

func linComb(ka int64, a *Term, kb int64, b *Term) *Term {
	ca, la := linOf(a)
	cb, lb := linOf(b)
	m := map[*Term]int64{}
	var order []*Term
	add := func(k int64, ls []LinT) {
		for _, l := range ls {
			if _, ok := m[l.a]; !ok {
				order = append(order, l.a)
			}
			m[l.a] += k * l.c
		}
	}
	add(ka, la)
	add(kb, lb)
	var out []LinT
	for _, x := range order {
		if m[x] != 0 {
			out = append(out, LinT{m[x], x})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].a.id < out[j].a.id })
	return mkLin(ka*ca+kb*cb, out)
}

func Add(a, b *Term) *Term         { return linComb(1, a, 1, b) }
func Sub(a, b *Term) *Term         { return linComb(1, a, -1, b) }
func Scale(k int64, a *Term) *Term { return linComb(k, a, 0, TZero) }
func AddC(a *Term, c int64) *Term  { return linComb(1, a, 1, Const(c)) }
func mkLt0(l *Term) *Term          { return mkCmp(KLt0, l) }
func Lt(a, b *Term) *Term          { return mkLt0(Sub(a, b)) }
func Le(a, b *Term) *Term          { return mkLt0(AddC(Sub(a, b), -1)) }
func mkCmp(k Kind, l *Term) *Term {
	if l.isConst() {
		if k == KLt0 {
			return Bool(l.c < 0)
		}
		return Bool(l.c == 0)
	}
	return intern(fmt.Sprintf("b%d:%d", k, l.id), func() *Term {
		return &Term{k: k, args: []*Term{l}, lo: 0, hi: 1}
	})
}

func mkEq0(l *Term) *Term {
	if l.isConst() {
		return Bool(l.c == 0)
	}
	c, ls := linOf(l)
	if c == 0 && len(ls) == 1 && ls[0].a.k == KApp && ls[0].a.name == "xor" && len(ls[0].a.args) == 2 {
		return mkEq0(Sub(ls[0].a.args[0], ls[0].a.args[1]))
	}
	if len(ls) == 1 && (ls[0].c == 1 || ls[0].c == -1) && ls[0].a.k == KCat {
		// word == constant: decided by the constant bits, or reduced to
		// the single unknown slice
		v := -c * ls[0].c
		cat := ls[0].a
		if v < 0 || (cat.w < 63 && v >= 1<<uint(cat.w)) {
			return TFalse
		}
		pos, nx := 0, 0
		var px Piece
		var pv int64
		for _, p := range cat.cat {
			var want uint64
			if pos < 64 {
				want = uint64(v) >> uint(pos)
			}
			if p.n < 64 {
				want &= 1<<uint(p.n) - 1
			}
			if p.x == nil {
				if want != p.c {
					return TFalse
				}
			} else {
				nx++
				px, pv = p, int64(want)
			}
			pos += p.n
		}
		if nx == 1 && len(cat.cat) > 1 {
			return mkEq0(AddC(mkCat([]Piece{px}), -pv))
		}
	}
	// sign normal form: first coefficient positive
	if len(ls) > 0 && ls[0].c < 0 {
		l = Scale(-1, l)
	}
	return mkCmp(KEq0, l)
}

func EqT(a, b *Term) *Term { return mkEq0(Sub(a, b)) }

func Not(b *Term) *Term {
	switch b.k {
	case KConst:
		return Bool(b.c == 0)
	case KNot:
		return b.args[0]
	case KLt0:
		return mkLt0(AddC(Scale(-1, b.args[0]), -1))
	}
	return intern(fmt.Sprintf("n%d", b.id), func() *Term {
		return &Term{k: KNot, args: []*Term{b}, lo: 0, hi: 1}
	})
}

// mkCat interns a packed piece list.
func mkCat(ps []Piece) *Term {
	// drop high zeros
	for len(ps) > 0 && ps[len(ps)-1].x == nil && ps[len(ps)-1].c == 0 {
		ps = ps[:len(ps)-1]
	}
	if len(ps) == 0 {
		return TZero
	}
	if len(ps) == 1 && ps[0].x == nil {
		return Const(int64(ps[0].c))
	}
	var sb strings.Builder
	sb.WriteString("k")
	w := 0
	for _, p := range ps {
		if p.x == nil {
			fmt.Fprintf(&sb, "c%d/%d,", p.c, p.n)
		} else {
			fmt.Fprintf(&sb, "%d@%d/%d,", p.x.id, p.lo, p.n)
		}
		w += p.n
	}
	return intern(sb.String(), func() *Term {
		hi := posInf
		if w < 62 {
			hi = 1<<uint(w) - 1
		}
		return &Term{k: KCat, cat: append([]Piece(nil), ps...), w: w, lo: 0, hi: hi}
	})
}

// ---------------------------------------------------------------- printing

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 6 {
		return "…"
	}
	switch t.k {
	case KConst:
		return fmt.Sprint(t.c)
	case KSym:
		return t.name
	case KApp:
		var as []string
		for _, a := range t.args {
			as = append(as, a.str(d+1))
		}
		return t.name + "(" + strings.Join(as, ",") + ")"
	case KLin:
		s := ""
		for i, l := range t.lin {
			switch {
			case l.c == 1:
				if i > 0 {
					s += "+"
				}
			case l.c == -1:
				s += "-"
			default:
				if i > 0 && l.c > 0 {
					s += "+"
				}
				s += fmt.Sprintf("%d*", l.c)
			}
			s += l.a.str(d + 1)
		}
		if t.c != 0 {
			s += fmt.Sprintf("%+d", t.c)
		}
		return "(" + s + ")"
	case KCat:
		var as []string
		for i := len(t.cat) - 1; i >= 0; i-- {
			p := t.cat[i]
			if p.x == nil {
				as = append(as, fmt.Sprintf("%0*b", p.n, p.c))
			} else {
				as = append(as, fmt.Sprintf("%s[%d:%d]", p.x.str(d+1), p.lo, p.lo+p.n))
			}
		}
		return "<" + strings.Join(as, ".") + ">"
	case KLt0:
		return t.args[0].str(d+1) + "<0"
	case KEq0:
		return t.args[0].str(d+1) + "==0"
	case KNot:
		return "!(" + t.args[0].str(d+1) + ")"
	}
	return "?"
}

// ---------------------------------------------------------------- intervals

type iv struct{ lo, hi int64 }

// IvSet is a sorted list of disjoint, non-adjacent intervals.
type IvSet []iv

func (s IvSet) min() int64  { return s[0].lo }
func (s IvSet) max() int64  { return s[len(s)-1].hi }
func (s IvSet) empty() bool { return len(s) == 0 }
func (s IvSet) single() (int64, bool) {
	if len(s) == 1 && s[0].lo == s[0].hi {
		return s[0].lo, true
	}
	return 0, false
}
func (s IvSet) has(v int64) bool {
	for _, i := range s {
		if i.lo <= v && v <= i.hi {
			return true
		}
	}
	return false
}
func (s IvSet) intersect(o IvSet) IvSet {
	var out IvSet
	i, j := 0, 0
	for i < len(s) && j < len(o) {
		lo, hi := max(s[i].lo, o[j].lo), min(s[i].hi, o[j].hi)
		if lo <= hi {
			out = append(out, iv{lo, hi})
		}
		if s[i].hi < o[j].hi {
			i++
		} else {
			j++
		}
	}
	return out
}
func (s IvSet) union(o IvSet) IvSet {
	all := append(append(IvSet{}, s...), o...)
	sort.Slice(all, func(i, j int) bool { return all[i].lo < all[j].lo })
	var out IvSet
	for _, x := range all {
		if n := len(out); n > 0 && x.lo <= satAdd(out[n-1].hi, 1) {
			if x.hi > out[n-1].hi {
				out[n-1].hi = x.hi
			}
		} else {
			out = append(out, x)
		}
	}
	return out
}
func (s IvSet) minus(v int64) IvSet {
	var out IvSet
	for _, x := range s {
		if v < x.lo || v > x.hi {
			out = append(out, x)
			continue
		}
		if x.lo <= v-1 {
			out = append(out, iv{x.lo, v - 1})
		}
		if v+1 <= x.hi {
			out = append(out, iv{v + 1, x.hi})
		}
	}
	return out
}

// scaled returns k*s + c.
func (s IvSet) scaled(k, c int64) IvSet {
	var out IvSet
	for _, x := range s {
		a, b := satAdd(satMul(k, x.lo), c), satAdd(satMul(k, x.hi), c)
		if a > b {
			a, b = b, a
		}
		out = append(out, iv{a, b})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].lo < out[j].lo })
	return out
}

// ---------------------------------------------------------------- facts

// Facts holds, per linear combination (its normal form without constant and
// with positive first coefficient), the set of values it may have on a path.
type Facts struct {
	m    map[*Term]IvSet
	keys []*Term
	cats bool // some of the keys are words
}

func newFacts() *Facts { return &Facts{m: map[*Term]IvSet{}} }

func (f *Facts) clone() *Facts {
	g := &Facts{m: make(map[*Term]IvSet, len(f.m)), keys: append([]*Term(nil), f.keys...), cats: f.cats}
	for k, v := range f.m {
		g.m[k] = v
	}
	return g
}

// keyOf returns K, s, c with t = s*K + c, s = +1 or -1.
func keyOf(t *Term) (*Term, int64, int64) {
	c, ls := linOf(t)
	if len(ls) == 0 {
		return nil, 0, c
	}
	if ls[0].c < 0 {
		neg := make([]LinT, len(ls))
		for i, l := range ls {
			neg[i] = LinT{-l.c, l.a}
		}
		return mkLin(0, neg), -1, c
	}
	return mkLin(0, ls), 1, c
}

func (f *Facts) atomRange(a *Term) IvSet {
	var r IvSet
	if a.k == KCat {
		r = f.catRange(a, false)
	} else {
		r = IvSet{{a.lo, a.hi}}
	}
	if s, ok := f.m[a]; ok {
		r = r.intersect(s)
	}
	if a.k == KApp && len(a.args) == 1 && prefixArrs[a.name] != nil && f.directZero(a.args[0]) {
		r = r.intersect(IvSet{{0, 0}}) // no elements
	}
	return r
}

func (f *Facts) catRange(t *Term, deep bool) IvSet {
	lo, hi := int64(0), int64(0)
	pos := 0
	for _, p := range t.cat {
		if pos >= 61 {
			return IvSet{{0, posInf}}
		}
		var plo, phi int64
		if p.x == nil {
			plo, phi = int64(p.c), int64(p.c)
		} else {
			phi = posInf
			if p.n < 62 {
				phi = 1<<uint(p.n) - 1
			}
			var rx IvSet
			if p.x.k == KLin {
				rx = f.baseRange(p.x)
				if k, s, c := keyOf(p.x); k != nil {
					if fs, ok := f.m[k]; ok {
						rx = rx.intersect(fs.scaled(s, c))
					}
				}
			} else {
				rx = f.atomRange(p.x)
			}
			if !rx.empty() && rx.min() >= 0 && rx.max() < posInf {
				a, b := rx.min()>>uint(p.lo), rx.max()>>uint(p.lo)
				if p.n >= 62 || (b>>uint(p.n)) == (a>>uint(p.n)) {
					m := int64(-1)
					if p.n < 62 {
						m = 1<<uint(p.n) - 1
					}
					plo, phi = a&m, b&m
				}
			}
			if deep && p.n < 62 {
				plo, phi = f.sliceBounds(p, plo, phi)
			}
		}
		lo = satAdd(lo, satMul(plo, 1<<uint(pos)))
		hi = satAdd(hi, satMul(phi, 1<<uint(pos)))
		pos += p.n
	}
	return IvSet{{lo, hi}}
}

// wordRange is the range of a term over one word, where what is known about
// its slices and about the words it is part of is used as well. It takes no
// part in Range, whose results determine the normal form of words.
func (f *Facts) wordRange(t *Term, r IvSet) IvSet {
	c, ls := linOf(t)
	if !f.cats || len(ls) != 1 || ls[0].a.k != KCat {
		return r
	}
	return r.intersect(f.catRange(ls[0].a, true).scaled(ls[0].c, c))
}

// sliceBounds narrows the range of a slice by what is known about its upper
// bits, and about the words that contain it.
func (f *Facts) sliceBounds(p Piece, lo, hi int64) (int64, int64) {
	for _, k := range f.keys {
		if k.k != KCat {
			continue
		}
		s := f.m[k]
		if s.empty() || s.min() < 0 {
			continue
		}
		if len(k.cat) == 1 {
			q := k.cat[0]
			if q.x == p.x && q.lo > p.lo && q.lo+q.n == p.lo+p.n {
				d := uint(q.lo - p.lo)
				lo = max(lo, s.min()<<d)
				hi = min(hi, satAdd(satMul(s.max(), 1<<d), 1<<d-1))
			}
			if q.x != p.x || q.lo == p.lo && q.n == p.n {
				continue
			}
		}
		pos := 0
		for _, q := range k.cat {
			if q.x == p.x && q.lo <= p.lo && p.lo+p.n <= q.lo+q.n {
				sh := uint(pos + p.lo - q.lo)
				if sh < 62 && s.max() < posInf {
					a, b := s.min()>>sh, s.max()>>sh
					if a>>uint(p.n) == b>>uint(p.n) {
						m := int64(1)<<uint(p.n) - 1
						lo, hi = max(lo, a&m), min(hi, b&m)
					}
				}
			}
			pos += q.n
		}
	}
	return lo, hi
}

func (f *Facts) baseRange(t *Term) IvSet {
	c, ls := linOf(t)
	if len(ls) == 1 {
		return f.atomRange(ls[0].a).scaled(ls[0].c, c)
	}
	lo, hi := c, c
	for _, l := range ls {
		r := f.atomRange(l.a)
		if r.empty() {
			return nil
		}
		a, b := satMul(l.c, r.min()), satMul(l.c, r.max())
		if a > b {
			a, b = b, a
		}
		lo, hi = satLo(lo, a), satHi(hi, b)
	}
	return IvSet{{lo, hi}}
}

func satLo(a, b int64) int64 {
	if a <= negInf || b <= negInf {
		return negInf
	}
	return satAdd(a, b)
}
func satHi(a, b int64) int64 {
	if a >= posInf || b >= posInf {
		return posInf
	}
	return satAdd(a, b)
}

// Range returns the possible values of t.
func (f *Facts) Range(t *Term) IvSet {
	switch t.k {
	case KConst:
		return IvSet{{t.c, t.c}}
	case KLt0, KEq0, KNot:
		if v, ok := f.Decide(t); ok {
			return IvSet{{b2i(v), b2i(v)}}
		}
		return IvSet{{0, 1}}
	}
	t = f.normPrefix(t)
	if t.isConst() {
		return IvSet{{t.c, t.c}}
	}
	r := f.combined(t)
	if _, ok := r.single(); ok || r.empty() {
		return r
	}
	if len(prefixArrs) > 0 {
		r = f.prefixBounds(t, r)
	}
	return r
}

// combined is the range of a term without what the lengths of parts of lists
// imply.
func (f *Facts) combined(t *Term) IvSet {
	r := f.directRange(t)
	_, ls := linOf(t)
	if len(ls) == 0 || r.empty() {
		return r
	}
	if _, ok := r.single(); ok {
		return r
	}
	// One step of combination: t = k*F + rest for a known F that shares an
	// atom with t.
	for _, k := range f.keys {
		ck, cl := linOf(k)
		_ = ck
		for _, x := range cl {
			for _, y := range ls {
				if x.a != y.a || y.c%x.c != 0 {
					continue
				}
				q := y.c / x.c
				rest := linComb(1, t, -q, k)
				if rest == t {
					continue
				}
				rr := f.directRange(rest)
				if rr.empty() {
					continue
				}
				fs := f.m[k]
				if len(cl) == 1 {
					continue // already used by atomRange
				}
				s := IvSet{{satMul(q, fs.min()), satMul(q, fs.max())}}
				if s[0].lo > s[0].hi {
					s[0].lo, s[0].hi = s[0].hi, s[0].lo
				}
				sum := IvSet{{satLo(rr.min(), s[0].lo), satHi(rr.max(), s[0].hi)}}
				r = r.intersect(sum)
				if r.empty() {
					return r
				}
			}
		}
	}
	return r
}

func (f *Facts) directRange(t *Term) IvSet {
	r := f.baseRange(t)
	k, s, c := keyOf(t)
	if k != nil {
		if fs, ok := f.m[k]; ok {
			r = r.intersect(fs.scaled(s, c))
		}
	}
	return r
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// Decide returns the truth value of a boolean term, if it is determined.
func (f *Facts) Decide(b *Term) (bool, bool) {
	switch b.k {
	case KConst:
		return b.c != 0, true
	case KNot:
		v, ok := f.Decide(b.args[0])
		return !v, ok
	case KLt0:
		r := f.wordRange(b.args[0], f.Range(b.args[0]))
		if r.empty() {
			return false, true
		}
		if r.max() < 0 {
			return true, true
		}
		if r.min() >= 0 {
			return false, true
		}
		return false, false
	case KEq0:
		r := f.wordRange(b.args[0], f.Range(b.args[0]))
		if r.empty() {
			return false, true
		}
		if v, ok := r.single(); ok {
			return v == 0, true
		}
		if !r.has(0) {
			return false, true
		}
		if f.Equal(b.args[0], TZero) {
			return true, true
		}
		return false, false
	default:
		r := f.Range(b)
		if v, ok := r.single(); ok {
			return v != 0, true
		}
		if b.k == KApp && len(b.args) == 3 {
			if p, ok := eqPairs[b.name]; ok {
				return f.decideEq(b, p)
			}
		}
		return false, false
	}
}

// Assume adds a boolean term to what is known. It reports false if that is
// known to be impossible.
func (f *Facts) Assume(b *Term, truth bool) bool {
	if v, ok := f.Decide(b); ok {
		return v == truth
	}
	if !truth {
		if b.k == KEq0 {
			return f.restrict(b.args[0], func(s IvSet) IvSet { return s.minus(0) })
		}
		nb := Not(b)
		if nb.k == KNot {
			return f.restrict(b, func(s IvSet) IvSet { return s.intersect(IvSet{{0, 0}}) })
		}
		b = nb
	}
	switch b.k {
	case KNot:
		return f.Assume(b.args[0], false)
	case KLt0:
		return f.restrict(b.args[0], func(s IvSet) IvSet { return s.intersect(IvSet{{negInf, -1}}) })
	case KEq0:
		return f.restrict(b.args[0], func(s IvSet) IvSet { return s.intersect(IvSet{{0, 0}}) })
	}
	return f.restrict(b, func(s IvSet) IvSet { return s.intersect(IvSet{{1, 1}}) })
}

func (f *Facts) restrict(t *Term, op func(IvSet) IvSet) bool {
	t = f.normPrefix(t)
	r := op(f.Range(t))
	if r.empty() {
		return false
	}
	k, s, c := keyOf(t)
	if k == nil {
		return r.has(c)
	}
	// t = s*K + c  =>  K = s*(t - c)
	set := r.scaled(s, -s*c)
	if old, ok := f.m[k]; ok {
		set = set.intersect(old)
	} else {
		f.keys = append(f.keys, k)
		f.cats = f.cats || k.k == KCat
	}
	if set.empty() {
		return false
	}
	f.m[k] = set
	return true
}

// normPrefix replaces the length of the first i elements of a list by that of
// all elements where i is known to be their number.
func (f *Facts) normPrefix(t *Term) *Term {
	if len(prefixArrs)+len(elemArrs) == 0 || t.k != KLin && t.k != KApp {
		return t
	}
	_, ls := linOf(t)
	for _, l := range ls {
		if l.a.k != KApp {
			continue
		}
		// prefix(i) + element i = prefix(i+1)
		if a := elemArrs[l.a.name]; a != nil {
			i := l.a.args[0]
			if i.isConst() && i.c == 0 {
				return f.normPrefix(Add(linComb(1, t, -l.c, l.a), Scale(l.c, a.prefix(TOne))))
			}
			for _, m := range ls {
				if m.c == l.c && m.a.k == KApp && prefixArrs[m.a.name] == a && (m.a.args[0] == i || f.directZero(Sub(m.a.args[0], i))) {
					r := linComb(1, linComb(1, t, -l.c, l.a), -m.c, m.a)
					return f.normPrefix(Add(r, Scale(l.c, a.prefix(AddC(i, 1)))))
				}
			}
			continue
		}
		a := prefixArrs[l.a.name]
		if a == nil || l.a.args[0] == a.n {
			continue
		}
		if d := Sub(l.a.args[0], a.n); !d.isConst() && f.directZero(d) {
			return f.normPrefix(Add(linComb(1, t, -l.c, l.a), Scale(l.c, a.total())))
		}
	}
	return t
}

func (f *Facts) directZero(d *Term) bool {
	if d.isConst() {
		return d.c == 0
	}
	v, ok := f.directRange(d).single()
	return ok && v == 0
}

// prefixBounds: the bytes in the first elements of a list are not more than
// those in all of them.
func (f *Facts) prefixBounds(t *Term, r IvSet) IvSet {
	_, ls := linOf(t)
	for _, l := range ls {
		if l.a.k != KApp || r.empty() {
			continue
		}
		a := prefixArrs[l.a.name]
		if a == nil || l.a.args[0] == a.n {
			continue
		}
		if in := f.combined(Sub(a.n, l.a.args[0])); in.empty() || in.min() < 0 {
			continue
		}
		o := f.Range(Add(linComb(1, t, -l.c, l.a), Scale(l.c, a.total())))
		if o.empty() {
			continue
		}
		if l.c < 0 {
			r = r.intersect(IvSet{{o.min(), posInf}})
		} else {
			r = r.intersect(IvSet{{negInf, o.max()}})
		}
	}
	return r
}

// Between asserts lo <= t <= hi.
func (f *Facts) Between(t *Term, lo, hi int64) bool {
	return f.restrict(t, func(s IvSet) IvSet { return s.intersect(IvSet{{lo, hi}}) })
}

// Equal reports that a and b are known to be equal.
func (f *Facts) Equal(a, b *Term) bool {
	if a == b {
		return true
	}
	d := Sub(a, b)
	if d.isConst() {
		return d.c == 0
	}
	if r := f.Range(d); len(r) == 1 && r[0].lo == 0 && r[0].hi == 0 {
		return true
	}
	sa, sb := f.simp(a), f.simp(b)
	if sa == sb {
		return true
	}
	if sa != a || sb != b {
		d := Sub(sa, sb)
		if r := f.directRange(d); len(r) == 1 && r[0].lo == 0 && r[0].hi == 0 {
			return true
		}
	}
	return false
}

// Distinct reports that a and b are known to be different.
func (f *Facts) Distinct(a, b *Term) bool {
	r := f.Range(Sub(a, b))
	return r.empty() || !r.has(0)
}

// simp brings t into the word normal form where that is possible, using the
// facts (constants, widths).
func (f *Facts) simp(t *Term) *Term {
	t = f.normPrefix(t)
	r := f.Range(t)
	if v, ok := r.single(); ok {
		return Const(v)
	}
	if c, ls := linOf(t); t.k == KLin && c != 0 && len(ls) > 1 {
		// pieces of a word, and a constant besides
		if _, ok := f.linBits(t); !ok {
			if bs, ok := f.linBits(mkLin(0, ls)); ok {
				return AddC(f.pack(bs), c)
			}
		}
	}
	if t.k == KCat || t.k == KLin {
		if bs, ok := f.bits(t); ok {
			return f.pack(bs)
		}
	}
	return t
}

// ---------------------------------------------------------------- words

type bit struct {
	x *Term // nil: constant
	i int   // index in x, or value
}

func widthOf(hi int64) int {
	if hi >= posInf {
		return 64
	}
	return bits.Len64(uint64(hi))
}

// bits views a non-negative term as a word of up to 64 bits.
func (f *Facts) bits(t *Term) ([]bit, bool) {
	return f.bits1(t, true)
}

func (f *Facts) bits1(t *Term, top bool) ([]bit, bool) {
	r := f.Range(t)
	if r.empty() {
		return nil, false
	}
	if v, ok := r.single(); ok {
		if v < 0 {
			return nil, false
		}
		var out []bit
		for v != 0 {
			out = append(out, bit{nil, int(v & 1)})
			v >>= 1
		}
		return out, true
	}
	switch t.k {
	case KCat:
		var out []bit
		for _, p := range t.cat {
			if p.x == nil {
				for j := 0; j < p.n; j++ {
					out = append(out, bit{nil, int(p.c >> uint(j) & 1)})
				}
				continue
			}
			rx := f.atomOrLin(p.x)
			cv, isC := int64(0), false
			if !rx.empty() {
				cv, isC = rx.single()
			}
			w := 64
			if !rx.empty() && rx.min() >= 0 {
				w = widthOf(rx.max())
			}
			for j := 0; j < p.n; j++ {
				switch {
				case isC && cv >= 0:
					out = append(out, bit{nil, int(cv >> uint(p.lo+j) & 1)})
				case p.lo+j >= w:
					out = append(out, bit{nil, 0})
				default:
					out = append(out, bit{p.x, p.lo + j})
				}
			}
		}
		return out, true
	case KLin:
		if top {
			if bs, ok := f.linBits(t); ok {
				return bs, true
			}
		}
	}
	if r.min() < 0 {
		return nil, false
	}
	w := widthOf(r.max())
	if w > 64 {
		return nil, false
	}
	if r.max() >= posInf && t.k != KSym && t.k != KApp {
		return nil, false
	}
	out := make([]bit, w)
	for i := range out {
		out[i] = bit{t, i}
	}
	return out, true
}

func (f *Facts) atomOrLin(x *Term) IvSet {
	if x.k == KLin {
		return f.directRange(x)
	}
	return f.atomRange(x)
}

func (f *Facts) linBits(t *Term) ([]bit, bool) {
	c, ls := linOf(t)
	if c < 0 {
		return nil, false
	}
	if c == 0 && len(ls) == 1 && ls[0].c == 1 {
		return nil, false
	}
	var out []bit
	put := func(bs []bit, sh int) bool {
		for len(out) < len(bs)+sh {
			out = append(out, bit{})
		}
		if len(out) > 64 {
			return false
		}
		for i, b := range bs {
			if b.x == nil && b.i == 0 {
				continue
			}
			o := out[i+sh]
			if o.x != nil || o.i != 0 {
				return false
			}
			out[i+sh] = b
		}
		return true
	}
	cb, _ := f.bits1(Const(c), false)
	if !put(cb, 0) {
		return nil, false
	}
	for _, l := range ls {
		if l.c <= 0 || l.c&(l.c-1) != 0 {
			return nil, false
		}
		bs, ok := f.bits1(l.a, false)
		if !ok || !put(bs, bits.TrailingZeros64(uint64(l.c))) {
			return nil, false
		}
	}
	return out, true
}

// pack turns a word into its normal form.
func (f *Facts) pack(bs []bit) *Term {
	for len(bs) > 0 && bs[len(bs)-1].x == nil && bs[len(bs)-1].i == 0 {
		bs = bs[:len(bs)-1]
	}
	if len(bs) == 0 {
		return TZero
	}
	var ps []Piece
	for _, b := range bs {
		n := len(ps)
		if b.x == nil {
			if n > 0 && ps[n-1].x == nil {
				ps[n-1].c |= uint64(b.i) << uint(ps[n-1].n)
				ps[n-1].n++
			} else {
				ps = append(ps, Piece{nil, 0, 1, uint64(b.i)})
			}
			continue
		}
		if n > 0 && ps[n-1].x == b.x && ps[n-1].lo+ps[n-1].n == b.i {
			ps[n-1].n++
		} else {
			ps = append(ps, Piece{b.x, b.i, 1, 0})
		}
	}
	if len(ps) == 1 && ps[0].x != nil && ps[0].lo == 0 {
		r := f.atomOrLin(ps[0].x)
		if !r.empty() && r.min() >= 0 && widthOf(r.max()) <= ps[0].n {
			return ps[0].x
		}
	}
	if len(ps) == 1 && ps[0].x == nil && ps[0].n > 62 {
		return App("bigconst", 0, posInf, Const(int64(ps[0].c>>32)), Const(int64(ps[0].c&0xffffffff)))
	}
	return mkCat(ps)
}

func (f *Facts) bitop(op string, a, b *Term) *Term {
	if op == "or" || op == "xor" {
		switch {
		case a == TZero:
			return b
		case b == TZero:
			return a
		}
	}
	x, ok1 := f.bits(a)
	y, ok2 := f.bits(b)
	if ok1 && ok2 {
		n := max(len(x), len(y))
		out := make([]bit, n)
		good := true
		for i := 0; i < n && good; i++ {
			var p, q bit
			if i < len(x) {
				p = x[i]
			}
			if i < len(y) {
				q = y[i]
			}
			pc, qc := p.x == nil, q.x == nil
			switch op {
			case "and":
				switch {
				case pc && p.i == 0 || qc && q.i == 0:
				case pc:
					out[i] = q
				case qc:
					out[i] = p
				case p == q:
					out[i] = p
				default:
					good = false
				}
			case "or":
				switch {
				case pc && p.i == 1 || qc && q.i == 1:
					out[i] = bit{nil, 1}
				case pc:
					out[i] = q
				case qc:
					out[i] = p
				case p == q:
					out[i] = p
				default:
					good = false
				}
			case "xor":
				switch {
				case pc && qc:
					out[i] = bit{nil, p.i ^ q.i}
				case pc && p.i == 0:
					out[i] = q
				case qc && q.i == 0:
					out[i] = p
				case p == q:
				default:
					good = false
				}
			case "andnot":
				switch {
				case pc && p.i == 0 || qc && q.i == 1:
				case qc:
					out[i] = p
				case p == q:
				default:
					good = false
				}
			}
		}
		if good {
			return f.pack(out)
		}
	}
	if a.id > b.id && op != "andnot" {
		a, b = b, a
	}
	lo, hi := negInf, posInf
	ra, rb := f.Range(a), f.Range(b)
	if !ra.empty() && !rb.empty() && ra.min() >= 0 && rb.min() >= 0 {
		lo = 0
		if op == "and" || op == "andnot" {
			hi = ra.max()
			if op == "and" && rb.max() < hi {
				hi = rb.max()
			}
		} else {
			w := max(widthOf(ra.max()), widthOf(rb.max()))
			if w < 62 {
				hi = 1<<uint(w) - 1
			}
			if op == "or" {
				lo = max(ra.min(), rb.min())
				for _, t := range []*Term{a, b} {
					if v, ok := f.Decide(EqT(t, TZero)); ok && !v {
						lo = max(lo, 1)
					}
				}
			}
		}
	}
	return App(op, lo, hi, a, b)
}

func (f *Facts) shl(a *Term, n int) *Term {
	if bs, ok := f.bits(a); ok && len(bs)+n <= 64 {
		out := make([]bit, n, n+len(bs))
		return f.pack(append(out, bs...))
	}
	if n < 62 {
		return Scale(1<<uint(n), a)
	}
	return App("shl", negInf, posInf, a, Const(int64(n)))
}

func (f *Facts) shr(a *Term, n int) *Term {
	if bs, ok := f.bits(a); ok {
		if n >= len(bs) {
			return TZero
		}
		return f.pack(bs[n:])
	}
	r := f.Range(a)
	lo, hi := negInf, posInf
	if !r.empty() && r.min() >= 0 {
		lo = 0
	}
	return App("shr", lo, hi, a, Const(int64(n)))
}

// trunc reduces t to its low w bits (unsigned).
func (f *Facts) trunc(t *Term, w int) *Term {
	r := f.Range(t)
	if !r.empty() && r.min() >= 0 && (w >= 62 && r.max() < posInf || w < 62 && r.max() < 1<<uint(w)) {
		return t
	}
	if bs, ok := f.bits(t); ok {
		if len(bs) > w {
			bs = bs[:w]
		}
		return f.pack(bs)
	}
	if w >= 64 {
		// keep 64-bit arithmetic mathematical: overflow of 64-bit
		// counters is outside of the analysis
		if !r.empty() && r.min() >= 0 {
			return t
		}
		return App("wrap64", 0, posInf, t)
	}
	return App(fmt.Sprintf("wrap%d", w), 0, 1<<uint(w)-1, t)
}
