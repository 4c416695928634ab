package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value: *Term (numbers, booleans), Str, Ptr, SliceV,
// IfaceV, StructV, BytesV, ArrV, FuncV, MapV, ChanV, TupleV, BufV, RdV, TypeV,
// IterV.
type Val interface{}

type Str struct{ s Seq }

// Ptr points into an object. obj == nil: the nil pointer. nilc, if not nil, is
// the condition under which the pointer is nil.
type Ptr struct {
	obj  *Obj
	path string // "" or ".2.0" (field and constant index steps)
	idx  *Term  // a final, symbolic index step, or nil
	nilc *Term
}

type SliceV struct {
	base     Ptr // the array; base.obj == nil: nil slice
	off      *Term
	len, cap *Term
	nilc     *Term
}

// IfaceV: typ != nil: dynamic type known. Otherwise sym != nil: unknown
// dynamic type. Otherwise nil.
type IfaceV struct {
	typ  types.Type
	v    Val
	sym  *SymObj
	nilc *Term
}

// SymObj is an unknown implementation of an interface or function type.
type SymObj struct {
	id    int
	name  string
	role  string // meaning attached by a harness: "reader", "writer", …
	typ   types.Type
	data  interface{}
	obj   *Obj // state (readers)
	data2 *Src // what an unknown reader delivers
}

type StructV []Val

// BytesV is the content of a byte array.
type BytesV struct{ s Seq }

// ArrV is the content of an array with other elements: an unknown part of
// known description, followed by known elements.
type ArrV struct {
	sym   *SymArr // may be nil
	elems []Val
	elem  types.Type
}

type SymArr struct {
	id   int
	name string
	elem types.Type
	n    *Term
	src  *Src
	vals map[*Term]Val
	top  bool
	// an extension of another list by known elements
	parent *SymArr
	tail   []Val
	tailQ  []Seq
}

type FuncV struct {
	fn    *ssa.Function
	binds []Val
	sym   *SymObj
	blt   *ssa.Builtin
	nilc  *Term                             // nil if this holds
	bound func(st *State, args []Val) []Out // modelled closure
}

type MapV struct {
	obj  *Obj
	nilc *Term
}
type ChanV struct {
	obj  *Obj
	nilc *Term
}
type TupleV []Val

// BufV is the content of a bytes.Buffer: the unread bytes, and the object that
// they live in.
type BufV struct {
	s    Seq
	back *Obj
	// dirty: the next write may overwrite bytes that Bytes has handed out
	dirty bool
	// root is the array that it was made from; from is where in that it
	// writes; nil: not known
	root Ptr
	from *Term
}

// RdV is the content of a bytes.Reader.
type RdV struct {
	s    Seq
	full Seq
}

// InV is the state of an unknown source of bytes: what it has yet to deliver,
// how much it has delivered, and whether a read from it has failed.
type InV struct {
	rest   Seq
	pos    *Term
	failed bool
}

// TypeV is a reflect.Type; ValueV a reflect.Value.
type TypeV struct{ t types.Type }
type ValueV struct {
	t types.Type
	v Val
}

// IterV is the state of a range over a map or string.
type IterV struct {
	m    MapV
	str  *Str
	n    int // entries handed out so far (known maps)
	key  int
	cell *Obj
}

// MapC is the content of a map.
type MapC struct {
	base   bool // unknown initial content
	id     int
	ents   []MapEnt // most recent last
	looks  []MapEnt // looked up in the unknown content
	kt, vt types.Type
	name   string
	top    bool // any content (after a loop)
}
type MapEnt struct {
	k   Val
	v   Val
	del bool // deleted, or known absent
}

type ChanC struct {
	elem   types.Type
	cap    *Term
	closed bool
}

type Obj struct {
	id     int
	typ    types.Type // type of the content
	name   string
	sym    bool // unknown initial content (an input of the analysis)
	global *ssa.Global
	site   ssa.Instruction
	fresh  bool   // allocated by the analysed code
	alias  *Obj   // may share memory with
	init   Val    // initial content, once known
	by     string // what an unknown object stands for
	top    bool   // stands for any object (after a loop)
	joined bool   // made by joining slices at a loop head
	parts  []*Obj // of these
	pooled bool   // comes from a pool
	shared bool
	owner  *Obj // the buffer whose memory it is
}

var objSeq int

func newObj(t types.Type, name string) *Obj {
	objSeq++
	return &Obj{id: objSeq, typ: t, name: name}
}

func (o *Obj) String() string {
	if o == nil {
		return "nil"
	}
	return fmt.Sprintf("%s@%d", o.name, o.id)
}

func (p Ptr) String() string {
	if p.obj == nil {
		return "nil"
	}
	s := "&" + p.obj.String() + p.path
	if p.idx != nil {
		s += "[" + p.idx.String() + "]"
	}
	if p.nilc != nil {
		s += "?"
	}
	return s
}

func showVal(v Val) string {
	switch x := v.(type) {
	case nil:
		return "<none>"
	case *Term:
		return x.String()
	case Str:
		if c, ok := x.s.constString(); ok {
			return fmt.Sprintf("%q", c)
		}
		return "string " + x.s.String()
	case Ptr:
		return x.String()
	case SliceV:
		if x.base.obj == nil {
			return "nil-slice"
		}
		return fmt.Sprintf("%v[%v:+%v]", x.base, x.off, x.len)
	case IfaceV:
		switch {
		case x.typ != nil:
			return fmt.Sprintf("%s(%s)", shortType(x.typ), showVal(x.v))
		case x.sym != nil:
			return x.sym.name
		}
		return "nil"
	case StructV:
		var ps []string
		for _, e := range x {
			ps = append(ps, showVal(e))
		}
		return "{" + strings.Join(ps, " ") + "}"
	case BytesV:
		return x.s.String()
	case ArrV:
		var ps []string
		if x.sym != nil {
			ps = append(ps, x.sym.name)
		}
		for _, e := range x.elems {
			ps = append(ps, showVal(e))
		}
		return "[" + strings.Join(ps, " ") + "]"
	case FuncV:
		if x.fn != nil {
			return x.fn.String()
		}
		return "func"
	case MapV:
		return x.obj.String()
	case ChanV:
		return x.obj.String()
	case TupleV:
		var ps []string
		for _, e := range x {
			ps = append(ps, showVal(e))
		}
		return "(" + strings.Join(ps, ", ") + ")"
	case BufV:
		return "buffer " + x.s.String()
	case RdV:
		return "reader " + x.s.String()
	}
	return fmt.Sprintf("%T", v)
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// ---------------------------------------------------------------- types

func namedOf(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// intRange returns width, signedness and range of an integer type.
func intRange(t types.Type) (w int, signed bool, lo, hi int64, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 1, false, 0, 1, true
	case types.Uint8:
		return 8, false, 0, 255, true
	case types.Uint16:
		return 16, false, 0, 65535, true
	case types.Uint32:
		return 32, false, 0, 1<<32 - 1, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, 0, posInf, true
	case types.Int8:
		return 8, true, -128, 127, true
	case types.Int16:
		return 16, true, -32768, 32767, true
	case types.Int32, types.UntypedRune:
		return 32, true, -1 << 31, 1<<31 - 1, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, negInf, posInf, true
	}
	return
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func zeroVal(t types.Type) Val {
	switch namedOf2(t) {
	case "bytes.Buffer":
		return BufV{}
	case "bytes.Reader":
		return RdV{}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return Str{}
		}
		if u.Kind() == types.UnsafePointer {
			return Ptr{}
		}
		if u.Info()&types.IsFloat != 0 {
			return floatConst(0)
		}
		return TZero
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return SliceV{off: TZero, len: TZero, cap: TZero}
	case *types.Interface:
		return IfaceV{}
	case *types.Struct:
		s := make(StructV, u.NumFields())
		for i := range s {
			s[i] = zeroVal(u.Field(i).Type())
		}
		return s
	case *types.Array:
		if isByte(u.Elem()) {
			return BytesV{seqZeros(Const(u.Len()))}
		}
		a := ArrV{elem: u.Elem()}
		for i := int64(0); i < u.Len() && i < 4096; i++ {
			a.elems = append(a.elems, zeroVal(u.Elem()))
		}
		return a
	case *types.Map:
		return MapV{}
	case *types.Chan:
		return ChanV{}
	case *types.Signature:
		return FuncV{}
	case *types.Tuple:
		tv := make(TupleV, u.Len())
		for i := range tv {
			tv[i] = zeroVal(u.At(i).Type())
		}
		return tv
	}
	return TZero
}

// namedOf2 is namedOf for the type itself, not through a pointer.
func namedOf2(t types.Type) string {
	if _, ok := t.(*types.Pointer); ok {
		return ""
	}
	return namedOf(t)
}

func floatConst(v float64) *Term { return App(fmt.Sprintf("float:%v", v), negInf, posInf) }

// floatOf is the value of a known floating-point number.
func floatOf(t *Term) (float64, bool) {
	if t == nil || t.k != KApp || len(t.args) > 0 || !strings.HasPrefix(t.name, "float:") {
		return 0, false
	}
	v, err := strconv.ParseFloat(t.name[len("float:"):], 64)
	return v, err == nil
}

// roundTo rounds to the precision of a floating-point type.
func roundTo(v float64, t types.Type) float64 {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
		return float64(float32(v))
	}
	return v
}

// ---------------------------------------------------------------- SymArr

var symArrSeq int

func newSymArr(name string, elem types.Type, n *Term) *SymArr {
	symArrSeq++
	return &SymArr{id: symArrSeq, name: fmt.Sprintf("%s.%d", name, symArrSeq), elem: elem, n: n, vals: map[*Term]Val{}}
}

func (a *SymArr) concat() *Src {
	if a.src == nil {
		a.src = NewSrc("concat(" + a.name + ")")
		a.src.arr = a
	}
	return a.src
}

// prefix is the number of bytes in the first i elements.
func (a *SymArr) prefix(i *Term) *Term {
	if i.isConst() && i.c == 0 {
		return TZero
	}
	if a.parent != nil && i == a.n {
		return a.total()
	}
	prefixArrs[fmt.Sprintf("prefixlen%d", a.id)] = a
	return App(fmt.Sprintf("prefixlen%d", a.id), 0, 1<<40, i)
}

// total is the number of bytes in all elements.
func (a *SymArr) total() *Term {
	if a.parent == nil {
		return a.prefix(a.n)
	}
	n := a.parent.total()
	for _, q := range a.tailQ {
		n = Add(n, q.Len())
	}
	return n
}

// extend is a followed by known elements.
func (a *SymArr) extend(st *State, tail []Val) (*SymArr, bool) {
	var qs []Seq
	for _, v := range tail {
		s, ok := v.(SliceV)
		if !ok {
			return nil, false
		}
		qs = append(qs, st.sliceSeq(s))
	}
	e := newSymArr(a.name, a.elem, AddC(a.n, int64(len(tail))))
	e.parent, e.tail, e.tailQ = a, tail, qs
	return e, true
}

// whole is what the concatenation of an extended list consists of.
func (a *SymArr) whole() Seq {
	var q Seq
	if a.parent.parent != nil {
		q = a.parent.whole()
	} else {
		q = seqRange(a.parent.concat(), TZero, a.parent.total())
	}
	for _, t := range a.tailQ {
		q = seqCat(q, t)
	}
	return q
}

func (a *SymArr) elemLen(i *Term) *Term {
	elemArrs[fmt.Sprintf("elemlen%d", a.id)] = a
	return App(fmt.Sprintf("elemlen%d", a.id), 0, 1<<40, i)
}

// ---------------------------------------------------------------- errors

// Event is something observable that happened on a path.
type Event struct {
	sent  []*Obj // what messages sent before consist of
	kind  string
	pos   ssa.Instruction
	fn    *ssa.Function
	ch    *Obj
	val   Val
	args  []Val
	name  string
	locks []string
	held  []lockHeld
	n     *Term
	seq   Seq
	ptr   Ptr
	fv    FuncV
	obj   *Obj
	cases []SelCase
	flag  bool
	loop  *LoopInst
	data  interface{}
	meth  *types.Func
}

type SelCase struct {
	ch   *Obj
	send bool
	nilc bool
}

func (e *Event) String() string {
	s := e.kind
	if e.name != "" {
		s += " " + e.name
	}
	if e.ch != nil {
		s += " " + e.ch.String()
	}
	if e.obj != nil {
		s += " " + e.obj.String()
	}
	if e.val != nil {
		s += " " + showVal(e.val)
	}
	if e.n != nil {
		s += " n=" + e.n.String()
	}
	if e.seq != nil {
		s += " " + e.seq.String()
	}
	if len(e.locks) > 0 {
		s += " locks=" + strings.Join(e.locks, ",")
	}
	return s
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
