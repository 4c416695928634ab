// Package amf0 declares the part of github.com/WatchBeam/amf0 that the
// repository uses. The sandbox does not have that library: these signatures
// only let the repository's packages type-check. The bodies are never analysed;
// calls are taken as opaque.
package amf0

import "io"

type AmfType interface {
	Decode(r io.Reader) error
	Encode(w io.Writer) (int, error)
}

type (
	Null       struct{}
	Undefined  struct{}
	Bool       bool
	Number     float64
	String     string
	LongString string
	Paired     struct{}
	Object     struct{ *Paired }
	Array      struct{ *Paired }
)

func NewString(s string) *String  { v := String(s); return &v }
func NewNumber(n float64) *Number { v := Number(n); return &v }
func NewBool(b bool) *Bool        { v := Bool(b); return &v }
func NewPaired() *Paired          { return new(Paired) }
func NewObject() *Object          { return &Object{NewPaired()} }
func NewArray() *Array            { return &Array{NewPaired()} }

func (*Null) Decode(r io.Reader) error             { panic("stub") }
func (*Null) Encode(w io.Writer) (int, error)      { panic("stub") }
func (*Undefined) Decode(r io.Reader) error        { panic("stub") }
func (*Undefined) Encode(w io.Writer) (int, error) { panic("stub") }
func (*Bool) Decode(r io.Reader) error             { panic("stub") }
func (*Bool) Encode(w io.Writer) (int, error)      { panic("stub") }
func (*Number) Decode(r io.Reader) error           { panic("stub") }
func (*Number) Encode(w io.Writer) (int, error)    { panic("stub") }
func (*String) Decode(r io.Reader) error           { panic("stub") }
func (*String) Encode(w io.Writer) (int, error)    { panic("stub") }
func (*LongString) Decode(r io.Reader) error       { panic("stub") }
func (*LongString) Encode(w io.Writer) (int, error) {
	panic("stub")
}
func (*Object) Decode(r io.Reader) error        { panic("stub") }
func (*Object) Encode(w io.Writer) (int, error) { panic("stub") }
func (*Array) Decode(r io.Reader) error         { panic("stub") }
func (*Array) Encode(w io.Writer) (int, error)  { panic("stub") }

func (p *Paired) Add(key string, v AmfType) *Paired { panic("stub") }
func (p *Paired) Get(key string) (AmfType, error)   { panic("stub") }
func (p *Paired) String(key string) (*String, error) {
	panic("stub")
}
func (p *Paired) Number(key string) (*Number, error) {
	panic("stub")
}
func (p *Paired) Len() int { panic("stub") }

func Decode(r io.Reader) (AmfType, error)        { panic("stub") }
func Encode(a AmfType, w io.Writer) (int, error) { panic("stub") }
