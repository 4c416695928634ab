// Package encoding declares the part of github.com/WatchBeam/amf0/encoding
// that the repository uses; see package amf0.
package encoding

import "io"

func Marshal(v interface{}) ([]byte, error)      { panic("stub") }
func Unmarshal(r io.Reader, v interface{}) error { panic("stub") }
