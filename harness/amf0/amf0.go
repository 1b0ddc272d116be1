// Package amf0 is a stand-in for github.com/WatchBeam/amf0, which is not
// available in this sandbox. It provides the part of its API that
// github.com/WatchBeam/rtmp uses, written from the AMF0 specification. It is
// part of the test environment, not of the code under test.
package amf0

import (
	"encoding/binary"
	"fmt"
	"io"
	"math"
)

// AmfType is any AMF0 value.
type AmfType interface {
	Marker() byte
	// Decode reads the value (without its marker).
	Decode(r io.Reader) error
	// Encode writes the value, marker included.
	Encode(w io.Writer) (int, error)
}

type (
	Number     float64
	Boolean    bool
	String     string
	LongString string
	Null       struct{}
	Undefined  struct{}
	Paired     struct {
		keys   []string
		values []AmfType
	}
	Object      struct{ *Paired }
	Array       struct{ *Paired }
	StrictArray struct{ Values []AmfType }
)

func NewNumber(f float64) *Number        { n := Number(f); return &n }
func NewBool(b bool) *Boolean            { n := Boolean(b); return &n }
func NewString(s string) *String         { n := String(s); return &n }
func NewLongString(s string) *LongString { n := LongString(s); return &n }
func NewPaired() *Paired                 { return &Paired{} }
func NewObject() *Object                 { return &Object{NewPaired()} }
func NewNull() *Null                     { return new(Null) }
func NewUndefined() *Undefined           { return new(Undefined) }
func NewStrictArray() *StrictArray       { return new(StrictArray) }
func NewArray() *Array                   { return &Array{NewPaired()} }

func (*Number) Marker() byte      { return 0x00 }
func (*Boolean) Marker() byte     { return 0x01 }
func (*String) Marker() byte      { return 0x02 }
func (*Object) Marker() byte      { return 0x03 }
func (*Null) Marker() byte        { return 0x05 }
func (*Undefined) Marker() byte   { return 0x06 }
func (*Array) Marker() byte       { return 0x08 }
func (*StrictArray) Marker() byte { return 0x0a }
func (*LongString) Marker() byte  { return 0x0c }

func New(marker byte) (AmfType, error) {
	switch marker {
	case 0x00:
		return new(Number), nil
	case 0x01:
		return new(Boolean), nil
	case 0x02:
		return new(String), nil
	case 0x03:
		return NewObject(), nil
	case 0x05:
		return new(Null), nil
	case 0x06:
		return new(Undefined), nil
	case 0x08:
		return NewArray(), nil
	case 0x0a:
		return new(StrictArray), nil
	case 0x0c:
		return new(LongString), nil
	}
	return nil, fmt.Errorf("amf0: unknown packet identifier %#x", marker)
}

// Decode reads one value from r. It returns io.EOF only if r was at its end.
func Decode(r io.Reader) (AmfType, error) {
	var m [1]byte
	if _, err := io.ReadFull(r, m[:]); err != nil {
		return nil, err
	}
	v, err := New(m[0])
	if err != nil {
		return nil, err
	}
	if err := v.Decode(r); err != nil {
		if err == io.EOF {
			err = io.ErrUnexpectedEOF
		}
		return nil, err
	}
	return v, nil
}

// readN reads n bytes without trusting n for the allocation.
func readN(r io.Reader, n int) ([]byte, error) {
	buf, err := io.ReadAll(io.LimitReader(r, int64(n)))
	if err == nil && len(buf) < n {
		err = io.ErrUnexpectedEOF
	}
	return buf, err
}

func readStr(r io.Reader) (string, error) {
	var l [2]byte
	if _, err := io.ReadFull(r, l[:]); err != nil {
		return "", err
	}
	b, err := readN(r, int(binary.BigEndian.Uint16(l[:])))
	return string(b), err
}

func strBytes(s string) []byte {
	return append(binary.BigEndian.AppendUint16(nil, uint16(len(s))), s...)
}

func (n *Number) Decode(r io.Reader) error {
	var b [8]byte
	if _, err := io.ReadFull(r, b[:]); err != nil {
		return err
	}
	*n = Number(math.Float64frombits(binary.BigEndian.Uint64(b[:])))
	return nil
}
func (n *Number) Encode(w io.Writer) (int, error) {
	return w.Write(binary.BigEndian.AppendUint64([]byte{0}, math.Float64bits(float64(*n))))
}
func (n *Boolean) Decode(r io.Reader) error {
	var b [1]byte
	if _, err := io.ReadFull(r, b[:]); err != nil {
		return err
	}
	*n = b[0] != 0
	return nil
}
func (n *Boolean) Encode(w io.Writer) (int, error) {
	b := []byte{1, 0}
	if *n {
		b[1] = 1
	}
	return w.Write(b)
}
func (n *String) Decode(r io.Reader) error {
	s, err := readStr(r)
	if err == nil {
		*n = String(s)
	}
	return err
}
func (n *String) Encode(w io.Writer) (int, error) {
	if len(*n) > 0xffff {
		return 0, fmt.Errorf("amf0: string too long")
	}
	return w.Write(append([]byte{2}, strBytes(string(*n))...))
}
func (n *LongString) Decode(r io.Reader) error {
	var l [4]byte
	if _, err := io.ReadFull(r, l[:]); err != nil {
		return err
	}
	b, err := readN(r, int(binary.BigEndian.Uint32(l[:])))
	if err == nil {
		*n = LongString(b)
	}
	return err
}
func (n *LongString) Encode(w io.Writer) (int, error) {
	return w.Write(append(binary.BigEndian.AppendUint32([]byte{0x0c}, uint32(len(*n))), *n...))
}
func (*Null) Decode(io.Reader) error               { return nil }
func (*Null) Encode(w io.Writer) (int, error)      { return w.Write([]byte{5}) }
func (*Undefined) Decode(io.Reader) error          { return nil }
func (*Undefined) Encode(w io.Writer) (int, error) { return w.Write([]byte{6}) }

func (p *Paired) Len() int         { return len(p.keys) }
func (p *Paired) Key(i int) string { return p.keys[i] }
func (p *Paired) At(i int) AmfType { return p.values[i] }

// Add appends a pair and returns the receiver.
func (p *Paired) Add(key string, val AmfType) *Paired {
	p.keys = append(p.keys, key)
	p.values = append(p.values, val)
	return p
}

// Get returns the first value with the given key.
func (p *Paired) Get(key string) (AmfType, error) {
	for i, k := range p.keys {
		if k == key {
			return p.values[i], nil
		}
	}
	return nil, fmt.Errorf("amf0: key %q not found", key)
}

func (p *Paired) decode(r io.Reader) error {
	p.keys, p.values = nil, nil
	for {
		k, err := readStr(r)
		if err != nil {
			return err
		}
		if k == "" {
			var b [1]byte
			if _, err := io.ReadFull(r, b[:]); err != nil {
				return err
			}
			if b[0] == 9 {
				return nil
			}
			v, err := New(b[0])
			if err != nil {
				return err
			}
			if err := v.Decode(r); err != nil {
				return err
			}
			p.Add(k, v)
			continue
		}
		v, err := Decode(r)
		if err != nil {
			return err
		}
		p.Add(k, v)
	}
}

func (p *Paired) encode(w io.Writer) error {
	if p != nil {
		for i, k := range p.keys {
			if _, err := w.Write(strBytes(k)); err != nil {
				return err
			}
			if _, err := p.values[i].Encode(w); err != nil {
				return err
			}
		}
	}
	_, err := w.Write([]byte{0, 0, 9})
	return err
}

func (o *Object) Decode(r io.Reader) error {
	if o.Paired == nil {
		o.Paired = NewPaired()
	}
	return o.decode(r)
}
func (o *Object) Encode(w io.Writer) (int, error) {
	if n, err := w.Write([]byte{3}); err != nil {
		return n, err
	}
	return 0, o.encode(w)
}
func (a *Array) Decode(r io.Reader) error {
	var l [4]byte
	if _, err := io.ReadFull(r, l[:]); err != nil {
		return err
	}
	if a.Paired == nil {
		a.Paired = NewPaired()
	}
	return a.decode(r)
}
func (a *Array) Encode(w io.Writer) (int, error) {
	n := 0
	if a.Paired != nil {
		n = a.Len()
	}
	if n, err := w.Write(binary.BigEndian.AppendUint32([]byte{8}, uint32(n))); err != nil {
		return n, err
	}
	return 0, a.encode(w)
}
func (a *StrictArray) Decode(r io.Reader) error {
	var l [4]byte
	if _, err := io.ReadFull(r, l[:]); err != nil {
		return err
	}
	for n := binary.BigEndian.Uint32(l[:]); n > 0; n-- {
		v, err := Decode(r)
		if err != nil {
			return err
		}
		a.Values = append(a.Values, v)
	}
	return nil
}
func (a *StrictArray) Encode(w io.Writer) (int, error) {
	if n, err := w.Write(binary.BigEndian.AppendUint32([]byte{0x0a}, uint32(len(a.Values)))); err != nil {
		return n, err
	}
	for _, v := range a.Values {
		if _, err := v.Encode(w); err != nil {
			return 0, err
		}
	}
	return 0, nil
}
