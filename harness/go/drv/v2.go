package main

import (
	"math"
	"strings"

	p "github.com/loopholelabs/polyglot/v2"

	"verif/wire"
)

func v2k(b byte) p.Kind { return p.Kind(b) }

type v2Enc struct{ b *p.Buffer }

func (e *v2Enc) op(o wire.Op) {
	c := p.Encoder(e.b)
	switch o.C {
	case 'n':
		c.Nil()
	case 'a':
		c.Slice(uint32(o.U), v2k(o.K1))
	case 'm':
		c.Map(uint32(o.U), v2k(o.K1), v2k(o.K2))
	case 'x', 'X':
		c.Bytes(o.Data())
	case 's', 'S':
		c.String(string(o.Data()))
	case 'e', 'R':
		c.Error(errorOf(o.Data()))
	case 'b':
		c.Bool(o.U == 1)
	case 'u':
		c.Uint8(uint8(o.U))
	case 'v':
		c.Uint16(uint16(o.U))
	case 'w':
		c.Uint32(uint32(o.U))
	case 'q':
		c.Uint64(o.U)
	case 'i':
		c.Int32(int32(o.U))
	case 'l':
		c.Int64(int64(o.U))
	case 'f':
		c.Float32(math.Float32frombits(uint32(o.U)))
	case 'd':
		c.Float64(math.Float64frombits(o.U))
	default:
		panic("op")
	}
}
func (e *v2Enc) raw(b []byte)  { e.b.Write(b) }
func (e *v2Enc) reset()        { e.b.Reset() }
func (e *v2Enc) bytes() []byte { return e.b.Bytes() }
func (e *v2Enc) len() int      { return e.b.Len() }

type v2Dec struct {
	d *p.BufferDecoder
	dsts
}

var v2Errs = map[byte]error{
	'a': p.ErrInvalidSlice,
	'm': p.ErrInvalidMap,
	'x': p.ErrInvalidBytes,
	's': p.ErrInvalidString,
	'e': p.ErrInvalidError,
	'b': p.ErrInvalidBool,
	'u': p.ErrInvalidUint8,
	'v': p.ErrInvalidUint16,
	'w': p.ErrInvalidUint32,
	'q': p.ErrInvalidUint64,
	'i': p.ErrInvalidInt32,
	'l': p.ErrInvalidInt64,
	'f': p.ErrInvalidFloat32,
	'd': p.ErrInvalidFloat64,
}

func v2Err(err error) string {
	for c, e := range v2Errs {
		if err == e {
			return "!" + string(c)
		}
	}
	return "?" + strings.Join(strings.Fields(err.Error()), "_")
}

func (d *v2Dec) op(r wire.Op) func() string {
	tok := func(s string) func() string { return func() string { return s } }
	var err error
	o := wire.Op{C: r.C}
	switch r.C {
	case 'n':
		if d.d.Nil() {
			return tok("n1")
		}
		return tok("n0")
	case 'a':
		var n uint32
		n, err = d.d.Slice(v2k(r.K1))
		o.U = uint64(n)
	case 'm':
		var n uint32
		n, err = d.d.Map(v2k(r.K1), v2k(r.K2))
		o.U = uint64(n)
	case 'x', 'X':
		o.B, err = d.d.Bytes(d.take())
		o.C = 'x'
	case 's', 'S':
		var s string
		s, err = d.d.String()
		if err == nil {
			return func() string { return wire.Op{C: 's', B: []byte(s)}.ResText() }
		}
	case 'e', 'R':
		var v error
		v, err = d.d.Error()
		o.C = 'e'
		if err == nil {
			if v == nil {
				return tok("?nil-error")
			}
			return func() string { return wire.Op{C: 'e', B: []byte(v.Error())}.ResText() }
		} else if v != nil {
			return tok("?value-with-error")
		}
	case 'b':
		var v bool
		v, err = d.d.Bool()
		if v {
			o.U = 1
		}
	case 'u':
		var v uint8
		v, err = d.d.Uint8()
		o.U = uint64(v)
	case 'v':
		var v uint16
		v, err = d.d.Uint16()
		o.U = uint64(v)
	case 'w':
		var v uint32
		v, err = d.d.Uint32()
		o.U = uint64(v)
	case 'q':
		o.U, err = d.d.Uint64()
	case 'i':
		var v int32
		v, err = d.d.Int32()
		o.U = uint64(int64(v))
	case 'l':
		var v int64
		v, err = d.d.Int64()
		o.U = uint64(v)
	case 'f':
		var v float32
		v, err = d.d.Float32()
		o.U = uint64(math.Float32bits(v))
	case 'd':
		var v float64
		v, err = d.d.Float64()
		o.U = math.Float64bits(v)
	default:
		panic("req")
	}
	if err != nil {
		return tok(v2Err(err))
	}
	return o.ResText
}

var v2Impl = impl{
	newEnc:  func() encoder { return &v2Enc{p.NewBuffer()} },
	sized:   func(n int) encoder { return &v2Enc{p.NewBufferSize(n)} },
	from:    func(b []byte) encoder { return &v2Enc{p.NewBufferFromBytes(b)} },
	fromAdd: false,
	pooled: func() encoder {
		b := p.GetBuffer()
		p.Encoder(b).String("left over from an earlier holder").Uint64(1 << 63)
		p.PutBuffer(b)
		return &v2Enc{p.GetBuffer()}
	},
	newDec: func(b []byte) (decoder, func()) {
		return &v2Dec{p.Decoder(b), newDsts(b)}, func() {}
	},
}
