package main

import (
	"math"

	v1 "github.com/loopholelabs/polyglot"
	v2 "github.com/loopholelabs/polyglot/v2"

	"verif/wire"
)

func k1(b byte) v1.Kind { return v1Kinds[b&15] }

var v1Kinds = []v1.Kind{v1.NilKind, v1.SliceKind, v1.MapKind, v1.AnyKind, v1.BytesKind, v1.StringKind, v1.ErrorKind, v1.BoolKind, v1.Uint8Kind, v1.Uint16Kind, v1.Uint32Kind, v1.Uint64Kind, v1.Int32Kind, v1.Int64Kind, v1.Float32Kind, v1.Float64Kind}
var v2Kinds = []v2.Kind{v2.NilKind, v2.SliceKind, v2.MapKind, v2.AnyKind, v2.BytesKind, v2.StringKind, v2.ErrorKind, v2.BoolKind, v2.Uint8Kind, v2.Uint16Kind, v2.Uint32Kind, v2.Uint64Kind, v2.Int32Kind, v2.Int64Kind, v2.Float32Kind, v2.Float64Kind}

func k2(b byte) v2.Kind { return v2Kinds[b&15] }

// args holds the arguments of one encode call, prepared outside of what is measured.
type args struct {
	o wire.Op
	b []byte
	s string
	e error
}

func prep(o wire.Op) *args {
	d := append([]byte(nil), o.Data()...)
	return &args{o: o, b: d, s: string(d), e: v1.Error(string(d))}
}

func enc1(b *v1.Buffer, a *args) {
	e := v1.Encoder(b)
	o := a.o
	switch o.C {
	case 'n':
		e.Nil()
	case 'a':
		e.Slice(uint32(o.U), k1(o.K1))
	case 'm':
		e.Map(uint32(o.U), k1(o.K1), k1(o.K2))
	case 'x', 'X':
		e.Bytes(a.b)
	case 's', 'S':
		e.String(a.s)
	case 'e', 'R':
		e.Error(a.e)
	case 'b':
		e.Bool(o.U == 1)
	case 'u':
		e.Uint8(uint8(o.U))
	case 'v':
		e.Uint16(uint16(o.U))
	case 'w':
		e.Uint32(uint32(o.U))
	case 'q':
		e.Uint64(o.U)
	case 'i':
		e.Int32(int32(o.U))
	case 'l':
		e.Int64(int64(o.U))
	case 'f':
		e.Float32(math.Float32frombits(uint32(o.U)))
	case 'd':
		e.Float64(math.Float64frombits(o.U))
	}
}

func enc2(b *v2.Buffer, a *args) {
	e := v2.Encoder(b)
	o := a.o
	switch o.C {
	case 'n':
		e.Nil()
	case 'a':
		e.Slice(uint32(o.U), k2(o.K1))
	case 'm':
		e.Map(uint32(o.U), k2(o.K1), k2(o.K2))
	case 'x', 'X':
		e.Bytes(a.b)
	case 's', 'S':
		e.String(a.s)
	case 'e', 'R':
		e.Error(a.e)
	case 'b':
		e.Bool(o.U == 1)
	case 'u':
		e.Uint8(uint8(o.U))
	case 'v':
		e.Uint16(uint16(o.U))
	case 'w':
		e.Uint32(uint32(o.U))
	case 'q':
		e.Uint64(o.U)
	case 'i':
		e.Int32(int32(o.U))
	case 'l':
		e.Int64(int64(o.U))
	case 'f':
		e.Float32(math.Float32frombits(uint32(o.U)))
	case 'd':
		e.Float64(math.Float64frombits(o.U))
	}
}

// dec is what both decoders offer.
type dec interface {
	Nil() bool
	Bytes([]byte) ([]byte, error)
	String() (string, error)
	Error() (error, error)
	Bool() (bool, error)
	Uint8() (uint8, error)
	Uint16() (uint16, error)
	Uint32() (uint32, error)
	Uint64() (uint64, error)
	Int32() (int32, error)
	Int64() (int64, error)
	Float32() (float32, error)
	Float64() (float64, error)
}

func sliceOf(d dec, k byte) (uint32, error) {
	switch d := d.(type) {
	case *v1.Decoder:
		return d.Slice(k1(k))
	case *v2.BufferDecoder:
		return d.Slice(k2(k))
	}
	panic("dec")
}

func mapOf(d dec, a, b byte) (uint32, error) {
	switch d := d.(type) {
	case *v1.Decoder:
		return d.Map(k1(a), k1(b))
	case *v2.BufferDecoder:
		return d.Map(k2(a), k2(b))
	}
	panic("dec")
}

// decOp decodes one item; ok is false on failure.
func decOp(d dec, r wire.Op, dst []byte) (o wire.Op, ok bool) {
	var err error
	o = wire.Op{C: r.C}
	switch r.C {
	case 'n':
		return o, d.Nil()
	case 'a':
		var v uint32
		v, err = sliceOf(d, r.K1)
		o.U = uint64(v)
	case 'm':
		var v uint32
		v, err = mapOf(d, r.K1, r.K2)
		o.U = uint64(v)
	case 'x':
		o.B, err = d.Bytes(dst)
	case 's':
		var s string
		s, err = d.String()
		o.B = []byte(s)
	case 'e':
		var v error
		v, err = d.Error()
		if err == nil {
			o.B = []byte(v.Error())
		}
	case 'b':
		var v bool
		v, err = d.Bool()
		if v {
			o.U = 1
		}
	case 'u':
		var v uint8
		v, err = d.Uint8()
		o.U = uint64(v)
	case 'v':
		var v uint16
		v, err = d.Uint16()
		o.U = uint64(v)
	case 'w':
		var v uint32
		v, err = d.Uint32()
		o.U = uint64(v)
	case 'q':
		o.U, err = d.Uint64()
	case 'i':
		var v int32
		v, err = d.Int32()
		o.U = uint64(int64(v))
	case 'l':
		var v int64
		v, err = d.Int64()
		o.U = uint64(v)
	case 'f':
		var v float32
		v, err = d.Float32()
		o.U = uint64(math.Float32bits(v))
	case 'd':
		var v float64
		v, err = d.Float64()
		o.U = math.Float64bits(v)
	}
	return o, err == nil
}

func req(o wire.Op) wire.Op {
	r := wire.Op{C: o.C, K1: o.K1, K2: o.K2}
	switch o.C {
	case 'X':
		r.C = 'x'
	case 'S':
		r.C = 's'
	case 'R':
		r.C = 'e'
	}
	return r
}

func items(r *wire.RNG, n, max int) []wire.Op {
	ops := make([]wire.Op, n)
	for i := range ops {
		ops[i] = r.Item(wire.Alphabet[r.N(len(wire.Alphabet))], wire.Opts{MaxData: max, RawText: true})
	}
	return ops
}
