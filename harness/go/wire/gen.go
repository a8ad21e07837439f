package wire

import "unicode/utf8"

const Alphabet = "namxsebuvwqilfd"

var edges = []string{"\x00", " ", "\n", "\t", "\"", "'", "\\", "%", "\ufeff", "\u200b", "\u0301", "\u00a0", "\r\n", "/", "{{", "\u2028"}

// Text generates a valid UTF-8 text, sometimes with characters at its ends that careless code strips; n is a rough size in bytes.
func (r *RNG) Text(n int) []byte {
	var b []byte
	style := r.N(5)
	for len(b) < n {
		var c rune
		switch style {
		case 0, 1:
			c = rune('a' + r.N(26))
		case 2:
			c = rune(1 + r.N(0x7f))
		default:
			switch r.N(6) {
			case 0:
				c = rune(0x80 + r.N(0x700))
			case 1:
				c = rune(0x800 + r.N(0xd800-0x800))
			case 2:
				c = rune(0x10000 + r.N(0x10ffff-0x10000+1))
			case 3:
				c = 0xfeff
			case 4:
				c = []rune{0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0xd7ff, 0xe000, 0xfffd}[r.N(10)]
			default:
				c = rune(1 + r.N(0x7f))
			}
		}
		if !utf8.ValidRune(c) {
			c = 'z'
		}
		b = utf8.AppendRune(b, c)
	}
	if n > 0 && r.N(6) == 0 {
		if e := edges[r.N(len(edges))]; r.Bool() {
			b = append([]byte(e), b...)
		} else {
			b = append(b, e...)
		}
	}
	return b
}

// Size picks a data size: mostly small, often at a varint boundary.
func (r *RNG) Size(max int) int {
	var n int
	switch r.N(10) {
	case 0:
		n = 0
	case 1, 2, 3, 4:
		n = r.N(20)
	case 5, 6:
		n = r.N(300)
	case 7:
		n = 126 + r.N(5)
	case 8:
		n = 16382 + r.N(5)
	default:
		n = r.N(3000)
	}
	if n > max {
		n = r.N(max + 1)
	}
	return n
}

// Opts limits what Item generates.
type Opts struct {
	MaxData int
	RawText bool // strings/errors may be arbitrary bytes
	NoNaN   bool
}

// Item generates one random value op of code c.
func (r *RNG) Item(c byte, o Opts) Op {
	op := Op{C: c}
	switch c {
	case 'a':
		op.K1, op.U = byte(r.N(16)), r.Bits(32)
	case 'm':
		op.K1, op.K2, op.U = byte(r.N(16)), byte(r.N(16)), r.Bits(32)
	case 'x':
		op.B = r.Bytes(r.Size(o.MaxData))
	case 's', 'e':
		if o.RawText && r.N(3) == 0 {
			op.B = r.Bytes(r.Size(o.MaxData))
		} else {
			op.B = r.Text(r.Size(o.MaxData))
		}
	case 'b':
		op.U = uint64(r.N(2))
	case 'u':
		op.U = r.Bits(8)
	case 'v':
		op.U = r.Bits(16)
	case 'w':
		op.U = r.Bits(32)
	case 'q':
		op.U = r.Bits(64)
	case 'i':
		u := uint32(r.Bits(32))
		op.U = uint64(int64(int32(u>>1) ^ -int32(u&1)))
	case 'l':
		u := r.Bits(64)
		op.U = uint64(int64(u>>1) ^ -int64(u&1))
	case 'f':
		op.U = uint64(r.f32())
		if o.NoNaN && op.U&0x7f800000 == 0x7f800000 && op.U&0x7fffff != 0 {
			op.U = 0x3f800000
		}
	case 'd':
		op.U = r.f64()
		if o.NoNaN && op.U&0x7ff0000000000000 == 0x7ff0000000000000 && op.U&0xfffffffffffff != 0 {
			op.U = 0x3ff0000000000000
		}
	}
	return op
}

func (r *RNG) f32() uint32 {
	switch r.N(4) {
	case 0:
		return []uint32{0, 1 << 31, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f800001, 1, 0x007fffff, 0x00800000, 0x7f7fffff, 0x80000001, 0x01020304, 0xffffffff}[r.N(15)]
	}
	return uint32(r.U64())
}

func (r *RNG) f64() uint64 {
	switch r.N(4) {
	case 0:
		return []uint64{0, 1 << 63, 0x3ff0000000000000, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0x7ff0000000000001, 1, 0x000fffffffffffff, 0x0010000000000000, 0x7fefffffffffffff, 0x0102030405060708, ^uint64(0)}[r.N(13)]
	}
	return r.U64()
}

// Boundary lists the fixed boundary values of every scalar kind: every power of two and its neighbours, both signs.
func Boundary() []Op {
	var out []Op
	seen := map[string]bool{}
	add := func(o Op) {
		if t := o.Text(); !seen[t] {
			seen[t] = true
			out = append(out, o)
		}
	}
	for _, b := range []uint64{0, 1} {
		add(Op{C: 'b', U: b})
	}
	add(Op{C: 'n'})
	for i := 0; i < 256; i++ {
		add(Op{C: 'u', U: uint64(i)})
	}
	var pts []uint64
	for s := 0; s < 64; s++ {
		p := uint64(1) << uint(s)
		pts = append(pts, p-1, p, p+1, ^p, ^(p - 1))
	}
	// varint groups that are all ones or all zeros in the middle
	for g := 0; g < 9; g++ {
		pts = append(pts, uint64(0x7f)<<(7*g), ^(uint64(0x7f) << (7 * g)), 1<<63|uint64(1)<<(7*g))
	}
	for _, p := range pts {
		if p <= 0xffff {
			add(Op{C: 'v', U: p})
		}
		add(Op{C: 'v', U: p & 0xffff})
		add(Op{C: 'w', U: p & 0xffffffff})
		add(Op{C: 'q', U: p})
		add(Op{C: 'l', U: p})
		add(Op{C: 'l', U: uint64(int64(p>>1) ^ -int64(p&1))})
		i := int32(uint32(p))
		add(Op{C: 'i', U: uint64(int64(i))})
		u := uint32(p)
		add(Op{C: 'i', U: uint64(int64(int32(u>>1) ^ -int32(u&1)))})
		add(Op{C: 'f', U: p & 0xffffffff})
		add(Op{C: 'd', U: p})
		add(Op{C: 'a', K1: byte(p % 16), U: p & 0xffffffff})
		add(Op{C: 'm', K1: byte(p % 16), K2: byte(p / 16 % 16), U: p & 0xffffffff})
	}
	for k := 0; k < 16; k++ {
		add(Op{C: 'a', K1: byte(k), U: 3})
		for j := 0; j < 16; j++ {
			add(Op{C: 'm', K1: byte(k), K2: byte(j), U: 300})
		}
	}
	return out
}
