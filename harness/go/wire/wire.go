// Package wire is the independent reference model of the polyglot wire format:
// an encoder, and a decoder that classifies every decode call on every byte string.
package wire

import (
	"encoding/hex"
	"fmt"
	"strconv"
	"strings"
)

// Op is one item (encode) or one request (decode). Codes:
//
//	n nil, a slice header, m map header, y any (TypeScript only), x bytes, s string, e error, b bool,
//	u uint8, v uint16, w uint32, q uint64, i int32, l int64, f float32 bits, d float64 bits,
//	X/S/R bytes/string/error of U patterned bytes (seed K1).
type Op struct {
	C      byte
	K1, K2 byte
	U      uint64
	B      []byte
}

const (
	TNil = iota
	TSlice
	TMap
	TAny
	TBytes
	TString
	TError
	TBool
	TU8
	TU16
	TU32
	TU64
	TI32
	TI64
	TF32
	TF64
)

// Pattern fills n deterministic bytes; text keeps them valid UTF-8, and for seeds of 200 and more mixes in characters
// of two, three and four bytes. Every driver has the same function.
func Pattern(n int, seed byte, text bool) []byte {
	b := make([]byte, 0, n)
	x := uint32(seed)*2654435761 + 1
	for len(b) < n {
		x = x*1664525 + 1013904223
		c := byte(x >> 24)
		room := n - len(b)
		switch wide := text && seed >= 200; {
		case wide && c%3 == 0 && room >= 2:
			b = append(b, 0xc3, 0x80+c%64)
		case wide && c%7 == 0 && room >= 3:
			b = append(b, 0xe4, 0xb8, 0x80+c%64)
		case wide && c%11 == 0 && room >= 4:
			b = append(b, 0xf0, 0x9f, 0x98, 0x80+c%64)
		case text:
			b = append(b, 'a'+c%26)
		default:
			b = append(b, c)
		}
	}
	return b
}

func (o Op) Data() []byte {
	switch o.C {
	case 'X':
		return Pattern(int(o.U), o.K1, false)
	case 'S', 'R':
		return Pattern(int(o.U), o.K1, true)
	}
	return o.B
}

// Text is the token of the op in the driver protocol for encoding.
func (o Op) Text() string {
	switch o.C {
	case 'n', 'y':
		return string(o.C)
	case 'a':
		return fmt.Sprintf("a%d,%d", o.K1, o.U)
	case 'm':
		return fmt.Sprintf("m%d,%d,%d", o.K1, o.K2, o.U)
	case 'x', 's', 'e':
		return string(o.C) + hex.EncodeToString(o.B)
	case 'i', 'l':
		return string(o.C) + strconv.FormatInt(int64(o.U), 10)
	case 'f':
		return fmt.Sprintf("f%08x", uint32(o.U))
	case 'd':
		return fmt.Sprintf("d%016x", o.U)
	case 'X', 'S', 'R':
		return fmt.Sprintf("%c%d,%d", o.C, o.U, o.K1)
	}
	return string(o.C) + strconv.FormatUint(o.U, 10)
}

// ReqText is the token of the op as a decode request.
func (o Op) ReqText() string {
	switch o.C {
	case 'a':
		return fmt.Sprintf("a%d", o.K1)
	case 'm':
		return fmt.Sprintf("m%d,%d", o.K1, o.K2)
	case 'X':
		return "x"
	case 'S':
		return "s"
	case 'R':
		return "e"
	}
	return string(o.C)
}

func Texts(ops []Op) string {
	s := make([]string, len(ops))
	for i, o := range ops {
		s[i] = o.Text()
	}
	return strings.Join(s, " ")
}

func Reqs(ops []Op) string {
	s := make([]string, len(ops))
	for i, o := range ops {
		s[i] = o.ReqText()
	}
	return strings.Join(s, " ")
}

func uvarint(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func zig(v int64) uint64 { return uint64(v)<<1 ^ uint64(v>>63) }

// Append appends the reference encoding of o.
func Append(b []byte, o Op) []byte {
	lenPrefixed := func(d []byte) []byte {
		b = append(b, TU32)
		b = uvarint(b, uint64(len(d)))
		return append(b, d...)
	}
	switch o.C {
	case 'n':
		return append(b, TNil)
	case 'y':
		return append(b, TAny)
	case 'a':
		b = append(b, TSlice, o.K1, TU32)
		return uvarint(b, o.U)
	case 'm':
		b = append(b, TMap, o.K1, o.K2, TU32)
		return uvarint(b, o.U)
	case 'x', 'X':
		b = append(b, TBytes)
		return lenPrefixed(o.Data())
	case 's', 'S':
		b = append(b, TString)
		return lenPrefixed(o.Data())
	case 'e', 'R':
		b = append(b, TError, TString)
		return lenPrefixed(o.Data())
	case 'b':
		return append(b, TBool, byte(o.U))
	case 'u':
		return append(b, TU8, byte(o.U))
	case 'v':
		return uvarint(append(b, TU16), o.U)
	case 'w':
		return uvarint(append(b, TU32), o.U)
	case 'q':
		return uvarint(append(b, TU64), o.U)
	case 'i':
		return uvarint(append(b, TI32), zig(int64(o.U)))
	case 'l':
		return uvarint(append(b, TI64), zig(int64(o.U)))
	case 'f':
		return append(b, TF32, byte(o.U>>24), byte(o.U>>16), byte(o.U>>8), byte(o.U))
	case 'd':
		b = append(b, TF64)
		for s := 56; s >= 0; s -= 8 {
			b = append(b, byte(o.U>>s))
		}
		return b
	}
	panic("bad op " + string(o.C))
}

func Encode(ops []Op) []byte {
	var b []byte
	for _, o := range ops {
		b = Append(b, o)
	}
	return b
}

// Verdict of the model about one decode request at one position.
type Verdict int

const (
	Value    Verdict = iota // must succeed with exactly this value, consuming exactly this item
	FailKeep                // must fail and must not move
	Fail                    // must fail (position afterwards unspecified)
	Lenient                 // may fail (position afterwards unspecified) or give exactly this value, consuming exactly this item
	Gray                    // not specified: any outcome but a crash
)

func (v Verdict) String() string {
	return [...]string{"value", "failkeep", "fail", "lenient", "gray"}[v]
}

// Result is the model's answer: the op with the decoded value and the position after it.
type Result struct {
	V   Verdict
	Op  Op
	Pos int
}

// readVarint reads at most groups groups. One whose value does not fit is malformed; one with a redundant last group is Lenient.
func readVarint(b []byte, pos, groups, bits int) (v uint64, next int, verdict Verdict) {
	for g := 0; g < groups; g++ {
		if pos >= len(b) {
			return 0, pos, Fail
		}
		c := b[pos]
		pos++
		sh := 7 * g
		v |= uint64(c&0x7f) << sh
		if sh+7 > bits && uint64(c&0x7f)>>(bits-sh) != 0 {
			return 0, pos, Fail
		}
		if c < 0x80 {
			if g > 0 && c == 0 {
				return v, pos, Lenient
			}
			return v, pos, Value
		}
	}
	return 0, pos, Fail
}

var scalarTag = map[byte]byte{'b': TBool, 'u': TU8, 'v': TU16, 'w': TU32, 'q': TU64, 'i': TI32, 'l': TI64, 'f': TF32, 'd': TF64}

// Decode gives the model's verdict for request r at pos of b.
func Decode(b []byte, pos int, r Op) Result {
	rest := b[pos:]
	keep := Result{V: FailKeep, Pos: pos}
	fail := Result{V: Fail}
	if len(rest) == 0 {
		return keep
	}
	// header compares the fixed header bytes of the item: mismatch is certain as soon as one available byte differs.
	header := func(h ...byte) (Verdict, int) {
		for i, c := range h {
			if i >= len(rest) {
				return Fail, 0
			}
			if rest[i] != c {
				return FailKeep, 0
			}
		}
		return Value, pos + len(h)
	}
	length := func(p int) (uint64, int, Verdict) {
		if p >= len(b) {
			return 0, p, Fail
		}
		if b[p] != TU32 {
			return 0, p, Fail
		}
		return readVarint(b, p+1, 5, 32)
	}
	data := func(p int) Result {
		n, q, v := length(p)
		if v == Fail || n > uint64(len(b)-q) {
			return fail
		}
		return Result{V: v, Op: Op{C: r.C, B: b[q : q+int(n)]}, Pos: q + int(n)}
	}
	switch r.C {
	case 'n':
		if rest[0] == TNil {
			return Result{V: Value, Op: Op{C: 'n'}, Pos: pos + 1}
		}
		return keep
	case 'y':
		if rest[0] == TAny {
			return Result{V: Value, Op: Op{C: 'y'}, Pos: pos + 1}
		}
		return keep
	case 'a', 'm':
		h := []byte{TSlice, r.K1}
		if r.C == 'm' {
			h = []byte{TMap, r.K1, r.K2}
		}
		v, p := header(h...)
		if v != Value {
			return Result{V: v, Pos: pos}
		}
		n, q, v := length(p)
		if v == Fail {
			return fail
		}
		return Result{V: v, Op: Op{C: r.C, K1: r.K1, K2: r.K2, U: n}, Pos: q}
	case 'x', 's', 'e':
		h := map[byte]byte{'x': TBytes, 's': TString, 'e': TError}[r.C]
		if rest[0] != h {
			return keep
		}
		p := pos + 1
		if r.C == 'e' {
			if p >= len(b) || b[p] != TString {
				return fail
			}
			p++
		}
		return data(p)
	}
	tag, ok := scalarTag[r.C]
	if !ok {
		panic("bad request " + string(r.C))
	}
	if rest[0] != tag {
		return keep
	}
	p := pos + 1
	fixed := map[byte]int{'b': 1, 'u': 1, 'f': 4, 'd': 8}[r.C]
	if fixed > 0 {
		if len(b)-p < fixed {
			return fail
		}
		var u uint64
		for i := 0; i < fixed; i++ {
			u = u<<8 | uint64(b[p+i])
		}
		if r.C == 'b' && u > 1 {
			return fail
		}
		return Result{V: Value, Op: Op{C: r.C, U: u}, Pos: p + fixed}
	}
	g, bits := 5, 32
	switch r.C {
	case 'v':
		g, bits = 3, 16
	case 'q', 'l':
		g, bits = 10, 64
	}
	u, q, v := readVarint(b, p, g, bits)
	if v == Fail {
		return fail
	}
	if r.C == 'i' || r.C == 'l' {
		u = uint64(int64(u>>1) ^ -int64(u&1))
	}
	return Result{V: v, Op: Op{C: r.C, U: u}, Pos: q}
}

// ResText is how a driver prints a successfully decoded value.
func (o Op) ResText() string {
	switch o.C {
	case 'n', 'y':
		return string(o.C) + "1"
	case 'a', 'm':
		return string(o.C) + strconv.FormatUint(o.U, 10)
	case 'x', 's', 'e', 'X', 'S', 'R':
		c := o.ReqText()
		d := o.Data()
		if len(d) > DigestOver {
			return c + Digest(d)
		}
		return c + hex.EncodeToString(d)
	}
	return o.Text()
}

// DigestOver is the size above which drivers print a digest instead of hex.
const DigestOver = 4096

// Digest is the cross-language digest of a byte string: length and two FNV-1a 32 hashes.
func Digest(b []byte) string {
	h1, h2 := uint32(2166136261), uint32(84696351)
	for _, c := range b {
		h1 = (h1 ^ uint32(c)) * 16777619
		h2 = (h2 ^ uint32(c)) * 16777619
		h2 = h2<<5 | h2>>27
	}
	return fmt.Sprintf("#%d:%08x:%08x", len(b), h1, h2)
}

// OutText is how a driver prints an encoded buffer.
func OutText(b []byte) string {
	if len(b) > 65536 {
		return Digest(b)
	}
	return "=" + hex.EncodeToString(b)
}

func Hex(b []byte) string { return hex.EncodeToString(b) }

// Unhex parses protocol hex; "-" is empty.
func Unhex(s string) []byte {
	if s == "-" {
		return []byte{}
	}
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

// HexArg is the protocol form of an input, never empty.
func HexArg(b []byte) string {
	if len(b) == 0 {
		return "-"
	}
	return hex.EncodeToString(b)
}

func num(s string, base int) uint64 {
	v, err := strconv.ParseUint(s, base, 64)
	if err != nil {
		panic(err)
	}
	return v
}

// ParseOp reads the token Text wrote.
func ParseOp(t string) Op {
	o := Op{C: t[0]}
	a := strings.Split(t[1:], ",")
	switch o.C {
	case 'n', 'y':
	case 'a':
		o.K1, o.U = byte(num(a[0], 10)), num(a[1], 10)
	case 'm':
		o.K1, o.K2, o.U = byte(num(a[0], 10)), byte(num(a[1], 10)), num(a[2], 10)
	case 'x', 's', 'e':
		o.B = Unhex(t[1:])
	case 'i', 'l':
		v, err := strconv.ParseInt(t[1:], 10, 64)
		if err != nil {
			panic(err)
		}
		o.U = uint64(v)
	case 'f', 'd':
		o.U = num(t[1:], 16)
	case 'X', 'S', 'R':
		o.U, o.K1 = num(a[0], 10), byte(num(a[1], 10))
	default:
		o.U = num(t[1:], 10)
	}
	return o
}

// ParseReq reads the token ReqText wrote.
func ParseReq(t string) Op {
	o := Op{C: t[0]}
	a := strings.Split(t[1:], ",")
	switch o.C {
	case 'a':
		o.K1 = byte(num(a[0], 10))
	case 'm':
		o.K1, o.K2 = byte(num(a[0], 10)), byte(num(a[1], 10))
	}
	return o
}
