package schema

import (
	"encoding/hex"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"verif/wire"
)

// Val is a value of a field: a scalar (U or B), a list (L), a map (L: key, value, key, value...) or a message (L: one per declared field; Nil: absent).
type Val struct {
	U   uint64
	B   []byte
	L   []*Val
	Nil bool
}

// Layout is the order in which the fields of m are written: scalars and enums, then lists, then messages and maps.
func Layout(m *Message) []int {
	var a, b, c []int
	for i, f := range m.Fields {
		switch {
		case f.Rep:
			b = append(b, i)
		case f.Map || f.T == Msg:
			c = append(c, i)
		default:
			a = append(a, i)
		}
	}
	return append(append(a, b...), c...)
}

// headless: the first item of the encoding is the message of the first field, so it must not be absent.
func leadingMessage(m *Message) int {
	l := Layout(m)
	if len(l) == 0 {
		return -1
	}
	if f := m.Fields[l[0]]; f.T == Msg && !f.Rep && !f.Map {
		return l[0]
	}
	return -1
}

// GenVal makes a random message; budget bounds its size.
func GenVal(r *wire.RNG, m *Message, depth int, budget *int, noNil bool) *Val {
	v := &Val{}
	lead := leadingMessage(m)
	for i, f := range m.Fields {
		no := noNil || i == lead
		if i != lead && f.T == Msg && !f.Rep && !f.Map && (r.N(3) == 0 || depth > 8 || *budget < 0) && Recursive(m, f) {
			v.L = append(v.L, &Val{Nil: true})
			continue
		}
		v.L = append(v.L, genField(r, f, depth, budget, no))
	}
	return v
}

func genField(r *wire.RNG, f *Field, depth int, budget *int, noNil bool) *Val {
	n := 0
	if f.Rep || f.Map {
		switch r.N(6) {
		case 0:
		case 1:
			n = 1
		case 2, 3, 4:
			n = r.N(5)
		default:
			n = r.N(20)
		}
		if f.T == Msg {
			n = r.N(4)
			if depth > 4 {
				n = 0
			}
		}
		if *budget < 0 {
			n = 0
		}
		if *budget > 20000 && depth < 2 && r.N(3) == 0 { // more than is taken on trust at once, more than one byte counts
			n = []int{127, 128, 129, 300, 1023, 1024, 1025, 1500, 3000}[r.N(9)]
			*budget -= 20000
		}
		if *budget > 150000 && f.T != Msg && f.T != String && f.T != Bytes && (!f.Map || f.KeyT != Bool) { // more than two bytes count
			*budget = 2000
			v := &Val{}
			seen := map[uint64]bool{}
			for n := 66000 + r.N(4000); len(v.L) < n; {
				if f.Map {
					k := genScalar(r, f.KeyT, nil, budget)
					if f.KeyT == String {
						k.B = []byte(fmt.Sprintf("%x", len(v.L)))
					} else {
						k.U = uint64(int32(r.U64()))
						if f.KeyT == Uint32 || f.KeyT == Fixed32 || f.KeyT == Uint64 || f.KeyT == Fixed64 {
							k.U = uint64(uint32(k.U))
						}
						if seen[k.U] {
							continue
						}
						seen[k.U] = true
					}
					v.L = append(v.L, k)
					if len(v.L) == 1 {
						n *= 2
					}
				}
				v.L = append(v.L, genScalar(r, f.T, f.Enum, budget))
			}
			*budget = 2000
			return v
		}
	}
	switch {
	case f.Rep:
		v := &Val{}
		for ; n > 0; n-- {
			v.L = append(v.L, genOne(r, f, depth, budget, noNil))
		}
		return v
	case f.Map:
		v := &Val{}
		seen := map[string]bool{}
		for ; n > 0; n-- {
			k := genScalar(r, f.KeyT, nil, budget)
			t := fmt.Sprint(k.U, string(k.B))
			if seen[t] {
				continue
			}
			seen[t] = true
			v.L = append(v.L, k, genOne(r, f, depth, budget, noNil))
		}
		return v
	}
	return genOne(r, f, depth, budget, noNil)
}

func genOne(r *wire.RNG, f *Field, depth int, budget *int, noNil bool) *Val {
	if f.T != Msg {
		return genScalar(r, f.T, f.Enum, budget)
	}
	if !noNil && r.N(5) == 0 {
		return &Val{Nil: true}
	}
	return GenVal(r, f.Msg, depth+1, budget, noNil)
}

func genScalar(r *wire.RNG, t int, e *Enum, budget *int) *Val {
	*budget -= 4
	switch t {
	case Double:
		if r.N(4) == 0 {
			return &Val{U: []uint64{0, 1 << 63, 0x7ff0000000000000, 0xfff0000000000000, 1, 0x7fefffffffffffff, 0x7ff8000000000001}[r.N(7)]}
		}
		return &Val{U: r.U64()}
	case Float:
		if r.N(4) == 0 {
			return &Val{U: []uint64{0, 1 << 31, 0x7f800000, 0xff800000, 1, 0x7f7fffff, 0x7fc00001}[r.N(7)]}
		}
		return &Val{U: uint64(uint32(r.U64()))}
	case Bool:
		return &Val{U: uint64(r.N(2))}
	case String, Bytes:
		n := r.Size(3000)
		if *budget < 0 || r.N(2) == 0 {
			n = r.N(12)
		}
		if *budget > 20000 && r.N(3) == 0 { // lengths of more than two bytes
			n = []int{16383, 16384, 20000, 65535, 65536, 70000, 200000}[r.N(7)]
			if *budget < n {
				n = 16384
			}
			*budget -= 10000
		}
		*budget -= n
		if t == Bytes {
			return &Val{B: r.Bytes(n)}
		}
		return &Val{B: r.Text(n)}
	case EnumT:
		n := len(e.Values)
		if n > 8 && r.Bool() {
			return &Val{U: uint64(n - 1 - r.N(8))}
		}
		return &Val{U: uint64(r.N(n))}
	case Uint32, Fixed32:
		return &Val{U: r.Bits(32)}
	case Uint64, Fixed64:
		return &Val{U: r.Bits(64)}
	case Int32, Sint32, Sfixed32:
		x := int32(r.Bits(32))
		if r.N(3) == 0 {
			x = -x
		}
		return &Val{U: uint64(int64(x))}
	default:
		x := int64(r.Bits(64))
		if r.N(3) == 0 {
			x = -x
		}
		return &Val{U: uint64(x)}
	}
}

var opOf = [19]byte{Double: 'd', Float: 'f', Int64: 'l', Uint64: 'q', Int32: 'i', Fixed64: 'q', Fixed32: 'w', Bool: 'b', String: 's', Bytes: 'x', Uint32: 'w', EnumT: 'w', Sfixed32: 'i', Sfixed64: 'l', Sint32: 'i', Sint64: 'l'}
var kindOf = [19]byte{Double: wire.TF64, Float: wire.TF32, Int64: wire.TI64, Uint64: wire.TU64, Int32: wire.TI32, Fixed64: wire.TU64, Fixed32: wire.TU32, Bool: wire.TBool, String: wire.TString, Msg: wire.TAny, Bytes: wire.TBytes, Uint32: wire.TU32, EnumT: wire.TU32, Sfixed32: wire.TI32, Sfixed64: wire.TI64, Sint32: wire.TI32, Sint64: wire.TI64}

// Encode is the reference encoding of a message; maps are written in the order of v.
func Encode(b []byte, m *Message, v *Val) []byte {
	if v.Nil {
		return append(b, wire.TNil)
	}
	for _, i := range Layout(m) {
		f, x := m.Fields[i], v.L[i]
		switch {
		case f.Rep:
			b = wire.Append(b, wire.Op{C: 'a', K1: kindOf[f.T], U: uint64(len(x.L))})
			for _, y := range x.L {
				b = encodeOne(b, f, f.T, y)
			}
		case f.Map:
			b = wire.Append(b, wire.Op{C: 'm', K1: kindOf[f.KeyT], K2: kindOf[f.T], U: uint64(len(x.L) / 2)})
			for j := 0; j < len(x.L); j += 2 {
				b = encodeOne(b, f, f.KeyT, x.L[j])
				b = encodeOne(b, f, f.T, x.L[j+1])
			}
		default:
			b = encodeOne(b, f, f.T, x)
		}
	}
	return b
}

func encodeOne(b []byte, f *Field, t int, v *Val) []byte {
	if t == Msg {
		return Encode(b, f.Msg, v)
	}
	return wire.Append(b, wire.Op{C: opOf[t], U: v.U, B: v.B})
}

// Status of a parse.
type Status int

const (
	OK   Status = iota // a message of the schema
	Bad                // not one
	Gray               // depends on what the wire format leaves open (varints with a redundant last group)
)

type parser struct {
	b     []byte
	pos   int
	st    Status
	items *[]Item
	work  int
	gray  bool // depends on redundant varint groups being accepted
	loose bool // lists and maps may name any kinds
}

func (p *parser) fail(s Status) {
	if p.st == OK {
		p.st = s
	}
}

func (p *parser) op(o wire.Op) wire.Op {
	if p.st != OK {
		return wire.Op{}
	}
	if p.loose && o.C == 'a' && p.pos+1 < len(p.b) {
		o.K1 = p.b[p.pos+1]
	}
	if p.loose && o.C == 'm' && p.pos+2 < len(p.b) {
		o.K1, o.K2 = p.b[p.pos+1], p.b[p.pos+2]
	}
	r := wire.Decode(p.b, p.pos, o)
	switch r.V {
	case wire.Value, wire.Lenient:
		p.gray = p.gray || r.V == wire.Lenient
		if p.items != nil {
			it := Item{C: o.C, Start: p.pos, End: r.Pos}
			switch o.C {
			case 'a':
				it.Cnt = p.pos + 3
			case 'm':
				it.Cnt = p.pos + 4
			case 'x', 's':
				it.Cnt = p.pos + 2
			}
			*p.items = append(*p.items, it)
		}
		p.pos = r.Pos
		return r.Op
	case wire.Gray:
		p.fail(Gray)
	default:
		p.fail(Bad)
	}
	return wire.Op{}
}

// Parse reads a message at the start of b strictly by the schema; maps keep the wire order, duplicates included.
// A nil message is Nil where it appears (the root included).
func Parse(b []byte, m *Message) (*Val, int, Status) {
	p := &parser{b: b}
	v := p.message(m)
	return v, p.pos, p.status()
}

// ParseLoose is Parse for a reader that does not look at the kinds a list or map names for its elements.
func ParseLoose(b []byte, m *Message) Status {
	p := &parser{b: b, loose: true}
	p.message(m)
	return p.status()
}

func (p *parser) status() Status {
	if p.st == OK && p.gray {
		return Gray
	}
	return p.st
}

func (p *parser) message(m *Message) *Val {
	if p.work++; p.work > 1<<18 {
		p.fail(Gray)
	}
	if p.st == OK && p.pos < len(p.b) && p.b[p.pos] == wire.TNil {
		if p.items != nil {
			*p.items = append(*p.items, Item{C: 'n', Start: p.pos, End: p.pos + 1})
		}
		p.pos++
		return &Val{Nil: true}
	}
	v := &Val{L: make([]*Val, len(m.Fields))}
	for _, i := range Layout(m) {
		f := m.Fields[i]
		x := &Val{}
		switch {
		case f.Rep:
			n := p.op(wire.Op{C: 'a', K1: kindOf[f.T]}).U
			for ; n > 0 && p.st == OK; n-- {
				x.L = append(x.L, p.one(f, f.T))
			}
		case f.Map:
			if p.st == OK && p.pos < len(p.b) && p.b[p.pos] == wire.TNil {
				p.fail(Gray) // no encoder writes an absent map
			}
			n := p.op(wire.Op{C: 'm', K1: kindOf[f.KeyT], K2: kindOf[f.T]}).U
			for ; n > 0 && p.st == OK; n-- {
				k := p.one(f, f.KeyT)
				x.L = append(x.L, k, p.one(f, f.T))
			}
		default:
			x = p.one(f, f.T)
		}
		v.L[i] = x
		if p.st != OK {
			return v
		}
	}
	return v
}

func (p *parser) one(f *Field, t int) *Val {
	if t == Msg {
		return p.message(f.Msg)
	}
	o := p.op(wire.Op{C: opOf[t]})
	return &Val{U: o.U, B: o.B}
}

// Default is the message a generated decoder gives for an absent one: deep marks Go v1, whose constructor fills in sub-messages.
func Default(m *Message, deep bool) *Val {
	v := &Val{}
	for _, f := range m.Fields {
		x := &Val{}
		if f.T == Msg && !f.Rep && !f.Map {
			x.Nil = true
			if deep && !Recursive(m, f) {
				x = Default(f.Msg, true)
			}
		}
		v.L = append(v.L, x)
	}
	return v
}

// Expect is what decoding gives for a written message: absent messages come back as empty ones in lists and maps, at the root, and in Go v1 everywhere.
func Expect(m *Message, v *Val, v1 bool) *Val {
	if v.Nil {
		return Default(m, v1)
	}
	r := &Val{L: make([]*Val, len(v.L))}
	for i, f := range m.Fields {
		x := v.L[i]
		switch {
		case f.T != Msg:
			r.L[i] = x
		case f.Rep || f.Map:
			y := &Val{}
			for j, e := range x.L {
				if f.Map && j%2 == 0 {
					y.L = append(y.L, e)
				} else {
					y.L = append(y.L, Expect(f.Msg, e, v1))
				}
			}
			r.L[i] = y
		case x.Nil && !v1:
			r.L[i] = x
		default:
			r.L[i] = Expect(f.Msg, x, v1)
		}
	}
	return r
}

// HasNil tells whether any message below (or v itself) is absent.
func HasNil(m *Message, v *Val) bool {
	if v.Nil {
		return true
	}
	for i, f := range m.Fields {
		if f.T != Msg {
			continue
		}
		l := []*Val{v.L[i]}
		if f.Rep || f.Map {
			l = v.L[i].L
		}
		for j, e := range l {
			if f.Map && j%2 == 0 {
				continue
			}
			if HasNil(f.Msg, e) {
				return true
			}
		}
	}
	return false
}

// Text is the value as the tokens the drivers read and print; maps are sorted by key, later duplicates win.
func Text(m *Message, v *Val) string {
	var b strings.Builder
	text(&b, m, v)
	return strings.TrimSuffix(b.String(), " ")
}

func text(b *strings.Builder, m *Message, v *Val) {
	if v.Nil {
		b.WriteString("- ")
		return
	}
	b.WriteString("( ")
	for i, f := range m.Fields {
		x := v.L[i]
		switch {
		case f.Rep:
			fmt.Fprintf(b, "[%d ", len(x.L))
			for _, e := range x.L {
				one(b, f, f.T, e)
			}
		case f.Map:
			last := map[string]string{}
			var ks []string
			for j := 0; j < len(x.L); j += 2 {
				var kb, vb strings.Builder
				one(&kb, f, f.KeyT, x.L[j])
				one(&vb, f, f.T, x.L[j+1])
				if _, ok := last[kb.String()]; !ok {
					ks = append(ks, kb.String())
				}
				last[kb.String()] = vb.String()
			}
			sort.Strings(ks)
			fmt.Fprintf(b, "{%d ", len(ks))
			for _, k := range ks {
				b.WriteString(k)
				b.WriteString(last[k])
			}
		default:
			one(b, f, f.T, x)
		}
	}
}

func one(b *strings.Builder, f *Field, t int, v *Val) {
	switch t {
	case Msg:
		text(b, f.Msg, v)
		return
	case String, Bytes:
		b.WriteByte('x')
		b.WriteString(hex.EncodeToString(v.B))
	case Float:
		fmt.Fprintf(b, "%08x", v.U)
	case Double:
		fmt.Fprintf(b, "%016x", v.U)
	case Int32, Int64, Sint32, Sint64, Sfixed32, Sfixed64:
		b.WriteString(strconv.FormatInt(int64(v.U), 10))
	default:
		b.WriteString(strconv.FormatUint(v.U, 10))
	}
	b.WriteByte(' ')
}

// Clear tells whether the encoding of v, followed by junk, can be told apart from every other message: an absent message is one
// marker byte and a message has no header, so a present message whose encoding is empty or starts with that marker may not survive
// (see KNOWN_FINDINGS.md).
func Clear(m *Message, v *Val, junk []byte) bool {
	b := Encode(nil, m, v)
	g, n, st := Parse(append(b[:len(b):len(b)], junk...), m)
	return st == OK && n == len(b) && Text(m, g) == Text(m, v)
}

// Ambiguous is the opposite of Clear without anything after the message.
func Ambiguous(m *Message, v *Val) bool { return !Clear(m, v, nil) }

// Width0 tells whether a present message of the type may be encoded in no bytes at all.
func Width0(m *Message) bool {
	seen := map[*Message]bool{}
	var f func(m *Message) bool
	f = func(m *Message) bool {
		if seen[m] {
			return true
		}
		seen[m] = true
		for _, x := range m.Fields {
			if x.T != Msg || x.Rep || x.Map || !f(x.Msg) {
				return false
			}
		}
		return true
	}
	return f(m)
}

// Unbounded tells whether messages of the type can hold a list whose elements take no input: its length is limited by nothing.
func Unbounded(m *Message) bool {
	seen := map[*Message]bool{}
	var f func(m *Message) bool
	f = func(m *Message) bool {
		if seen[m] {
			return false
		}
		seen[m] = true
		for _, x := range m.Fields {
			if x.T == Msg && (x.Rep && Width0(x.Msg) || f(x.Msg)) {
				return true
			}
		}
		return false
	}
	return f(m)
}

// Headless tells whether a message of the type can hold messages encoded in no bytes.
func Headless(m *Message) bool {
	seen := map[*Message]bool{}
	var f func(m *Message) bool
	f = func(m *Message) bool {
		if seen[m] {
			return false
		}
		seen[m] = true
		if Width0(m) {
			return true
		}
		for _, x := range m.Fields {
			if x.T == Msg && f(x.Msg) {
				return true
			}
		}
		return false
	}
	return f(m)
}

// Item is one item of an encoded message: its bytes, and those of its count or length if it has one.
type Item struct {
	C          byte
	Start, End int
	Cnt        int
}

// Items lists the items of a valid encoding.
func Items(b []byte, m *Message) []Item {
	p := &parser{b: b, items: new([]Item)}
	p.message(m)
	return *p.items
}

// Dedup keeps the last entry of every map key, as decoding does.
func Dedup(m *Message, v *Val) *Val {
	if v.Nil {
		return v
	}
	r := &Val{L: make([]*Val, len(v.L))}
	for i, f := range m.Fields {
		x := v.L[i]
		y := &Val{U: x.U, B: x.B, Nil: x.Nil}
		sub := func(e *Val) *Val {
			if f.T == Msg {
				return Dedup(f.Msg, e)
			}
			return e
		}
		switch {
		case f.Rep:
			for _, e := range x.L {
				y.L = append(y.L, sub(e))
			}
		case f.Map:
			at := map[string]int{}
			for j := 0; j < len(x.L); j += 2 {
				k := fmt.Sprint(x.L[j].U, " ", string(x.L[j].B))
				if o, ok := at[k]; ok {
					y.L[o+1] = sub(x.L[j+1])
					continue
				}
				at[k] = len(y.L)
				y.L = append(y.L, x.L[j], sub(x.L[j+1]))
			}
		default:
			y = sub(x)
		}
		r.L[i] = y
	}
	return r
}

// RustOK tells whether the message has a Rust counterpart: sub-messages present, enums in range, text valid.
func RustOK(m *Message, v *Val) bool {
	if v.Nil {
		return false
	}
	for i, f := range m.Fields {
		x := v.L[i]
		l := []*Val{x}
		if f.Rep || f.Map {
			l = x.L
		}
		for j, e := range l {
			t := f.T
			if f.Map && j%2 == 0 {
				t = f.KeyT
			}
			switch {
			case t == Msg && !RustOK(f.Msg, e), t == EnumT && e.U >= uint64(len(f.Enum.Values)), t == String && !utf8.Valid(e.B):
				return false
			}
		}
	}
	return true
}

// Deep makes a message nested depth levels, or nil if the type does not contain itself.
func Deep(r *wire.RNG, m *Message, depth int) *Val {
	onto := map[*Message]int{} // field that leads on towards a cycle
	state := map[*Message]int{}
	var find func(x *Message) bool
	find = func(x *Message) bool {
		switch state[x] {
		case 1:
			return true
		case 2:
			_, ok := onto[x]
			return ok
		}
		state[x] = 1
		for i, f := range x.Fields {
			if f.T == Msg && find(f.Msg) {
				onto[x] = i
				break
			}
		}
		state[x] = 2
		_, ok := onto[x]
		return ok
	}
	if !find(m) {
		return nil
	}
	var build func(x *Message, d int) *Val
	build = func(x *Message, d int) *Val {
		budget := -1
		v := GenVal(r, x, 100, &budget, false)
		i, ok := onto[x]
		if !ok || d == 0 {
			return v
		}
		f := x.Fields[i]
		e := build(f.Msg, d-1)
		switch {
		case f.Rep:
			e = &Val{L: []*Val{e}}
		case f.Map:
			e = &Val{L: []*Val{genScalar(r, f.KeyT, nil, &budget), e}}
		}
		v.L[i] = e
		return v
	}
	return build(m, depth)
}

// OpenEnums gives some enum fields of v numbers that no constant has; v is changed.
func OpenEnums(r *wire.RNG, m *Message, v *Val) {
	if v == nil || v.Nil {
		return
	}
	set := func(f *Field, x *Val) {
		switch {
		case f.T == EnumT && r.N(3) == 0:
			x.U = r.Bits(32)
		case f.T == Msg:
			OpenEnums(r, f.Msg, x)
		}
	}
	for i, f := range m.Fields {
		x := v.L[i]
		switch {
		case f.Rep:
			for _, y := range x.L {
				set(f, y)
			}
		case f.Map:
			for j := 1; j < len(x.L); j += 2 {
				set(f, x.L[j])
			}
		default:
			set(f, x)
		}
	}
}

// NoNaN makes every not-a-number of the message the canonical one: JavaScript has only one.
func NoNaN(m *Message, v *Val) {
	if v == nil || v.Nil {
		return
	}
	for i, f := range m.Fields {
		l := []*Val{v.L[i]}
		if f.Rep || f.Map {
			l = v.L[i].L
		}
		for j, e := range l {
			switch {
			case f.Map && j%2 == 0:
			case f.T == Msg:
				NoNaN(f.Msg, e)
			case f.T == Float && e.U&0x7f800000 == 0x7f800000 && e.U&0x7fffff != 0:
				e.U = 0x7fc00000
			case f.T == Double && e.U&0x7ff0000000000000 == 0x7ff0000000000000 && e.U&0xfffffffffffff != 0:
				e.U = 0x7ff8000000000000
			}
		}
	}
}

// TextOK tells whether all text of the message is valid UTF-8.
func TextOK(m *Message, v *Val) bool {
	if v.Nil {
		return true
	}
	for i, f := range m.Fields {
		l := []*Val{v.L[i]}
		if f.Rep || f.Map {
			l = v.L[i].L
		}
		for j, e := range l {
			t := f.T
			if f.Map && j%2 == 0 {
				t = f.KeyT
			}
			if t == Msg && !TextOK(f.Msg, e) || t == String && !utf8.Valid(e.B) {
				return false
			}
		}
	}
	return true
}

// Nested lists where the encodings of the messages inside v begin within Encode(nil, m, v).
func Nested(m *Message, v *Val) []int {
	var at []int
	var walk func(b []byte, m *Message, v *Val) []byte
	one := func(b []byte, f *Field, t int, v *Val) []byte {
		if t != Msg {
			return encodeOne(b, f, t, v)
		}
		at = append(at, len(b))
		return walk(b, f.Msg, v)
	}
	walk = func(b []byte, m *Message, v *Val) []byte {
		if v.Nil {
			return append(b, wire.TNil)
		}
		for _, i := range Layout(m) {
			f, x := m.Fields[i], v.L[i]
			switch {
			case f.Rep:
				b = wire.Append(b, wire.Op{C: 'a', K1: kindOf[f.T], U: uint64(len(x.L))})
				for _, y := range x.L {
					b = one(b, f, f.T, y)
				}
			case f.Map:
				b = wire.Append(b, wire.Op{C: 'm', K1: kindOf[f.KeyT], K2: kindOf[f.T], U: uint64(len(x.L) / 2)})
				for j := 0; j < len(x.L); j += 2 {
					b = one(b, f, f.KeyT, x.L[j])
					b = one(b, f, f.T, x.L[j+1])
				}
			default:
				b = one(b, f, f.T, x)
			}
		}
		return b
	}
	walk(nil, m, v)
	return at
}
