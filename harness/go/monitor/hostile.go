package main

import (
	"encoding/binary"
	"fmt"
	"strings"
	"sync"

	"verif/wire"
)

// alphabet is what the implementation can be asked for.
func (im *Impl) alphabet() string {
	if im.anyKind {
		return wire.Alphabet + "y"
	}
	return wire.Alphabet
}

// allReqs is one request of every kind, slices and maps with the given kinds.
func (im *Impl) allReqs(k1, k2 byte) []wire.Op {
	var r []wire.Op
	for _, c := range im.alphabet() {
		o := wire.Op{C: byte(c)}
		if c == 'a' || c == 'm' {
			o.K1 = k1
		}
		if c == 'm' {
			o.K2 = k2
		}
		r = append(r, o)
	}
	return r
}

func (im *Impl) randReq(r *wire.RNG) wire.Op {
	o := wire.Op{C: im.alphabet()[r.N(len(im.alphabet()))]}
	if o.C == 'a' || o.C == 'm' {
		o.K1 = byte(r.N(16))
	}
	if o.C == 'm' {
		o.K2 = byte(r.N(16))
	}
	return o
}

// representatives has at least one item of every kind and of every varint length.
func representatives() []wire.Op {
	ops := []wire.Op{{C: 'n'}, {C: 'y'}, {C: 'b', U: 1}, {C: 'b'}, {C: 'u', U: 0}, {C: 'u', U: 200}, {C: 'f', U: 0x40490fdb}, {C: 'd', U: 0x400921fb54442d18}}
	for g := 0; g < 10; g++ {
		for _, v := range []uint64{1 << (7 * g), 1<<(7*g+3) + 5, 1<<(7*min(g+1, 9)) - 1} {
			if g < 3 && v < 1<<16 {
				ops = append(ops, wire.Op{C: 'v', U: v})
			}
			if g < 5 && v < 1<<32 {
				ops = append(ops, wire.Op{C: 'w', U: v}, wire.Op{C: 'a', K1: 10, U: v}, wire.Op{C: 'm', K1: 5, K2: 13, U: v})
				ops = append(ops, wire.Op{C: 'i', U: uint64(int64(int32(uint32(v)>>1) ^ -int32(v&1)))})
			}
			ops = append(ops, wire.Op{C: 'q', U: v}, wire.Op{C: 'l', U: uint64(int64(v>>1) ^ -int64(v&1))})
		}
	}
	ops = append(ops, wire.Op{C: 'w', U: 0xffffffff}, wire.Op{C: 'q', U: ^uint64(0)}, wire.Op{C: 'l', U: 1 << 63}, wire.Op{C: 'v', U: 0xffff}, wire.Op{C: 'i', U: uint64(0xffffffff80000000)})
	for _, n := range []int{0, 1, 2, 5, 40, 127, 128, 129, 200, 300} {
		ops = append(ops, wire.Op{C: 'x', B: wire.Pattern(n, 1, false)}, wire.Op{C: 's', B: wire.Pattern(n, 2, true)}, wire.Op{C: 'e', B: wire.Pattern(n, 3, true)})
	}
	return ops
}

// varints are encodings of every shape: short, minimal, overlong, overflowing, unterminated.
func varintForms(r *wire.RNG) []byte {
	switch r.N(7) {
	case 0: // unterminated, of any length
		b := r.Bytes(1 + r.N(14))
		for i := range b {
			b[i] |= 0x80
		}
		return b
	case 1: // terminated at an arbitrary group
		b := r.Bytes(1 + r.N(12))
		for i := range b {
			b[i] |= 0x80
		}
		b[len(b)-1] &= 0x7f
		return b
	case 2: // overlong zero or value
		b := binary.AppendUvarint(nil, r.Bits(32))
		b[len(b)-1] |= 0x80
		for r.N(3) > 0 {
			b = append(b, 0x80)
		}
		return append(b, 0)
	case 3:
		return binary.AppendUvarint(nil, r.Bits(64))
	case 4:
		return binary.AppendUvarint(nil, uint64([]int64{0, 1, 0x7f, 0x80, 0x3fff, 0x4000, 0x1fffff, 0x200000, 0xfffffff, 0x10000000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000}[r.N(14)]))
	}
	return binary.AppendUvarint(nil, uint64(r.N(300)))
}

// hostile makes one malicious input.
func hostile(r *wire.RNG) []byte {
	var b []byte
	items := 1 + r.N(4)
	for i := 0; i < items; i++ {
		switch r.N(6) {
		case 0: // a well-formed item
			b = wire.Append(b, r.Item(wire.Alphabet[r.N(len(wire.Alphabet))], wire.Opts{MaxData: 40, RawText: true}))
		case 1: // a header with a strange varint
			h := [][]byte{{9}, {10}, {11}, {12}, {13}, {4, 10}, {5, 10}, {6, 5, 10}, {1, byte(r.N(17)), 10}, {2, byte(r.N(17)), byte(r.N(17)), 10}}[r.N(10)]
			b = append(b, h...)
			b = append(b, varintForms(r)...)
			b = append(b, r.Bytes(r.N(12))...)
		case 2: // wrong inner tag
			h := []byte{[]byte{4, 5, 6, 1, 2}[r.N(5)], byte(r.N(18)), byte(r.N(18)), byte(r.N(18))}
			b = append(b, h[:1+r.N(4)]...)
			b = append(b, varintForms(r)...)
		case 3: // data whose length is about right
			n := r.N(20)
			claim := uint64(max(0, n+r.N(5)-2))
			h := [][]byte{{4, 10}, {5, 10}, {6, 5, 10}}[r.N(3)]
			b = append(b, h...)
			b = binary.AppendUvarint(b, claim)
			if r.Bool() {
				b = append(b, r.Bytes(n)...)
			} else {
				b = append(b, wire.Pattern(n, byte(n), true)...)
			}
		case 4:
			b = append(b, r.Bytes(r.N(12))...)
		default:
			b = append(b, byte(r.N(17)))
		}
	}
	switch r.N(5) {
	case 0: // truncated
		b = b[:r.N(len(b)+1)]
	case 1: // one byte changed
		if len(b) > 0 {
			b[r.N(len(b))] ^= 1 << r.N(8)
		}
	}
	return b
}

// hostileReqs asks mostly for what the bytes look like, so that decoding gets deep.
func (im *Impl) hostileReqs(r *wire.RNG, b []byte) []wire.Op {
	n := 1 + r.N(8)
	var reqs []wire.Op
	pos := 0
	code := []byte{'n', 'a', 'm', 'n', 'x', 's', 'e', 'b', 'u', 'v', 'w', 'q', 'i', 'l', 'f', 'd'}
	if im.anyKind {
		code[3] = 'y'
	}
	for i := 0; i < n; i++ {
		o := im.randReq(r)
		if pos >= 0 && pos < len(b) && b[pos] < 16 && r.N(5) > 0 {
			o = wire.Op{C: code[b[pos]]}
			if o.C == 'a' && pos+1 < len(b) {
				o.K1 = b[pos+1] % 17
			}
			if o.C == 'm' && pos+2 < len(b) {
				o.K1, o.K2 = b[pos+1]%17, b[pos+2]%17
			}
		}
		reqs = append(reqs, o)
		if pos >= 0 {
			m := wire.Decode(b, pos, o)
			switch m.V {
			case wire.Value:
				pos = m.Pos
			case wire.FailKeep:
			default:
				pos = -1
			}
		}
	}
	return reqs
}

func verdictCounter(c *Check) func(wire.Verdict) {
	return func(v wire.Verdict) { c.count("model verdict "+v.String(), 1) }
}

func crashCase(b []byte, reqs []wire.Op) Case {
	return Case{Line: "D " + wire.HexArg(b) + " " + wire.Reqs(reqs), Class: "hostile input", Triv: len(b) == 0, Check: func(im *Impl, out string) string {
		if s := sane(out); s != "" {
			return s
		}
		if n := len(strings.Fields(out)); n != len(reqs) {
			return fmt.Sprintf("%d answers to %d calls", n, len(reqs))
		}
		return ""
	}}
}

func c03(c *Check) error {
	c.rule = "each case is a byte string and a sequence of decode calls on one implementation; a case counts when the process answers every call with a value or a library error; inputs are truncations of every kind of item at every byte, malformed varints and lengths, mutated and random bytes; empty inputs are trivial"
	ims, err := c.env.impls()
	if err != nil {
		return err
	}
	base := structuredHostile()
	c.each(ims, func(im *Impl) {
		var cs []Case
		for _, b := range base {
			cs = append(cs, crashCase(b, append(im.allReqs(10, 13), im.allReqs(5, 5)...)))
			for _, q := range im.allReqs(10, 13) {
				if len(b) > 0 && b[0] < 16 && q.C == "namyxsebuvwqilfd"[b[0]] {
					cs = append(cs, crashCase(b, []wire.Op{q, q, {C: 'n'}, q}))
				}
			}
		}
		r := c.rng("hostile")
		for i := 0; i < c.scale(100000, 500000); i++ {
			b := hostile(r)
			cs = append(cs, crashCase(b, im.hostileReqs(r, b)))
		}
		// the same call again and again after its failure, and decoding past the end
		for i := 0; i < c.scale(2000, 5000); i++ {
			b := hostile(r)
			q := im.randReq(r)
			if i%2 == 0 {
				q = im.hostileReqs(r, b)[0]
			}
			reqs := make([]wire.Op, 60)
			for j := range reqs {
				reqs[j] = q
			}
			cs = append(cs, crashCase(b, reqs))
		}
		// two raw bytes of every value in front of a few tails
		for x := 0; x < 256; x++ {
			for y := 0; y < 256; y += c.scale(7, 1) {
				b := append([]byte{byte(x), byte(y)}, [][]byte{{}, {0xff, 0xff, 0xff, 0xff, 0xff}, {10, 0xff, 0xff, 0xff, 0xff, 0x0f}}[(x+y)%3]...)
				cs = append(cs, crashCase(b, im.allReqs(byte(y), b[len(b)-1])))
			}
		}
		if im.name == "c" {
			for i := range cs { // kinds above the last one are not values of the C enum
				cs[i].Line = clampKinds(cs[i].Line)
			}
		}
		c.run(im, cs, 2)
	})
	return valgrindHostile(c)
}

func clampKinds(line string) string {
	f := strings.Fields(line)
	for i := 2; i < len(f); i++ {
		if f[i][0] == 'a' || f[i][0] == 'm' {
			o := wire.ParseReq(f[i])
			if o.K1 > 16 {
				o.K1 = 16
			}
			if o.K2 > 16 {
				o.K2 = 16
			}
			f[i] = o.ReqText()
		}
	}
	return strings.Join(f, " ")
}

// structuredHostile: every truncation of every representative item, every malformed varint form per header.
func structuredHostile() [][]byte {
	var out [][]byte
	seen := map[string]bool{}
	add := func(b []byte) {
		if !seen[string(b)] {
			seen[string(b)] = true
			out = append(out, b)
		}
	}
	for _, o := range representatives() {
		b := wire.Encode([]wire.Op{o})
		for n := 0; n <= len(b); n++ {
			if n > 12 && n < len(b)-2 {
				continue
			}
			add(b[:n:n])
		}
	}
	headers := [][]byte{{9}, {10}, {11}, {12}, {13}, {4, 10}, {5, 10}, {6, 5, 10}, {1, 10, 10}, {2, 10, 13, 10}}
	for _, h := range headers {
		for n := 0; n <= 12; n++ {
			for _, fill := range []byte{0x80, 0xff, 0x81} {
				b := append([]byte{}, h...)
				for i := 0; i < n; i++ {
					b = append(b, fill)
				}
				add(append([]byte{}, b...))
				for _, last := range []byte{0, 1, 2, 3, 4, 7, 8, 15, 16, 0x3f, 0x40, 0x7f} {
					add(append(append([]byte{}, b...), last))
					add(append(append(append([]byte{}, b...), last), 1, 2, 3))
				}
			}
		}
		// a length that exceeds what follows by every small amount
		if h[0] >= 4 && h[0] <= 6 {
			for have := 0; have < 6; have++ {
				for claim := 0; claim < 10; claim++ {
					b := append(append([]byte{}, h...), byte(claim))
					add(append(b, wire.Pattern(have, 4, true)...))
				}
			}
			// ... at the boundary where the length takes two bytes
			for have := 125; have < 132; have++ {
				for claim := uint64(125); claim < 134; claim++ {
					b := binary.AppendUvarint(append([]byte{}, h...), claim)
					add(append(b, wire.Pattern(have, 4, true)...))
				}
			}
		}
	}
	for i := 0; i < 256; i++ {
		add([]byte{byte(i)})
		for _, h := range headers {
			add(append(append([]byte{}, h[:len(h)-1]...), byte(i), 3, 'a', 'b', 'c'))
		}
		add([]byte{7, byte(i)})
		add([]byte{8, byte(i)})
		add([]byte{6, byte(i), 10, 1, 'a'})
	}
	return out
}

func c04(c *Check) error {
	c.rule = "each case is a byte string and decode calls on one implementation, every answer judged by the reference model (success only with exactly the value of a complete item, failures with the library's own errors); counted verdicts say how many judged answers were values and failures"
	ims, err := c.env.impls()
	if err != nil {
		return err
	}
	vc := verdictCounter(c)
	base := structuredHostile()
	c.each(ims, func(im *Impl) {
		var cs []Case
		// every structured input against every single request, so that each failure path is judged alone
		for _, b := range base {
			for _, q := range im.allReqs(10, 13) {
				// mismatches on the first byte are cheap and plentiful: keep one in three of them
				if len(b) > 0 && b[0] < 16 && q.C != "namyxsebuvwqilfd"[b[0]] && (int(q.C)+len(b)+int(b[len(b)-1]))%3 != 0 {
					continue
				}
				cs = append(cs, decodeCase(b, []wire.Op{q, {C: 'n'}}, vc))
			}
		}
		r := c.rng("model")
		for i := 0; i < c.scale(250000, 1200000); i++ {
			b := hostile(r)
			cs = append(cs, decodeCase(b, im.hostileReqs(r, b), vc))
		}
		// truncations of a sequence: everything before the cut decodes, the cut item fails
		for i := 0; i < c.scale(6000, 30000); i++ {
			ops := filter(im, seq(r, 1+r.N(6), 300, false))
			b := wire.Encode(ops)
			cut := r.N(len(b) + 1)
			cs = append(cs, decodeCase(b[:cut], reqsOf(ops), vc))
		}
		// element kinds that differ
		for k := 0; k < 16; k++ {
			for j := 0; j < 16; j++ {
				cs = append(cs, decodeCase(wire.Encode([]wire.Op{{C: 'a', K1: byte(k), U: 300}, {C: 'u', U: 1}}), []wire.Op{{C: 'a', K1: byte(j)}, {C: 'u'}}, vc))
				cs = append(cs, decodeCase(wire.Encode([]wire.Op{{C: 'm', K1: byte(k), K2: byte(j), U: 70000}}), []wire.Op{{C: 'm', K1: byte(j), K2: byte(k)}, {C: 'm', K1: byte(k), K2: byte(15 - j)}, {C: 'm', K1: byte(15 - k), K2: byte(j)}, {C: 'm', K1: byte(k), K2: byte(j)}}, vc))
			}
		}
		// every last byte of varints of every number of groups, wherever they stand, and every byte a boolean can have
		for _, h := range []struct {
			head []byte
			req  wire.Op
		}{
			{[]byte{9}, wire.Op{C: 'v'}}, {[]byte{10}, wire.Op{C: 'w'}}, {[]byte{11}, wire.Op{C: 'q'}}, {[]byte{12}, wire.Op{C: 'i'}}, {[]byte{13}, wire.Op{C: 'l'}},
			{[]byte{4, 10}, wire.Op{C: 'x'}}, {[]byte{5, 10}, wire.Op{C: 's'}}, {[]byte{6, 5, 10}, wire.Op{C: 'e'}}, {[]byte{1, 5, 10}, wire.Op{C: 'a', K1: 5}}, {[]byte{2, 5, 8, 10}, wire.Op{C: 'm', K1: 5, K2: 8}},
		} {
			for groups := 1; groups <= 12; groups++ {
				for last := 0; last < 256; last++ {
					for _, fill := range [][]byte{{0x80}, {0xff}, {0x83, 0x80}} {
						b := append([]byte(nil), h.head...)
						for g := 0; g < groups-1; g++ {
							b = append(b, fill[min(g, len(fill)-1)])
						}
						b = append(b, byte(last), 8, 65, 8, 66)
						cs = append(cs, decodeCase(b, []wire.Op{h.req, {C: 'u'}, {C: 'u'}}, vc))
					}
				}
			}
		}
		// every byte in place of each of the first four of an item
		for _, o := range filter(im, representatives()) {
			whole := append(wire.Encode([]wire.Op{o}), 8, 77)
			for at := 0; at < 4 && at < len(whole)-2 && len(whole) < 140; at++ {
				for v := 0; v < 256; v++ {
					b := append([]byte(nil), whole...)
					b[at] = byte(v)
					cs = append(cs, decodeCase(b, []wire.Op{reqOf(o), {C: 'u'}}, vc))
				}
			}
		}
		for b := 0; b < 256; b++ {
			cs = append(cs, decodeCase([]byte{7, byte(b), 7, 1}, []wire.Op{{C: 'b'}, {C: 'b'}}, vc))
		}
		if im.name == "c" {
			for i := range cs {
				cs[i].Line = clampKinds(cs[i].Line)
			}
		}
		c.run(im, cs, 2)
	})
	return nil
}

func c05(c *Check) error {
	c.rule = "each case is a sequence of items; before each item a number of probes that cannot match (other kinds, other element kinds, nil probes) must fail with their own error and leave the item to decode in full; distinct by implementation, bytes and calls"
	ims, err := c.env.impls()
	if err != nil {
		return err
	}
	c.each(ims, func(im *Impl) {
		var cs []Case
		add := func(ops []wire.Op, probes func(i int) []wire.Op, class string) {
			b := wire.Encode(ops)
			var reqs []wire.Op
			n := 0
			for i, o := range ops {
				for _, p := range probes(i) {
					if m := wire.Decode(wire.Encode([]wire.Op{o}), 0, p); m.V == wire.FailKeep {
						reqs = append(reqs, p)
						n++
					}
				}
				reqs = append(reqs, reqOf(o))
			}
			c.count("mismatched probes", n)
			k := decodeCase(b, reqs, nil)
			k.Class = class
			k.Triv = n == 0
			cs = append(cs, k)
		}
		reps := filter(im, representatives())
		// every kind of item against every kind of probe, one at a time and all in a row
		for _, o := range reps {
			for _, p := range im.allReqs(o.K1, o.K2) {
				add([]wire.Op{o}, func(int) []wire.Op { return []wire.Op{p} }, "one probe")
			}
			add([]wire.Op{o, {C: 'u', U: 9}}, func(int) []wire.Op {
				return append(im.allReqs(o.K1^1, o.K2), append(im.allReqs(o.K1, o.K2^1), im.allReqs(15-o.K1, 15-o.K2)...)...)
			}, "all probes")
		}
		for k := byte(0); k < 16; k++ {
			for j := byte(0); j < 16; j++ {
				add([]wire.Op{{C: 'a', K1: k, U: 3}}, func(int) []wire.Op { return []wire.Op{{C: 'a', K1: j}, {C: 'a', K1: j}} }, "element kinds")
				add([]wire.Op{{C: 'm', K1: k, K2: j, U: 3}}, func(int) []wire.Op {
					return []wire.Op{{C: 'm', K1: j, K2: k}, {C: 'm', K1: k, K2: (j + 1) % 16}, {C: 'm', K1: (k + 1) % 16, K2: j}, {C: 'a', K1: k}}
				}, "element kinds")
			}
		}
		r := c.rng("random")
		for i := 0; i < c.scale(16000, 80000); i++ {
			ops := filter(im, seq(r, 1+r.N(8), 200, false))
			depth := []int{1, 3, 10, 40}[r.N(4)]
			add(ops, func(int) []wire.Op {
				var p []wire.Op
				for j := r.N(depth + 1); j > 0; j-- {
					p = append(p, im.randReq(r))
				}
				return p
			}, "random probes")
		}
		// probes at the end of the input and on kinds no call decodes; then nothing must have moved
		for i := 0; i < c.scale(1200, 3000); i++ {
			ops := filter(im, seq(r, 1+r.N(3), 60, false))
			b := wire.Encode(ops)
			reqs := reqsOf(ops)
			for j := 0; j < 10; j++ {
				reqs = append(reqs, im.randReq(r))
			}
			cs = append(cs, decodeCase(b, reqs, nil))
			b2 := append(append([]byte{}, b...), 3)
			cs = append(cs, decodeCase(b2, reqs, nil))
		}
		c.run(im, cs, 2)
	})
	return nil
}

func c06(c *Check) error {
	c.rule = "each case is an input whose length or count fields claim up to 4 GiB more than it holds (or valid data), and the bytes allocated while it is decoded, as the allocator or runtime counted them; bound 2 KiB per call + 16 times the input size (TypeScript: 4 MiB, with claims of 64 MiB and up); distinct by implementation, bytes and calls"
	ims, err := c.env.impls()
	if err != nil {
		return err
	}
	c.each(ims, func(im *Impl) {
		var cs []Case
		maxSeen := 0
		add := func(b []byte, reqs []wire.Op, class string) {
			bound := len(reqs)*2048 + 16*len(b)
			if im.name == "ts" {
				bound = 4<<20 + 64*len(b)
			}
			cs = append(cs, Case{Line: "A " + wire.HexArg(b) + " " + wire.Reqs(reqs), Class: class, Triv: len(b) == 0, Check: func(im *Impl, out string) string {
				i := strings.LastIndexByte(out, '@')
				if i < 0 {
					if s := sane(out); s != "" {
						return s
					}
					return "no measurement"
				}
				var n int
				fmt.Sscan(out[i+1:], &n)
				maxSeen = max(maxSeen, n)
				if n > bound {
					return fmt.Sprintf("%d bytes allocated for an input of %d bytes and %d calls", n, len(b), len(reqs))
				}
				return judgeDecode(im, b, reqs, strings.TrimSpace(out[:i]), nil)
			}})
		}
		heads := []struct {
			h []byte
			q wire.Op
		}{{[]byte{4, 10}, wire.Op{C: 'x'}}, {[]byte{5, 10}, wire.Op{C: 's'}}, {[]byte{6, 5, 10}, wire.Op{C: 'e'}}, {[]byte{1, 8, 10}, wire.Op{C: 'a', K1: 8}}, {[]byte{2, 5, 8, 10}, wire.Op{C: 'm', K1: 5, K2: 8}}}
		for _, h := range heads {
			for s := 6; s <= 32; s++ {
				for _, d := range []int64{-1, 0, 1, 77} {
					v := uint64(int64(1)<<s + d)
					if v > 0xffffffff {
						v = 0xffffffff
					}
					if im.name == "ts" && v < 1<<26 {
						continue
					}
					for _, have := range []int{0, 1, 7, 60, 1000} {
						if uint64(have) >= v {
							continue
						}
						b := binary.AppendUvarint(append([]byte{}, h.h...), v)
						b = append(b, wire.Pattern(have, 1, true)...)
						if (h.q.C == 'a' || h.q.C == 'm') && have > 0 {
							continue
						}
						add(b, []wire.Op{h.q}, "claims more than it holds")
					}
				}
			}
		}
		r := c.rng("claims")
		for i := 0; i < c.scale(6000, 20000); i++ {
			// several claims in a row, each behind a valid item
			var b []byte
			var reqs []wire.Op
			for j := 1 + r.N(6); j > 0; j-- {
				h := heads[r.N(len(heads))]
				o := r.Item("uwqsx"[r.N(5)], wire.Opts{MaxData: 30})
				b = wire.Append(b, o)
				reqs = append(reqs, reqOf(o))
				b = append(b, h.h...)
				lo := 1 << 20
				if im.name == "ts" {
					lo = 1 << 26
				}
				b = binary.AppendUvarint(b, uint64(lo)+r.Bits(31))
				reqs = append(reqs, h.q)
			}
			add(b, reqs, "several claims")
		}
		for i := 0; i < c.scale(2400, 6000); i++ {
			ops := filter(im, seq(r, 1+r.N(12), 8000, false))
			add(wire.Encode(ops), reqsOf(ops), "well-formed")
		}
		shards := 2
		if im.name == "ts" {
			shards = 1
		}
		c.run(im, cs, shards)
		c.mu.Lock()
		c.extra["largest allocation seen in "+im.name] = maxSeen
		c.mu.Unlock()
	})
	return nil
}

func c07(c *Check) error {
	c.rule = "each case encodes a sequence into a buffer of some origin (default, sized, caller storage inside a guarded array, reused, pooled, partly filled) and compares with the reference bytes and the guard bytes; every kind and length class meets every amount of spare room from 0 to 40"
	ims, err := c.env.impls("go-v1", "go-v2", "rust", "ts")
	if err != nil {
		return err
	}
	c.each(ims, func(im *Impl) {
		var cs []Case
		add := func(init string, raw []byte, ops []wire.Op, class string) {
			if im.name == "ts" {
				if init[1] == 'p' || init[1] == 'r' {
					return
				}
				// raw bytes cannot be written: use bools and nils as filler
				for i := 0; i+1 < len(raw); i += 2 {
					ops = append([]wire.Op{{C: 'b', U: uint64(i/2) % 2}}, ops...)
				}
				if len(raw)%2 == 1 {
					ops = append([]wire.Op{{C: 'n'}}, ops...)
				}
				raw = nil
			}
			k := encodeCase(init, ops, raw)
			k.Class = class
			cs = append(cs, k)
		}
		var kinds []wire.Op
		for _, o := range representatives() {
			if im.can(o) && len(o.B) < 200 {
				kinds = append(kinds, o)
			}
		}
		step := c.scale(1, 1)
		tail := []wire.Op{{C: 'u', U: 7}}
		for i, o := range kinds {
			size := len(wire.Encode([]wire.Op{o}))
			for spare := 0; spare <= 40; spare += step {
				if spare > size+12 && spare%9 != i%9 {
					continue
				}
				add(fmt.Sprintf("Iz%d", spare), nil, append([]wire.Op{o}, tail...), "exact spare room")
				used := (i*7+spare)%29 + 1
				add(fmt.Sprintf("Iz%d", spare+used), wire.Pattern(used, 5, false), append([]wire.Op{o}, tail...), "partly filled")
				add(fmt.Sprintf("Ib%d,%d,%d,%d", i%5, []int{0, spare, spare / 2}[(i+spare)%3], spare, 17), nil, append([]wire.Op{o}, tail...), "caller storage")
			}
			// around the default size
			for d := 0; d < 24; d++ {
				if d > size+2 && d%5 != i%5 {
					continue
				}
				add("I-", wire.Pattern(512-d, 6, false), append([]wire.Op{o}, tail...), "end of the default buffer")
			}
		}
		r := c.rng("random")
		for i := 0; i < c.scale(10000, 60000); i++ {
			ops := filter(im, seq(r, 1+r.N(30), []int{20, 300, 3000, 20000}[r.N(4)], false))
			var raw []byte
			if r.N(3) == 0 {
				raw = r.Bytes(r.N(700))
			}
			n := []int{0, 1, 2, 3, 5, 8, 13, 40, 100, 511, 512, 513, 4096, 40000}[r.N(14)]
			init := "I-"
			switch r.N(5) {
			case 0, 1:
				init = fmt.Sprintf("Iz%d", n)
			case 2:
				init = fmt.Sprintf("Ib%d,%d,%d,%d", r.N(20), r.N(n+1), n, r.N(20)+1)
			case 3:
				init = fmt.Sprintf("Ir%d", n)
			case 4:
				init = "Ip"
			}
			add(init, raw, ops, "random")
		}
		// large single items into small buffers, and thousands of small ones
		for i := 0; i < c.scale(240, 600); i++ {
			init := []string{"I-", "Iz0", "Iz1", "Ib3,0,4,9", "Ir100", "Iz7"}[i%6]
			add(init, nil, filter(im, []wire.Op{{C: 'u', U: 1}, {C: "XSR"[i%3], U: uint64(r.N(200000)), K1: byte(i)}, {C: 'q', U: r.Bits(64)}}), "large item")
			add(init, nil, filter(im, seq(r, 1500, 12, false)), "many growths")
		}
		c.run(im, cs, 2)
	})
	return nil
}

func c19(c *Check) error {
	c.rule = "each case encodes error texts in one implementation and decodes them in all, or (Go) matches decoded errors against originals, wrapped originals and the decoding errors through errors.Is; distinct by implementation and text"
	ims, err := c.env.impls()
	if err != nil {
		return err
	}
	r := c.rng("texts")
	texts := []string{"", " ", "\n", "a", "invalid error encoding", "invalid string encoding", "nil", "<nil>", "EOF", "%s %d %!", "\ufeffmark", "\u00e9\u4e16\U0001f600", "\ufffd", "line\nbreak\ttab", strings.Repeat("x", 127), strings.Repeat("y", 128), strings.Repeat("\u4e16", 5461), strings.Repeat("z", 16383), strings.Repeat("z", 16384), "InvalidError", "invalid error", "with\x00zero", "\x7f\u0080", "Invalid Bytes", "\u2028\u2029", "ends with space "}
	for i := 0; i < c.scale(4800, 20000); i++ {
		texts = append(texts, string(r.Text(r.Size(5000))))
	}
	c.each(ims, func(im *Impl) {
		var cs []Case
		for i, t := range texts {
			o := wire.Op{C: 'e', B: []byte(t)}
			if !im.can(o) {
				continue
			}
			k := encodeCase("", []wire.Op{o}, nil)
			k.Class = "encoded errors"
			cs = append(cs, k)
			// on its own, after others, between strings
			s := wire.Op{C: 's', B: []byte(t)}
			ops := [][]wire.Op{{o}, {s, o, s, o}, {{C: 'q', U: 5}, o, {C: 'n'}, o}}[i%3]
			k = decodeCase(wire.Encode(ops), append(reqsOf(ops), wire.Op{C: 'n'}), nil)
			k.Class = "decoded errors"
			cs = append(cs, k)
		}
		c.run(im, cs, 1)
	})
	return goChild(c, "C19")
}

func c20(c *Check) error {
	c.rule = "each case encodes one byte array, string or error text of a given size (or a header of a given count), reads it back in the same implementation, and compares prefix, digest of the whole encoding, and digest of the decoded data with the reference; sizes sit on both sides of each varint boundary up to 2^28"
	ims, err := c.env.impls()
	if err != nil {
		return err
	}
	type job struct {
		im *Impl
		cs []Case
	}
	mk := func(o wire.Op) Case {
		var once sync.Once
		var want string
		return Case{Line: "R " + o.Text(), Class: "size class 2^" + fmt.Sprint(bits(o.U)), Check: func(im *Impl, out string) string {
			once.Do(func() { want = expectR(o) })
			if strings.Join(strings.Fields(out), " ") == want {
				return ""
			}
			return "want " + want
		}}
	}
	var small, huge []wire.Op
	for _, p := range []uint64{1 << 7, 1 << 14, 1 << 21} {
		for d := -2; d <= 2; d++ {
			for _, k := range "XSR" {
				small = append(small, wire.Op{C: byte(k), U: uint64(int64(p) + int64(d)), K1: byte(d + 9)})
			}
		}
	}
	for n := uint64(0); n < uint64(c.scale(1600, 4000)); n++ {
		small = append(small, wire.Op{C: "XSR"[n%3], U: n, K1: byte(n)})
	}
	// text of characters of one to four bytes, on both sides of the same boundaries and of those at which an
	// implementation might switch to another way of copying
	for p := uint64(1); p <= 21; p++ {
		for d := -2; d <= 2; d++ {
			if n := int64(1)<<p + int64(d); n >= 0 {
				small = append(small, wire.Op{C: "SR"[(p+uint64(d+2))%2], U: uint64(n), K1: byte(210 + int(p)%30 + d)})
			}
		}
	}
	r := c.rng("sizes")
	for i := 0; i < c.scale(80, 200); i++ {
		small = append(small, wire.Op{C: "SR"[i%2], U: r.Bits(c.scale(21, 24)), K1: byte(200 + i%50)})
	}
	for i := 0; i < c.scale(160, 400); i++ {
		small = append(small, wire.Op{C: "XSR"[i%3], U: r.Bits(c.scale(21, 24)), K1: byte(i)})
	}
	for s := 0; s <= 32; s++ {
		for d := int64(-1); d <= 1; d++ {
			v := int64(1)<<s + d
			if v >= 0 && v <= 0xffffffff {
				small = append(small, wire.Op{C: 'a', K1: byte(s % 16), U: uint64(v)}, wire.Op{C: 'm', K1: byte(s % 16), K2: byte((s + 3) % 16), U: uint64(v)})
			}
		}
	}
	hugeSizes := []uint64{1<<28 - 1, 1 << 28}
	if c.env.tier == "thorough" {
		hugeSizes = []uint64{1 << 25, 1 << 27, 1<<28 - 1, 1 << 28, 1<<28 + 1, 1<<28 + 12345}
	}
	for _, n := range hugeSizes {
		for _, k := range "XSR" {
			huge = append(huge, wire.Op{C: byte(k), U: n, K1: map[rune]byte{'X': 3, 'S': 203, 'R': 3}[k]})
		}
	}
	// reference answers for the huge ones are computed once for all implementations
	hugeCases := make([]Case, len(huge))
	for i, o := range huge {
		hugeCases[i] = mk(o)
	}
	c.each(ims, func(im *Impl) {
		var cs []Case
		for _, o := range small {
			cs = append(cs, mk(o))
		}
		c.run(im, cs, 1)
		// one process per huge case, so that no heap carries over
		for _, k := range hugeCases {
			if !c.tooMany() {
				c.run(im, []Case{k}, 1)
			}
		}
	})
	return nil
}

func bits(v uint64) int {
	n := 0
	for v > 0 {
		v >>= 1
		n++
	}
	return n
}

func expectR(o wire.Op) string {
	b := wire.Encode([]wire.Op{o, {C: 'u', U: 77}})
	res := o.ResText()
	return fmt.Sprintf("=%s %s %s u77 !u", wire.Hex(b[:min(16, len(b))]), wire.Digest(b), res)
}
