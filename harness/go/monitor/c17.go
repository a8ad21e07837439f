package main

import (
	"fmt"
	"strings"
	"sync"

	"verif/schema"
	"verif/wire"
)

func init() {
	checks["C17"] = func(c *Check) error {
		c.rule = "each case is one byte string (a valid message mutated: truncated, bytes or items changed, counts and lengths falsified, items removed, repeated, exchanged, markers inserted, messages spliced, or deeply nested) given to a generated Go v1, Go v2 or Rust decoder in a process with limited memory; distinct by type and input"
		fs, _ := c.schemas(c.scale(60, 160))
		var mu sync.Mutex
		gim := map[string]*Impl{}
		var rim *Impl
		var rbad map[string]bool
		skip := func(f *schema.File, what string) { c.count("schemas without usable code (see C15 and C16)", 1) }
		gbad := map[string]map[string]bool{}
		gen := func(ver string) func() error {
			return func() error {
				im, bad, err := c.goGen(ver, withProbes(fs), skip)
				mu.Lock()
				defer mu.Unlock()
				if im != nil {
					gim[ver] = im
				}
				gbad[ver] = bad
				return err
			}
		}
		err := parallel(func() (err error) { rim, rbad, err = c.rustGen(append(rustable(fs), rustProbeFile()), skip); return }, gen("v1"), gen("v2"))
		if err != nil {
			return err
		}
		for _, im := range []*Impl{gim["v1"], gim["v2"], rim} {
			if im != nil {
				im.cmd = append([]string{"/bin/sh", "-c", "ulimit -v 6000000; exec \"$@\"", "sh"}, im.cmd...)
			}
		}
		for _, ver := range []string{"v1", "v2"} {
			if gim[ver] != nil && !gbad[ver]["probe"] {
				c.probesC17(ver, gim[ver])
			}
		}
		if rim != nil && !rbad["probe"] {
			c.probesRust17(rim)
		}
		ts := typesOf(fs)
		pool(len(ts), 8, func(i int) {
			if c.tooMany() {
				return
			}
			t := ts[i]
			r := c.rng("c17 " + t.key)
			ins, dirty := c.hostileMessages(r, t)
			for _, ver := range []string{"v1", "v2"} {
				if gim[ver] == nil || gbad[ver][base(t.file)] {
					continue
				}
				var cs []Case
				for j, in := range ins {
					cs = append(cs, hostileGo(t, ver, in, nil))
					if j%4 == 0 {
						cs = append(cs, hostileGo(t, ver, in, dirty[j%len(dirty)]))
					}
				}
				c.run(gim[ver], cs, 1)
			}
			if rim != nil && !rbad[base(t.file)] && !t.file.Rec {
				keys := []string{t.key}
				if c.hasV2(t) {
					keys = append(keys, base(t.file)+"_v2."+t.msg.Full)
				}
				for _, k := range keys {
					var cs []Case
					for _, in := range ins {
						cs = append(cs, hostileRust(t, k, in))
					}
					c.run(rim, cs, 1)
				}
			}
		})
		return nil
	}
}

type hostileIn struct {
	b     []byte
	class string
	val   *schema.Val
	n     int
	st    schema.Status
}

// hostileMessages makes the inputs for one type, and some messages to decode into.
func (c *Check) hostileMessages(r *wire.RNG, t mtype) (ins []hostileIn, dirty []*schema.Val) {
	unbounded := schema.Unbounded(t.msg)
	add := func(b []byte, class string) {
		if unbounded && class != "truncated" && class != "deeply nested" {
			// a list whose elements take no input has any length the input claims (a known finding): only lengths that end
			if bigClaim(b) {
				return
			}
		}
		v, n, st := schema.Parse(b, t.msg)
		ins = append(ins, hostileIn{b, class, v, n, st})
	}
	var pool [][]byte
	for k := 0; k < 12; k++ {
		budget := 150 + 150*(k%4)
		v := schema.GenVal(r, t.msg, 0, &budget, r.Bool())
		dirty = append(dirty, v)
		pool = append(pool, schema.Encode(nil, t.msg, v))
	}
	for n := c.scale(14, 100); n > 0; n-- {
		budget := 60 + r.N(500)
		v := schema.GenVal(r, t.msg, 0, &budget, r.N(3) == 0)
		b := schema.Encode(nil, t.msg, v)
		if len(b) > 1500 {
			continue
		}
		for k := 0; k < 3 && len(b) > 0; k++ {
			add(b[:r.N(len(b))], "truncated")
		}
		if len(b) < 60 {
			for k := range b {
				add(b[:k], "truncated")
			}
		}
		for k := 0; k < 10; k++ {
			m, class := mutate(r, b, t.msg, pool)
			for r.N(4) == 0 {
				if m2, _ := mutateBytes(r, m); len(m2) > 0 {
					m = m2
				}
			}
			add(m, class)
		}
	}
	for k := 0; k < 6; k++ {
		add(r.Bytes(r.N(60)), "random")
	}
	for _, d := range []int{1, 5, 40, 200} {
		if v := schema.Deep(r, t.msg, d); v != nil {
			b := schema.Encode(nil, t.msg, v)
			if schema.Ambiguous(t.msg, v) {
				continue
			}
			add(b, "deeply nested")
			add(b[:r.N(len(b))], "deeply nested and truncated")
		}
	}
	return ins, dirty
}

// bigClaim tells whether some varint in b is large.
func bigClaim(b []byte) bool {
	for i := 0; i+1 < len(b); i++ {
		if b[i] >= 0x80 && b[i+1] >= 0x80 {
			return true
		}
	}
	return false
}

func splice(b []byte, lo, hi int, with ...byte) []byte {
	return append(append(append([]byte(nil), b[:lo]...), with...), b[hi:]...)
}

func uv(v uint64) []byte {
	var b []byte
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

var claims = []uint64{0, 1, 2, 127, 128, 1000, 1024, 1025, 1 << 14, 1 << 16, 1 << 20, 1 << 24, 1 << 28, 1<<28 + 1, 1 << 30, 1<<31 - 1, 1 << 31, 1<<32 - 1}

func mutateBytes(r *wire.RNG, b []byte) ([]byte, string) {
	if len(b) == 0 {
		return b, "random"
	}
	m := append([]byte(nil), b...)
	for k := 1 + r.N(3); k > 0; k-- {
		i := r.N(len(m))
		switch r.N(3) {
		case 0:
			m[i] ^= 1 << r.N(8)
		case 1:
			m[i] = []byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 0x7f, 0x80, 0xff}[r.N(18)]
		default:
			m[i] = r.Byte()
		}
	}
	return m, "bytes changed"
}

// mutate changes a valid encoding of m.
func mutate(r *wire.RNG, b []byte, m *schema.Message, pool [][]byte) ([]byte, string) {
	items := schema.Items(b, m)
	if len(items) == 0 || r.N(5) == 0 {
		return mutateBytes(r, b)
	}
	it := items[r.N(len(items))]
	switch r.N(12) {
	case 10, 11:
		// kind bytes that begin nothing, where an item begins: alone, in pairs, or in place of the kind there
		at := it.Start
		if r.N(3) == 0 {
			at = 0
		}
		var stray []byte
		for k := 1 + r.N(2); k > 0; k-- {
			stray = append(stray, byte([]int{wire.TError, r.N(16), int(r.Byte())}[r.N(3)]))
		}
		return splice(b, at, at+r.N(2), stray...), "stray markers"
	case 9:
		var cs []schema.Item
		for _, x := range items {
			if strings.IndexByte("wqil", x.C) >= 0 {
				cs = append(cs, x)
			}
		}
		if len(cs) == 0 {
			return mutateBytes(r, b)
		}
		x := cs[r.N(len(cs))]
		var old uint64
		for i := x.End - 1; i > x.Start; i-- {
			old = old<<7 | uint64(b[i]&0x7f)
		}
		bits := 32
		if x.C == 'q' || x.C == 'l' {
			bits = 64
		}
		switch r.N(3) {
		case 0:
			old ^= 1 << r.N(bits)
		case 1:
			old += []uint64{1, 1 << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 24, 1 << 31}[r.N(7)]
		default:
			old = r.Bits(bits)
		}
		if bits == 32 {
			old = uint64(uint32(old))
		}
		return splice(b, x.Start+1, x.End, uv(old)...), "numbers changed"
	case 0, 1, 2:
		var cs []schema.Item
		for _, x := range items {
			if x.Cnt > 0 {
				cs = append(cs, x)
			}
		}
		if len(cs) == 0 {
			return mutateBytes(r, b)
		}
		x := cs[r.N(len(cs))]
		end := x.Cnt
		for b[end] >= 0x80 {
			end++
		}
		end++
		return splice(b, x.Cnt, end, uv(claims[r.N(len(claims))])...), "counts and lengths falsified"
	case 3:
		return splice(b, it.Start, it.End), "items removed"
	case 4:
		return splice(b, it.Start, it.Start, b[it.Start:it.End]...), "items repeated"
	case 5:
		o := items[r.N(len(items))]
		return splice(b, it.Start, it.End, b[o.Start:o.End]...), "items exchanged"
	case 6:
		if r.Bool() {
			return splice(b, it.Start, it.End, wire.TNil), "absent markers"
		}
		return splice(b, it.Start, it.Start, wire.TNil), "absent markers"
	case 7:
		e := wire.Encode([]wire.Op{{C: 'e', B: r.Text(r.N(10))}})
		if r.Bool() {
			return splice(b, it.Start, it.End, e...), "error markers"
		}
		return splice(b, it.Start, it.Start, e...), "error markers"
	default:
		o := pool[r.N(len(pool))]
		if len(o) > 1500 {
			o = o[:1500]
		}
		return append(append([]byte(nil), b[:it.Start]...), o[r.N(len(o)+1):]...), "messages spliced"
	}
}

// allocLimit is what decoding n bytes may allocate: far above what honest input needs, far below what a false count claims.
func allocLimit(n int) int { return 12<<20 + n<<16 }

func hostileGo(t mtype, ver string, in hostileIn, dirty *schema.Val) Case {
	line := "P " + t.key + " " + wire.HexArg(in.b)
	if dirty != nil {
		line = "Q " + t.key + " " + wire.HexArg(in.b) + " " + schema.Text(t.msg, dirty)
	}
	return Case{Line: line, Class: "Go: " + in.class, Triv: len(in.b) == 0, Check: func(im *Impl, o string) string {
		d, bad := parseDecoded(o)
		if bad != "" {
			return bad
		}
		if d.alloc > allocLimit(len(in.b)) {
			return fmt.Sprintf("decoding %d bytes allocates %d", len(in.b), d.alloc)
		}
		switch {
		case in.st == schema.Bad && d.ok:
			return "decoding succeeds on bytes that are no message of the type"
		case in.st != schema.OK:
			return ""
		case !d.ok:
			return "decoding a valid message fails: " + d.text
		}
		want := schema.Expect(t.msg, schema.Dedup(t.msg, in.val), ver == "v1")
		if w := schema.Text(t.msg, want); d.text != w {
			return "decoded another message:\n  got  " + clip(d.text, 1000) + "\n  want " + clip(w, 1000)
		}
		if dirty == nil && !schema.Ambiguous(t.msg, want) {
			return sameEncoding(t, d.again, want, schema.Encode(nil, t.msg, want), schema.Text(t.msg, want))
		}
		return ""
	}}
}

func hostileRust(t mtype, key string, in hostileIn) Case {
	return Case{Line: "P " + key + " " + wire.HexArg(in.b), Class: "Rust: " + in.class, Triv: len(in.b) == 0, Check: func(im *Impl, o string) string {
		d, pos, none, bad := rustOut(o)
		if bad != "" {
			return bad
		}
		if d.alloc > allocLimit(len(in.b)) {
			return fmt.Sprintf("decoding %d bytes allocates %d", len(in.b), d.alloc)
		}
		switch {
		case in.st == schema.Bad && (none || d.ok):
			return "decoding succeeds on bytes that are no message of the type"
		case in.st != schema.OK:
			return ""
		case in.val.Nil && !none:
			return "an absent message is not decoded as none"
		case in.val.Nil:
			return ""
		case none:
			return "a present message is decoded as none"
		}
		if schema.Width0(t.msg) || schema.Headless(t.msg) && !d.ok {
			return "" // an error item may follow a message that takes no input
		}
		fit := schema.RustOK(t.msg, in.val)
		if !fit {
			if d.ok {
				return "decoding succeeds although the message has no Rust counterpart (absent sub-message, enum out of range or invalid text)"
			}
			return ""
		}
		if !d.ok {
			return "decoding a valid message fails: " + d.text
		}
		want := schema.Dedup(t.msg, in.val)
		if w := schema.Text(t.msg, want); d.text != w {
			return "decoded another message:\n  got  " + clip(d.text, 1000) + "\n  want " + clip(w, 1000)
		}
		if pos != in.n {
			return fmt.Sprintf("decoding stopped at %d, the message has %d bytes", pos, in.n)
		}
		return sameEncoding(t, d.again, want, schema.Encode(nil, t.msg, want), schema.Text(t.msg, want))
	}}
}
