package main

import (
	"bytes"
	"fmt"
	"runtime"
	"strings"

	v1 "github.com/loopholelabs/polyglot"
	v2 "github.com/loopholelabs/polyglot/v2"

	"verif/wire"
)

func init() { checks["C09"] = c09 }

func newDec(ver string, b []byte) (dec, func()) {
	if ver == "v1" {
		d := v1.GetDecoder(b)
		return d, func() { d.Return() }
	}
	return v2.Decoder(b), func() {}
}

func fill(b []byte, c byte) {
	for i := range b {
		b[i] = c
	}
}

// held is a decoded value kept alive, with a private copy of what it was.
type held struct {
	b    []byte
	s    string
	e    error
	want string
	kind byte
}

func (h held) now() string {
	switch h.kind {
	case 'x':
		return string(h.b)
	case 's':
		return h.s
	}
	return h.e.Error()
}

func c09() {
	r := rng("C09/" + mode)
	// destination slices: every length, capacity and data size around each other, storage guarded
	for _, ver := range []string{"v1", "v2"} {
		for n := 0; n <= 40; n += 1 {
			for c := 0; c <= 44; c += 1 {
				for _, l := range []int{0, c / 2, c} {
					if (n+c+l)%2 == 1 && n > 4 && c > 4 && n != c && n != c+1 && n != c-1 {
						continue
					}
					destination(ver, n, l, c)
				}
			}
		}
		for _, n := range []int{126, 127, 128, 129, 16383, 16384, 70000, 2097152} {
			for _, c := range []int{0, n - 1, n, n + 1, 2 * n} {
				for _, l := range []int{0, c / 3, c} {
					destination(ver, n, l, c)
				}
			}
		}
	}
	rounds := scale(10000, 200000)
	var world []held // values that survive many rounds
	for i := 0; i < rounds; i++ {
		for _, ver := range []string{"v1", "v2"} {
			ops := items(r, 1+r.N(12), []int{30, 300, 5000}[r.N(3)])
			ops = append(ops, r.Item("xse"[r.N(3)], wire.Opts{MaxData: 600, RawText: true}))
			if i%40 == 7 { // longer values than any size at which copying could be given up
				n := []int{16384, 32768, 65535, 65536, 65537, 100000, 262145, 1048577}[i/40%8]
				for _, k := range "XSR" {
					ops = append(ops, wire.Op{C: byte(k), U: uint64(n + r.N(3)), K1: byte(200 + r.N(50))})
				}
				count("runs with long values "+ver, 1)
			}
			hs := ownership(r, ver, ops)
			if i%40 != 7 {
				world = append(world, hs...)
			}
		}
		if i%100 == 0 {
			runtime.GC()
			churn(r)
		}
		if len(world) > 4000 || i%250 == 249 {
			runtime.GC()
			for _, h := range world {
				if h.now() != h.want {
					violate("a decoded %c value changed long after decoding: %q is now %q", h.kind, clip(h.want, 80), clip(h.now(), 80))
				}
			}
			count("values rechecked after collections", len(world))
			world = world[:0]
		}
	}
}

// churn allocates and drops memory of the sizes in use, so that reuse of a wrongly shared block shows.
func churn(r *wire.RNG) {
	var keep [][]byte
	for i := 0; i < 400; i++ {
		b := make([]byte, 1+r.N(600))
		fill(b, 0xDD)
		keep = append(keep, b)
	}
	runtime.KeepAlive(keep)
}

func destination(ver string, n, l, c int) {
	data := wire.Pattern(n, byte(n+c), false)
	in := wire.Encode([]wire.Op{{C: 'x', B: data}, {C: 'u', U: 9}})
	orig := append([]byte(nil), in...)
	store := bytes.Repeat([]byte{0xA5}, c+32)
	dst := store[16 : 16+l : 16+c]
	d, done := newDec(ver, in)
	got, err := d.Bytes(dst)
	what := fmt.Sprintf("%s: %d bytes into a destination of length %d, capacity %d", ver, n, l, c)
	note(what, false)
	if err != nil || !bytes.Equal(got, data) {
		violate("%s: gave %d bytes (%v), wrong content or length", what, len(got), err)
		return
	}
	if got == nil && n > 0 {
		violate("%s: nil result", what)
	}
	for i, x := range store {
		if (i < 16 || i >= 16+c) && x != 0xA5 {
			violate("%s: byte %d outside the destination's capacity was written", what, i-16)
			return
		}
	}
	if v, err := d.Uint8(); err != nil || v != 9 {
		violate("%s: the following item did not decode", what)
	}
	done()
	if !bytes.Equal(in, orig) {
		violate("%s: the input was modified", what)
	}
	// the result shares nothing with the input, in either direction
	fill(in, 0x77)
	if !bytes.Equal(got, data) {
		violate("%s: the result changes with the input", what)
	}
	snap := append([]byte(nil), in...)
	fill(got[:cap(got)], 0x33)
	if !bytes.Equal(in, snap) {
		violate("%s: writing to the result changes the input", what)
	}
	// nothing but the destination's storage and the result's own was reachable through the result
	for i, x := range store {
		if (i < 16 || i >= 16+c) && x != 0xA5 {
			violate("%s: the result reaches byte %d outside the destination", what, i-16)
			return
		}
	}
}

func ownership(r *wire.RNG, ver string, ops []wire.Op) []held {
	var out []byte
	var bytesOf func() []byte
	var reset func()
	var enc func(a *args)
	if ver == "v1" {
		b := v1.NewBuffer()
		bytesOf, reset, enc = b.Bytes, b.Reset, func(a *args) { enc1(b, a) }
	} else {
		b := v2.NewBufferSize(r.N(300))
		bytesOf, reset, enc = b.Bytes, b.Reset, func(a *args) { enc2(b, a) }
	}
	for _, o := range ops {
		a := prep(o)
		keep := append([]byte(nil), a.b...)
		a.b = append(make([]byte, 0, len(a.b)+8), a.b...)
		spare := a.b[:cap(a.b)]
		fill(spare[len(a.b):], 0x5C)
		enc(a)
		if !bytes.Equal(a.b, keep) || a.s != string(keep) {
			violate("%s: encoding %s changed its argument", ver, clip(o.Text(), 100))
		}
		for _, x := range spare[len(a.b):] {
			if x != 0x5C {
				violate("%s: encoding %s wrote behind its argument", ver, clip(o.Text(), 100))
				break
			}
		}
		fill(spare, 0x44) // the caller goes on to use its slice
	}
	want := wire.Encode(ops)
	out = bytesOf()
	if !bytes.Equal(out, want) {
		violate("%s: the encoding of %s changed when its arguments were reused", ver, clip(wire.Texts(ops), 300))
		return nil
	}
	var hs []held
	d, done := newDec(ver, out)
	var dsts [][]byte
	for _, o := range ops {
		q := req(o)
		switch q.C {
		case 'x':
			var dst []byte
			if r.Bool() {
				dst = make([]byte, r.N(40), 40)
			}
			v, err := d.Bytes(dst)
			if err != nil {
				violate("%s: decoding its own encoding failed", ver)
				return hs
			}
			hs = append(hs, held{b: v, want: string(o.Data()), kind: 'x'})
			dsts = append(dsts, v)
		case 's':
			v, err := d.String()
			if err != nil {
				violate("%s: decoding its own encoding failed", ver)
				return hs
			}
			hs = append(hs, held{s: v, want: string(o.Data()), kind: 's'})
		case 'e':
			v, err := d.Error()
			if err != nil || v == nil {
				violate("%s: decoding its own encoding failed", ver)
				return hs
			}
			hs = append(hs, held{e: v, want: string(o.Data()), kind: 'e'})
		default:
			if _, ok := decOp(d, q, nil); !ok {
				violate("%s: decoding its own encoding failed", ver)
				return hs
			}
		}
	}
	done()
	if !bytes.Equal(bytesOf(), want) {
		violate("%s: decoding changed its input: %s", ver, clip(wire.Texts(ops), 300))
	}
	check := func(when string) bool {
		for _, h := range hs {
			if h.now() != h.want {
				violate("%s: a decoded %c value changed when %s: %q became %q", ver, h.kind, when, clip(h.want, 80), clip(h.now(), 80))
				return false
			}
		}
		return true
	}
	if !check("decoding went on") {
		return nil
	}
	// the buffer is reused for other data
	old := bytesOf()
	reset()
	for i := 0; i < 3; i++ {
		enc(prep(wire.Op{C: 'X', U: uint64(len(old)), K1: byte(i)}))
	}
	if !check("the encoder's buffer was reused") {
		return nil
	}
	fill(old[:cap(old)], 0x66)
	if !check("the input was overwritten") {
		return nil
	}
	// decoded values do not share storage with each other
	for i, b := range dsts {
		saved := append([]byte(nil), b...)
		fill(b[:cap(b)], 0x99)
		for _, h := range hs {
			if h.kind == 'x' && (len(h.b) == 0 || len(b) > 0 && &h.b[0] == &b[0]) {
				continue
			}
			if h.now() != h.want {
				violate("%s: overwriting decoded value %d changed another decoded value", ver, i)
				return nil
			}
		}
		copy(b, saved)
	}
	note(ver+" "+clip(wire.Texts(ops), 400), false)
	count("values held "+ver, len(hs))
	if strings.Contains(mode, "clobber") && r.N(50) == 0 {
		runtime.GC()
		check("a collection ran")
	}
	return hs
}
