package main

import (
	"fmt"
	"runtime"
	"runtime/debug"

	v1 "github.com/loopholelabs/polyglot"
	v2 "github.com/loopholelabs/polyglot/v2"

	"verif/wire"
)

func init() { checks["C12"] = c12 }

// mallocs counts heap allocations of f, which must be deterministic; background noise only adds, so the
// smallest of several measurements is the one that counts.
func mallocs(f func()) uint64 {
	best := ^uint64(0)
	var m0, m1 runtime.MemStats
	for i := 0; i < 6 && best > 0; i++ {
		runtime.ReadMemStats(&m0)
		f()
		runtime.ReadMemStats(&m1)
		best = min(best, m1.Mallocs-m0.Mallocs)
	}
	return best
}

func c12() {
	debug.SetGCPercent(-1)
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	r := rng("C12")
	all := wire.Boundary()
	all = append(all, items(r, 600, 3000)...)
	for _, n := range []int{0, 1, 127, 128, 16383, 16384, 100000} {
		for _, k := range "XSR" {
			all = append(all, wire.Op{C: byte(k), U: uint64(n), K1: 3})
		}
	}
	const reps = 5
	for _, o := range all {
		a := prep(o)
		size := len(wire.Encode([]wire.Op{o}))
		room := reps*(size+16) + 64
		// each item into spare room that is exactly enough, and into more than enough
		b1 := make(v1.Buffer, 0, room)
		b2 := v2.NewBufferSize(room)
		for i := 0; i < reps; i++ {
			enc1(&b1, a)
			enc2(b2, a)
		}
		b1.Reset()
		b2.Reset()
		for _, used := range []int{0, room - reps*(size+16)} {
			if n := mallocs(func() {
				b1.Reset()
				b1.Write(pad[:used])
				for i := 0; i < reps; i++ {
					enc1(&b1, a)
				}
			}); n != 0 {
				violate("v1: encoding %s %d times into a buffer with room allocates %d times", clip(o.Text(), 60), reps, n)
			}
			if n := mallocs(func() {
				b2.Reset()
				b2.Write(pad[:used])
				for i := 0; i < reps; i++ {
					enc2(b2, a)
				}
			}); n != 0 {
				violate("v2: encoding %s %d times into a buffer with room allocates %d times", clip(o.Text(), 60), reps, n)
			}
		}
		note("encode "+clip(o.Text(), 120), false)
		count("steady-state encodes", 4*reps)
		if o.C == 's' || o.C == 'e' || o.C == 'S' || o.C == 'R' {
			continue
		}
		in := wire.Encode([]wire.Op{o, o, o, o, o})
		q := req(o)
		dst := make([]byte, len(o.Data()), len(o.Data())+8)
		for _, ver := range []string{"v1", "v2"} {
			var n uint64 = ^uint64(0)
			for try := 0; try < 4 && n > 0; try++ {
				d, done := newDec(ver, in)
				var m0, m1 runtime.MemStats
				ok := true
				runtime.ReadMemStats(&m0)
				for i := 0; i < reps; i++ {
					ok = decodeQuiet(d, q, dst) && ok
				}
				runtime.ReadMemStats(&m1)
				if !ok {
					violate("%s: %s does not decode", ver, clip(o.Text(), 60))
				}
				n = min(n, m1.Mallocs-m0.Mallocs)
				done()
			}
			if n != 0 {
				violate("%s: decoding %s %d times (destination large enough) allocates %d times", ver, clip(o.Text(), 60), reps, n)
			}
		}
		// a destination with room but no length
		if q.C == 'x' {
			for _, ver := range []string{"v1", "v2"} {
				d, done := newDec(ver, in)
				dst0 := make([]byte, 0, len(o.Data()))
				if n := mallocs1(func() { decodeQuiet(d, q, dst0) }); n != 0 {
					violate("%s: decoding %s into an empty destination of the right capacity allocates", ver, clip(o.Text(), 60))
				}
				done()
			}
		}
		note("decode "+clip(o.Text(), 120), false)
		count("steady-state decodes", 2*reps)
	}
	// a whole message again and again into the same buffer
	for i := 0; i < scale(300, 3000); i++ {
		ops := items(r, 40, 500)
		if i%10 == 0 { // a large message
			for j := r.N(6); j >= 0; j-- {
				n := 1 << (10 + r.N(11))
				ops = append(ops, wire.Op{C: "XSR"[r.N(3)], U: uint64(n + r.N(n)), K1: 7})
			}
		}
		as := make([]*args, len(ops))
		for j, o := range ops {
			as[j] = prep(o)
		}
		b1, b2 := v1.NewBuffer(), v2.NewBuffer()
		run := func() {
			b1.Reset()
			b2.Reset()
			for _, a := range as {
				enc1(b1, a)
				enc2(b2, a)
			}
		}
		run()
		if n := mallocs(run); n != 0 {
			violate("re-encoding %s into a reset buffer allocates %d times", clip(wire.Texts(ops), 300), n)
		}
		note("message "+clip(wire.Texts(ops), 300), false)
	}
	growth(r)
}

var pad [256]byte

func mallocs1(f func()) uint64 {
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	f()
	runtime.ReadMemStats(&m1)
	return m1.Mallocs - m0.Mallocs
}

// decodeQuiet decodes without allocating by itself.
func decodeQuiet(d dec, q wire.Op, dst []byte) bool {
	var err error
	switch q.C {
	case 'n':
		return d.Nil()
	case 'a':
		_, err = sliceOf(d, q.K1)
	case 'm':
		_, err = mapOf(d, q.K1, q.K2)
	case 'x':
		_, err = d.Bytes(dst)
	case 'b':
		_, err = d.Bool()
	case 'u':
		_, err = d.Uint8()
	case 'v':
		_, err = d.Uint16()
	case 'w':
		_, err = d.Uint32()
	case 'q':
		_, err = d.Uint64()
	case 'i':
		_, err = d.Int32()
	case 'l':
		_, err = d.Int64()
	case 'f':
		_, err = d.Float32()
	case 'd':
		_, err = d.Float64()
	}
	return err == nil
}

// growth counts how often the storage changes while n bytes are appended in small items.
func growth(r *wire.RNG) {
	debug.SetGCPercent(100)
	type buf struct {
		name string
		enc  func(*args)
		wr   func([]byte) int
		size func() (int, int)
	}
	total := scale(16<<20, 128<<20)
	mk := func(ver string, n int) buf {
		if ver == "v1" {
			b := make(v1.Buffer, 0, n)
			return buf{fmt.Sprintf("v1 initial capacity %d", n), func(a *args) { enc1(&b, a) }, b.Write, func() (int, int) { return len(b), cap(b) }}
		}
		b := v2.NewBufferSize(n)
		return buf{fmt.Sprintf("v2 initial capacity %d", n), func(a *args) { enc2(b, a) }, b.Write, func() (int, int) { return b.Len(), b.Cap() }}
	}
	small := []wire.Op{{C: 'q', U: 1 << 60}, {C: 's', B: []byte("some text of moderate size")}, {C: 'n'}, {C: 'x', B: wire.Pattern(100, 1, false)}, {C: 'e', B: []byte("an error")}, {C: 'd', U: 1}, {C: 'm', K1: 1, K2: 2, U: 3}, {C: 'b', U: 1}, {C: 'W', U: 1}, {C: 'W', U: 33}, {C: 'l', U: 1 << 63}, {C: 'f', U: 4}, {C: 'v', U: 65535}, {C: 'i', U: ^uint64(0)}, {C: 'w', U: 1 << 31}, {C: 'a', K1: 3, U: 1 << 30}, {C: 'u', U: 2}}
	for _, ver := range []string{"v1", "v2"} {
		for _, n := range []int{0, 1, 5, 512, 4096} {
			for _, o := range append(small, wire.Op{C: '*'}) {
				b := mk(ver, n)
				as := []*args{}
				if o.C == '*' {
					for _, s := range small {
						if s.C != 'W' {
							as = append(as, prep(s))
						}
					}
				} else if o.C != 'W' {
					as = append(as, prep(o))
				}
				raw := wire.Pattern(int(o.U&63), 1, false)
				limit := total
				if len(as) == 1 && len(wire.Encode([]wire.Op{o})) < 4 || o.C == 'W' && o.U < 4 {
					limit = total / 8
				}
				if n == 512 && (o.C == 'x' || o.C == 'W' && o.U == 33) {
					limit = 512 << 20
				}
				// v1 grows by a quarter at large sizes: log base 1.25
				bound := 4*bitlen(limit) + 12
				reallocs, _c := 0, 0
				_, _c = b.size()
				// and within any doubling of the content a constant number (12 allow for growth by a sixteenth)
				octave, inOctave := 0, 0
				for i := 0; ; i++ {
					if o.C == 'W' {
						b.wr(raw)
					} else {
						b.enc(as[i%len(as)])
					}
					l, c := b.size()
					if c != _c {
						reallocs++
						_c = c
						if k := bitlen(l); k != octave {
							octave, inOctave = k, 0
						}
						if inOctave++; inOctave > 12 {
							violate("%s: appending as %s reallocates more than 12 times on the way from %d to %d bytes", b.name, o.Text(), 1<<(octave-1), 1<<octave)
							return
						}
					}
					if l >= limit || reallocs > bound {
						break
					}
				}
				if reallocs > bound {
					violate("%s: appending %d bytes as %s reallocates more than %d times", b.name, limit, o.Text(), bound)
				}
				count("bytes appended in growth runs", limit)
				note(fmt.Sprintf("growth %s item %c%d", b.name, o.C, o.U), false)
			}
			// one large item
			for _, k := range "XSR" {
				for _, sz := range []int{600, 5000, 70000, 3 << 20} {
					b := mk(ver, n)
					a := prep(wire.Op{C: byte(k), U: uint64(sz), K1: 1})
					if m := mallocs1(func() { b.enc(a) }); m > 8 {
						violate("%s: one item of %d bytes allocates %d times", b.name, sz, m)
					}
					note(fmt.Sprintf("large %s %c%d", b.name, k, sz), false)
				}
			}
		}
	}
}

func bitlen(n int) int {
	b := 0
	for n > 0 {
		n >>= 1
		b++
	}
	return b
}
