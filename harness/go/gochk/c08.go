package main

import (
	"bytes"
	"fmt"
	"strings"

	v1 "github.com/loopholelabs/polyglot"
	v2 "github.com/loopholelabs/polyglot/v2"

	"verif/wire"
)

func init() { checks["C08"] = c08 }

// snapshot is a slice handed out earlier; until the next Reset it must keep what it showed.
type snapshot struct {
	b    []byte
	want []byte
}

func c08() {
	r := rng("C08")
	n := scale(100000, 1500000)
	for i := 0; i < n; i++ {
		history2(r, maxSmall)
		if i%3 == 0 {
			history1(r, maxSmall)
		}
	}
	// buffers of kilobytes to megabytes: growth, reuse and reset of large storage
	for i := 0; i < scale(400, 6000); i++ {
		m := 1 << (12 + r.N(10))
		history2(r, m)
		history1(r, m)
		count("large histories", 2)
	}
	// every capacity and fill level of a small caller slice against every write size around its room
	for c := 0; c <= 24; c++ {
		for l := 0; l <= c; l += 3 {
			for w := 0; w <= 30; w++ {
				store := bytes.Repeat([]byte{0xA5}, c+16)
				b := v2.NewBufferFromBytes(store[8 : 8+l : 8+c])
				var log []string
				check2(b, nil, 0, &log, "new")
				data := wire.Pattern(w, byte(c), false)
				b.Write(data)
				log = append(log, fmt.Sprintf("from(len %d cap %d) write %d", l, c, w))
				check2(b, data, c, &log, "write")
				if w <= c && w > 0 && !bytes.Equal(store[8:8+w], data) {
					violate("v2: a buffer made from caller bytes of capacity %d did not use that storage for %d bytes", c, w)
				}
				if !bytes.Equal(store[:8], bytes.Repeat([]byte{0xA5}, 8)) || !bytes.Equal(store[8+c:], bytes.Repeat([]byte{0xA5}, 8)) {
					violate("v2: bytes outside the caller's slice changed: %v", log)
				}
				note(log[0], false)
			}
		}
	}
}

func check2(b *v2.Buffer, want []byte, minCap int, log *[]string, op string) {
	if b.Len() != len(want) || !bytes.Equal(b.Bytes(), want) {
		violate("v2 after %s: content %d bytes, log %d bytes; history: %s", op, b.Len(), len(want), strings.Join(*log, "; "))
	}
	if b.Cap() < b.Len() || b.Cap() < minCap {
		violate("v2 after %s: capacity %d below length %d or the earlier capacity %d; history: %s", op, b.Cap(), b.Len(), minCap, strings.Join(*log, "; "))
	}
	if len(b.Bytes()) != b.Len() {
		violate("v2 after %s: Bytes has %d bytes, Len says %d", op, len(b.Bytes()), b.Len())
	}
}

const maxSmall = 3000

// writeSize is mostly small; for large histories it is spread evenly over the orders of magnitude.
func writeSize(r *wire.RNG, m int) int {
	if m == maxSmall {
		return r.Size(m)
	}
	n := 1 << r.N(bitlen(m))
	return n + r.N(n)
}

func history2(r *wire.RNG, m int) {
	var log []string
	defer func() {
		if p := recover(); p != nil {
			violate("v2 panic: %v; history: %s", p, strings.Join(log, "; "))
		}
	}()
	var b *v2.Buffer
	var store []byte
	lo, hi := 0, 0
	switch r.N(4) {
	case 0:
		b = v2.NewBuffer()
		log = append(log, "NewBuffer")
	case 1:
		n := []int{0, 1, 2, 7, 16, 100, 512, 5000}[r.N(8)]
		b = v2.NewBufferSize(n)
		log = append(log, fmt.Sprintf("NewBufferSize(%d)", n))
	case 2:
		n := r.N(80)
		l := r.N(n + 1)
		store = bytes.Repeat([]byte{0xA5}, n+24)
		lo, hi = 12, 12+n
		b = v2.NewBufferFromBytes(store[lo : lo+l : hi])
		log = append(log, fmt.Sprintf("NewBufferFromBytes(len %d, cap %d)", l, n))
	default:
		p := v2.NewPool()
		b = p.Get()
		log = append(log, "Pool.Get")
	}
	var want []byte
	var snaps []snapshot
	cap0 := b.Cap()
	check2(b, want, 0, &log, "new")
	steps := 3 + r.N(25)
	for s := 0; s < steps; s++ {
		switch r.N(12) {
		case 0, 1, 2:
			d := r.Bytes(writeSize(r, m))
			keep := append([]byte(nil), d...)
			log = append(log, fmt.Sprintf("Write(%d)", len(d)))
			if n := b.Write(d); n != len(d) {
				violate("v2: Write of %d bytes reported %d; history: %s", len(d), n, strings.Join(log, "; "))
			}
			if !bytes.Equal(d, keep) {
				violate("v2: Write changed its argument; history: %s", strings.Join(log, "; "))
			}
			want = append(want, keep...)
			for j := range d {
				d[j] = 0x11
			}
		case 3:
			log = append(log, "Reset")
			b.Reset()
			want = want[:0]
			snaps = nil
		case 4, 5:
			n := []int{0, 1, r.N(20), r.N(600), r.N(m), b.Cap() - b.Len(), b.Cap() - b.Len() + 1, b.Cap(), b.Cap() + 1}[r.N(9)]
			log = append(log, fmt.Sprintf("Grow(%d)", n))
			b.Grow(n)
			if b.Cap()-b.Len() < n {
				violate("v2: Grow(%d) left room for %d; history: %s", n, b.Cap()-b.Len(), strings.Join(log, "; "))
			}
		case 6, 7:
			// fill reserved bytes and commit them
			n := []int{0, 1, r.N(30), r.N(m / 3)}[r.N(4)]
			log = append(log, fmt.Sprintf("Grow(%d)+fill+MoveOffset", n))
			b.Grow(n)
			d := r.Bytes(n)
			cur := b.Bytes()
			copy(cur[len(cur):len(cur)+n], d)
			b.MoveOffset(n)
			want = append(want, d...)
		default:
			o := r.Item(wire.Alphabet[r.N(len(wire.Alphabet))], wire.Opts{MaxData: m, RawText: true})
			log = append(log, "encode "+clip(o.Text(), 24))
			enc2(b, prep(o))
			want = wire.Append(want, o)
		}
		check2(b, want, cap0, &log, log[len(log)-1])
		cap0 = b.Cap()
		for _, sn := range snaps {
			if !bytes.Equal(sn.b, sn.want) {
				violate("v2: bytes handed out earlier changed although nothing was reset; history: %s", strings.Join(log, "; "))
			}
		}
		if r.N(4) == 0 {
			x := b.Bytes()
			snaps = append(snaps, snapshot{x, append([]byte(nil), x...)})
		}
		for j, c := range store {
			if (j < lo || j >= hi) && c != 0xA5 {
				violate("v2: byte %d outside the caller's slice changed; history: %s", j-lo, strings.Join(log, "; "))
				break
			}
		}
		if store != nil && cap0 == hi-lo && len(want) > 0 && !bytes.Equal(store[lo:lo+len(want)], want) {
			violate("v2: the buffer does not use the caller's storage while it fits; history: %s", strings.Join(log, "; "))
		}
		count("steps v2", 1)
	}
	note("v2 "+strings.Join(log, "; "), false)
}

func history1(r *wire.RNG, m int) {
	var log []string
	defer func() {
		if p := recover(); p != nil {
			violate("v1 panic: %v; history: %s", p, strings.Join(log, "; "))
		}
	}()
	var b *v1.Buffer
	var want []byte
	var store []byte
	lo, hi := 0, 0
	switch r.N(3) {
	case 0:
		b = v1.NewBuffer()
		log = append(log, "NewBuffer")
	case 1:
		x := make(v1.Buffer, 0, r.N(100))
		b = &x
		log = append(log, fmt.Sprintf("cap %d", cap(x)))
	default:
		n := r.N(80)
		l := r.N(n + 1)
		store = bytes.Repeat([]byte{0xA5}, n+24)
		lo, hi = 12, 12+n
		x := v1.Buffer(store[lo : lo+l : hi])
		b = &x
		want = bytes.Repeat([]byte{0xA5}, l)
		log = append(log, fmt.Sprintf("caller slice len %d cap %d", l, n))
	}
	var snaps []snapshot
	steps := 3 + r.N(25)
	capBefore := cap(*b)
	for s := 0; s < steps; s++ {
		switch r.N(8) {
		case 0, 1, 2:
			d := r.Bytes(writeSize(r, m))
			log = append(log, fmt.Sprintf("Write(%d)", len(d)))
			keep := append([]byte(nil), d...)
			if n := b.Write(d); n != len(d) {
				violate("v1: Write of %d bytes reported %d; history: %s", len(d), n, strings.Join(log, "; "))
			}
			if !bytes.Equal(d, keep) {
				violate("v1: Write changed its argument; history: %s", strings.Join(log, "; "))
			}
			want = append(want, keep...)
			for j := range d {
				d[j] = 0x22
			}
		case 3:
			log = append(log, "Reset")
			b.Reset()
			want = want[:0]
			snaps = nil
		default:
			o := r.Item(wire.Alphabet[r.N(len(wire.Alphabet))], wire.Opts{MaxData: m, RawText: true})
			log = append(log, "encode "+clip(o.Text(), 24))
			enc1(b, prep(o))
			want = wire.Append(want, o)
		}
		if b.Len() != len(want) || !bytes.Equal(b.Bytes(), want) {
			violate("v1: content %d bytes, log %d bytes; history: %s", b.Len(), len(want), strings.Join(log, "; "))
		}
		if cap(*b) < capBefore {
			violate("v1: capacity reduced from %d to %d; history: %s", capBefore, cap(*b), strings.Join(log, "; "))
		}
		capBefore = cap(*b)
		for _, sn := range snaps {
			if !bytes.Equal(sn.b, sn.want) {
				violate("v1: bytes handed out earlier changed although nothing was reset; history: %s", strings.Join(log, "; "))
			}
		}
		if r.N(4) == 0 {
			x := b.Bytes()
			snaps = append(snaps, snapshot{x, append([]byte(nil), x...)})
		}
		for j, c := range store {
			if (j < lo || j >= hi) && c != 0xA5 {
				violate("v1: byte %d outside the caller's slice changed; history: %s", j-lo, strings.Join(log, "; "))
				break
			}
		}
		count("steps v1", 1)
	}
	note("v1 "+strings.Join(log, "; "), false)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
