package main

import (
	"bytes"
	"fmt"
	"runtime"
	"runtime/debug"
	"sync"

	v1 "github.com/loopholelabs/polyglot"
	v2 "github.com/loopholelabs/polyglot/v2"

	"verif/wire"
)

func init() { checks["C24"] = c24 }

// live is what the heap holds after everything that can be given back has been (two collections empty a sync.Pool).
func live() int {
	best := 1 << 62
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		best = min(best, int(m.HeapAlloc))
	}
	return best
}

const (
	stretches = 3
	slack     = 48 << 10
)

// steady runs f again and again: what is alive afterwards may not grow with every stretch.
func steady(what string, per int, f func(from, n int)) {
	guarded(what, func() {
		f(0, per/4+1)
		before := live()
		gs := runtime.NumGoroutine()
		first := before
		grown := 0
		least := 1 << 62
		at := per/4 + 1
		for k := 0; k < stretches; k++ {
			f(at, per)
			at += per
			now := live()
			least = min(least, now-before)
			if now-before > slack {
				grown++
			}
			before = now
			if grown <= k { // one stretch without growth settles it
				break
			}
		}
		if grown == stretches {
			violate("%s: after everything was dropped, every %d rounds leave at least %d bytes more alive (%d after all)", what, per, least, before-first)
		}
		if n := runtime.NumGoroutine(); n > gs+2 {
			violate("%s: %d goroutines more than before", what, n-gs)
		}
		count("rounds of use", at)
		note(what, false)
	})
}

func c24() {
	defer debug.SetGCPercent(debug.SetGCPercent(100))
	v1s, v2s := "v1", "v2"
	for i := 0; i < len(wire.Alphabet); i++ {
		c := wire.Alphabet[i]
		for _, size := range []int{40, 600, 70000} {
			if size > 40 && c != 'x' && c != 's' && c != 'e' {
				continue
			}
			per := scale(12000, 60000)
			if size > 40 {
				per = scale(4000, 20000)
			}
			if size > 60000 {
				per = scale(200, 1000)
			}
			r := rng(fmt.Sprint("C24", string(c), size))
			next := func(n int) wire.Op {
				o := r.Item(c, wire.Opts{MaxData: size, RawText: true})
				if c == 'x' || c == 's' || c == 'e' { // never the same twice
					for k := 0; k < 8 && len(o.B) < size/3; k++ {
						o.B = append(o.B, r.Bytes(size/8)...)
					}
					o.B = append(o.B, fmt.Sprintf("#%d", n)...)
				}
				return o
			}
			for _, ver := range []string{v1s, v2s} {
				name := fmt.Sprintf("%s: %c up to %d bytes: ", ver, c, size)
				reuse1, reuse2 := v1.NewBuffer(), v2.NewBuffer()
				steady(name+"encoding", per, func(from, n int) {
					for j := from; j < from+n; j++ {
						a := prep(next(j))
						if ver == v1s {
							b := v1.NewBuffer()
							if j%3 == 0 {
								b = reuse1
								b.Reset()
							}
							enc1(b, a)
							continue
						}
						switch j % 3 {
						case 0:
							reuse2.Reset()
							enc2(reuse2, a)
						case 1:
							enc2(v2.NewBuffer(), a)
						default:
							b := v2.GetBuffer()
							enc2(b, a)
							v2.PutBuffer(b)
						}
					}
				})
				steady(name+"decoding", per, func(from, n int) {
					for j := from; j < from+n; j++ {
						o := next(j)
						d, done := newDec(ver, wire.Encode([]wire.Op{o}))
						if _, ok := decOp(d, req(o), nil); !ok {
							violate("%s: %s does not decode", ver, clip(o.Text(), 100))
						}
						if j%7 != 0 { // some are never returned
							done()
						}
					}
				})
				steady(name+"failing", per, func(from, n int) {
					for j := from; j < from+n; j++ {
						o := next(j)
						in := wire.Encode([]wire.Op{o})
						switch j % 3 {
						case 0:
							in = in[:r.N(len(in))]
						case 1:
							in[r.N(len(in))] ^= byte(1 + r.N(255))
						default:
							in[0] = byte(j>>2) | 0x30
						}
						d, done := newDec(ver, in)
						for k := 0; k < 2; k++ {
							decOp(d, req(o), nil)
							decOp(d, wire.Op{C: wire.Alphabet[(i+j)%len(wire.Alphabet)]}, nil)
						}
						done()
					}
				})
			}
		}
	}
	// many at once
	for _, ver := range []string{v1s, v2s} {
		steady(ver+": 8 goroutines, items of every kind", scale(40, 300), func(from, n int) {
			var wg sync.WaitGroup
			for w := 0; w < 8; w++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					r := rng(fmt.Sprint("C24 many", ver, w, from))
					guarded("many at once", func() {
						for j := 0; j < n; j++ {
							ops := items(r, 40, 1500)
							in := wire.Encode(ops)
							d, done := newDec(ver, in)
							for _, o := range ops {
								decOp(d, req(o), nil)
							}
							done()
							if ver == v1s {
								b := v1.NewBuffer()
								for _, o := range ops {
									enc1(b, prep(o))
								}
								continue
							}
							b := v2.GetBuffer()
							for _, o := range ops {
								enc2(b, prep(o))
							}
							v2.PutBuffer(b)
						}
					})
				}()
			}
			wg.Wait()
		})
	}
	pools()
	heldSmall()
}

// pools: objects that are taken and returned, or taken and dropped, large and small, from pools that come and go.
func pools() {
	big := bytes.Repeat([]byte("0123456789abcdef"), 1<<12)
	steady("buffers of a pool, returned or dropped", scale(3000, 20000), func(from, n int) {
		for j := from; j < from+n; j++ {
			b := v2.GetBuffer()
			v2.Encoder(b).Bytes(big[:(j*7919)%len(big)])
			if j%5 != 0 {
				v2.PutBuffer(b)
			}
		}
	})
	steady("pools that come and go", scale(1500, 8000), func(from, n int) {
		for j := from; j < from+n; j++ {
			p := v2.NewPool()
			var bs []*v2.Buffer
			for k := 0; k < 4; k++ {
				b := p.Get()
				v2.Encoder(b).Bytes(big[:(j*1009+k)%2000])
				bs = append(bs, b)
			}
			for _, b := range bs[j%3:] {
				p.Put(b)
			}
		}
	})
	steady("many buffers of a pool at once", scale(20, 100), func(from, n int) {
		for j := from; j < from+n; j++ {
			bs := make([]*v2.Buffer, 300)
			for k := range bs {
				bs[k] = v2.GetBuffer()
				v2.Encoder(bs[k]).Bytes(big[:(j*k)%3000])
			}
			for _, b := range bs {
				v2.PutBuffer(b)
			}
		}
	})
	steady("many decoders at once", scale(20, 100), func(from, n int) {
		for j := from; j < from+n; j++ {
			ds := make([]*v1.Decoder, 300)
			for k := range ds {
				ds[k] = v1.GetDecoder(append([]byte(nil), big[:(j*k)%3000]...))
			}
			for _, d := range ds {
				d.Return()
			}
		}
	})
}

// heldSmall: a decoded value keeps no more alive than itself, however large the input it came from.
func heldSmall() {
	r := rng("C24 held")
	for _, c := range []byte("xseq") {
		for _, size := range []int{0, 1, 7, 16, 100, 1000} {
			for _, big := range []int{1 << 12, 1 << 16, 1 << 19} {
				for _, ver := range []string{"v1", "v2"} {
					n := min(400, (64<<20)/big)
					name := fmt.Sprintf("%s: %d values %c of %d bytes from inputs of %d bytes", ver, n, c, size, big)
					guarded(name, func() {
						keep := make([]any, n)
						before := live()
						for j := range keep {
							o := wire.Op{C: c, B: r.Bytes(size), U: 77}
							front := wire.Encode([]wire.Op{{C: 'X', U: uint64(j % 2 * big / 3), K1: 5}, o})
							in := make([]byte, max(big, len(front)+20))
							copy(in, front)
							d, done := newDec(ver, in)
							if _, err := d.Bytes(nil); err != nil {
								violate("%s: %v", name, err)
							}
							var err error
							switch c {
							case 'x':
								keep[j], err = d.Bytes(nil)
							case 's':
								keep[j], err = d.String()
							case 'e':
								keep[j], err = d.Error()
							default:
								keep[j], err = d.Uint64()
							}
							if err != nil {
								violate("%s: %v", name, err)
							}
							done()
						}
						now := live()
						if used := now - before; used > slack+n*(4*size+256) {
							violate("%s: the values keep %d bytes alive", name, used)
						}
						runtime.KeepAlive(keep)
						count("values held", n)
						note(name, false)
					})
				}
			}
		}
	}
}
