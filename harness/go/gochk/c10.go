package main

import (
	"bytes"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"

	v1 "github.com/loopholelabs/polyglot"
	v2 "github.com/loopholelabs/polyglot/v2"

	"verif/wire"
)

func init() { checks["C10"] = c10 }

// owners is the online monitor of exclusive ownership: an object is held from the return of a get to the
// call of the put. Two holders at once are a violation.
type owners struct {
	m      sync.Map
	gets   atomic.Int64
	reuses atomic.Int64
}

func (o *owners) acquire(p any, who int) *atomic.Int64 {
	v, loaded := o.m.LoadOrStore(p, new(atomic.Int64))
	h := v.(*atomic.Int64)
	o.gets.Add(1)
	if loaded {
		o.reuses.Add(1)
	}
	if !h.CompareAndSwap(0, int64(who)) {
		violate("a pooled object was handed to holder %d while holder %d had it", who, h.Load())
	}
	return h
}

func (o *owners) release(h *atomic.Int64, who int) {
	if !h.CompareAndSwap(int64(who), 0) {
		violate("a pooled object held by %d changed hands before it was returned", who)
	}
}

func c10() {
	// sequential histories first: what one holder does must not show to the next
	sequential()
	// then concurrent ones, with different numbers of goroutines and with collections running
	for _, g := range []int{2, 8, 32} {
		buffers(g, scale(20000, 400000)/g*4)
		decoders(g, scale(20000, 400000)/g*4)
	}
}

// dirty leaves a buffer in one of many states before it goes back.
func dirty(r *wire.RNG, b *v2.Buffer) string {
	switch r.N(9) {
	case 0:
		return "untouched"
	case 1:
		b.Write(wire.Pattern(1+r.N(30), 1, false))
		return "written a little"
	case 2:
		b.Write(wire.Pattern(500+r.N(30), 1, false))
		return "written to its size"
	case 3:
		n := []int{2000, 70000, 300000, 1 << 20, 5 << 20}[r.N(5)]
		b.Write(wire.Pattern(n, 2, false))
		return fmt.Sprint("grown by ", n)
	case 4:
		b.Grow(r.N(5000))
		return "grown only"
	case 5:
		b.Grow(600)
		b.MoveOffset(600)
		return "offset moved"
	case 6:
		b.Write(wire.Pattern(10, 3, false))
		b.Reset()
		return "written and reset"
	case 7:
		b.Reset()
		b.MoveOffset(1)
		return "one byte"
	}
	for _, o := range items(r, 1+r.N(20), 200) {
		enc2(b, prep(o))
	}
	return "encoded into"
}

func handedOut(b *v2.Buffer, how string) {
	if b == nil {
		violate("a pool handed out nil after: %s", how)
		return
	}
	if b.Len() != 0 || len(b.Bytes()) != 0 {
		violate("a pool handed out a buffer that is not empty (%d bytes) after: %s", b.Len(), how)
	}
}

func sequential() {
	r := rng("C10/seq")
	for i := 0; i < scale(20000, 400000); i++ {
		get, put := v2.GetBuffer, v2.PutBuffer
		name := "GetBuffer/PutBuffer"
		if r.Bool() {
			p := v2.NewPool()
			get, put = p.Get, p.Put
			name = "Pool"
		}
		held := map[*v2.Buffer]string{}
		log := name
		for s := 2 + r.N(10); s > 0; s-- {
			switch r.N(5) {
			case 0:
				put(nil)
				log += " put(nil)"
			case 1: // a buffer that never came from the pool
				var b *v2.Buffer
				switch r.N(3) {
				case 0:
					b = v2.NewBufferSize(r.N(2000))
				case 1:
					b = v2.NewBufferFromBytes(make([]byte, r.N(10), 10+r.N(2000)))
				default:
					b = v2.NewBuffer()
				}
				log += " put(foreign " + dirty(r, b) + ")"
				put(b)
			case 2:
				for b := range held {
					want := held[b]
					if string(b.Bytes()) != want {
						violate("a held buffer changed: %s", log)
					}
					how := dirty(r, b)
					log += " put(" + how + ")"
					put(b)
					delete(held, b)
					break
				}
				if r.N(8) == 0 {
					runtime.GC()
				}
			default:
				b := get()
				log += " get"
				handedOut(b, log)
				if b == nil {
					return
				}
				if _, ok := held[b]; ok {
					violate("a pool handed out a buffer that is still held: %s", log)
				}
				v2.Encoder(b).String("payload").Uint64(uint64(s))
				want := wire.Encode([]wire.Op{{C: 's', B: []byte("payload")}, {C: 'q', U: uint64(s)}})
				if !bytes.Equal(b.Bytes(), want) {
					violate("a buffer from the pool encodes %x instead of %x: %s", b.Bytes(), want, log)
				}
				held[b] = string(want)
			}
		}
		for b, want := range held {
			if string(b.Bytes()) != want {
				violate("a held buffer changed: %s", log)
			}
		}
		note(clip(log, 400), false)
	}
	// decoders
	for i := 0; i < scale(20000, 400000); i++ {
		type hd struct {
			in   []byte
			ops  []wire.Op
			next int
		}
		held := map[*v1.Decoder]*hd{}
		log := "decoders"
		for s := 3 + r.N(12); s > 0; s-- {
			switch r.N(6) {
			case 0:
				v1.ReturnDecoder(nil)
				log += " return(nil)"
			case 1:
				for d, h := range held {
					if h.next < len(h.ops) && r.Bool() {
						d.Bytes(nil) // leave it in the middle, possibly after a failure
					}
					if r.Bool() {
						d.Return()
					} else {
						v1.ReturnDecoder(d)
					}
					delete(held, d)
					log += " return"
					break
				}
			case 2, 3:
				for d, h := range held {
					if h.next < len(h.ops) {
						got, ok := decOp(d, req(h.ops[h.next]), nil)
						if !ok || got.ResText() != plain(h.ops[h.next]).ResText() {
							violate("a held decoder lost its place or its input: %s", log)
						}
						h.next++
						log += " next"
					}
					break
				}
			default:
				ops := items(r, r.N(4), 20)
				in := wire.Encode(ops)
				if len(ops) == 0 && r.Bool() {
					in = nil
				}
				d := v1.GetDecoder(in)
				log += fmt.Sprintf(" get(%d items)", len(ops))
				if d == nil {
					violate("GetDecoder gave nil: %s", log)
					return
				}
				if _, ok := held[d]; ok {
					violate("GetDecoder handed out a decoder that is still held: %s", log)
				}
				held[d] = &hd{in: in, ops: ops}
				if len(ops) == 0 {
					if d.Nil() {
						violate("a decoder for an empty input decoded something: %s", log)
					}
					if _, err := d.Uint32(); err == nil {
						violate("a decoder for an empty input decoded something: %s", log)
					}
				}
			}
		}
		for d, h := range held {
			for ; h.next < len(h.ops); h.next++ {
				got, ok := decOp(d, req(h.ops[h.next]), nil)
				if !ok || got.ResText() != plain(h.ops[h.next]).ResText() {
					violate("a held decoder lost its place or its input: %s", log)
				}
			}
			if d.Nil() {
				violate("a decoder found more than its input: %s", log)
			}
		}
		note(clip(log, 400), false)
	}
}

// plain is the op as decoding returns it.
func plain(o wire.Op) wire.Op {
	switch o.C {
	case 'x', 's', 'e':
		return o
	}
	return o
}

func buffers(g, iters int) {
	var own owners
	var wg sync.WaitGroup
	pool := v2.NewPool()
	stop := make(chan struct{})
	go func() {
		for {
			select {
			case <-stop:
				return
			default:
				runtime.GC()
				runtime.Gosched()
			}
		}
	}()
	for w := 1; w <= g; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rng(fmt.Sprint("C10/b", g, "/", w))
			guarded("pool of buffers", func() {
				for i := 0; i < iters; i++ {
					get, put := pool.Get, pool.Put
					if (i+w)%2 == 0 {
						get, put = v2.GetBuffer, v2.PutBuffer
					}
					n := 1 + r.N(3)
					hs := make([]*atomic.Int64, 0, 3)
					bs := make([]*v2.Buffer, 0, 3)
					who := w*1000000 + i
					var want [][]byte
					for j := 0; j < n; j++ {
						b := get()
						hs = append(hs, own.acquire(b, who*4+j))
						handedOut(b, "concurrent use")
						o := wire.Op{C: 'X', U: uint64([]int{10, 100, 520, 2000}[r.N(4)]), K1: byte(who + j)}
						v2.Encoder(b).Uint64(uint64(who*4 + j))
						enc2(b, prep(o))
						bs = append(bs, b)
						want = append(want, wire.Encode([]wire.Op{{C: 'q', U: uint64(who*4 + j)}, o}))
						if r.N(3) == 0 {
							runtime.Gosched()
						}
					}
					for j, b := range bs {
						if !bytes.Equal(b.Bytes(), want[j]) {
							violate("a held buffer shows another holder's data (%d goroutines)", g)
						}
						if r.N(6) == 0 {
							dirty(r, b)
						}
						own.release(hs[j], who*4+j)
						put(b)
						if r.N(9) == 0 {
							put(nil)
						}
					}
				}
			})
		}()
	}
	wg.Wait()
	close(stop)
	count(fmt.Sprintf("buffer gets, %d goroutines", g), int(own.gets.Load()))
	count(fmt.Sprintf("buffer gets that reused an object, %d goroutines", g), int(own.reuses.Load()))
	for i := 0; i < int(own.gets.Load())/50; i++ {
		note(fmt.Sprintf("buffers g=%d batch=%d", g, i), false)
	}
}

func decoders(g, iters int) {
	var own owners
	var wg sync.WaitGroup
	for w := 1; w <= g; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rng(fmt.Sprint("C10/d", g, "/", w))
			guarded("pool of decoders", func() {
				for i := 0; i < iters; i++ {
					who := w*1000000 + i
					n := 1 + r.N(3)
					type one struct {
						d   *v1.Decoder
						h   *atomic.Int64
						who int
					}
					var ds []one
					for j := 0; j < n; j++ {
						id := who*4 + j
						in := wire.Encode([]wire.Op{{C: 'q', U: uint64(id)}, {C: 's', B: []byte(fmt.Sprint(id))}})
						d := v1.GetDecoder(in)
						ds = append(ds, one{d, own.acquire(d, id), id})
						if r.N(3) == 0 {
							runtime.Gosched()
						}
					}
					for _, x := range ds {
						v, err := x.d.Uint64()
						if err != nil || v != uint64(x.who) {
							violate("a held decoder does not start at its input (%d goroutines): %d %v", g, v, err)
						}
						if r.N(2) == 0 {
							s, err := x.d.String()
							if err != nil || s != fmt.Sprint(x.who) {
								violate("a held decoder reads another holder's input (%d goroutines): %q %v", g, s, err)
							}
						}
						own.release(x.h, x.who)
						if r.Bool() {
							x.d.Return()
						} else {
							v1.ReturnDecoder(x.d)
						}
					}
				}
			})
		}()
	}
	wg.Wait()
	count(fmt.Sprintf("decoder gets, %d goroutines", g), int(own.gets.Load()))
	count(fmt.Sprintf("decoder gets that reused an object, %d goroutines", g), int(own.reuses.Load()))
	for i := 0; i < int(own.gets.Load())/50; i++ {
		note(fmt.Sprintf("decoders g=%d batch=%d", g, i), false)
	}
}
