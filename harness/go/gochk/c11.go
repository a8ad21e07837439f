package main

import (
	"bytes"
	"fmt"
	"runtime"
	"sync"

	v1 "github.com/loopholelabs/polyglot"
	v2 "github.com/loopholelabs/polyglot/v2"

	"verif/wire"
)

func init() { checks["C11"] = c11 }

func c11() {
	r := rng("C11")
	storms(r)
	for round := 0; round < scale(600, 10000); round++ {
		// shared by every goroutine: the values, the arguments built from them, the input and hostile inputs
		ops := items(r, 60, []int{20, 400, 3000}[round%3])
		as := make([]*args, len(ops))
		reqs := make([]wire.Op, len(ops))
		for i, o := range ops {
			as[i] = prep(o)
			reqs[i] = req(o)
		}
		in := wire.Encode(ops)
		var bad [][]byte
		for i := 0; i < 40; i++ {
			b := append([]byte(nil), in[:r.N(len(in)+1)]...)
			if len(b) > 0 {
				b[r.N(len(b))] ^= byte(1 + r.N(255))
			}
			bad = append(bad, b)
		}
		// alone
		wantDec := map[string]string{"v1": decodeAll("v1", in, reqs, 0), "v2": decodeAll("v2", in, reqs, 0)}
		wantBad := map[string][]string{}
		for _, ver := range []string{"v1", "v2"} {
			for i, b := range bad {
				wantBad[ver] = append(wantBad[ver], decodeAll(ver, b, reqs, i))
			}
		}
		g := []int{2, 4, 8, 16}[round%4]
		var wg sync.WaitGroup
		begin := make(chan struct{})
		for w := 0; w < g; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-begin
				guarded(fmt.Sprintf("round %d goroutine %d", round, w), func() {
					for rep := 0; rep < 6; rep++ {
						ver := []string{"v1", "v2"}[(w+rep)%2]
						var got []byte
						if ver == "v1" {
							b := v1.NewBuffer()
							for i, a := range as {
								enc1(b, a)
								if i%16 == w%16 {
									runtime.Gosched()
								}
							}
							got = b.Bytes()
						} else {
							b := v2.NewBufferSize(w * 13)
							for i, a := range as {
								enc2(b, a)
								if i%16 == w%16 {
									runtime.Gosched()
								}
							}
							got = b.Bytes()
						}
						if !bytes.Equal(got, in) {
							violate("%s: encoding in %d goroutines gave other bytes than alone (round %d)", ver, g, round)
						}
						if d := decodeAll(ver, in, reqs, w); d != wantDec[ver] {
							violate("%s: decoding the shared input in %d goroutines gave other values than alone (round %d)", ver, g, round)
						}
						i := (w*7 + rep) % len(bad)
						if d := decodeAll(ver, bad[i], reqs, w); d != wantBad[ver][i] {
							violate("%s: decoding a malformed shared input in %d goroutines gave another result than alone (round %d)", ver, g, round)
						}
					}
				})
			}()
		}
		close(begin)
		wg.Wait()
		if !bytes.Equal(in, wire.Encode(ops)) {
			violate("the shared input was modified (round %d)", round)
		}
		count("goroutines run", g)
		count("encode and decode calls under concurrency", g*6*len(ops)*2)
		note(fmt.Sprintf("round %d: %d goroutines, %s", round, g, clip(wire.Texts(ops), 300)), false)
	}
}

// storms: every goroutine encodes and decodes values of one kind, its own ones, as fast as it can, and
// keeps some results a while; values with data come in sizes from small to beyond what any table, pool or
// scratch space of an implementation may single out.
func storms(r *wire.RNG) {
	for _, ver := range []string{"v1", "v2"} {
		for k := 0; k < len(wire.Alphabet); k++ {
			storm(r, ver, wire.Alphabet[k], 24, scale(2500, 40000))
			if c := wire.Alphabet[k]; c == 'x' || c == 's' || c == 'e' {
				storm(r, ver, c, 600, scale(1500, 20000))
				storm(r, ver, c, 6000, scale(600, 8000))
				storm(r, ver, c, 80000, scale(100, 1500))
				storm(r, ver, c, 1200000, scale(12, 120))
			}
		}
	}
}

func storm(r *wire.RNG, ver string, kind byte, size, iters int) {
	const g = 8
	var wg sync.WaitGroup
	begin := make(chan struct{})
	var own [g][]wire.Op
	for w := range own {
		for i := 0; i < 3; i++ {
			o := r.Item(kind, wire.Opts{MaxData: size, RawText: true})
			for n := 0; size > 24 && i > 0 && len(wire.Encode([]wire.Op{o})) < size/2 && n < 50; n++ {
				o = r.Item(kind, wire.Opts{MaxData: size, RawText: true})
			}
			own[w] = append(own[w], o)
		}
	}
	for w := 0; w < g; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var as []*args
			var want [][]byte
			var res []string
			for _, o := range own[w] {
				as, want, res = append(as, prep(o)), append(want, wire.Encode([]wire.Op{o})), append(res, o.ResText())
			}
			b1, b2 := v1.NewBuffer(), v2.NewBuffer()
			dst := make([]byte, 0, 64)
			var held [5]func() string
			var written [5][]byte
			var which, whichW [5]int
			<-begin
			guarded(fmt.Sprintf("storm of %c goroutine %d", kind, w), func() {
				for n := 0; n < iters; n++ {
					i, slot := n%len(as), n%len(held)
					if n >= len(held) {
						if held[slot]() != res[which[slot]] {
							violate("%s: a value decoded from %s changed while %d goroutines decode other values", ver, clip(own[w][which[slot]].Text(), 200), g)
							return
						}
						if written[slot] != nil && !bytes.Equal(written[slot], want[whichW[slot]]) {
							violate("%s: what was encoded from %s changed while %d goroutines encode other values", ver, clip(own[w][whichW[slot]].Text(), 200), g)
							return
						}
					}
					var got []byte
					fresh := n%3 == 1
					if ver == "v1" {
						b := b1
						if fresh {
							b = v1.NewBuffer()
						}
						b.Reset()
						enc1(b, as[i])
						got = b.Bytes()
					} else {
						b := b2
						if fresh {
							b = v2.NewBuffer()
						}
						b.Reset()
						enc2(b, as[i])
						got = b.Bytes()
					}
					if !bytes.Equal(got, want[i]) {
						violate("%s: encoding %s in %d goroutines that encode other values gave %s", ver, clip(own[w][i].Text(), 200), g, clip(fmt.Sprintf("%x", got), 200))
						return
					}
					written[slot] = nil
					if fresh {
						written[slot], whichW[slot] = got, i
					}
					d, done := newDec(ver, want[i])
					// every other result has storage of its own and is kept
					into := dst
					if n%2 == 0 {
						into = nil
					}
					o, now, ok := kept(d, req(own[w][i]), into)
					done()
					if !ok || o.ResText() != res[i] {
						violate("%s: decoding %s in %d goroutines that decode other values gave %s", ver, clip(fmt.Sprintf("%x", want[i]), 200), g, clip(o.ResText(), 200))
						return
					}
					held[slot], which[slot] = now, i
				}
			})
		}()
	}
	close(begin)
	wg.Wait()
	count("calls in storms of one kind", g*iters*2)
	note(fmt.Sprintf("%s: storm of %c up to %d bytes, %d goroutines", ver, kind, size, g), false)
}

// kept decodes like decOp and also returns a function that renders the decoded value itself, not a copy
// of it, as it is when called.
func kept(d dec, q wire.Op, dst []byte) (wire.Op, func() string, bool) {
	o := wire.Op{C: q.C}
	switch q.C {
	case 's':
		s, err := d.String()
		o.B = []byte(s)
		return o, func() string { return wire.Op{C: 's', B: []byte(s)}.ResText() }, err == nil
	case 'e':
		v, err := d.Error()
		if err != nil {
			return o, nil, false
		}
		o.B = []byte(v.Error())
		return o, func() string { return wire.Op{C: 'e', B: []byte(v.Error())}.ResText() }, true
	}
	o, ok := decOp(d, q, dst)
	if dst != nil {
		text := o.ResText()
		return o, func() string { return text }, ok
	}
	return o, func() string { return o.ResText() }, ok
}

// decodeAll renders every answer, including the text of each failure.
func decodeAll(ver string, in []byte, reqs []wire.Op, yield int) string {
	d, done := newDec(ver, in)
	defer done()
	var b bytes.Buffer
	dst := make([]byte, 0, 64)
	for i, q := range reqs {
		if i%16 == yield%16 {
			runtime.Gosched()
		}
		o, ok := decOp(d, q, dst)
		if !ok {
			fmt.Fprintf(&b, "!%c ", q.C)
			continue
		}
		b.WriteString(o.ResText())
		b.WriteByte(' ')
	}
	return b.String()
}
