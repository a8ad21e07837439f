package main

import (
	"encoding/hex"
	"fmt"
	"slices"
	"strconv"
	"strings"
	"sync"

	"verif/schema"
	"verif/wire"
)

func init() {
	checks["C26"] = func(c *Check) error {
		c.rule = "each case is one sequence of 2 to 12 parts, messages of several generated types and items and bytes of the caller's own, written into one buffer one after another and read again in turn, each where it begins and with all that follows behind it; distinct by implementation, types and contents"
		fs, _ := c.schemas(c.scale(24, 100))
		rfs := rustable(fs)
		skip := func(f *schema.File, what string) { c.count("schemas without usable code (see C15, C16 and C21)", 1) }
		ss, _ := c.schemas(c.scale(24, 100))
		ss = rustable(ss)
		for _, f := range ss {
			schema.TSLists(f)
		}
		hs, _ := c.schemas(0)
		for i, f := range hs {
			f.AddHooks([]string{"string", "int64", "two"}[i%3])
		}
		type target struct {
			im   *Impl
			ts   []mtype
			hook bool
		}
		var mu sync.Mutex
		var ims []target
		add := func(im *Impl, ts []mtype) {
			mu.Lock()
			defer mu.Unlock()
			if im != nil && len(ts) > 0 {
				ims = append(ims, target{im: im, ts: ts})
			}
		}
		err := parallel(
			func() error { im, bad, err := c.rustGen(rfs, skip); add(im, keep(typesOf(rfs), bad)); return err },
			func() error { im, bad, err := c.goGen("v1", fs, skip); add(im, keep(typesOf(fs), bad)); return err },
			func() error { im, bad, err := c.goGen("v2", fs, skip); add(im, keep(typesOf(fs), bad)); return err },
			func() error {
				im, bad, err := c.goGen("v1-hooks", hs, skip)
				add(im, keep(typesOf(hs), bad))
				return err
			},
			func() error {
				im, bad, err := c.goGen("v2-hooks", hs, skip)
				add(im, keep(typesOf(hs), bad))
				return err
			},
			func() error {
				im, bad, err := c.tsGen(ss, skip)
				ts := keep(typesOf(ss), bad)
				for _, t := range ts[:len(ts):len(ts)] {
					t.key = base(t.file) + "_v2." + t.msg.Full
					ts = append(ts, t)
				}
				add(im, ts)
				return err
			})
		if err != nil {
			return err
		}
		pool(len(ims), 6, func(j int) {
			g := ims[j]
			c.count("types of "+g.im.name, len(g.ts))
			pool(c.scale(24, 200), 3, func(i int) {
				if c.tooMany() {
					return
				}
				r := c.rng(fmt.Sprint("c26 ", g.im.name, i))
				var cs []Case
				for k := 0; k < 40; k++ {
					if cc, ok := sequenceCase(r, g.im.name, g.ts, i*40+k); ok {
						cs = append(cs, cc)
					} else {
						c.count("sequences whose meaning the format leaves open, not tried", 1)
					}
				}
				c.run(g.im, cs, 1)
			})
		})
		return nil
	}
}

type part struct {
	t  mtype
	v  *schema.Val
	in []byte
}

func sequenceCase(r *wire.RNG, impl string, ts []mtype, at int) (Case, bool) {
	ps := make([]part, 2+r.N(11))
	few := 1 + r.N(4)
	from := r.N(len(ts))
	var line strings.Builder
	line.WriteString("S")
	msgs := 0
	for i := range ps {
		if r.N(4) == 0 && (i > 0 || impl != "gen-rust") {
			b := r.Bytes(r.Size(60))
			if r.Bool() { // an item, as a caller writes one around a message
				b = wire.Append(nil, wire.Op{C: "swqbx"[r.N(5)], U: uint64(r.N(2)), B: r.Text(r.N(30))})
			}
			ps[i] = part{in: b}
			fmt.Fprintf(&line, " # %s", wire.HexArg(b))
			continue
		}
		t := ts[(from+r.N(few))%len(ts)]
		if msgs == 0 { // every type comes first in some sequence
			t = ts[at%len(ts)]
		}
		msgs++
		budget := []int{20, 300, 3000, 30000}[r.N(4)]
		v := schema.GenVal(r, t.msg, 0, &budget, true)
		schema.NoNaN(t.msg, v)
		ps[i] = part{t, v, schema.Encode(nil, t.msg, v)}
		fmt.Fprintf(&line, " %s %s", t.key, wire.HexArg(ps[i].in))
	}
	if msgs == 0 {
		return Case{}, false
	}
	clear := func(ps []part) bool { // each message means the same before what follows it as alone
		var rest []byte
		for _, p := range ps {
			if p.v != nil && !schema.Clear(p.t.msg, p.v, rest) {
				return false
			}
			rest = append(append([]byte(nil), p.in...), rest...)
		}
		return true
	}
	for _, p := range ps {
		if p.v != nil && (schema.HasNil(p.t.msg, p.v) || !schema.Clear(p.t.msg, p.v, nil)) {
			return Case{}, false
		}
	}
	back := slices.Clone(ps)
	slices.Reverse(back)
	if !clear(ps) || !clear(back) {
		return Case{}, false
	}
	return Case{Line: line.String(), Class: impl + " sequences", Check: func(im *Impl, o string) string {
		if !strings.HasPrefix(o, "S") {
			return clip(o, 1500)
		}
		h, e, _ := strings.Cut(o[1:], " ")
		b, err := hex.DecodeString(h)
		ends := strings.Split(strings.TrimSpace(e), ",")
		if err != nil || len(ends) != len(ps) {
			return "malformed driver answer"
		}
		from := 0
		for i, p := range ps {
			to, err := strconv.Atoi(ends[i])
			if err != nil || to < from || to > len(b) {
				return fmt.Sprintf("part %d ends at %s of %d", i, ends[i], len(b))
			}
			if p.v == nil {
				if string(b[from:to]) != string(p.in) {
					return fmt.Sprintf("the bytes of part %d changed to %x", i, clipb(b[from:to]))
				}
			} else if s := sameEncoding(p.t, b[from:to], p.v, p.in, schema.Text(p.t.msg, p.v)); s != "" {
				return fmt.Sprintf("part %d, %s: %s", i, p.t.key, s)
			}
			from = to
		}
		if from != len(b) {
			return "bytes behind the last part"
		}
		return ""
	}}, true
}
