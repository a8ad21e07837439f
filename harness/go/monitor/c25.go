package main

import (
	"fmt"
	"strconv"
	"strings"
	"sync"

	"verif/schema"
	"verif/wire"
)

func init() {
	checks["C25"] = func(c *Check) error {
		c.rule = "each case is one group of messages of several generated types, whole and truncated, that 2 to 12 goroutines or threads decode from the same input bytes and encode from the same message objects at once, each into values and buffers of its own (fresh and used before), compared with what the same calls give alone; the generated Go code and the library under the race detector; distinct by types and inputs"
		fs, _ := c.schemas(c.scale(24, 100))
		skip := func(f *schema.File, what string) { c.count("schemas without usable code (see C15 and C16)", 1) }
		var rfs []*schema.File
		rfs = append(rfs, rustable(fs)...)
		hooked := make([]*schema.File, 0, 8)
		type target struct {
			im   *Impl
			bad  map[string]bool
			ts   []mtype
			rust bool
		}
		var mu sync.Mutex
		var ims []target
		add := func(im *Impl, bad map[string]bool, fs []*schema.File, rust bool) {
			mu.Lock()
			defer mu.Unlock()
			if im != nil {
				im.cmd = append([]string{"/usr/bin/env", "GORACE=halt_on_error=1 exitcode=66"}, im.cmd...)
				ims = append(ims, target{im, bad, keep(typesOf(fs), bad), rust})
			}
		}
		hs, _ := c.schemas(0)
		for i, f := range hs {
			f.AddHooks([]string{"string", "int64", "two"}[i%3])
			hooked = append(hooked, f)
		}
		err := parallel(
			func() error { im, bad, err := c.rustGen(rfs, skip); add(im, bad, rfs, true); return err },
			func() error { im, bad, err := c.goGen("v1", fs, skip); add(im, bad, fs, false); return err },
			func() error { im, bad, err := c.goGen("v2", fs, skip); add(im, bad, fs, false); return err },
			func() error {
				im, bad, err := c.goGen("v2-hooks", hooked, skip)
				add(im, bad, hooked, false)
				return err
			})
		if err != nil {
			return err
		}
		pool(len(ims), 4, func(j int) {
			g := ims[j]
			c.count("types of "+g.im.name, len(g.ts))
			n := c.scale(300, 2400)
			if g.im.name == "gen-go-v2-hooks" || g.rust { // the checking allocator is one for all threads
				n /= 3
			}
			pool(n, 3, func(i int) {
				if c.tooMany() || len(g.ts) == 0 {
					return
				}
				r := c.rng(fmt.Sprint("c25 ", g.im.name, i))
				threads := []int{2, 4, 8, 12}[i%4]
				rounds := c.scale(12, 40)
				var b strings.Builder
				fmt.Fprintf(&b, "C %d %d", threads, rounds)
				for k := 1 + r.N(6); k > 0; k-- {
					t := g.ts[r.N(len(g.ts))]
					if k == 1 { // every type comes first in some group
						t = g.ts[i%len(g.ts)]
					}
					for j := 0; j < 3; j++ {
						budget := []int{40, 400, 3000}[r.N(3)]
						v := schema.GenVal(r, t.msg, 0, &budget, true)
						schema.NoNaN(t.msg, v)
						if schema.HasNil(t.msg, v) {
							continue
						}
						in := schema.Encode(nil, t.msg, v)
						if j == 2 && len(in) > 0 {
							in = in[:r.N(len(in))]
						}
						fmt.Fprintf(&b, " %s %s", t.key, wire.HexArg(in))
					}
				}
				c.run(g.im, []Case{{Line: b.String(), Class: g.im.name + fmt.Sprintf(" %d at once", threads), Check: func(im *Impl, o string) string {
					if !strings.HasPrefix(o, "C") {
						return clip(o, 1500)
					}
					if n, err := strconv.Atoi(o[1:]); err == nil {
						c.count("messages decoded and encoded at once, "+im.name, n)
					}
					return ""
				}}}, 1)
			})
		})
		return nil
	}
}
