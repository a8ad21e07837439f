package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/types/descriptorpb"

	"verif/schema"
	"verif/wire"
)

func init() {
	checks["C24"] = func(c *Check) error {
		c.rule = "each case is one kind of use, repeated with values that never come twice: encoding, decoding, failing, pools, many threads, holding small values of large inputs, encoding and decoding messages of one generated type, generating code with one generator; after everything is dropped the live memory is compared between stretches; distinct by kind of use, size and type"
		return parallel(
			func() error { return goChild(c, "C24") },
			func() error {
				if err := c.env.rust("rdrv"); err != nil {
					return err
				}
				c.child("rust", c.limit(), nil, c.env.path("rt/debug/rdrv"), "keep", fmt.Sprint(c.env.seed), fmt.Sprint(c.scale(2000, 20000)))
				if err := c.env.gcc("capi", "capi.c"); err != nil {
					return err
				}
				c.child("c", c.limit(), nil, c.env.path("capi"), "keep", fmt.Sprint(c.env.seed), fmt.Sprint(c.scale(2000, 20000)))
				return nil
			},
			func() error {
				if err := c.env.ts(); err != nil {
					return err
				}
				c.child("typescript", c.limit(), nil, "node", "--expose-gc", "--max-old-space-size=4096", c.env.path("tdrv.js"), "keep", fmt.Sprint(c.env.seed), fmt.Sprint(c.scale(3000, 30000)))
				return nil
			},
			c.keepGenerated,
			c.keepGenerators)
	}
}

// keepGenerated has generated code encode and decode messages that never come twice.
func (c *Check) keepGenerated() error {
	fs, _ := c.schemas(c.scale(8, 80))
	var rfs []*schema.File
	for _, f := range rustable(fs) {
		rfs = append(rfs, f)
	}
	skip := func(f *schema.File, what string) { c.count("schemas without usable code (see C15, C16 and C21)", 1) }
	type target struct {
		im    *Impl
		bad   map[string]bool
		limit int
	}
	var mu sync.Mutex
	var ims []target
	add := func(im *Impl, bad map[string]bool, limit int) {
		mu.Lock()
		defer mu.Unlock()
		if im != nil {
			ims = append(ims, target{im, bad, limit})
		}
	}
	err := parallel(
		func() error {
			im, bad, err := c.rustGen(rfs, skip)
			add(im, bad, 2048)
			return err
		},
		func() error { im, bad, err := c.goGen("v1", fs, skip); add(im, bad, 40<<10); return err },
		func() error { im, bad, err := c.goGen("v2", fs, skip); add(im, bad, 40<<10); return err },
		func() error {
			fs, _ := c.schemas(c.scale(8, 80))
			fs = rustable(fs)
			for _, f := range fs {
				schema.TSLists(f)
			}
			im, bad, err := c.tsGen(fs, skip)
			if im != nil {
				im.cmd = append([]string{"node", "--expose-gc"}, im.cmd[1:]...)
			}
			add(im, bad, 200<<10)
			return err
		})
	if err != nil {
		return err
	}
	ts := typesOf(fs)
	pool(len(ts), 8, func(i int) {
		if c.tooMany() {
			return
		}
		t := ts[i]
		r := c.rng("c24 " + t.key)
		budget := 400
		v := schema.GenVal(r, t.msg, 0, &budget, true)
		schema.NoNaN(t.msg, v)
		text := schema.Text(t.msg, v)
		// a couple of kilobytes a message, wherever it has data
		data := strings.Count(" "+text, " x")
		pad := 16
		if data > 0 {
			pad = max(16, min(1500, 2400/data)) &^ 7
		}
		for _, g := range ims {
			own := g.im.name == "gen-rust" || g.im.name == "gen-ts"
			if g.bad[base(t.file)] || own && t.file.Rec {
				continue
			}
			if own && !usable(rfs, t.file) {
				continue
			}
			if schema.HasNil(t.msg, v) {
				continue
			}
			rounds := c.scale(800, 6000)
			if g.im.name == "gen-rust" {
				rounds /= 3 // measures exactly
			}
			c.run(g.im, []Case{{Line: "L " + t.key + " " + fmt.Sprint(rounds, " ", pad) + " " + text, Class: g.im.name, Check: func(im *Impl, o string) string {
				if !strings.HasPrefix(o, "L") {
					return "repeated use fails: " + clip(o, 600)
				}
				least := 1 << 62
				for _, s := range strings.Split(o[1:], ",") {
					n, err := strconv.Atoi(s)
					if err != nil {
						return "unexpected answer " + clip(o, 200)
					}
					least = min(least, n)
				}
				if least > g.limit {
					return fmt.Sprintf("after everything was dropped, every %d messages leave %d bytes more alive (%s)", rounds, least, o[1:])
				}
				return ""
			}}}, 1)
		}
	})
	return nil
}

func usable(fs []*schema.File, f *schema.File) bool {
	for _, x := range fs {
		if base(x) == base(f) {
			return true
		}
	}
	return false
}

// keepGenerators has one generator, and generators made for each, generate code again and again.
func (c *Check) keepGenerators() error {
	if err := c.env.build("genuse-plain", func() error { return c.env.goBuild("genuse-plain", "./genuse") }); err != nil {
		return err
	}
	r := wire.NewRNG(c.env.seed, "c24 generators")
	var jobs []func()
	for _, pl := range plugins {
		dir := c.env.path("keep-" + pl.name)
		os.MkdirAll(dir+"/tmp", 0o755)
		n := 0
		for n < 3 {
			f := schema.Gen(r, 900+n)
			if pl.lang == "ts" {
				schema.TSLists(f)
			}
			os.WriteFile(fmt.Sprintf("%s/%03d.req", dir, n), request("", []*descriptorpb.FileDescriptorProto{f.Proto()}, f.Name), 0o644)
			n++
		}
		rounds := c.scale(60, 500)
		if pl.lang == "rust" { // starts rustfmt each time
			rounds = c.scale(25, 200)
		}
		jobs = append(jobs, func() {
			c.child("generator "+pl.name, 10*time.Minute, []string{"TMPDIR=" + dir + "/tmp"}, c.env.path("genuse-plain"), dir, pl.name, "keep", fmt.Sprint(rounds))
			if left, err := os.ReadDir(dir + "/tmp"); err == nil && len(left) > 0 {
				c.violate(fmt.Sprintf("generator %s: %d temporary files are left behind, like %s", pl.name, len(left), left[0].Name()), pl.name)
			}
		})
	}
	pool(len(jobs), 3, func(i int) { jobs[i]() })
	return nil
}
