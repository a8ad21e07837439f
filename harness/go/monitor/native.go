package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"verif/wire"
)

func init() {
	checks["C09"] = c09
	checks["C11"] = c11
	checks["C13"] = c13
	checks["C14"] = c14
	checks["C23"] = c23
}

func (c *Check) limit() time.Duration {
	if c.env.tier == "thorough" {
		return 3000 * time.Second
	}
	return 500 * time.Second
}

// parallel runs the stages at the same time and gives the first error.
func parallel(fs ...func() error) error {
	var wg sync.WaitGroup
	errs := make([]error, len(fs))
	for i, f := range fs {
		wg.Add(1)
		go func() { defer wg.Done(); errs[i] = f() }()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}

// plainC builds a C driver against the bindings without the checking allocator, for memcheck.
func (e *Env) plainC(out, src string) error {
	if err := e.header(); err != nil {
		return err
	}
	if err := e.build("rust cshim without checking allocator", func() error {
		return e.cmd(filepath.Join(e.h, "rust"), []string{"CARGO_TARGET_DIR=" + e.path("rtp")}, "cargo", "build", "--offline", "-q", "-p", "cshim", "--features", "plain")
	}); err != nil {
		return err
	}
	return e.build("c "+out, func() error {
		return e.cmd("/", nil, "gcc", "-g", "-O1", "-I"+e.scratch, "-o", e.path(out), filepath.Join(e.h, "c", src),
			"-L"+e.path("rtp/debug"), "-lpolyglot_checked", "-lpthread", "-Wl,-rpath,"+e.path("rtp/debug"))
	})
}

// releaseC builds capi.c against the optimised bindings over the checking allocator.
func (e *Env) releaseC() error {
	if err := e.header(); err != nil {
		return err
	}
	if err := e.build("rust cshim release", func() error {
		return e.cmd(filepath.Join(e.h, "rust"), []string{"CARGO_TARGET_DIR=" + e.path("rtr")}, "cargo", "build", "--offline", "-q", "--release", "-p", "cshim")
	}); err != nil {
		return err
	}
	return e.build("c capi-release", func() error {
		return e.cmd("/", nil, "gcc", "-g", "-O1", "-I"+e.scratch, "-o", e.path("capi-release"), filepath.Join(e.h, "c", "capi.c"),
			"-L"+e.path("rtr/release"), "-lpolyglot_checked", "-lpthread", "-Wl,-rpath,"+e.path("rtr/release"))
	})
}

var memcheck = []string{"valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--track-origins=no", "--leak-check=full", "--errors-for-leak-kinds=definite,indirect"}

// capi runs the in-process monitor of the C API with the checking allocator, and less of it under memcheck.
func (c *Check) capi(mode string, n, underMemcheck int) error {
	return parallel(func() error {
		if err := c.env.gcc("capi", "capi.c"); err != nil {
			return err
		}
		c.child("c "+mode, c.limit(), nil, c.env.path("capi"), mode, fmt.Sprint(c.env.seed), fmt.Sprint(n))
		return nil
	}, func() error {
		// as it is shipped: optimised, without the assertions and checks of a debug build
		if err := c.env.releaseC(); err != nil {
			return err
		}
		c.child("c "+mode+" in a release build", c.limit(), nil, c.env.path("capi-release"), mode, fmt.Sprint(c.env.seed+50), fmt.Sprint(n/2))
		return nil
	}, func() error {
		if underMemcheck == 0 {
			return nil
		}
		if err := c.env.plainC("capi-plain", "capi.c"); err != nil {
			return err
		}
		const parts = 3
		return parallel(func() (fs []func() error) {
			for p := 0; p < parts; p++ {
				fs = append(fs, func() error {
					c.child("c "+mode+" under memcheck", c.limit(), nil, append(append([]string{}, memcheck...), c.env.path("capi-plain"), mode, fmt.Sprint(c.env.seed+100+uint64(p)), fmt.Sprint(underMemcheck/parts))...)
					return nil
				})
			}
			return
		}()...)
	})
}

type miriRun struct {
	mode  string
	n     int
	seeds int
}

// miri runs the Rust side in the interpreter that knows every rule of the memory model.
func (c *Check) miri(runs ...miriRun) error {
	env := []string{"CARGO_TARGET_DIR=" + c.env.path("miri"), "XDG_CACHE_HOME=" + c.env.path("miri-cache"), "MIRIFLAGS=-Zmiri-disable-stacked-borrows"}
	dir := filepath.Join(c.env.h, "rust")
	if err := c.env.build("miri", func() error {
		return c.env.cmd(dir, env, "cargo", "+nightly", "miri", "run", "--offline", "-q", "-p", "cconc", "--", "nothing", "0", "0")
	}); err != nil {
		return err
	}
	var fs []func() error
	for _, r := range runs {
		for s := 0; s < r.seeds; s++ {
			fs = append(fs, func() error {
				flags := fmt.Sprintf("MIRIFLAGS=-Zmiri-disable-stacked-borrows -Zmiri-seed=%d -Zmiri-preemption-rate=0.1", c.env.seed*1000+uint64(s))
				c.child("miri "+r.mode, c.limit(), append(env[:2:2], flags, "RUST_BACKTRACE=0"), "cargo", "+nightly", "miri", "run", "--offline", "-q",
					"--manifest-path", filepath.Join(dir, "Cargo.toml"), "-p", "cconc", "--", r.mode, fmt.Sprint(c.env.seed*100+uint64(s)), fmt.Sprint(r.n))
				return nil
			})
		}
	}
	return parallel(fs...)
}

// tsan runs the threads of the Rust library and the C entry points under ThreadSanitizer, std included.
func (c *Check) tsan(n int) error {
	const target = "x86_64-unknown-linux-gnu"
	if err := c.env.build("rust with ThreadSanitizer", func() error {
		return c.env.cmd(filepath.Join(c.env.h, "rust"), []string{"CARGO_TARGET_DIR=" + c.env.path("tsan"), "RUSTFLAGS=-Zsanitizer=thread"},
			"cargo", "+nightly", "build", "--offline", "-q", "-Zbuild-std", "--target", target, "-p", "cconc")
	}); err != nil {
		return err
	}
	c.child("rust and c threads under ThreadSanitizer", c.limit(), []string{"TSAN_OPTIONS=halt_on_error=1 exitcode=66"}, c.env.path("tsan", target, "debug/cconc"), "threads", fmt.Sprint(c.env.seed), fmt.Sprint(n))
	return nil
}

func c13(c *Check) error {
	c.rule = "each case is a random valid history of C API calls over several encoders, decoders and returned objects with arguments in exact-size blocks, run over a checking allocator (red zones, layout check on free, poison, live count), under memcheck, and through the same entry points in Miri; every returned object is compared with a private copy until freed; distinct by recorded history"
	return parallel(
		func() error { return c.capi("history", c.scale(80000, 400000), c.scale(6000, 30000)) },
		func() error {
			return c.miri(miriRun{"history", c.scale(40, 600), c.scale(3, 8)}, miriRun{"hostile", c.scale(60, 1500), c.scale(2, 8)})
		},
		func() error { return cHostile(c) })
}

// cHostile gives the C driver hostile inputs over the checking allocator.
func cHostile(c *Check) error {
	ims, err := c.env.impls("c")
	if err != nil {
		return err
	}
	r := c.rng("hostile")
	var cs []Case
	for i := 0; i < c.scale(80000, 400000); i++ {
		b := hostile(r)
		k := crashCase(b, ims[0].hostileReqs(r, b))
		if i%2 == 0 { // keep the results, destroy the decoder and its input, then read them
			k.Line = "O" + k.Line[1:]
		}
		k.Line = clampKinds(k.Line)
		cs = append(cs, k)
	}
	c.run(ims[0], cs, 2)
	return nil
}

func c14(c *Check) error {
	c.rule = "each case is one call (or short sequence) of the C API with a stale status value: every call with null handles from all 256 stale values, encodes that take effect or are refused in any order, destinations of every size around the right one between canaries, matching and mismatching decodes, every truncation; distinct by recorded history"
	return c.capi("status", c.scale(120000, 600000), c.scale(3600, 15000))
}

// c23 compiles one program against the header in every mode it offers and runs it.
func c23(c *Check) error {
	c.rule = "each case is one observation through a compiled use of the header: a constant, the size or sign of a type, a value through a prototype and back; distinct by compiler mode, observation and expected value"
	if err := parallel(c.env.header, func() error { return c.env.rust("cshim") }); err != nil {
		return err
	}
	plain, err := os.ReadFile(filepath.Join(c.env.repo, "polyglot.h"))
	if err != nil {
		c.violate("the header polyglot.h is not there: "+err.Error(), "")
		return nil
	}
	dir := c.env.path("header-as-committed")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, "polyglot.h"), plain, 0o644); err != nil {
		return err
	}
	const enums = "-DPOLYGLOT_USE_C_ENUMS"
	ub := []string{"-fsanitize=undefined", "-fno-sanitize-recover=all"}
	modes := []struct {
		name string
		cmd  []string
	}{
		{"C", append([]string{"gcc", "-std=c11", "-O1"}, ub...)},
		{"C with enums", append([]string{"gcc", "-std=c2x", "-O1", enums}, ub...)},
		{"optimised C", []string{"gcc", "-std=gnu11", "-O2"}},
		{"C++", append([]string{"g++", "-x", "c++", "-std=c++17", "-O1"}, ub...)},
		{"C++ with enums", append([]string{"g++", "-x", "c++", "-std=c++17", "-O1", enums}, ub...)},
		{"C by clang", []string{"clang", "-std=c11", "-O2"}},
		{"C with enums by clang", []string{"clang", "-std=c2x", "-O2", enums}},
		{"C++ with enums by clang", []string{"clang++", "-x", "c++", "-std=c++17", "-O2", enums}},
	}
	var fs []func() error
	for hi, inc := range []string{c.env.scratch, dir} {
		hname := []string{"polyglot.h.in", "polyglot.h"}[hi]
		for mi, m := range modes {
			fs = append(fs, func() error {
				name := m.name + " against " + hname
				out := c.env.path(fmt.Sprintf("header-%d-%d", hi, mi))
				cmd := append(append([]string{}, m.cmd...), "-g", "-I"+inc, "-o", out, filepath.Join(c.env.h, "c", "header.c"), "-x", "none",
					"-L"+c.env.path("rt/debug"), "-lpolyglot_checked", "-lpthread", "-Wl,-rpath,"+c.env.path("rt/debug"))
				if o, err := exec.Command(cmd[0], cmd[1:]...).CombinedOutput(); err != nil {
					c.violate(name+": a program that uses every function of the header does not compile:\n"+clip(string(o), 2000), strings.Join(cmd, " ")+"\n"+string(o))
					return nil
				}
				c.child(name, c.limit(), nil, out, fmt.Sprint(c.env.seed*1000003+uint64(mi)), fmt.Sprint(c.scale(150, 3000)))
				return nil
			})
		}
	}
	return parallel(fs...)
}

// valgrindHostile repeats part of the hostile inputs through the C API under memcheck.
func valgrindHostile(c *Check) error {
	if err := c.env.plainC("cdrv-plain", "cdrv.c"); err != nil {
		return err
	}
	im := &Impl{name: "c under memcheck", cmd: append(append([]string{}, memcheck[:5]...), c.env.path("cdrv-plain"))}
	var cs []Case
	base := structuredHostile()
	r := c.rng("memcheck")
	for i, b := range base {
		if i%c.scale(4, 1) == 0 {
			cs = append(cs, crashCase(b, append(im.allReqs(10, 13), im.allReqs(5, 5)...)))
		}
	}
	for i := 0; i < c.scale(10000, 60000); i++ {
		b := hostile(r)
		cs = append(cs, crashCase(b, im.hostileReqs(r, b)))
	}
	for i := range cs {
		cs[i].Line = clampKinds(cs[i].Line)
		cs[i].Class = "hostile input under memcheck"
	}
	c.run(im, cs, 6)
	return nil
}

func c09(c *Check) error {
	c.rule = "each case encodes or decodes values, then overwrites, frees or reuses everything the values came from and reads them again; destinations of every length and capacity sit between guard bytes; Go runs also with freed memory overwritten by the collector and pointer checks; distinct by values and history"
	return parallel(func() error { return goChild(c, "C09") }, func() error {
		ims, err := c.env.impls()
		if err != nil {
			return err
		}
		c.each(ims, func(im *Impl) {
			r := c.rng("ownership")
			var cs []Case
			for i := 0; i < c.scale(24000, 120000); i++ {
				ops := filter(im, seq(r, 1+r.N(10), []int{20, 200, 5000}[i%3], false))
				for len(ops) < 4 {
					ops = append(ops, filter(im, []wire.Op{r.Item("xse"[r.N(3)], wire.Opts{MaxData: 300})})...)
				}
				if i%400 == 7 { // longer values than any size at which copying could be given up
					n := []int{16384, 65535, 65536, 65537, 131073, 262145, 1048577, 2097153}[i/400%8]
					for _, k := range "XSR" {
						ops = append(ops, filter(im, []wire.Op{{C: byte(k), U: uint64(n + r.N(3)), K1: byte(200 + r.N(50))}})...)
					}
				}
				b := wire.Encode(ops)
				k := decodeCase(b, reqsOf(ops), nil)
				k.Line = "O" + k.Line[1:]
				k.Class = "values read after their input was overwritten and dropped"
				cs = append(cs, k)
			}
			c.run(im, cs, 1)
		})
		return nil
	})
}

func c11(c *Check) error {
	c.rule = "each case is a batch of threads that encode the same shared values and decode the same shared input, well-formed and malformed, each with its own encoder or decoder, compared with what the same calls give alone; Go also under the race detector, Rust and the C entry points also under ThreadSanitizer (with an instrumented std) and Miri's data-race detector with several schedules"
	return parallel(
		func() error { return goChild(c, "C11") },
		func() error { return c.capi("threads", c.scale(1200, 6000), 0) },
		func() error { return c.tsan(c.scale(1200, 6000)) },
		func() error { return c.miri(miriRun{"few", c.scale(6, 60), c.scale(4, 16)}) })
}

var _ = os.Stdout
var _ = strings.Index
