package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// Env locates everything: the tree under test, the harness sources and a scratch directory.
type Env struct {
	repo, verif, scratch string
	h                    string // the harness copied to scratch with paths pointing at repo
	tier                 string
	seed                 uint64
	mu                   sync.Mutex
	once                 map[string]*sync.Once
	errs                 map[string]error
	stages               []string
}

func (e *Env) stage(name string, t0 time.Time) {
	e.mu.Lock()
	e.stages = append(e.stages, fmt.Sprintf("%s %.1fs", name, time.Since(t0).Seconds()))
	e.mu.Unlock()
	fmt.Fprintf(os.Stderr, "# %s %.1fs\n", name, time.Since(t0).Seconds())
}

// cmd runs a build command; the tree under test failing to compile is an error of the run, not a violation.
func (e *Env) cmd(dir string, env []string, name string, args ...string) error {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = append(os.Environ(), env...)
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	if err := c.Run(); err != nil {
		return fmt.Errorf("%s %s: %v\n%s", name, strings.Join(args, " "), err, tail(out.String(), 6000))
	}
	return nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

// setup copies the harness to scratch and points it at the tree under test.
func (e *Env) setup() error {
	e.h = filepath.Join(e.scratch, "harness")
	if err := e.cmd("/", nil, "cp", "-a", filepath.Join(e.verif, "harness"), e.h); err != nil {
		return err
	}
	if e.repo != "/repo" {
		for _, f := range []string{"go/go.mod", "rust/cbind/Cargo.toml", "rust/rdrv/Cargo.toml", "rust/cconc/Cargo.toml", "rust/cmiri/Cargo.toml"} {
			p := filepath.Join(e.h, f)
			b, err := os.ReadFile(p)
			if err != nil {
				continue
			}
			b = bytes.ReplaceAll(b, []byte("/repo"), []byte(e.repo))
			if err := os.WriteFile(p, b, 0o644); err != nil {
				return err
			}
		}
	}
	return nil
}

func (e *Env) build(key string, f func() error) error {
	e.mu.Lock()
	o := e.once[key]
	if o == nil {
		o = new(sync.Once)
		e.once[key] = o
	}
	e.mu.Unlock()
	o.Do(func() {
		t0 := time.Now()
		err := f()
		e.mu.Lock()
		e.errs[key] = err
		e.mu.Unlock()
		e.stage("build "+key, t0)
	})
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.errs[key]
}

func (e *Env) path(p ...string) string { return filepath.Join(append([]string{e.scratch}, p...)...) }

func (e *Env) goBuild(out, pkg string, flags ...string) error {
	args := append([]string{"build", "-o", e.path(out)}, flags...)
	return e.cmd(filepath.Join(e.h, "go"), nil, "go", append(args, pkg)...)
}

func (e *Env) buildGoDrv() error {
	return e.build("go-driver", func() error { return e.goBuild("drv", "./drv") })
}

func (e *Env) rust(pkgs ...string) error {
	return e.build("rust "+strings.Join(pkgs, ","), func() error {
		args := []string{"build", "--offline", "-q"}
		for _, p := range pkgs {
			args = append(args, "-p", p)
		}
		return e.cmd(filepath.Join(e.h, "rust"), []string{"CARGO_TARGET_DIR=" + e.path("rt")}, "cargo", args...)
	})
}

// header does what the Makefile does to polyglot.h.in.
func (e *Env) header() error {
	return e.build("header", func() error {
		b, err := os.ReadFile(filepath.Join(e.repo, "polyglot.h.in"))
		if err != nil {
			return err
		}
		s := strings.NewReplacer("@_VERSION_MAJOR@", "2", "@_VERSION_MINOR@", "0", "@_VERSION_MICRO@", "0").Replace(string(b))
		return os.WriteFile(e.path("polyglot.h"), []byte(s), 0o644)
	})
}

func (e *Env) gcc(out, src string, flags ...string) error {
	if err := e.header(); err != nil {
		return err
	}
	if err := e.rust("cshim"); err != nil {
		return err
	}
	return e.build("c "+out, func() error {
		args := append([]string{"-g", "-O1", "-I" + e.scratch, "-o", e.path(out), filepath.Join(e.h, "c", src)}, flags...)
		args = append(args, "-L"+e.path("rt/debug"), "-lpolyglot_checked", "-lpthread", "-Wl,-rpath,"+e.path("rt/debug"))
		return e.cmd("/", nil, "gcc", args...)
	})
}

func (e *Env) ts() error {
	return e.build("typescript", func() error {
		return e.cmd("/", nil, "/opt/veriftools/node/node_modules/.bin/esbuild", filepath.Join(e.h, "ts/tdrv.ts"), "--bundle", "--platform=node",
			"--target=node20", "--alias:@polyglot/index="+filepath.Join(e.repo, "index.ts"), "--outfile="+e.path("tdrv.js"), "--log-level=error")
	})
}

// Impl is one implementation behind the line protocol, with what its API can express.
type Impl struct {
	name    string
	cmd     []string
	noNUL   bool // text cannot hold NUL
	utf8    bool // text must be valid UTF-8 to decode
	nan     bool // NaN payloads are not preserved
	noInit  bool // buffers cannot be chosen
	anyKind bool // has the any marker
	strict  bool // failure of a nested length still names the requested operation
	maxSize int
}

func (e *Env) impls(names ...string) ([]*Impl, error) {
	all := map[string]*Impl{
		"go-v1": {name: "go-v1", cmd: []string{e.path("drv"), "v1"}, strict: true},
		"go-v2": {name: "go-v2", cmd: []string{e.path("drv"), "v2"}, strict: true},
		"rust":  {name: "rust", cmd: []string{e.path("rt/debug/rdrv")}, utf8: true},
		"c":     {name: "c", cmd: []string{e.path("cdrv")}, utf8: true, noNUL: true, noInit: true, strict: true},
		"ts":    {name: "ts", cmd: []string{"node", "--max-old-space-size=4096", e.path("tdrv.js")}, utf8: true, nan: true, anyKind: true},
	}
	if len(names) == 0 {
		names = []string{"go-v1", "go-v2", "rust", "c", "ts"}
	}
	var wg sync.WaitGroup
	errs := make(chan error, 8)
	run := func(f func() error) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if err := f(); err != nil {
				errs <- err
			}
		}()
	}
	var r []*Impl
	var goDone, rs, c bool
	for _, n := range names {
		r = append(r, all[n])
		switch n {
		case "go-v1", "go-v2":
			if !goDone {
				goDone = true
				run(e.buildGoDrv)
			}
		case "rust":
			rs = true
		case "c":
			c = true
		case "ts":
			run(e.ts)
		}
	}
	if rs || c {
		run(func() error {
			if rs {
				if err := e.rust("rdrv"); err != nil {
					return err
				}
			}
			if c {
				return e.gcc("cdrv", "cdrv.c")
			}
			return nil
		})
	}
	wg.Wait()
	select {
	case err := <-errs:
		return nil, err
	default:
		return r, nil
	}
}
