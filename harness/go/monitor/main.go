// Command monitor runs the check of one property: it builds the real code of every implementation with
// its drivers, runs workloads through them and judges every observed event against the reference model.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"
)

var checks = map[string]func(c *Check) error{}

func main() {
	t0 := time.Now()
	if len(os.Args) < 2 {
		fmt.Println("usage: monitor ID | monitor replay FILE")
		os.Exit(2)
	}
	e := &Env{repo: "/repo", verif: "/verif", tier: os.Getenv("VERIF_TIER"), once: map[string]*sync.Once{}, errs: map[string]error{}}
	if v := os.Getenv("VERIF_REPO"); v != "" {
		e.repo = v
	}
	if v := os.Getenv("VERIF_HOME"); v != "" {
		e.verif = v
	}
	if e.tier != "thorough" {
		e.tier = "quick"
	}
	e.seed = 1
	if v, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		e.seed = v
	}
	e.scratch = os.Getenv("VERIF_SCRATCH")
	if e.scratch == "" {
		fmt.Println("run through run.sh")
		os.Exit(2)
	}
	if err := e.setup(); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if os.Args[1] == "replay" {
		os.Exit(replay(e, os.Args[2]))
	}
	f := checks[os.Args[1]]
	if f == nil {
		fmt.Println("unknown property", os.Args[1])
		os.Exit(2)
	}
	c := newCheck(os.Args[1], e)
	if err := f(c); err != nil {
		if len(c.violations) == 0 {
			fmt.Println("ERROR:", err)
			os.Exit(2)
		}
		fmt.Fprintln(os.Stderr, err)
	}
	os.Exit(c.finish(time.Since(t0)))
}

// replay feeds the recorded line to the implementation again and prints what happens.
func replay(e *Env, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var name, line, want, id string
	for _, l := range strings.Split(string(b), "\n") {
		switch {
		case strings.HasPrefix(l, "impl "):
			name = l[5:]
		case strings.HasPrefix(l, "line "):
			line = l[5:]
		case strings.HasPrefix(l, "want "):
			want = l[5:]
		case strings.HasPrefix(l, "property "):
			id = l[9:]
		case strings.HasPrefix(l, "seed "):
			if v, err := strconv.ParseUint(l[5:], 10, 64); err == nil {
				e.seed = v
			}
		case strings.HasPrefix(l, "tier "):
			e.tier = l[5:]
		}
	}
	if line == "" {
		fmt.Print(string(b))
		return 0
	}
	if f := checks[id]; f != nil && strings.HasPrefix(name, "gen-") {
		// the generated code comes from the seed: the check runs again with this one case
		c := newCheck(id, e)
		c.only, c.onlyImpl = &Case{Line: line}, name
		if err := f(c); err != nil {
			fmt.Println(err)
		}
		if len(c.violations) > 0 {
			return 1
		}
		fmt.Printf("%d runs of the case, no violation\n", c.evals)
		return 0
	}
	ims, err := e.impls(name)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	c := newCheck("replay", e)
	k := Case{Line: line, Check: func(im *Impl, out string) string {
		fmt.Printf("answer: %s\nrecorded: %s\n", out, want)
		return ""
	}}
	if n, how := c.session(ims[0], []Case{k}, 2*hangLimit); n == 0 {
		fmt.Println("no answer:", how)
	}
	return 0
}

var _ = filepath.Join
