package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Case is one line sent to one implementation and the oracle for the answer.
type Case struct {
	Line  string                          // command without the id: "E ops", "D hex reqs", ...
	Check func(im *Impl, o string) string // "" or what is wrong
	Class string                          // counted per class
	Triv  bool                            // trivial by the check's rule
}

// Check collects what one property's run observed.
type Check struct {
	id, rule   string
	env        *Env
	mu         sync.Mutex
	evals      int
	distinct   map[[16]byte]struct{}
	counts     map[string]int
	samples    []any
	violations []violation
	incon      []string
	known      map[string]bool
	assume     []string
	level      string
	extra      map[string]any
	only       *Case // replay: nothing else is run
	onlyImpl   string
}

type violation struct {
	What, Replay string
}

func newCheck(id string, e *Env) *Check {
	return &Check{id: id, env: e, distinct: map[[16]byte]struct{}{}, counts: map[string]int{}, level: "exploration", extra: map[string]any{}, known: map[string]bool{}}
}

func (c *Check) count(k string, n int) {
	c.mu.Lock()
	c.counts[k] += n
	c.mu.Unlock()
}

// note records one evaluated case.
func (c *Check) note(key string, trivial bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.evals++
	if !trivial {
		h := sha256.Sum256([]byte(key))
		c.distinct[[16]byte(h[:16])] = struct{}{}
	}
	if len(c.samples) < 3 && !trivial && len(key) < 600 || c.evals%2003 == 0 && len(c.samples) < 12 && len(key) < 600 {
		c.samples = append(c.samples, key)
	}
}

// violate records a violation with everything needed to replay it.
func (c *Check) violate(what string, replay string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.violations) >= 20 {
		c.violations = append(c.violations, violation{What: what})
		return
	}
	if c.only != nil {
		fmt.Println(what)
		c.violations = append(c.violations, violation{What: what})
		return
	}
	dir := filepath.Join(c.env.verif, "replays")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%d.txt", c.id, len(c.violations)+1))
	os.WriteFile(p, []byte(replay), 0o644)
	c.violations = append(c.violations, violation{what, p})
}

func (c *Check) inconclusive(f string, a ...any) {
	c.mu.Lock()
	c.incon = append(c.incon, fmt.Sprintf(f, a...))
	c.mu.Unlock()
}

func (c *Check) tooMany() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.violations) >= 10
}

// finish writes the evidence and gives the exit status.
func (c *Check) finish(wall time.Duration) int {
	cov := map[string]any{
		"evaluations": c.evals, "distinct_nontrivial": len(c.distinct), "rule": c.rule, "samples": c.samples, "observed": c.counts,
	}
	if c.samples == nil {
		cov["samples"] = []any{}
	}
	for k, v := range c.extra {
		cov[k] = v
	}
	cov["stages"] = c.env.stages
	if len(c.incon) > 0 {
		cov["inconclusive"] = c.incon
	}
	ev := map[string]any{
		"property": c.id, "tier": c.env.tier, "seed": c.env.seed, "level": c.level, "coverage": cov, "wall_s": wall.Seconds(), "violations": len(c.violations),
	}
	if len(c.assume) > 0 {
		ev["assumptions"] = c.assume
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(c.env.verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(c.env.verif, "evidence", c.id+".json"), append(b, '\n'), 0o644)
	var ks []string
	for k := range c.known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, k)
	}
	for i, v := range c.violations {
		if i >= 10 {
			fmt.Printf("... %d more\n", len(c.violations)-i)
			break
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n", c.id, v.Replay, strings.ReplaceAll(clip(v.What, 1500), "\n", "\n  "))
	}
	if len(c.violations) > 0 {
		return 1
	}
	fmt.Printf("%s: %d evaluations, %d distinct non-trivial, %.1fs\n", c.id, c.evals, len(c.distinct), wall.Seconds())
	if len(c.incon) > 0 || c.evals == 0 {
		fmt.Printf("INCONCLUSIVE: %s\n", strings.Join(c.incon, "; "))
		return 2
	}
	return 0
}

// proc is a driver process.
type proc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stderr *limited
}

type limited struct {
	mu sync.Mutex
	b  []byte
}

func (l *limited) Write(p []byte) (int, error) {
	l.mu.Lock()
	l.b = append(l.b, p...)
	if len(l.b) > 1<<16 { // the beginning and the end tell most
		l.b = append(append(append([]byte(nil), l.b[:1<<14]...), "\n...\n"...), l.b[len(l.b)-1<<14:]...)
	}
	l.mu.Unlock()
	return len(p), nil
}

func start(cmd []string) (*proc, error) {
	p := &proc{cmd: exec.Command(cmd[0], cmd[1:]...), stderr: new(limited)}
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var err error
	if p.in, err = p.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	o, err := p.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	p.cmd.Stderr = p.stderr
	p.out = bufio.NewReaderSize(o, 1<<20)
	return p, p.cmd.Start()
}

const hangLimit = 60 * time.Second

// run sends the cases to as many processes of im as given and judges every answer.
func (c *Check) run(im *Impl, cases []Case, shards int) {
	if c.only != nil {
		var l []Case
		for _, k := range cases {
			if im.name == c.onlyImpl && k.Line == c.only.Line && len(l) == 0 {
				l = append(l, k)
			}
		}
		cases = l
	}
	if shards < 1 {
		shards = 1
	}
	var wg sync.WaitGroup
	per := (len(cases) + shards - 1) / shards
	for s := 0; s < shards; s++ {
		lo, hi := s*per, min((s+1)*per, len(cases))
		if lo >= hi {
			break
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.runShard(im, cases[lo:hi])
		}()
	}
	wg.Wait()
}

func (c *Check) runShard(im *Impl, cases []Case) {
	crashes := 0
	for len(cases) > 0 && !c.tooMany() {
		n, how := c.session(im, cases, hangLimit)
		if n == len(cases) {
			return
		}
		// the first unanswered case ended the process; confirm it alone
		bad := cases[n]
		c.note(im.name+" "+bad.Line, bad.Triv)
		m, how2 := c.session(im, []Case{bad}, 2*hangLimit)
		switch {
		case m == 0 && (how2 == "killed" || how == "killed" && how2 == "killed"):
			c.inconclusive("%s: the system ended the process (memory) on: %s", im.name, tail(bad.Line, 200))
		case m == 0:
			c.violate(fmt.Sprintf("%s: the process ended without an answer (%s) on: %s", im.name, how2, clip(bad.Line, 800)), c.replay(im, bad, how2, "an answer"))
		case how == "killed":
			c.inconclusive("%s: the system ended the process (memory)", im.name)
		case how == "hang":
			c.count("slow cases that finished alone", 1)
		default:
			// not reproduced alone: earlier cases in the same process matter
			var b strings.Builder
			fmt.Fprintf(&b, "impl %s\nhow %s\nsequence (all lines, one process)\n", im.name, how)
			for i := max(0, n-2000); i <= n; i++ {
				fmt.Fprintf(&b, "%s\n", cases[i].Line)
			}
			c.violate(fmt.Sprintf("%s: the process ended (%s) in the course of many cases, last: %s", im.name, how, clip(bad.Line, 400)), b.String())
		}
		cases = cases[n+1:]
		crashes++
		if crashes >= 5 {
			return
		}
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (c *Check) replay(im *Impl, k Case, got, want string) string {
	return fmt.Sprintf("impl %s\nline %s\ngot  %s\nwant %s\nproperty %s\nseed %d\ntier %s\nreplay with: /verif/run.sh replay <this file>\n", im.name, k.Line, got, want, c.id, c.env.seed, c.env.tier)
}

// session runs cases in one process; it returns how many were answered and how the process ended early.
func (c *Check) session(im *Impl, cases []Case, limit time.Duration) (int, string) {
	p, err := start(im.cmd)
	if err != nil {
		c.inconclusive("cannot start %s: %v", im.name, err)
		return len(cases), ""
	}
	go func() {
		w := bufio.NewWriterSize(p.in, 1<<16)
		for i, k := range cases {
			cmd, rest, _ := strings.Cut(k.Line, " ")
			if _, err := fmt.Fprintf(w, "%s %d %s\n", cmd, i, rest); err != nil {
				break
			}
		}
		w.Flush()
		p.in.Close()
	}()
	var hung bool
	var hm sync.Mutex
	timer := time.AfterFunc(limit, func() {
		hm.Lock()
		hung = true
		hm.Unlock()
		p.cmd.Process.Kill()
	})
	n := 0
	for n < len(cases) {
		l, err := p.out.ReadString('\n')
		if err != nil {
			break
		}
		timer.Reset(limit)
		id, out, _ := strings.Cut(strings.TrimSpace(l), " ")
		if id != fmt.Sprint(n) {
			continue
		}
		k := cases[n]
		n++
		c.judge(im, k, strings.TrimSpace(out))
		if c.tooMany() {
			p.cmd.Process.Kill()
			n = len(cases)
		}
	}
	timer.Stop()
	if n == len(cases) {
		p.in.Close()
		io.Copy(io.Discard, p.out)
	}
	err = p.cmd.Wait()
	if n == len(cases) {
		return n, ""
	}
	hm.Lock()
	defer hm.Unlock()
	if hung {
		return n, "hang"
	}
	if ee, ok := err.(*exec.ExitError); ok {
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
			return n, "killed"
		}
	}
	p.stderr.mu.Lock()
	defer p.stderr.mu.Unlock()
	return n, fmt.Sprintf("%v; %s", err, clip(crash(string(p.stderr.b)), 3000))
}

func (c *Check) judge(im *Impl, k Case, out string) {
	c.note(im.name+" "+k.Line, k.Triv)
	if k.Class != "" {
		c.count(k.Class, 1)
	}
	c.count("answers from "+im.name, 1)
	if bad := k.Check(im, out); bad != "" {
		c.violate(fmt.Sprintf("%s: %s\n  case: %s\n  answer: %s", im.name, bad, clip(k.Line, 1200), clip(out, 1200)), c.replay(im, k, out, bad))
	}
}
