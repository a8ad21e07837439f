package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"
)

func init() {
	checks["C08"] = func(c *Check) error {
		c.rule = "each case is one random history of Write, Reset, Grow, MoveOffset and encode calls on a Go buffer, compared after every step with a model log; distinct by the recorded history"
		return goChild(c, "C08")
	}
	checks["C10"] = func(c *Check) error {
		c.rule = "each case is a history of get, use and put on a pool (sequential, recorded in full) or a batch of concurrent holders; an online monitor records the owner of every object, the contents each holder stamped and what the next holder gets; the same runs are repeated under the race detector with collections running"
		return goChild(c, "C10")
	}
	checks["C12"] = func(c *Check) error {
		c.rule = "each case measures the heap allocations of one operation sequence (encode within capacity, re-encode after reset, decode of scalars) or counts capacity changes while a buffer grows; distinct by operation, value and capacity"
		return goChild(c, "C12")
	}
}

// childEvent is one line printed by an in-process monitor.
type childEvent struct {
	Violation string
	Note      string
	Triv      bool
	Counts    map[string]int
	Done      bool
}

// child runs an in-process monitor and takes over what it observed. Its death or silence is itself an observation.
func (c *Check) child(name string, limit time.Duration, env []string, cmd ...string) {
	t0 := time.Now()
	x := exec.Command(cmd[0], cmd[1:]...)
	x.Env = append(os.Environ(), env...)
	x.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	errs := new(limited)
	x.Stderr = errs
	o, err := x.StdoutPipe()
	if err == nil {
		err = x.Start()
	}
	if err != nil {
		c.inconclusive("%s does not start: %v", name, err)
		return
	}
	var hung bool
	var hm sync.Mutex
	stop := func() { syscall.Kill(-x.Process.Pid, syscall.SIGKILL) }
	timer := time.AfterFunc(limit, func() {
		hm.Lock()
		hung = true
		hm.Unlock()
		stop()
	})
	done := false
	last := ""
	in := bufio.NewReaderSize(o, 1<<20)
	viols := 0
	for {
		l, err := in.ReadString('\n')
		if err != nil {
			break
		}
		var e childEvent
		if !strings.HasPrefix(l, "{") || json.Unmarshal([]byte(l), &e) != nil {
			continue
		}
		if e.Violation != "" {
			viols++
			c.violate(name+": "+e.Violation, fmt.Sprintf("monitor %s\ncommand %s (build it with run.sh %s)\nseed %d tier %s\nlast case %s\n%s\n", name, strings.Join(cmd, " "), c.id, c.env.seed, c.env.tier, last, e.Violation))
		}
		if e.Note != "" {
			c.note(name+" "+e.Note, e.Triv)
			last = e.Note
		}
		for k, n := range e.Counts {
			c.count(name+": "+k, n)
		}
		done = done || e.Done
	}
	io.Copy(io.Discard, o)
	err = x.Wait()
	timer.Stop()
	c.env.stage("run "+name, t0)
	hm.Lock()
	defer hm.Unlock()
	errs.mu.Lock()
	report := string(errs.b)
	errs.mu.Unlock()
	if strings.Contains(report, "error: unsupported operation") {
		c.count(name+": ended at an operation Miri does not support", 1)
		c.assume = append(c.assume, name+" ended early: "+clip(crash(report), 300))
		return
	}
	race := strings.Index(report, "WARNING: DATA RACE")
	if race < 0 {
		race = strings.Index(report, "WARNING: ThreadSanitizer")
	}
	if i := race; i >= 0 {
		c.violate(name+": the race detector reports a data race:\n"+clip(report[i:], 2500), report)
		return
	}
	switch ws, _ := exitStatus(err); {
	case err == nil && done:
	case hung:
		c.violate(fmt.Sprintf("%s: no end after %v; last case: %s", name, limit, clip(last, 300)), "hang after: "+last+"\n"+report)
	case ws.Signaled() && ws.Signal() == syscall.SIGKILL:
		c.inconclusive("%s was ended by the system (memory)", name)
	case viols > 0:
	default:
		c.violate(fmt.Sprintf("%s: the process ended (%v) after case %s:\n%s", name, err, clip(last, 300), clip(crash(report), 2500)), report)
	}
}

func exitStatus(err error) (syscall.WaitStatus, bool) {
	if ee, ok := err.(*exec.ExitError); ok {
		ws, ok := ee.Sys().(syscall.WaitStatus)
		return ws, ok
	}
	return 0, false
}

// crash cuts a report to where it starts to say something.
func crash(s string) string {
	for _, m := range []string{"goroutine stack exceeds", "has overflowed its stack", "fatal error:", "panic:", "Undefined Behavior", "error: ", "ERROR: ", "Invalid ", "unexpected fault"} {
		if i := strings.Index(s, m); i >= 0 {
			return s[i:]
		}
	}
	return tail(s, 2500)
}

// goChild builds and runs the Go monitors of one property: plainly, and with what the property calls for.
func goChild(c *Check, id string) error {
	type variant struct {
		mode  string
		flags []string
		env   []string
	}
	vs := []variant{{mode: "plain"}}
	switch id {
	case "C08":
		vs = append(vs, variant{mode: "checkptr", flags: []string{"-gcflags=all=-d=checkptr"}})
	case "C09":
		vs = append(vs, variant{"clobber", []string{"-gcflags=all=-d=checkptr"}, []string{"GODEBUG=clobberfree=1"}})
	case "C10", "C11":
		vs = append(vs, variant{"race", []string{"-race"}, []string{"GORACE=halt_on_error=1 exitcode=66"}})
	}
	limit := 400 * time.Second
	if c.env.tier == "thorough" {
		limit = 3000 * time.Second
	}
	var wg sync.WaitGroup
	errs := make([]error, len(vs))
	for i, v := range vs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			bin := "gochk-" + v.mode
			if errs[i] = c.env.build(bin, func() error { return c.env.goBuild(bin, "./gochk", v.flags...) }); errs[i] != nil {
				return
			}
			c.child("go "+v.mode, limit, v.env, c.env.path(bin), id, fmt.Sprint(c.env.seed), c.env.tier, v.mode)
		}()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}
