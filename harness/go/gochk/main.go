// Command gochk runs the in-process Go monitors of one property and prints what it observed as JSON lines.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"sync"

	"verif/wire"
)

type event struct {
	Violation string         `json:"violation,omitempty"`
	Note      string         `json:"note,omitempty"`
	Triv      bool           `json:"triv,omitempty"`
	Counts    map[string]int `json:"counts,omitempty"`
	Done      bool           `json:"done,omitempty"`
}

var (
	mu       sync.Mutex
	counts   = map[string]int{}
	viols    int
	seed     uint64
	thorough bool
	mode     string
)

func emit(e event) {
	b, _ := json.Marshal(e)
	os.Stdout.Write(append(b, '\n'))
}

// violate reports a violation; after a few the process stops.
func violate(f string, a ...any) {
	mu.Lock()
	defer mu.Unlock()
	viols++
	emit(event{Violation: fmt.Sprintf(f, a...)})
	if viols >= 8 {
		flush()
		os.Exit(0)
	}
}

func count(k string, n int) {
	mu.Lock()
	counts[k] += n
	mu.Unlock()
}

// note records an evaluated case; key must describe it fully.
func note(key string, triv bool) {
	mu.Lock()
	emit(event{Note: key, Triv: triv})
	mu.Unlock()
}

func flush() { emit(event{Counts: counts, Done: true}) }

func scale(q, t int) int {
	if mode == "race" {
		q, t = q/8+1, t/8+1
	}
	if thorough {
		return t
	}
	return q
}

func rng(s string) *wire.RNG { return wire.NewRNG(seed, s) }

var checks = map[string]func(){}

func main() {
	id := os.Args[1]
	seed, _ = strconv.ParseUint(os.Args[2], 10, 64)
	thorough = os.Args[3] == "thorough"
	mode = os.Args[4]
	func() {
		defer func() {
			if r := recover(); r != nil {
				violate("panic: %v\n%s", r, debug.Stack())
			}
		}()
		checks[id]()
	}()
	mu.Lock()
	flush()
	mu.Unlock()
}

// guarded turns a panic inside f into a violation.
func guarded(what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			violate("%s: panic: %v\n%s", what, r, debug.Stack())
		}
	}()
	f()
}
