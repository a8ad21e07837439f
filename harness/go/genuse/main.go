// Command genuse uses the generators as libraries: many at once, one for many requests, with and without headers.
// Arguments: directory of requests (N.req) and the responses of the plugin processes (N.res), generator, workers, rounds.
package main

import (
	"encoding/json"
	"fmt"
	"go/scanner"
	"go/token"
	"os"
	"path/filepath"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"

	go1 "github.com/loopholelabs/polyglot/generator/golang"
	rust1 "github.com/loopholelabs/polyglot/generator/rust"
	ts1 "github.com/loopholelabs/polyglot/generator/typescript"
	go2 "github.com/loopholelabs/polyglot/v2/generator/golang"
	rust2 "github.com/loopholelabs/polyglot/v2/generator/rust"
	ts2 "github.com/loopholelabs/polyglot/v2/generator/typescript"
)

type gen interface {
	UnmarshalRequest(buf []byte) (*pluginpb.CodeGeneratorRequest, error)
	Generate(req *pluginpb.CodeGeneratorRequest) (*pluginpb.CodeGeneratorResponse, error)
	MarshalResponse(res *pluginpb.CodeGeneratorResponse) ([]byte, error)
	ExecuteTemplate(genFile *protogen.GeneratedFile, protoFile *protogen.File, packageName string, header bool) error
}

var kinds = map[string]func() gen{
	"go-v1": func() gen { return go1.New() }, "go-v2": func() gen { return go2.New() },
	"rust-v1": func() gen { return rust1.New() }, "rust-v2": func() gen { return rust2.New() },
	"ts-v1": func() gen { return ts1.New() }, "ts-v2": func() gen { return ts2.New() },
}

var (
	runs atomic.Int64
	mu   sync.Mutex
	bads int
)

func bad(s string, a ...any) {
	mu.Lock()
	defer mu.Unlock()
	if bads++; bads < 20 {
		emit(map[string]any{"Violation": fmt.Sprintf(s, a...)})
	}
}

func emit(m map[string]any) {
	b, _ := json.Marshal(m)
	os.Stdout.Write(append(b, '\n'))
}

func note(s string) {
	mu.Lock()
	defer mu.Unlock()
	if !noted[s] {
		noted[s] = true
		emit(map[string]any{"Note": s})
	}
}

var noted = map[string]bool{}

func diff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			z := "(end)"
			if i < len(y) {
				z = y[i]
			}
			return fmt.Sprintf("line %d: %q instead of %q", i+1, x[i], z)
		}
	}
	return "too short"
}

func use(g gen, mode, name string, req, want []byte) {
	runs.Add(1)
	note(mode + " " + name)
	q, err := g.UnmarshalRequest(req)
	if err != nil {
		bad("%s %s: %v", mode, name, err)
		return
	}
	res, err := g.Generate(q)
	if err != nil {
		bad("%s %s: the library fails on a request that the plugin accepts: %v", mode, name, err)
		return
	}
	raw, err := g.MarshalResponse(res)
	if err != nil {
		bad("%s %s: %v", mode, name, err)
		return
	}
	got, w := &pluginpb.CodeGeneratorResponse{}, &pluginpb.CodeGeneratorResponse{}
	if proto.Unmarshal(raw, got) != nil || proto.Unmarshal(want, w) != nil {
		bad("%s %s: response does not unmarshal", mode, name)
		return
	}
	if len(got.File) != len(w.File) {
		bad("%s %s: %d files instead of %d", mode, name, len(got.File), len(w.File))
		return
	}
	for i, f := range got.File {
		if f.GetName() != w.File[i].GetName() {
			bad("%s %s: file %s instead of %s", mode, name, f.GetName(), w.File[i].GetName())
		} else if f.GetContent() != w.File[i].GetContent() {
			bad("%s %s: %s differs from what the plugin gives: %s", mode, name, f.GetName(), diff(f.GetContent(), w.File[i].GetContent()))
		}
	}
}

// tokens of Go code, without those that only its layout makes.
func tokens(src string) (r []string) {
	fset := token.NewFileSet()
	var sc scanner.Scanner
	sc.Init(fset.AddFile("", -1, len(src)), []byte(src), nil, 0)
	for {
		_, t, lit := sc.Scan()
		if t == token.EOF {
			return r
		}
		if t == token.SEMICOLON {
			continue
		}
		if lit == "" {
			lit = t.String()
		}
		r = append(r, lit)
	}
}

func squeeze(s string) string { return strings.Join(strings.Fields(s), " ") }

// execute calls the template directly, as other generators built on these do.
func execute(kind, name string, req, want []byte) {
	g := kinds[kind]()
	q, err := g.UnmarshalRequest(req)
	if err != nil {
		bad("execute %s: %v", name, err)
		return
	}
	opts := protogen.Options{ParamFunc: func(string, string) error { return nil }}
	p, err := opts.New(q)
	if err != nil {
		bad("execute %s: %v", name, err)
		return
	}
	w := &pluginpb.CodeGeneratorResponse{}
	proto.Unmarshal(want, w)
	i := 0
	for _, f := range p.Files {
		if !f.Generate {
			continue
		}
		for _, header := range []bool{true, false} {
			runs.Add(1)
			// a .txt file is given back as written
			out := p.NewGeneratedFile(fmt.Sprint(name, i, header, ".txt"), f.GoImportPath)
			pkg := string(f.Desc.Package().Name())
			if pkg == "" {
				pkg = string(f.GoPackageName)
			}
			if err := g.ExecuteTemplate(out, f, pkg, header); err != nil {
				bad("execute %s: %v", name, err)
				return
			}
			b, err := out.Content()
			if err != nil {
				bad("execute %s: %v", name, err)
				return
			}
			if len(w.File) <= i {
				bad("execute %s: the plugin gives %d files", name, len(w.File))
				return
			}
			if strings.HasPrefix(kind, "go") { // formatted by Generate only
				got, full := tokens(string(b)), tokens(w.File[i].GetContent())
				if header && !slices.Equal(got, full) || !header && (len(got) > len(full) || !slices.Equal(got, full[len(full)-len(got):])) {
					bad("execute %s: with header %v the code is another one than the plugin's", name, header)
				}
				// in a package of the caller's choice
				out := p.NewGeneratedFile(fmt.Sprint(name, i, header, "other.txt"), f.GoImportPath)
				if err := g.ExecuteTemplate(out, f, "other_package", header); err != nil {
					bad("execute %s: %v", name, err)
					return
				}
				b, _ := out.Content()
				other := tokens(string(b))
				if n := slices.Index(got, "package"); header && n >= 0 && n+1 < len(got) {
					got[n+1] = "other_package"
				}
				if !slices.Equal(got, other) {
					bad("execute %s: in a package of another name the code is another one", name)
				}
				continue
			}
			full := w.File[i].GetContent()
			if header && full != string(b) {
				bad("execute %s: differs from what the plugin gives: %s", name, diff(string(b), full))
			}
			if !header && !strings.HasSuffix(squeeze(full), squeeze(string(b))) {
				bad("execute %s: without the header the rest differs", name)
			}
		}
		i++
	}
}

func live() int {
	best := 1 << 62
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		best = min(best, int(m.HeapAlloc))
	}
	return best
}

func handles() int {
	e, _ := os.ReadDir("/proc/self/fd")
	return len(e)
}

// move names the types of all fields as ones of a package around theirs.
func move(ms []*descriptorpb.DescriptorProto, pkg string) {
	for _, m := range ms {
		for _, f := range m.Field {
			if f.TypeName != nil {
				f.TypeName = proto.String(pkg + f.GetTypeName())
			}
		}
		move(m.NestedType, pkg)
	}
}

// keep generates code for files that never come twice, with one generator and with many, and compares what is alive.
func keep(kind string, req [][]byte, rounds int) {
	one := kinds[kind]()
	at := 0
	stretch := func(n int) {
		for ; n > 0; n-- {
			at++
			g := one
			if at%3 == 0 {
				g = kinds[kind]()
			}
			q, err := g.UnmarshalRequest(req[at%len(req)])
			if err != nil {
				bad("%v", err)
				return
			}
			for i, f := range q.ProtoFile {
				name := fmt.Sprintf("file%d_%d.proto", at, i)
				for j, x := range q.FileToGenerate {
					if x == f.GetName() {
						q.FileToGenerate[j] = name
					}
				}
				f.Name = &name
				pkg := fmt.Sprint("v", at)
				if f.GetPackage() != "" {
					pkg += "." + f.GetPackage()
				}
				f.Package = &pkg
				move(f.MessageType, fmt.Sprint(".v", at))
				for _, x := range f.Service {
					for _, m := range x.Method {
						m.InputType, m.OutputType = proto.String(fmt.Sprint(".v", at, m.GetInputType())), proto.String(fmt.Sprint(".v", at, m.GetOutputType()))
					}
				}
			}
			res, err := g.Generate(q)
			if err == nil {
				_, err = g.MarshalResponse(res)
			}
			if err != nil {
				bad("%v", err)
				return
			}
			runs.Add(1)
		}
	}
	stretch(rounds/4 + 2)
	last, fds, gs := live(), handles(), runtime.NumGoroutine()
	least := 1 << 62
	for k := 0; k < 3; k++ {
		stretch(rounds)
		now := live()
		least = min(least, now-last)
		last = now
	}
	if least > 100<<10 {
		bad("every %d generations leave %d bytes more alive", rounds, least)
	}
	if n := runtime.NumGoroutine(); n > gs+2 {
		bad("%d generations leave %d goroutines behind", 3*rounds, n-gs)
	}
	if n := handles(); n > fds+2 {
		bad("%d generations leave %d files open", 3*rounds, n-fds)
	}
	note("generations in a row")
	emit(map[string]any{"Counts": map[string]int{"generations": int(runs.Load())}, "Done": true})
}

func main() {
	if os.Args[3] == "keep" {
		names, _ := filepath.Glob(filepath.Join(os.Args[1], "*.req"))
		sort.Strings(names)
		var req [][]byte
		for _, n := range names {
			q, err := os.ReadFile(n)
			if err != nil {
				panic(err)
			}
			req = append(req, q)
		}
		rounds, _ := strconv.Atoi(os.Args[4])
		keep(os.Args[2], req, rounds)
		return
	}
	dir, kind := os.Args[1], os.Args[2]
	workers, _ := strconv.Atoi(os.Args[3])
	rounds, _ := strconv.Atoi(os.Args[4])
	names, _ := filepath.Glob(filepath.Join(dir, "*.req"))
	sort.Strings(names)
	var req, want [][]byte
	var fresh []bool // parameters are given to a generator of its own
	for _, n := range names {
		fresh = append(fresh, strings.HasSuffix(n, ".alone.req"))
		q, err := os.ReadFile(n)
		if err != nil {
			panic(err)
		}
		s, err := os.ReadFile(strings.TrimSuffix(n, "req") + "res")
		if err != nil {
			panic(err)
		}
		req, want = append(req, q), append(want, s)
	}
	for i := range req {
		use(kinds[kind](), "after other generators", filepath.Base(names[i]), req[i], want[i])
	}
	one := kinds[kind]()
	for i := range req { // one generator, forwards and backwards
		if fresh[i] {
			continue
		}
		use(one, "reused", filepath.Base(names[i]), req[i], want[i])
	}
	for i := len(req) - 1; i >= 0; i-- {
		if fresh[i] {
			use(kinds[kind](), "between other generators", filepath.Base(names[i]), req[i], want[i])
			continue
		}
		use(one, "reused", filepath.Base(names[i]), req[i], want[i])
	}
	for i := range req {
		if fresh[i] {
			continue
		}
		execute(kind, filepath.Base(names[i]), req[i], want[i])
	}
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			mine := kinds[kind]()
			for k := 0; k < rounds; k++ {
				for i := range req {
					j := (i*(2*w+1) + w*7) % len(req)
					if k%2 == 0 || fresh[j] {
						use(kinds[kind](), "at once", filepath.Base(names[j]), req[j], want[j])
					} else {
						use(mine, "at once and reused", filepath.Base(names[j]), req[j], want[j])
					}
				}
			}
		}()
	}
	wg.Wait()
	emit(map[string]any{"Counts": map[string]int{"generations in one process": int(runs.Load())}, "Done": true})
}
