package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"

	"verif/schema"
	"verif/wire"
)

// plugin is one generator of the repository as a process.
type plugin struct {
	name, pkg string
	args      []string
	lang      string
}

var plugins = []plugin{
	{"go-v1", "github.com/loopholelabs/polyglot/protoc-gen-go-polyglot", nil, "go"},
	{"go-v2", "github.com/loopholelabs/polyglot/v2/protoc-gen-go-polyglot", nil, "go"},
	{"rust-v1", "github.com/loopholelabs/polyglot/protoc-gen-rs-polyglot", nil, "rust"},
	{"rust-v2", "./plug2", []string{"rust"}, "rust"},
	{"ts-v1", "github.com/loopholelabs/polyglot/protoc-gen-ts-polyglot", nil, "ts"},
	{"ts-v2", "./plug2", []string{"typescript"}, "ts"},
}

// hooked are the Go generators used as libraries with their hooks set.
var hooked = []plugin{
	{"go-v1-hooks", "./plug2", []string{"hooks-v1"}, "go"},
	{"go-v2-hooks", "./plug2", []string{"hooks-v2"}, "go"},
}

func pluginNamed(n string) plugin {
	for _, p := range append(plugins[:len(plugins):len(plugins)], hooked...) {
		if p.name == n {
			return p
		}
	}
	panic(n)
}

func (e *Env) buildPlugins(names ...string) error {
	var wg sync.WaitGroup
	errs := make([]error, len(names))
	for i, n := range names {
		p := pluginNamed(n)
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[i] = e.build("plugin "+n, func() error { return e.goBuild("plugin-"+n, p.pkg) })
		}()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}

func request(param string, all []*descriptorpb.FileDescriptorProto, gen ...string) []byte {
	q := &pluginpb.CodeGeneratorRequest{FileToGenerate: gen, ProtoFile: all}
	if param != "" {
		q.Parameter = proto.String(param)
	}
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(q)
	if err != nil {
		panic(err)
	}
	return b
}

type outFile struct{ name, text string }

// runPlugin gives the output files, or how the plugin failed.
func (e *Env) runPlugin(name string, req []byte, env ...string) ([]outFile, string) {
	p := pluginNamed(name)
	c := exec.Command(e.path("plugin-"+name), p.args...)
	c.Env = append(os.Environ(), env...)
	c.Stdin = bytes.NewReader(req)
	var out, errs bytes.Buffer
	c.Stdout, c.Stderr = &out, &errs
	if err := c.Start(); err != nil {
		return nil, err.Error()
	}
	t := time.AfterFunc(60*time.Second, func() { c.Process.Kill() })
	err := c.Wait()
	if !t.Stop() {
		return nil, "no end after 60 s"
	}
	if err != nil {
		return nil, fmt.Sprintf("%v\n%s", err, clip(crash(errs.String()), 2500))
	}
	res := &pluginpb.CodeGeneratorResponse{}
	if err := proto.Unmarshal(out.Bytes(), res); err != nil {
		return nil, "the output is no CodeGeneratorResponse: " + err.Error()
	}
	if res.Error != nil {
		return nil, "error response: " + res.GetError()
	}
	var fs []outFile
	for _, f := range res.File {
		fs = append(fs, outFile{f.GetName(), f.GetContent()})
	}
	return fs, ""
}

// mtype is one message type of the schemas of a run.
type mtype struct {
	file *schema.File
	msg  *schema.Message
	key  string // name in the drivers
}

// schemas makes the schemas of a run.
func (c *Check) schemas(n int) ([]*schema.File, []mtype) {
	fs := schema.Fixed()
	r := wire.NewRNG(c.env.seed, "schemas")
	for i := 0; i < n; i++ {
		fs = append(fs, schema.Gen(r, i))
	}
	return fs, typesOf(fs)
}

func typesOf(fs []*schema.File) []mtype {
	var ts []mtype
	for _, f := range fs {
		for _, m := range f.All() {
			ts = append(ts, mtype{f, m, base(f) + "." + m.Full})
		}
	}
	return ts
}

func base(f *schema.File) string { return strings.TrimSuffix(f.Name, ".proto") }

// keep returns the types whose file is not in bad.
func keep(ts []mtype, bad map[string]bool) []mtype {
	var r []mtype
	for _, t := range ts {
		if !bad[base(t.file)] {
			r = append(r, t)
		}
	}
	return r
}

// goGen generates and builds the Go code of the schemas with one version's plugin; bad holds the schemas without usable code,
// each reported through fail.
func (c *Check) goGen(ver string, fs []*schema.File, fail func(f *schema.File, what string)) (*Impl, map[string]bool, error) {
	e := c.env
	if err := e.buildPlugins("go-" + ver); err != nil {
		return nil, nil, err
	}
	t0 := time.Now()
	bad := map[string]bool{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	root := filepath.Join(e.h, "go/gen", ver)
	for _, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			d := f.Proto()
			out, how := e.runPlugin("go-"+ver, request(f.Hook, []*descriptorpb.FileDescriptorProto{d}, f.Name))
			if how == "" && len(out) != 1 {
				how = fmt.Sprintf("%d output files for one file", len(out))
			}
			if how != "" {
				mu.Lock()
				bad[base(f)] = true
				mu.Unlock()
				fail(f, "the Go "+ver+" generator fails: "+how)
				return
			}
			dir := filepath.Join(root, base(f))
			os.MkdirAll(dir, 0o755)
			os.WriteFile(filepath.Join(dir, "gen.go"), []byte(out[0].text), 0o644)
			os.WriteFile(filepath.Join(dir, "zz_registry.go"), []byte(registry(f, ver)), 0o644)
		}()
	}
	wg.Wait()
	e.stage("generate go-"+ver, t0)
	for try := 0; try < 4; try++ {
		var b strings.Builder
		b.WriteString("package main\n\nimport (\n\t\"verif/genlib\"\n")
		n := 0
		for _, f := range fs {
			if !bad[base(f)] {
				fmt.Fprintf(&b, "\t%s \"verif/gen/%s/%s\"\n", base(f), ver, base(f))
				n++
			}
		}
		b.WriteString(")\n\nfunc main() {\n")
		for _, f := range fs {
			if !bad[base(f)] {
				fmt.Fprintf(&b, "\tgenlib.Register(%s.VerifTypes())\n", base(f))
			}
		}
		b.WriteString("\tgenlib.Main()\n}\n")
		os.MkdirAll(filepath.Join(root, "main"), 0o755)
		os.WriteFile(filepath.Join(root, "main/main.go"), []byte(b.String()), 0o644)
		if n == 0 {
			return nil, bad, nil
		}
		t0 = time.Now()
		flags := []string{"-gcflags=verif/gen/...=-e"}
		if c.id == "C25" {
			flags = append(flags, "-race")
		}
		err := e.goBuild("gendrv-"+ver, "./gen/"+ver+"/main", flags...)
		e.stage("build gendrv-"+ver, t0)
		if err == nil {
			return &Impl{name: "gen-go-" + ver, cmd: []string{e.path("gendrv-" + ver)}}, bad, nil
		}
		// which packages do not compile?
		found := false
		for _, part := range regexp.MustCompile(`(?m)^# `).Split(err.Error(), -1) {
			name, msg, _ := strings.Cut(part, "\n")
			name = strings.TrimSpace(name)
			for _, f := range fs {
				if strings.Fields(name + " ")[0] == "verif/gen/"+ver+"/"+base(f) && !bad[base(f)] {
					bad[base(f)] = true
					found = true
					fail(f, "the generated Go "+ver+" code does not compile:\n"+clip(msg, 1500))
				}
			}
		}
		if !found {
			for _, f := range fs { // syntax errors are reported without a package
				if !bad[base(f)] && strings.Contains(err.Error(), "gen/"+ver+"/"+base(f)+"/") {
					bad[base(f)] = true
					found = true
					fail(f, "the generated Go "+ver+" code does not compile:\n"+clip(err.Error(), 1500))
				}
			}
		}
		if !found {
			return nil, bad, err
		}
	}
	return nil, bad, fmt.Errorf("generated Go %s code does not build", ver)
}

// registry is the file added to a generated package: it names types, constructors and fields, so a missing one is a compile error.
func registry(f *schema.File, ver string) string {
	var b strings.Builder
	imp := "github.com/loopholelabs/polyglot"
	if strings.HasPrefix(ver, "v2") {
		imp += "/v2"
	}
	ms := f.All()
	fmt.Fprintf(&b, "package %s\n\nimport (\n", f.GoPackage())
	if len(ms) > 0 {
		fmt.Fprintf(&b, "\tvrf %q\n", imp)
	}
	fmt.Fprintf(&b, "\t\"verif/genlib\"\n)\n\n")
	for _, en := range f.AllEnums() {
		pre := strings.TrimSuffix(en.Full, en.Name)
		for i, v := range en.Values {
			// enum values live in the scope that declares the enum; a constant of another value does not compile
			fmt.Fprintf(&b, "var _ = [1]int{}[%s-%s(%d)]\n", schema.Camel(pre+v), schema.Camel(en.Full), i)
		}
	}
	b.WriteString("func VerifTypes() []*genlib.T {\n\treturn []*genlib.T{\n")
	for _, m := range ms {
		n := schema.Camel(m.Full)
		var fl []string
		for _, x := range m.Fields {
			fl = append(fl, fmt.Sprintf("%q", schema.GoField(x.Name)))
		}
		fmt.Fprintf(&b, "\t\t{Name: %q, Fields: []string{%s}, New: func() any { return New%s() }, Nil: (*%s)(nil),\n", base(f)+"."+m.Full, strings.Join(fl, ", "), n, n)
		fmt.Fprintf(&b, "\t\t\tEnc: func(x any, p []byte) []byte { b := vrf.NewBuffer(); b.Write(p); x.(*%s).Encode(b); return append([]byte(nil), b.Bytes()...) },\n", n)
		fmt.Fprintf(&b, "\t\t\tErr: func(x any, e error) []byte { b := vrf.NewBuffer(); x.(*%s).Error(b, e); return append([]byte(nil), b.Bytes()...) },\n", n)
		fmt.Fprintf(&b, "\t\t\tBuf: func() genlib.Buf { return vrf.NewBuffer() }, EncTo: func(x any, b genlib.Buf) { x.(*%s).Encode(b.(*vrf.Buffer)) },\n", n)
		fmt.Fprintf(&b, "\t\t\tDec: func(x any, p []byte) error { return x.(*%s).Decode(p) }},\n", n)
	}
	b.WriteString("\t}\n}\n")
	for _, m := range ms {
		fmt.Fprintf(&b, "\nfunc _(x *%s) {\n", schema.Camel(m.Full))
		for _, x := range m.Fields {
			fmt.Fprintf(&b, "\t_ = x.%s\n", schema.GoField(x.Name))
		}
		b.WriteString("}\n")
	}
	return b.String()
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func exists(p string) bool {
	_, err := os.Stat(p)
	return err == nil
}

// huge tells whether messages of the type are also tried with more elements than two bytes count.
func huge(t mtype) bool {
	return (base(t.file) == "f1" || base(t.file) == "f2") && strings.HasPrefix(t.msg.Name, "One")
}
