package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"google.golang.org/protobuf/types/descriptorpb"

	"verif/schema"
)

// Probes of recorded findings. Each probe runs one fixed case; a failure with the recorded symptom is a known finding when
// KNOWN_FINDINGS.md lists the probe, and anything else that goes wrong is a violation.

var knownLine = regexp.MustCompile(`(?m)^known: property=(\S+) (\S+) (.*)$`)

// finding settles one probe: bad is what went wrong, sign the symptom of the recorded defect.
func (c *Check) finding(key, bad, sign, replay string) {
	c.note("probe "+key, false)
	c.count("probes of recorded findings", 1)
	if bad == "" {
		c.count("recorded findings that do not occur any more", 1)
		return
	}
	b, _ := os.ReadFile(filepath.Join(c.env.verif, "KNOWN_FINDINGS.md"))
	for _, m := range knownLine.FindAllStringSubmatch(string(b), -1) {
		if m[1] == c.id && m[2] == key && strings.Contains(bad, sign) {
			c.mu.Lock()
			c.known[key+" "+m[3]] = true
			c.mu.Unlock()
			return
		}
	}
	c.violate("probe "+key+": "+bad, replay)
}

// ask gives one line to a fresh process: the answer, or how it ended.
func (c *Check) ask(im *Impl, line string, check func(o string) string) (bad string) {
	k := Case{Line: line, Check: func(_ *Impl, o string) string { bad = check(o); return "" }}
	n, how := c.session(im, []Case{k}, 2*hangLimit)
	if n == 0 {
		return "the process ended without an answer: " + how
	}
	return bad
}

func single(name string, t int, m *schema.Message) *schema.Field {
	return &schema.Field{Name: name, T: t, Msg: m}
}

// probeFile holds the messages of the probes; it is compiled along with the other schemas.
func probeFile() *schema.File {
	leaf := &schema.Message{Name: "Leaf", Fields: []*schema.Field{single("n", schema.Uint32, nil)}}
	pair := &schema.Message{Name: "Pair", Fields: []*schema.Field{single("a", schema.Msg, leaf), single("b", schema.Msg, leaf)}}
	self := &schema.Message{Name: "Chain"}
	self.Fields = []*schema.Field{single("next", schema.Msg, self)}
	tree := &schema.Message{Name: "Tree"}
	tree.Fields = []*schema.Field{{Name: "kids", T: schema.Msg, Msg: tree, Rep: true}}
	empty := &schema.Message{Name: "Empty"}
	bag := &schema.Message{Name: "Bag", Fields: []*schema.Field{{Name: "items", T: schema.Msg, Msg: empty, Rep: true}}}
	holder := &schema.Message{Name: "Holder", Fields: []*schema.Field{single("n", schema.Uint32, nil), single("a", schema.Msg, leaf)}}
	f := &schema.File{Name: "probe.proto", Pkg: "probe", GoPkg: "verif/gen/probe", Rec: true, Messages: []*schema.Message{leaf, pair, self, tree, empty, bag, holder}}
	f.Resolve()
	return f
}

// rustProbeFile leaves out what does not compile as Rust.
func rustProbeFile() *schema.File {
	f := probeFile()
	f.Rec = false
	var ms []*schema.Message
	for _, m := range f.Messages {
		if m.Name != "Chain" {
			ms = append(ms, m)
		}
	}
	f.Messages = ms
	return f
}

func (f0 probeSet) get(name string) mtype {
	for _, m := range f0.f.All() {
		if m.Name == name {
			return mtype{f0.f, m, base(f0.f) + "." + m.Full}
		}
	}
	panic(name)
}

type probeSet struct{ f *schema.File }

// probesC15 asks the generated Go code about messages the layout cannot tell apart.
func (c *Check) probesC15(ver string, im *Impl) {
	p := probeSet{probeFile()}
	t := p.get("Pair")
	leaf := &schema.Val{L: []*schema.Val{{U: 5}}}
	v := &schema.Val{L: []*schema.Val{{Nil: true}, leaf}}
	in := schema.Encode(nil, t.msg, v)
	k := msgDecodeCase(t, in, nil, schema.Expect(t.msg, v, ver == "v1"), "", false)
	bad := c.ask(im, k.Line, func(o string) string { return k.Check(im, o) })
	c.finding("go-"+ver+"-first-item-absent", bad, "decoded another message", "impl gen-go-"+ver+"\n"+p.f.Text()+"\n"+k.Line)
	c.compileProbeGo("go-"+ver+"-two-files-one-package", ver, "NilDecode redeclared", "ErrDecodeNil redeclared",
		&schema.File{Name: "one.proto", Pkg: "same", GoPkg: "verif/gen/same", Messages: []*schema.Message{{Name: "One"}}},
		&schema.File{Name: "two.proto", Pkg: "same", GoPkg: "verif/gen/same", Messages: []*schema.Message{{Name: "Two"}}})
	c.compileProbeGo("go-"+ver+"-nested-name-joined", ver, "JoinAB redeclared in this block", "NewJoinAB redeclared in this block",
		&schema.File{Name: "join.proto", Pkg: "join", GoPkg: "verif/gen/join", Messages: []*schema.Message{{Name: "AB"}, {Name: "A", Nested: []*schema.Message{{Name: "B"}}}}})
}

// compileProbeGo compiles the code of files that form one package.
func (c *Check) compileProbeGo(key, ver, sign, sign2 string, fs ...*schema.File) {
	e := c.env
	var all []*descriptorpb.FileDescriptorProto
	var names []string
	text := ""
	for _, f := range fs {
		all = append(all, f.Proto())
		names = append(names, f.Name)
		text += f.Text() + "\n"
	}
	out, how := e.runPlugin("go-"+ver, request("", all, names...))
	if how != "" {
		c.finding(key, "the generator fails: "+how, "\x00", text)
		return
	}
	dir := filepath.Join(e.h, "go/gen", ver, key)
	os.MkdirAll(dir, 0o755)
	for i, o := range out {
		os.WriteFile(filepath.Join(dir, fmt.Sprintf("f%d.go", i)), []byte(o.text), 0o644)
	}
	bad := ""
	if err := e.cmd(filepath.Join(e.h, "go"), nil, "go", "build", "./gen/"+ver+"/"+key); err != nil {
		bad = clip(err.Error(), 1200)
		// every complaint must be the recorded one
		for _, l := range strings.Split(bad, "\n") {
			if strings.Contains(l, ".go:") && !strings.Contains(l, sign) && !strings.Contains(l, sign2) && !strings.Contains(l, "other declaration of") && !strings.Contains(l, "already declared") && !strings.Contains(l, "too many errors") {
				sign = "\x00"
			}
		}
		if strings.Contains(bad, sign2) && sign != "\x00" {
			sign = sign2
		}
	}
	c.finding(key, bad, sign, text)
}

// probesC16: what the Rust generator cannot express.
func (c *Check) probesC16(rim *Impl) {
	p := &schema.Message{Name: "Chain"}
	p.Fields = []*schema.Field{single("n", schema.Uint32, nil), single("next", schema.Msg, p)}
	c.compileProbeRust("rust-singular-recursion", "recursive type", &schema.File{Name: "chain.proto", Pkg: "chain", GoPkg: "verif/gen/chain", Messages: []*schema.Message{p}})
	q := probeSet{rustProbeFile()}
	t := q.get("Holder")
	v := &schema.Val{L: []*schema.Val{{U: 5}, {Nil: true}}}
	in := hex.EncodeToString(schema.Encode(nil, t.msg, v))
	bad := c.ask(rim, "P "+t.key+" "+in, func(o string) string {
		d, _, none, bad := rustOut(o)
		if bad == "" && (none || !d.ok) {
			bad = "a message Go encoded is not decoded: " + o
		}
		return bad
	})
	c.finding("rust-absent-sub-message", bad, "a message Go encoded is not decoded: !", q.f.Text()+"\ntype Holder, input "+in)
}

// probesRust17: what nests as deeply as it likes.
func (c *Check) probesRust17(rim *Impl) {
	q := probeSet{rustProbeFile()}
	c.finding("rust-deep-nesting", c.deepTree(rim, q.get("Tree").key, 1<<20), "has overflowed its stack", q.f.Text()+"\ntype Tree, 1 Mi lists of one element in each other")
}

func (c *Check) compileProbeRust(key, sign string, f *schema.File) {
	e := c.env
	for _, pl := range []string{"rust-v1", "rust-v2"} {
		s, how := e.rustSource(pl, "", f)
		if how != "" {
			c.finding(key+"-"+pl, "the generator fails: "+how, "\x00", f.Text())
			continue
		}
		dir := e.path("rprobe-" + pl)
		os.MkdirAll(filepath.Join(dir, "src"), 0o755)
		cargo, _ := os.ReadFile(e.path("rgen/Cargo.toml"))
		os.WriteFile(filepath.Join(dir, "Cargo.toml"), bytes.Replace(cargo, []byte(`name = "rgen"`), []byte(`name = "rprobe"`), 1), 0o644)
		os.WriteFile(filepath.Join(dir, "src/lib.rs"), []byte("#![allow(warnings)]\n"+s), 0o644)
		bad := ""
		t0 := time.Now()
		if err := e.cmd(dir, []string{"CARGO_TARGET_DIR=" + e.path("rgt")}, "cargo", "build", "--offline", "-q"); err != nil {
			bad = clip(err.Error(), 2000)
			for _, m := range regexp.MustCompile(`(?m)^error(\[E\d+\])?: .*$`).FindAllString(bad, -1) {
				if !strings.Contains(m, sign) && !strings.Contains(m, "finding the struct tail") && !strings.Contains(m, "could not compile") && !strings.Contains(m, "aborting") {
					sign = "\x00"
				}
			}
		}
		e.stage("probe "+key+" "+pl, t0)
		c.finding(key+"-"+pl, bad, sign, f.Text())
	}
}

// probesC17: inputs that no message of the layout bounds.
func (c *Check) probesC17(ver string, im *Impl) {
	p := probeSet{probeFile()}
	t := p.get("Chain")
	bad := c.ask(im, "P "+t.key+" -", func(o string) string {
		_, bad := parseDecoded(o)
		return bad
	})
	c.finding("go-"+ver+"-only-itself", bad, "stack exceeds", p.f.Text()+"\ntype Chain, empty input")
	t = p.get("Bag")
	in := append([]byte{1, 3, 10}, uv(1<<23)...)
	bad = c.ask(im, "P "+t.key+" "+hex.EncodeToString(in), func(o string) string {
		d, bad := parseDecoded(o)
		if bad == "" && d.alloc > allocLimit(len(in)) {
			bad = fmt.Sprintf("decoding %d bytes allocates %d", len(in), d.alloc)
		}
		return bad
	})
	c.finding("go-"+ver+"-list-of-nothing", bad, "allocates", p.f.Text()+"\ntype Bag, input "+hex.EncodeToString(in))
	t = p.get("Tree")
	c.finding("go-"+ver+"-deep-nesting", c.deepTree(im, t.key, 6<<20), "stack exceeds", p.f.Text()+"\ntype Tree, 6 Mi lists of one element in each other")
}

// deepTree decodes n lists of one element inside each other, the last one empty.
func (c *Check) deepTree(im *Impl, key string, n int) string {
	in := append(bytes.Repeat([]byte{1, 3, 10, 1}, n), 1, 3, 10, 0)
	return c.ask(im, "P "+key+" "+hex.EncodeToString(in), func(o string) string {
		if o == "" || !strings.ContainsRune("+!-", rune(o[0])) {
			return clip(o, 300)
		}
		return ""
	})
}

func withProbes(fs []*schema.File) []*schema.File { return append(fs[:len(fs):len(fs)], probeFile()) }
