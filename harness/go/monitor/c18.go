package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"

	"verif/schema"
	"verif/wire"
)

func init() {
	checks["C18"] = func(c *Check) error {
		c.rule = "each case is one request given to one generator process: a file alone (again, with another environment, other parameters, comments, services, other field numbers), several files together, files that import others, nothing to generate; or one declaration looked up in an output; distinct by generator, request and variation"
		var names []string
		for _, p := range plugins {
			names = append(names, p.name)
		}
		if err := c.env.buildPlugins(names...); err != nil {
			return err
		}
		fs, _ := c.schemas(c.scale(40, 200))
		r := c.rng("c18")
		type group struct{ files []*schema.File }
		var groups [][]*schema.File
		for i := 0; i < c.scale(14, 80); i++ {
			var g []*schema.File
			used := map[string]bool{}
			for n := 2 + r.N(5); n > 0; n-- {
				f := fs[r.N(len(fs))]
				if used[f.Pkg] { // two files of one package may declare the same names
					continue
				}
				used[f.Pkg] = true
				g = append(g, f)
			}
			groups = append(groups, g)
		}
		var jobs []func()
		var mu sync.Mutex
		tsOut := map[string]string{}
		for _, pl := range plugins {
			alone := make([]string, len(fs))
			at := map[*schema.File]int{}
			for i, f := range fs {
				at[f] = i
			}
			var wg sync.WaitGroup
			wg.Add(len(fs))
			for i, f := range fs {
				r := c.rng("c18 " + pl.name + base(f))
				jobs = append(jobs, func() {
					defer wg.Done()
					alone[i] = c.genAlone(pl, f, r)
					if alone[i] != "" {
						c.inventory(pl, f, alone[i])
						if pl.lang == "ts" {
							mu.Lock()
							tsOut[pl.name+"/"+base(f)] = alone[i]
							mu.Unlock()
						}
					}
				})
			}
			for k, g := range groups {
				r := c.rng(fmt.Sprint("c18 group ", pl.name, k))
				jobs = append(jobs, func() {
					wg.Wait()
					var want []string
					for _, f := range g {
						want = append(want, alone[at[f]])
					}
					c.genTogether(pl, g, want, r)
				})
			}
			for k := 0; k < c.scale(6, 40); k++ {
				r := c.rng(fmt.Sprint("c18 cross ", pl.name, k))
				jobs = append(jobs, func() { c.genCross(pl, k, r) })
			}
			jobs = append(jobs, func() {
				out, how := c.env.runPlugin(pl.name, request("", []*descriptorpb.FileDescriptorProto{fs[0].Proto()}))
				c.note(pl.name+" nothing to generate", false)
				if how != "" || len(out) != 0 {
					c.violate(fmt.Sprintf("%s: a request without files to generate gives %d files (%s)", pl.name, len(out), how), fs[0].Text())
				}
			})
		}
		// alone before together: the queue is in order, and the groups wait
		pool(len(jobs), 12, func(i int) {
			jobs[i]()
		})
		if err := c.genLibraries(fs, groupFiles(fs, r)); err != nil {
			return err
		}
		c.tsSyntax(tsOut)
		return nil
	}
}

// groupFiles makes requests of several files.
func groupFiles(fs []*schema.File, r *wire.RNG) (gs [][]*schema.File) {
	for i := 0; i < 6; i++ {
		var g []*schema.File
		used := map[string]bool{}
		for n := 2 + r.N(4); n > 0; n-- {
			if f := fs[r.N(len(fs))]; !used[f.Pkg] { // two files of one package may declare the same names
				used[f.Pkg] = true
				g = append(g, f)
			}
		}
		gs = append(gs, g)
	}
	return gs
}

// genLibraries lets one process use the generators as libraries, with the race detector on: many at once, and one again and again.
func (c *Check) genLibraries(fs []*schema.File, gs [][]*schema.File) error {
	if err := c.env.build("genuse", func() error { return c.env.goBuild("genuse", "./genuse", "-race") }); err != nil {
		return err
	}
	var jobs []func()
	for _, pl := range plugins {
		jobs = append(jobs, func() {
			dir := c.env.path("use-" + pl.name)
			os.MkdirAll(dir, 0o755)
			n := c.scale(8, 60)
			workers, rounds := 6, c.scale(2, 10)
			if pl.lang == "rust" { // starts rustfmt each time
				n, workers, rounds = c.scale(2, 20), 4, 2
			}
			k := 0
			put := func(param string, g ...*schema.File) {
				var ds []*descriptorpb.FileDescriptorProto
				var names []string
				for _, f := range g {
					ds = append(ds, f.Proto())
					names = append(names, f.Name)
				}
				q := request(param, ds, names...)
				out, how := c.env.runPlugin(pl.name, q)
				if how != "" {
					return // reported by the runs of processes
				}
				res := &pluginpb.CodeGeneratorResponse{}
				for _, o := range out {
					res.File = append(res.File, &pluginpb.CodeGeneratorResponse_File{Name: proto.String(o.name), Content: proto.String(o.text)})
				}
				b, _ := proto.Marshal(res)
				name := fmt.Sprintf("%03d-%s", k, base(g[0]))
				k++
				if param != "" {
					name += ".alone"
				}
				os.WriteFile(filepath.Join(dir, name+".req"), q, 0o644)
				os.WriteFile(filepath.Join(dir, name+".res"), b, 0o644)
			}
			for i := 0; i < n; i++ {
				put("", fs[(i*7)%len(fs)])
				if pl.lang == "rust" {
					put("privacy="+[]string{"public", "crate"}[i%2], fs[(i*7)%len(fs)])
				} else if i == 0 {
					put("paths=source_relative", fs[(i*7)%len(fs)])
				}
			}
			for _, g := range gs {
				put("", g...)
			}
			c.child("libraries "+pl.name, 10*time.Minute, []string{"GORACE=halt_on_error=1 exitcode=66"}, c.env.path("genuse"), dir, pl.name, fmt.Sprint(workers), fmt.Sprint(rounds))
		})
	}
	pool(len(jobs), 3, func(i int) { jobs[i]() })
	return nil
}

var extension = map[string]string{"go": ".polyglot.go", "rust": "_polyglot.rs", "ts": ".polyglot.ts"}

func (c *Check) oneFile(pl plugin, what, param string, f *schema.File, d *descriptorpb.FileDescriptorProto, env ...string) (outFile, bool) {
	out, how := c.env.runPlugin(pl.name, request(param, []*descriptorpb.FileDescriptorProto{d}, f.Name), env...)
	c.note(pl.name+" "+base(f)+" "+what, false)
	c.count("generator runs", 1)
	switch {
	case how != "":
		c.violate(fmt.Sprintf("%s fails on a valid request (%s): %s", pl.name, what, how), f.Text())
	case len(out) != 1:
		c.violate(fmt.Sprintf("%s gives %d output files for one file (%s)", pl.name, len(out), what), f.Text())
	case !named(out[0], f, pl):
		c.violate(fmt.Sprintf("%s names the output of %s %q (%s)", pl.name, f.Name, out[0].name, what), f.Text())
	default:
		return out[0], true
	}
	return outFile{}, false
}

func named(o outFile, f *schema.File, pl plugin) bool {
	return filepath.Base(o.name) == filepath.Base(base(f))+extension[pl.lang]
}

// withOptions is f with options and declarations that none of the generators turns into code.
func withOptions(f *schema.File) *descriptorpb.FileDescriptorProto {
	d := f.Proto()
	d.Options.JavaPackage = proto.String("com.example.other")
	d.Options.JavaMultipleFiles = proto.Bool(true)
	d.Options.OptimizeFor = descriptorpb.FileOptions_LITE_RUNTIME.Enum()
	d.Options.Deprecated = proto.Bool(true)
	d.Options.ObjcClassPrefix = proto.String("XYZ")
	var walk func(m *descriptorpb.DescriptorProto)
	walk = func(m *descriptorpb.DescriptorProto) {
		if m.GetOptions().GetMapEntry() {
			return
		}
		m.Options = &descriptorpb.MessageOptions{Deprecated: proto.Bool(true)}
		m.ReservedName = []string{"not_used_here"}
		m.ReservedRange = []*descriptorpb.DescriptorProto_ReservedRange{{Start: proto.Int32(400000000), End: proto.Int32(400000007)}}
		if f.Proto2 {
			m.ExtensionRange = []*descriptorpb.DescriptorProto_ExtensionRange{{Start: proto.Int32(300000000), End: proto.Int32(300000100)}}
		}
		for i, x := range m.Field {
			x.JsonName = proto.String(fmt.Sprintf("json%dName", i))
			x.Options = &descriptorpb.FieldOptions{Deprecated: proto.Bool(i%2 == 0)}
			num := x.GetType() != descriptorpb.FieldDescriptorProto_TYPE_STRING && x.GetType() != descriptorpb.FieldDescriptorProto_TYPE_BYTES && x.GetType() != descriptorpb.FieldDescriptorProto_TYPE_MESSAGE
			switch {
			case x.GetLabel() == descriptorpb.FieldDescriptorProto_LABEL_REPEATED && num:
				x.Options.Packed = proto.Bool(i%3 == 0)
			case f.Proto2 && x.GetLabel() != descriptorpb.FieldDescriptorProto_LABEL_REPEATED && x.GetType() == descriptorpb.FieldDescriptorProto_TYPE_INT32:
				x.DefaultValue = proto.String("41")
			case f.Proto2 && x.GetLabel() != descriptorpb.FieldDescriptorProto_LABEL_REPEATED && x.GetType() == descriptorpb.FieldDescriptorProto_TYPE_STRING:
				x.DefaultValue = proto.String("text by default")
			}
		}
		for _, n := range m.NestedType {
			walk(n)
		}
		for _, e := range m.EnumType {
			enumOptions(e)
		}
	}
	for _, m := range d.MessageType {
		walk(m)
	}
	for _, e := range d.EnumType {
		enumOptions(e)
	}
	if f.Proto2 && len(f.Messages) > 0 {
		d.Extension = []*descriptorpb.FieldDescriptorProto{{Name: proto.String("verif_extension"), Number: proto.Int32(300000001), Extendee: proto.String("." + f.Messages[0].Full),
			Type: descriptorpb.FieldDescriptorProto_TYPE_INT64.Enum(), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(), JsonName: proto.String("verifExtension")}}
	}
	return d
}

func enumOptions(e *descriptorpb.EnumDescriptorProto) {
	if e.Options == nil {
		e.Options = &descriptorpb.EnumOptions{}
	}
	e.Options.Deprecated = proto.Bool(true)
	for i, v := range e.Value {
		v.Options = &descriptorpb.EnumValueOptions{Deprecated: proto.Bool(i%2 == 0)}
	}
	e.ReservedName = []string{"NOT_USED_HERE"}
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			z := "(end)"
			if i < len(y) {
				z = y[i]
			}
			return fmt.Sprintf("line %d:\n  %s\n  %s", i+1, x[i], z)
		}
	}
	return fmt.Sprintf("%d and %d lines", len(x), len(y))
}

// genAlone runs one generator on one file again and again.
func (c *Check) genAlone(pl plugin, f *schema.File, r *wire.RNG) string {
	first, ok := c.oneFile(pl, "first run", "", f, f.Proto())
	if !ok {
		return ""
	}
	same := func(what string, o outFile, ok bool, names bool) {
		if ok && (o.text != first.text || names && o.name != first.name) {
			c.violate(fmt.Sprintf("%s: the output changes with %s: %s", pl.name, what, firstDiff(first.text, o.text)), f.Text()+"\n-------- first\n"+first.text+"\n-------- then\n"+o.text)
		}
	}
	for k := 0; k < c.scale(2, 4); k++ {
		env := []string{[]string{"GOMAXPROCS=1", "GOMAXPROCS=8", "GOGC=1", "TZ=Asia/Tokyo"}[r.N(4)], []string{"LANG=C", "LANG=tr_TR.UTF-8", "SOURCE_DATE_EPOCH=1"}[r.N(3)]}
		o, ok := c.oneFile(pl, fmt.Sprint("run ", k+2, env), "", f, f.Proto(), env...)
		same("the run", o, ok, true)
	}
	d := f.Proto()
	d.Service = append(d.Service, &descriptorpb.ServiceDescriptorProto{Name: proto.String("VerifService")})
	if len(f.Messages) > 0 {
		in := proto.String("." + f.Messages[0].Full)
		d.Service[0].Method = []*descriptorpb.MethodDescriptorProto{{Name: proto.String("Call"), InputType: in, OutputType: in}}
	}
	o, ok := c.oneFile(pl, "with a service", "", f, d)
	same("a service in the file", o, ok, true)
	d = f.Proto()
	text := "words */ // \" ` }} {{ \n end of the comment"
	d.SourceCodeInfo = &descriptorpb.SourceCodeInfo{}
	for i := range d.MessageType {
		d.SourceCodeInfo.Location = append(d.SourceCodeInfo.Location, &descriptorpb.SourceCodeInfo_Location{Path: []int32{4, int32(i)}, Span: []int32{int32(i), 0, 1}, LeadingComments: &text, TrailingComments: &text})
	}
	for i := range d.EnumType {
		d.SourceCodeInfo.Location = append(d.SourceCodeInfo.Location, &descriptorpb.SourceCodeInfo_Location{Path: []int32{5, int32(i)}, Span: []int32{int32(i) + 100, 0, 1}, LeadingComments: &text})
	}
	if c.env.tier == "thorough" || base(f) == "s1" || base(f) == "s9" { // as long as the comments of a large file
		long := strings.Repeat("a line of a long comment\n", 50000)
		for i := range 4 {
			d.SourceCodeInfo.Location = append(d.SourceCodeInfo.Location, &descriptorpb.SourceCodeInfo_Location{Path: []int32{4, 0, 2, int32(i)}, Span: []int32{int32(i), 4, 9}, LeadingComments: &long})
		}
	}
	o, ok = c.oneFile(pl, "with comments", "", f, d)
	same("comments in the file", o, ok, true)
	d = f.Proto()
	var renumber func(m *descriptorpb.DescriptorProto)
	renumber = func(m *descriptorpb.DescriptorProto) {
		for i, x := range m.Field {
			if !m.GetOptions().GetMapEntry() {
				x.Number = proto.Int32(int32(1000 - i))
			}
		}
		for _, n := range m.NestedType {
			renumber(n)
		}
	}
	for _, m := range d.MessageType {
		renumber(m)
	}
	o, ok = c.oneFile(pl, "with other field numbers", "", f, d)
	same("the field numbers", o, ok, true)
	o, ok = c.oneFile(pl, "with options", "", f, withOptions(f))
	same("options in the file that say nothing about names or types", o, ok, true)
	g := *f
	g.Name = []string{"some/dir.x/my-file.v1.proto", "a/" + base(f) + ".x.proto", "Upper-Case.PROTO.proto", "in/deep/er/" + base(f) + ".proto"}[r.N(4)]
	for _, par := range []string{"", "paths=source_relative"} {
		o, ok = c.oneFile(pl, "named "+g.Name+" "+par, par, &g, g.Proto())
		if ok && strings.ReplaceAll(o.text, g.Name, f.Name) != first.text {
			c.violate(fmt.Sprintf("%s: the output changes with the name of the file: %s", pl.name, firstDiff(first.text, o.text)), f.Text()+"\n-------- first\n"+first.text+"\n-------- then\n"+o.text)
		}
		if ok && par != "" && o.name != base(&g)+extension[pl.lang] {
			c.violate(fmt.Sprintf("%s: paths=source_relative names the output of %s %q", pl.name, g.Name, o.name), f.Text())
		}
	}
	o, ok = c.oneFile(pl, "paths=source_relative", "paths=source_relative", f, f.Proto())
	same("the paths option", o, ok, false)
	if ok && o.name != base(f)+extension[pl.lang] {
		c.violate(fmt.Sprintf("%s: paths=source_relative names the output %q", pl.name, o.name), f.Text())
	}
	return first.text
}

// genTogether runs one generator on several files at once: one output per file, each as if alone.
func (c *Check) genTogether(pl plugin, g []*schema.File, alone []string, r *wire.RNG) {
	var ds []*descriptorpb.FileDescriptorProto
	var gen, names []string
	left := -1
	if r.Bool() {
		left = r.N(len(g)) // described but not asked for
	}
	for i, f := range g {
		ds = append(ds, f.Proto())
		names = append(names, f.Name)
		if i != left {
			gen = append(gen, f.Name)
		}
	}
	what := "files " + strings.Join(names, " ")
	out, how := c.env.runPlugin(pl.name, request("", ds, gen...))
	c.note(pl.name+" "+what, false)
	c.count("requests of several files", 1)
	if how != "" {
		c.violate(fmt.Sprintf("%s fails on a valid request of several files (%s): %s", pl.name, what, how), what)
		return
	}
	if len(out) != len(gen) {
		c.violate(fmt.Sprintf("%s gives %d outputs for %d files to generate (%s)", pl.name, len(out), len(gen), what), what)
		return
	}
	for i, f := range g {
		if i == left || alone[i] == "" {
			continue
		}
		n := 0
		for _, o := range out {
			if named(o, f, pl) {
				n++
				if o.text != alone[i] {
					c.violate(fmt.Sprintf("%s: the output for %s depends on the other files of the request: %s", pl.name, f.Name, firstDiff(alone[i], o.text)),
						what+"\n"+f.Text()+"\n-------- alone\n"+alone[i]+"\n-------- together\n"+o.text)
				}
			}
		}
		if n != 1 {
			c.violate(fmt.Sprintf("%s gives %d outputs for %s (%s)", pl.name, n, f.Name, what), what)
		}
	}
}

// genCross lets one file use the declarations of another.
func (c *Check) genCross(pl plugin, k int, r *wire.RNG) {
	a := schema.Gen(r, 1000+2*k)
	b := schema.Gen(r, 1001+2*k)
	a.Pkg, b.Pkg = fmt.Sprintf("cross.a%d", k), fmt.Sprintf("cross.b%d", k)
	a.Resolve()
	b.Resolve()
	m := a.All()[r.N(len(a.All()))]
	x := &schema.Message{Name: "MCrossing", Fields: []*schema.Field{{Name: "one", T: schema.Msg, Msg: m}, {Name: "many", T: schema.Msg, Rep: true, Msg: m}, {Name: "by", T: schema.Msg, Map: true, KeyT: schema.String, Msg: m}}}
	if es := a.AllEnums(); len(es) > 0 && (b.Proto2 || !a.Proto2) { // proto3 cannot use the enums of proto2
		x.Fields = append(x.Fields, &schema.Field{Name: "mode", T: schema.EnumT, Enum: es[r.N(len(es))]}, &schema.Field{Name: "modes", T: schema.EnumT, Rep: true, Enum: es[0]})
	}
	b.Messages = append(b.Messages, x)
	da, db := a.Proto(), b.Proto()
	db.Dependency = []string{a.Name}
	ds := []*descriptorpb.FileDescriptorProto{da, db}
	var texts []string
	for _, gen := range [][]string{{b.Name}, {a.Name, b.Name}, {b.Name, a.Name}} {
		out, how := c.env.runPlugin(pl.name, request("", ds, gen...))
		c.note(fmt.Sprint(pl.name, " import ", k, gen), false)
		c.count("requests with an import", 1)
		if how != "" {
			c.violate(fmt.Sprintf("%s fails on a file that imports another: %s", pl.name, how), a.Text()+"\n"+b.Text())
			return
		}
		if len(out) != len(gen) {
			c.violate(fmt.Sprintf("%s gives %d outputs for %d files to generate", pl.name, len(out), len(gen)), a.Text()+"\n"+b.Text())
			return
		}
		for _, o := range out {
			if named(o, b, pl) {
				texts = append(texts, o.text)
			}
		}
	}
	if len(texts) != 3 {
		c.violate(fmt.Sprintf("%s: a file to generate has no output", pl.name), a.Text()+"\n"+b.Text())
		return
	}
	for _, t := range texts[1:] {
		if t != texts[0] {
			c.violate(fmt.Sprintf("%s: the output of a file depends on whether its import is generated too: %s", pl.name, firstDiff(texts[0], t)), a.Text()+"\n"+b.Text())
			return
		}
	}
	c.inventory(pl, b, texts[0])
	// a file that declares nothing itself, with and without an import
	n := &schema.File{Name: fmt.Sprintf("none%d.proto", k), GoPkg: fmt.Sprintf("verif/gen/none%d", k), Pkg: fmt.Sprintf("cross.n%d", k)}
	n.Resolve()
	dn := n.Proto()
	if k%2 == 0 {
		dn.Dependency = []string{b.Name}
		if k%4 == 0 {
			dn.PublicDependency = []int32{0}
		}
	}
	nds := append(ds, dn)
	var none []string
	for _, gen := range [][]string{{n.Name}, {a.Name, n.Name}, {n.Name, b.Name}} {
		out, how := c.env.runPlugin(pl.name, request("", nds, gen...))
		c.note(fmt.Sprint(pl.name, " no declarations ", k, gen), false)
		if how != "" {
			c.violate(fmt.Sprintf("%s fails on a file without declarations: %s", pl.name, how), fmt.Sprint(nds, gen))
			return
		}
		found := 0
		for _, o := range out {
			switch {
			case named(o, n, pl):
				found++
				none = append(none, o.text)
			case named(o, b, pl) && o.text != texts[0]:
				c.violate(fmt.Sprintf("%s: the output of a file changes next to one without declarations: %s", pl.name, firstDiff(texts[0], o.text)), fmt.Sprint(nds, gen))
				return
			}
		}
		if found != 1 || len(out) != len(gen) {
			c.violate(fmt.Sprintf("%s gives %d outputs for %d files to generate, %d of them for the one without declarations", pl.name, len(out), len(gen), found), fmt.Sprint(nds, gen))
			return
		}
	}
	if none[0] != none[1] || none[0] != none[2] {
		c.violate(fmt.Sprintf("%s: the output of a file without declarations depends on the others", pl.name), fmt.Sprint(nds))
		return
	}
	c.inventory(pl, n, none[0])
}

// inventory looks every declaration up in the output.
func (c *Check) inventory(pl plugin, f *schema.File, text string) {
	var bad []string
	miss := func(s string, a ...any) { bad = append(bad, fmt.Sprintf(s, a...)) }
	switch pl.lang {
	case "go":
		c.goInventory(f, text, miss)
	case "rust":
		c.rustInventory(f, text, miss)
	case "ts":
		c.tsInventory(f, text, miss)
	}
	for _, m := range f.All() {
		c.note("inventory "+pl.name+base(f)+m.Full, len(m.Fields) == 0)
		c.count("fields looked up", len(m.Fields))
	}
	for _, e := range f.AllEnums() {
		c.note("inventory "+pl.name+base(f)+e.Full, false)
	}
	if len(bad) > 0 {
		c.violate(fmt.Sprintf("%s: %s", pl.name, strings.Join(bad, "; ")), f.Text()+"\n--------\n"+text)
	}
}

var goScalar = map[int]string{schema.Double: "float64", schema.Float: "float32", schema.Int64: "int64", schema.Uint64: "uint64", schema.Int32: "int32", schema.Fixed64: "uint64", schema.Fixed32: "uint32",
	schema.Bool: "bool", schema.String: "string", schema.Bytes: "[]byte", schema.Uint32: "uint32", schema.Sfixed32: "int32", schema.Sfixed64: "int64", schema.Sint32: "int32", schema.Sint64: "int64"}
var rustScalar = map[int]string{schema.Double: "f64", schema.Float: "f32", schema.Int64: "i64", schema.Uint64: "u64", schema.Int32: "i32", schema.Fixed64: "u64", schema.Fixed32: "u32",
	schema.Bool: "bool", schema.String: "String", schema.Bytes: "Vec<u8>", schema.Uint32: "u32", schema.Sfixed32: "i32", schema.Sfixed64: "i64", schema.Sint32: "i32", schema.Sint64: "i64"}

func fieldType(f *schema.Field, t int, scalar map[int]string, ptr string) string {
	switch t {
	case schema.Msg:
		return ptr + schema.Camel(f.Msg.Full)
	case schema.EnumT:
		return schema.Camel(f.Enum.Full)
	}
	return scalar[t]
}

type noImports struct{}

func (noImports) Import(string) (*types.Package, error) { return nil, fmt.Errorf("not imported") }

func (c *Check) goInventory(f *schema.File, text string, miss func(string, ...any)) {
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, "gen.go", text, parser.SkipObjectResolution)
	if err != nil {
		miss("the output does not parse: %v", err)
		return
	}
	if file.Name.Name != f.GoPackage() {
		miss("package %s instead of %s", file.Name.Name, f.GoPackage())
	}
	var dups []string
	conf := types.Config{Importer: noImports{}, Error: func(err error) {
		if strings.Contains(err.Error(), "redeclared") || strings.Contains(err.Error(), "already declared") || strings.Contains(err.Error(), "duplicate") {
			dups = append(dups, err.Error())
		}
	}}
	pkg, _ := conf.Check("gen", fset, []*ast.File{file}, nil)
	for _, d := range dups {
		miss("%s", d)
	}
	qual := func(*types.Package) string { return "" }
	scope := pkg.Scope()
	named := func(n string) *types.Named {
		o, ok := scope.Lookup(n).(*types.TypeName)
		if !ok {
			miss("no type %s", n)
			return nil
		}
		x, _ := o.Type().(*types.Named)
		return x
	}
	has := func(x *types.Named, ms ...string) {
		for _, m := range ms {
			n := 0
			for i := 0; i < x.NumMethods(); i++ {
				if x.Method(i).Name() == m {
					n++
				}
			}
			if n != 1 {
				miss("%d methods %s of %s", n, m, x.Obj().Name())
			}
		}
	}
	for _, e := range f.AllEnums() {
		x := named(schema.Camel(e.Full))
		if x == nil {
			continue
		}
		pre := strings.TrimSuffix(e.Full, e.Name)
		for i, v := range e.Values {
			k, ok := scope.Lookup(schema.Camel(pre + v)).(*types.Const)
			switch {
			case !ok:
				miss("no constant %s", schema.Camel(pre+v))
			case !types.Identical(k.Type(), x):
				miss("constant %s has type %s", k.Name(), k.Type())
			case k.Val().Kind() != constant.Int || constant.Compare(k.Val(), token.NEQ, constant.MakeInt64(int64(i))):
				miss("constant %s is %s instead of %d", k.Name(), k.Val(), i)
			}
		}
	}
	for _, m := range f.All() {
		x := named(schema.Camel(m.Full))
		if x == nil {
			continue
		}
		st, ok := x.Underlying().(*types.Struct)
		if !ok {
			miss("%s is no struct", x)
			continue
		}
		if st.NumFields() != len(m.Fields) {
			miss("%s has %d fields instead of %d", m.Full, st.NumFields(), len(m.Fields))
			continue
		}
		for i, fl := range m.Fields {
			want := fieldType(fl, fl.T, goScalar, "*")
			switch {
			case fl.Rep:
				want = "[]" + want
			case fl.Map:
				mt := schema.Camel(m.Full+"."+fl.Name) + "Map"
				if y := named(mt); y != nil {
					kv := "map[" + fieldType(fl, fl.KeyT, goScalar, "") + "]" + want
					if u := types.TypeString(y.Underlying(), qual); u != kv && !strings.Contains(u, "invalid type") {
						miss("%s is %s instead of %s", mt, u, kv)
					}
					has(y, "Encode", "decode")
				}
				if scope.Lookup("New"+mt) == nil {
					miss("no New%s", mt)
				}
				want = mt
			}
			g := st.Field(i)
			got := types.TypeString(g.Type(), qual)
			if g.Name() != schema.GoField(fl.Name) || got != want && !strings.Contains(got, "invalid type") {
				miss("field %d of %s is %s %s instead of %s %s", i, m.Full, g.Name(), got, schema.GoField(fl.Name), want)
			}
		}
		has(x, "Encode", "Decode", "Error", "decode")
		if _, ok := scope.Lookup("New" + schema.Camel(m.Full)).(*types.Func); !ok {
			miss("no constructor of %s", m.Full)
		}
	}
}

// block gives what stands between the braces (or other pair) opened at the end of the only match of head.
func block(text, head string, open, close byte, miss func(string, ...any)) (string, bool) {
	ms := regexp.MustCompile(head).FindAllStringIndex(text, -1)
	if len(ms) != 1 {
		miss("%d declarations %s", len(ms), head)
		return "", false
	}
	i := ms[0][1]
	depth := 1
	for j := i; j < len(text); j++ {
		switch text[j] {
		case open:
			depth++
		case close:
			if depth--; depth == 0 {
				return text[i:j], true
			}
		}
	}
	miss("%s does not end", head)
	return "", false
}

// entries splits at commas outside of angle brackets and drops white space.
func entries(s string) []string {
	var r []string
	depth := 0
	var b strings.Builder
	for _, c := range s + "," {
		switch {
		case c == '<':
			depth++
		case c == '>':
			depth--
		case c == ',' && depth == 0:
			if b.Len() > 0 {
				r = append(r, b.String())
			}
			b.Reset()
			continue
		case c == ' ' || c == '\n' || c == '\t':
			continue
		}
		if c == '>' { // a list broken over several lines ends with a comma
			t := strings.TrimSuffix(b.String(), ",")
			b.Reset()
			b.WriteString(t)
		}
		b.WriteRune(c)
	}
	return r
}

func (c *Check) compare(what string, got, want []string, miss func(string, ...any)) {
	if strings.Join(got, ",") != strings.Join(want, ",") {
		miss("%s: %v instead of %v", what, got, want)
	}
}

func (c *Check) rustInventory(f *schema.File, text string, miss func(string, ...any)) {
	for _, e := range f.AllEnums() {
		if s, ok := block(text, `\benum\s+`+schema.Camel(e.Full)+`\s*\{`, '{', '}', miss); ok {
			var want []string
			for i, v := range e.Values {
				want = append(want, fmt.Sprintf("%s=%d", v, i))
			}
			c.compare(e.Full, entries(s), want, miss)
		}
	}
	for _, m := range f.All() {
		n := schema.Camel(m.Full)
		if s, ok := block(text, `\bstruct\s+`+n+`\s*\{`, '{', '}', miss); ok {
			var want []string
			for _, x := range m.Fields {
				t := fieldType(x, x.T, rustScalar, "")
				switch {
				case x.Rep:
					t = "Vec<" + t + ">"
				case x.Map:
					t = "HashMap<" + fieldType(x, x.KeyT, rustScalar, "") + "," + t + ">"
				}
				want = append(want, schema.RustField(x.Name)+":"+t)
			}
			c.compare(m.Full, entries(regexp.MustCompile(`\bpub\s+|//[^\n]*|#\[[^\]]*\]`).ReplaceAllString(s, "")), want, miss)
		}
		for _, tr := range []string{"Encode", "Decode"} {
			if k := len(regexp.MustCompile(`\bimpl\s+`+tr+`\s+for\s+`+n+`\s*\{`).FindAllString(text, -1)); k != 1 {
				miss("%d implementations of %s for %s", k, tr, n)
			}
		}
	}
}

func (c *Check) tsInventory(f *schema.File, text string, miss func(string, ...any)) {
	for _, e := range f.AllEnums() {
		if s, ok := block(text, `\benum\s+`+schema.Camel(e.Full)+`\s*\{`, '{', '}', miss); ok {
			var want []string
			for i, v := range e.Values {
				want = append(want, fmt.Sprintf("%s=%d", v, i))
			}
			c.compare(e.Full, entries(s), want, miss)
		}
	}
	scalar := map[int]string{}
	for _, t := range schema.Scalars {
		scalar[t] = "number"
	}
	for _, t := range []int{schema.Int64, schema.Sint64, schema.Uint64, schema.Sfixed64, schema.Fixed64} {
		scalar[t] = "bigint"
	}
	scalar[schema.Bool], scalar[schema.String], scalar[schema.Bytes] = "boolean", "string", "Uint8Array"
	for _, m := range f.All() {
		s, ok := block(text, `\bexport\s+class\s+`+schema.Camel(m.Full)+`\s*\{`, '{', '}', miss)
		if !ok {
			continue
		}
		var want []string
		for _, x := range m.Fields {
			t := fieldType(x, x.T, scalar, "")
			switch {
			case x.Rep:
				t += "[]"
			case x.Map:
				t = "Map<" + fieldType(x, x.KeyT, scalar, "") + "," + t + ">"
			}
			n := schema.TSField(x.Name)
			want = append(want, n+":"+t)
			for _, acc := range []string{`\bget\s+` + n + `\(\)`, `\bset\s+` + n + `\(`} {
				if k := len(regexp.MustCompile(acc).FindAllString(s, -1)); k != 1 {
					miss("%d times %s in %s", k, acc, m.Full)
				}
			}
		}
		if p, ok := block(s, `\bconstructor\s*\(`, '(', ')', miss); ok {
			c.compare(m.Full, entries(p), want, miss)
		}
		for _, acc := range []string{`(?m)^\s*encode\(`, `\bstatic\s+decode\(`} {
			if k := len(regexp.MustCompile(acc).FindAllString(s, -1)); k != 1 {
				miss("%d times %s in %s", k, acc, m.Full)
			}
		}
	}
	im := regexp.MustCompile(`import \{([^}]*)\} from`).FindAllStringSubmatch(text, -1)
	if len(im) != 1 {
		miss("%d imports", len(im))
		return
	}
	have := map[string]bool{}
	for _, x := range entries(im[0][1]) {
		if have[x] {
			miss("%s is imported twice", x)
		}
		have[x] = true
	}
	for _, u := range regexp.MustCompile(`\b((?:en|de)code[A-Z]\w*)\(|\b(Kind)\.`).FindAllStringSubmatch(text, -1) {
		if !have[u[1]+u[2]] {
			miss("%s is used but not imported", u[1]+u[2])
			have[u[1]+u[2]] = true
		}
	}
}

// tsSyntax lets a TypeScript compiler parse the outputs.
func (c *Check) tsSyntax(out map[string]string) {
	var names []string
	dir := c.env.path("tsgen")
	for n, t := range out {
		p := filepath.Join(dir, n+".ts")
		os.MkdirAll(filepath.Dir(p), 0o755)
		os.WriteFile(p, []byte(t), 0o644)
		names = append(names, n+".ts")
	}
	if len(names) == 0 {
		return
	}
	args := append([]string{"--outdir=" + c.env.path("tsout"), "--log-level=error", "--log-limit=0"}, names...)
	if err := c.env.cmd(dir, nil, esbuild, args...); err != nil {
		for _, n := range names {
			if strings.Contains(err.Error(), n) {
				c.violate("the generated TypeScript does not parse: "+clip(err.Error(), 1500), out[strings.TrimSuffix(n, ".ts")])
				return
			}
		}
		c.inconclusive("esbuild: %v", err)
		return
	}
	c.count("TypeScript outputs parsed", len(names))
}
