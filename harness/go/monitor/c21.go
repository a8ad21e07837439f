package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/types/descriptorpb"

	"verif/schema"
	"verif/wire"
)

func init() {
	checks["C21"] = func(c *Check) error {
		c.rule = "each case is one command to generated TypeScript: encode a message built through constructor or setters, decode the reference bytes (alone, with bytes around them), decode truncated, falsified or spliced bytes; distinct by type and value"
		fs, _ := c.schemas(c.scale(80, 300))
		fs = rustable(fs) // a class that contains itself through singular fields has no finite value
		for _, f := range fs {
			schema.TSLists(f)
		}
		im, bad, err := c.tsGen(fs, func(f *schema.File, what string) {
			c.note("schema "+base(f), false)
			c.violate(what, f.Text())
		})
		if err != nil || im == nil {
			return err
		}
		c.count("schemas compiled TypeScript", len(fs)-len(bad))
		c.probesTS(im)
		ts := keep(typesOf(fs), bad)
		var all []mtype
		for _, t := range ts {
			all = append(all, t)
			t.key = base(t.file) + "_v2." + t.msg.Full
			all = append(all, t)
		}
		pool(len(all), 8, func(i int) {
			if c.tooMany() {
				return
			}
			t := all[i]
			r := c.rng("c21 " + t.key)
			var cs []Case
			for j, n := 0, c.scale(40, 300); j < n; j++ {
				budget := 3000
				if j%10 == 9 {
					budget = 30000
				}
				if j < 2 {
					budget = 0
				}
				if j == 11 && huge(t) {
					budget = 200000
				}
				v := schema.GenVal(r, t.msg, 0, &budget, true)
				schema.NoNaN(t.msg, v)
				if j%3 == 1 {
					schema.OpenEnums(r, t.msg, v)
				}
				in := schema.Encode(nil, t.msg, v)
				cs = append(cs, msgEncodeCase(t, v), tsDecodeCase(t, in, nil, v), tsDecodeCase(t, in, r.Bytes(1+r.N(12)), v))
				for k := 0; k < 3 && len(in) > 0; k++ {
					cut := r.N(len(in))
					if k == 0 {
						cut = len(in) - 1
					}
					cs = append(cs, hostileTS(t, in[:cut], "truncations"))
				}
			}
			ins, _ := c.hostileMessages(r, t)
			for _, in := range ins {
				if schema.Headless(t.msg) { // lists of messages that take no input end when the claimed count is reached
					continue
				}
				cs = append(cs, hostileTS(t, in.b, in.class))
			}
			c.run(im, cs, 1)
		})
		return nil
	}
}

func tsDecodeCase(t mtype, in, junk []byte, v *schema.Val) Case {
	k := rustDecodeCase(t, t.key, in, junk, v, "decoded")
	if junk != nil {
		k.Class = "decoded with bytes after the message"
	}
	return k
}

// hostileTS: what is no message must fail with one of the decoder's errors, and what is one must be decoded as that message.
func hostileTS(t mtype, b []byte, class string) Case {
	v, n, st := schema.Parse(b, t.msg)
	if st == schema.Bad && schema.ParseLoose(b, t.msg) != schema.Bad {
		st = schema.Gray // the generated code leaves the kinds of elements to the runtime
	}
	return Case{Line: "P " + t.key + " " + wire.HexArg(b), Class: class, Triv: len(b) == 0, Check: func(im *Impl, o string) string {
		d, pos, _, bad := rustOut(o)
		switch {
		case bad != "":
			return bad
		case st == schema.Bad && d.ok:
			return "decoding succeeds on bytes that are no message of the type"
		case st != schema.OK:
			return ""
		case !schema.TextOK(t.msg, v):
			if d.ok {
				return "decoding succeeds although the text of a field is not UTF-8"
			}
			return ""
		case schema.HasNil(t.msg, v):
			if d.ok {
				return "decoding succeeds although the message has no TypeScript counterpart (absent sub-message)"
			}
			return ""
		case !d.ok:
			return "decoding a valid message fails: " + d.text
		}
		want := schema.Dedup(t.msg, v)
		raw := schema.Text(t.msg, want)
		if schema.NoNaN(t.msg, want); schema.Text(t.msg, want) != raw {
			return "" // which not-a-number comes back is not settled
		}
		if w := schema.Text(t.msg, want); d.text != w {
			return "decoded another message:\n  got  " + clip(d.text, 1000) + "\n  want " + clip(w, 1000)
		}
		if pos != n {
			return fmt.Sprintf("decoding stopped at %d, the message has %d bytes", pos, n)
		}
		return sameEncoding(t, d.again, want, schema.Encode(nil, t.msg, want), schema.Text(t.msg, want))
	}}
}

// tsGen generates the TypeScript code of the schemas with both generators, has the compiler check its types against the
// runtime's, and bundles it with the driver.
func (c *Check) tsGen(fs []*schema.File, fail func(f *schema.File, what string)) (*Impl, map[string]bool, error) {
	e := c.env
	if err := e.buildPlugins("ts-v1", "ts-v2"); err != nil {
		return nil, nil, err
	}
	t0 := time.Now()
	dir := e.path("tgen")
	os.MkdirAll(dir, 0o755)
	bad := map[string]bool{}
	var mu sync.Mutex
	pool(len(fs)*2, 8, func(i int) {
		f, ver := fs[i/2], []string{"v1", "v2"}[i%2]
		out, how := e.runPlugin("ts-"+ver, request("", []*descriptorpb.FileDescriptorProto{f.Proto()}, f.Name))
		if how == "" && len(out) != 1 {
			how = fmt.Sprintf("%d output files for one file", len(out))
		}
		if how != "" {
			mu.Lock()
			bad[base(f)] = true
			mu.Unlock()
			fail(f, "the TypeScript "+ver+" generator fails: "+how)
			return
		}
		os.WriteFile(filepath.Join(dir, tsModule(f, ver)+".ts"), []byte(out[0].text), 0o644)
	})
	e.stage("generate typescript", t0)
	c.tsTypes(dir, fs, bad, fail)
	var imp, reg strings.Builder
	reg.WriteString("export const types: any = {\n")
	for _, f := range fs {
		if bad[base(f)] {
			continue
		}
		for _, ver := range []string{"v1", "v2"} {
			mod := tsModule(f, ver)
			fmt.Fprintf(&imp, "import * as %s from %q;\n", mod, "./"+mod)
			for _, m := range f.All() {
				fmt.Fprintf(&reg, "  %q: { cls: %s.%s, fields: [", mod+"."+m.Full, mod, schema.Camel(m.Full))
				for _, x := range m.Fields {
					how, name := 1, ""
					if x.Rep {
						how = 2
					}
					if x.Map {
						how = 3
					}
					if x.T == schema.Msg {
						name = mod + "." + x.Msg.Full
					}
					fmt.Fprintf(&reg, "[%q, %d, %d, %d, %q],", schema.TSField(x.Name), how, x.T, x.KeyT, name)
				}
				reg.WriteString("] },\n")
			}
		}
	}
	reg.WriteString("};\n")
	os.WriteFile(filepath.Join(dir, "registry.ts"), []byte(imp.String()+reg.String()), 0o644)
	t0 = time.Now()
	err := e.cmd(dir, nil, esbuild, filepath.Join(e.h, "ts/genrt.ts"), "--bundle", "--platform=node", "--target=node20", "--alias:@polyglot/index="+filepath.Join(e.repo, "index.ts"),
		"--alias:polyglot="+filepath.Join(e.h, "ts/shim.ts"), "--alias:@gen/registry="+filepath.Join(dir, "registry.ts"), "--outfile="+e.path("tgen.js"), "--log-level=error", "--log-limit=0")
	e.stage("bundle typescript", t0)
	if err != nil {
		for _, f := range fs {
			if regexp.MustCompile(`\b` + base(f) + `(_v2)?\.ts`).MatchString(err.Error()) {
				fail(f, "the generated TypeScript cannot be bundled: "+clip(err.Error(), 1500))
				return nil, bad, nil
			}
		}
		return nil, bad, err
	}
	return &Impl{name: "gen-ts", cmd: []string{"node", e.path("tgen.js")}}, bad, nil
}

const esbuild = "/opt/veriftools/node/node_modules/.bin/esbuild"
const tsc = "/opt/veriftools/node/node_modules/.bin/tsc"

func tsModule(f *schema.File, ver string) string {
	if ver == "v2" {
		return base(f) + "_v2"
	}
	return base(f)
}

// tsTypes runs the TypeScript compiler over the generated code; what it complains about is bad.
func (c *Check) tsTypes(dir string, fs []*schema.File, bad map[string]bool, fail func(f *schema.File, what string)) {
	e := c.env
	var names []string
	for _, f := range fs {
		if !bad[base(f)] {
			names = append(names, fmt.Sprintf("%q,%q", tsModule(f, "v1")+".ts", tsModule(f, "v2")+".ts"))
		}
	}
	conf := fmt.Sprintf(`{"compilerOptions": {"target": "es2020", "module": "commonjs", "strict": true, "noEmit": true, "skipLibCheck": true, "lib": ["es2020", "dom"], "types": [], "ignoreDeprecations": "5.0", "baseUrl": ".",
 "paths": {"polyglot": [%q], "@polyglot/index": [%q]}}, "files": [%s]}`, filepath.Join(e.h, "ts/shim.ts"), filepath.Join(e.repo, "index.ts"), strings.Join(names, ","))
	os.WriteFile(filepath.Join(dir, "tsconfig.json"), []byte(conf), 0o644)
	t0 := time.Now()
	err := e.cmd(dir, nil, tsc, "-p", ".", "--pretty", "false")
	e.stage("check types of typescript", t0)
	if err == nil {
		c.count("TypeScript outputs type-checked", 2*len(names))
		return
	}
	found := false
	for _, f := range fs {
		if m := regexp.MustCompile(`(?m)^`+base(f)+`(_v2)?\.ts\(.*$`).FindAllString(err.Error(), -1); m != nil && !bad[base(f)] {
			bad[base(f)], found = true, true
			fail(f, "the generated TypeScript does not compile: "+clip(strings.Join(m, "\n"), 1200))
		}
	}
	if !found {
		c.inconclusive("tsc: %s", tail(err.Error(), 1500))
	}
}

// probesTS: recorded findings of the generated TypeScript.
func (c *Check) probesTS(im *Impl) {
	e := c.env
	f := &schema.File{Name: "probets.proto", Pkg: "probets", GoPkg: "verif/gen/probets"}
	leaf := &schema.Message{Name: "Leaf", Fields: []*schema.Field{single("n", schema.Uint32, nil)}}
	f.Messages = []*schema.Message{leaf}
	out, how := e.runPlugin("ts-v1", request("", []*descriptorpb.FileDescriptorProto{f.Proto()}, f.Name))
	bad := how
	if how == "" {
		p := e.path("probets.ts")
		os.WriteFile(p, []byte(out[0].text), 0o644)
		if err := e.cmd(e.scratch, nil, esbuild, p, "--bundle", "--platform=node", "--alias:polyglot="+filepath.Join(e.repo, "index.ts"), "--outfile="+e.path("probets.js"), "--log-level=error"); err != nil {
			bad = "the generated code does not link with the package's own modules: " + clip(err.Error(), 1200)
		}
	}
	c.finding("ts-runtime", bad, "No matching export", f.Text())
}
