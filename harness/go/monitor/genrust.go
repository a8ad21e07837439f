package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"google.golang.org/protobuf/types/descriptorpb"

	"verif/schema"
)

// rustSource generates Rust for f with one plugin.
func (e *Env) rustSource(plugin, param string, f *schema.File) (string, string) {
	out, how := e.runPlugin(plugin, request(param, []*descriptorpb.FileDescriptorProto{f.Proto()}, f.Name))
	if how == "" && len(out) != 1 {
		how = fmt.Sprintf("%d output files for one file", len(out))
	}
	if how != "" {
		return "", how
	}
	return out[0].text, ""
}

var headerLine = regexp.MustCompile(`(?m)^// Code generated by polyglot .*$`)

var privacies = []string{"", "privacy=public", "privacy=crate", "privacy=private"}

// rustGen generates the Rust code of the schemas with both generators and builds it into one driver; code of the second
// generator gets modules of its own only where it differs. The result maps a driver type key to the generators it stands for.
func (c *Check) rustGen(fs []*schema.File, fail func(f *schema.File, what string)) (*Impl, map[string]bool, error) {
	e := c.env
	if err := e.buildPlugins("rust-v1", "rust-v2"); err != nil {
		return nil, nil, err
	}
	t0 := time.Now()
	dir := e.path("rgen")
	os.MkdirAll(filepath.Join(dir, "src"), 0o755)
	bad := map[string]bool{}
	src := map[string][2]string{}
	type res struct {
		a, b, how string
	}
	rs := make([]res, len(fs))
	pool(len(fs), 8, func(i int) {
		par := privacies[i%len(privacies)]
		rs[i].a, rs[i].how = e.rustSource("rust-v1", par, fs[i])
		if rs[i].how == "" {
			rs[i].b, rs[i].how = e.rustSource("rust-v2", par, fs[i])
		}
	})
	for i, f := range fs {
		if rs[i].how != "" {
			bad[base(f)] = true
			fail(f, "the Rust generator fails: "+rs[i].how)
			continue
		}
		src[base(f)] = [2]string{rs[i].a, rs[i].b}
	}
	e.stage("generate rust", t0)
	cargo := fmt.Sprintf("[package]\nname = \"rgen\"\nversion = \"0.1.0\"\nedition = \"2021\"\n\n[dependencies]\npolyglot_rs = { path = %q }\ngenrt = { path = %q }\nnum_enum = { path = %q }\n\n[workspace]\n\n[profile.dev]\ndebug = 0\noverflow-checks = true\nincremental = false\n",
		e.repo, filepath.Join(e.h, "rust/genrt"), filepath.Join(e.h, "rust/numenum"))
	os.WriteFile(filepath.Join(dir, "Cargo.toml"), []byte(cargo), 0o644)
	two := map[string]bool{}
	for _, f := range fs {
		if bad[base(f)] {
			continue
		}
		s := src[base(f)]
		write := func(mod, code string) {
			os.WriteFile(filepath.Join(dir, "src/"+mod+".rs"), []byte(code+rustRegistry(f, mod)), 0o644)
		}
		write(base(f), s[0])
		if headerLine.ReplaceAllString(s[0], "") != headerLine.ReplaceAllString(s[1], "") {
			two[base(f)] = true
			write(base(f)+"_v2", s[1])
		}
	}
	c.count("schemas whose v2 Rust code differs and is compiled as well", len(two))
	for try := 0; try < 4; try++ {
		var m, t strings.Builder
		m.WriteString("#![allow(warnings)]\n")
		for _, f := range fs {
			b := base(f)
			if bad[b] {
				continue
			}
			fmt.Fprintf(&m, "mod %s;\n", b)
			fmt.Fprintf(&t, "    v.extend(%s::types());\n", b)
			if two[b] {
				fmt.Fprintf(&m, "mod %s_v2;\n", b)
				fmt.Fprintf(&t, "    v.extend(%s_v2::types());\n", b)
			}
		}
		fmt.Fprintf(&m, "\nfn main() {\n    let mut v = Vec::new();\n%s    genrt::main(v);\n}\n", t.String())
		os.WriteFile(filepath.Join(dir, "src/main.rs"), []byte(m.String()), 0o644)
		t0 = time.Now()
		err := e.cmd(dir, []string{"CARGO_TARGET_DIR=" + e.path("rgt")}, "cargo", "build", "--offline", "-q")
		e.stage("build rgen", t0)
		if err == nil {
			return &Impl{name: "gen-rust", cmd: []string{e.path("rgt/debug/rgen")}}, bad, nil
		}
		found := false
		seen := map[string]bool{}
		for _, x := range regexp.MustCompile(`--> src/(\w+?)(_v2)?\.rs:`).FindAllStringSubmatchIndex(err.Error(), -1) {
			name := err.Error()[x[2]:x[3]]
			if seen[name] || bad[name] {
				continue
			}
			seen[name] = true
			for _, f := range fs {
				if base(f) == name {
					bad[name] = true
					found = true
					s := err.Error()
					lo := strings.LastIndex(s[:x[0]], "\nerror")
					fail(f, "the generated Rust code does not compile:\n"+clip(s[max(lo, 0):], 1200))
				}
			}
		}
		if !found {
			return nil, bad, err
		}
	}
	return nil, bad, fmt.Errorf("generated Rust code does not build")
}

// rustRegistry is appended to generated code: it reads and prints every message through its fields.
func rustRegistry(f *schema.File, mod string) string {
	var b strings.Builder
	b.WriteString("\n// added by the monitor\n")
	for _, en := range f.AllEnums() {
		n := schema.Camel(en.Full)
		fmt.Fprintf(&b, "impl genrt::Val for %s {\n fn build(t: &mut genrt::Toks) -> Self { <Self as std::convert::TryFrom<u32>>::try_from(<u32 as genrt::Val>::build(t)).unwrap() }\n fn dump(&self, o: &mut String) { genrt::Val::dump(&(*self as u32), o) }\n}\n", n)
		for i, v := range en.Values {
			fmt.Fprintf(&b, "const _: () = assert!(%s::%s as u32 == %d);\n", n, v, i)
		}
	}
	for _, m := range f.All() {
		n := schema.Camel(m.Full)
		fmt.Fprintf(&b, "impl genrt::Val for %s {\n fn build(t: &mut genrt::Toks) -> Self {\n  t.open();\n", n)
		for i := range m.Fields {
			fmt.Fprintf(&b, "  let f%d = genrt::Val::build(t);\n", i)
		}
		b.WriteString("  Self {")
		for i, x := range m.Fields {
			fmt.Fprintf(&b, " %s: f%d,", schema.RustField(x.Name), i)
		}
		b.WriteString(" }\n }\n fn dump(&self, o: &mut String) {\n  o.push_str(\"( \");\n")
		for _, x := range m.Fields {
			fmt.Fprintf(&b, "  genrt::Val::dump(&self.%s, o);\n", schema.RustField(x.Name))
		}
		b.WriteString(" }\n}\n")
	}
	b.WriteString("pub fn types() -> Vec<genrt::T> {\n let mut v = Vec::new();\n")
	for _, m := range f.All() {
		n := schema.Camel(m.Full)
		fmt.Fprintf(&b, ` v.push(genrt::T {
  name: %q,
  enc: |t, p| {
   let v = <%s as genrt::Val>::build(t);
   let at = p.len() as u64;
   let mut c = std::io::Cursor::new(p);
   c.set_position(at);
   match Encode::encode(&v, &mut c) { Ok(_) => {}, Err(e) => return Err(e.to_string()) }
   Ok(c.into_inner())
  },
  dec: |mut b| {
   let keep = b.clone();
   let mut c = std::io::Cursor::new(&mut b);
   let before = genrt::total();
   let r = <%s as Decode>::decode(&mut c);
   let alloc = genrt::total() - before;
   let pos = c.position();
   if b != keep { return genrt::Out::Err { text: "DECODE CHANGED ITS INPUT".to_string(), alloc }; }
   match r {
    Ok(Some(v)) => {
     let mut text = String::new();
     genrt::Val::dump(&v, &mut text);
     let mut c = std::io::Cursor::new(Vec::new());
     let again = match Encode::encode(&v, &mut c) { Ok(_) => None, Err(e) => Some(e.to_string()) };
     let again = match again { None => Ok(c.into_inner()), Some(e) => Err(e) };
     genrt::Out::Value { text, again, pos, alloc }
    }
    Ok(None) => genrt::Out::None { pos },
    Err(e) => genrt::Out::Err { text: e.to_string(), alloc },
   }
  },
  put: |mut b, w| {
   let v = match <%s as Decode>::decode(&mut std::io::Cursor::new(&mut b)) { Ok(Some(v)) => v, Ok(None) => return Err("alone: nothing".to_string()), Err(e) => return Err(format!("alone: {e}")) };
   let mut text = String::new();
   genrt::Val::dump(&v, &mut text);
   match Encode::encode(&v, w) { Ok(_) => Ok(text), Err(e) => Err(e.to_string()) }
  },
  get: |c| match <%s as Decode>::decode(c) {
   Ok(Some(v)) => { let mut text = String::new(); genrt::Val::dump(&v, &mut text); Ok(Some(text)) }
   Ok(None) => Ok(None),
   Err(e) => Err(e.to_string()),
  },
 });
`, mod+"."+m.Full, n, n, n, n)
	}
	b.WriteString(" v\n}\n")
	return b.String()
}
