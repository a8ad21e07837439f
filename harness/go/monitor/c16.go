package main

import (
	"encoding/hex"
	"fmt"
	"strconv"
	"strings"
	"sync"

	"verif/schema"
	"verif/wire"
)

func init() {
	checks["C16"] = func(c *Check) error {
		c.rule = "each case is one command to generated Rust or Go code: encode a message, decode the bytes the other language wrote, decode an error or nil marker or a truncation; distinct by type and value"
		fs, _ := c.schemas(c.scale(60, 160))
		fs = rustable(fs)
		fail := func(f *schema.File, what string) {
			c.note("schema "+base(f), false)
			c.violate(what, f.Text())
		}
		var rim *Impl
		gim := map[string]*Impl{}
		var rbad map[string]bool
		var mu sync.Mutex
		err := parallel(func() (err error) {
			rim, rbad, err = c.rustGen(append(fs[:len(fs):len(fs)], rustProbeFile()), fail)
			return
		},
			func() error { return c.goPlain("v1", fs, &mu, gim) }, func() error { return c.goPlain("v2", fs, &mu, gim) })
		if err != nil {
			return err
		}
		if rim == nil {
			return nil
		}
		c.count("schemas compiled rust", len(fs)+1-len(rbad))
		c.privacy(fs)
		c.probesC16(rim)
		ts := keep(typesOf(fs), rbad)
		c.transcode(rim, gim, ts)
		return nil
	}
}

// goPlain builds the generated Go code as the other side; its own faults belong to C15.
func (c *Check) goPlain(ver string, fs []*schema.File, mu *sync.Mutex, gim map[string]*Impl) error {
	im, _, err := c.goGen(ver, fs, func(f *schema.File, what string) {
		c.count("schemas without usable Go code (see C15)", 1)
	})
	mu.Lock()
	defer mu.Unlock()
	if im != nil {
		gim[ver] = im
	}
	return err
}

func rustable(fs []*schema.File) []*schema.File {
	var r []*schema.File
	for _, f := range fs {
		if !f.Rec {
			r = append(r, f)
		}
	}
	return r
}

// privacy: the option changes nothing but the visibility of fields.
func (c *Check) privacy(fs []*schema.File) {
	want := map[string]string{"": "", "privacy=private": "", "privacy=public": "pub ", "privacy=crate": "pub(crate) "}
	pool(len(fs), 8, func(i int) {
		for _, pl := range []string{"rust-v1", "rust-v2"} {
			var plain string
			for _, par := range []string{"", "privacy=private", "privacy=public", "privacy=crate"} {
				s, how := c.env.rustSource(pl, par, fs[i])
				c.note(pl+" "+par+" "+base(fs[i]), false)
				if how != "" {
					c.violate(fmt.Sprintf("%s with %q fails: %s", pl, par, how), fs[i].Text())
					continue
				}
				if par == "" {
					plain = s
					continue
				}
				c.count("privacy settings compared", 1)
				fields, vis := fieldLines(s, fs[i])
				pf, _ := fieldLines(plain, fs[i])
				if bad := visibility(vis, want[par]); bad != "" {
					c.violate(fmt.Sprintf("%s with %q: field %s", pl, par, bad), s)
				}
				if squeeze(fields) != squeeze(pf) {
					c.violate(fmt.Sprintf("%s with %q changes more than the visibility of fields", pl, par), s+"\n--------\n"+plain)
				}
			}
		}
	})
}

// fieldLines strips the visibility off the struct fields and reports it per field.
func fieldLines(s string, f *schema.File) (string, []string) {
	var out, vis []string
	in := false
	for _, l := range strings.Split(s, "\n") {
		t := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(l, "pub struct ") && strings.HasSuffix(t, "{"):
			in = true
		case in && t == "}":
			in = false
		case in && t != "" && !strings.HasPrefix(t, "//"):
			v := ""
			for _, p := range []string{"pub(crate) ", "pub "} {
				if strings.HasPrefix(t, p) {
					v = p
					t = t[len(p):]
					break
				}
			}
			if strings.Contains(t, ":") {
				vis = append(vis, v+"\x00"+t)
			}
			l = t
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n"), vis
}

func visibility(vis []string, want string) string {
	for _, v := range vis {
		if p, f, _ := strings.Cut(v, "\x00"); p != want {
			return f + " has visibility " + strconv.Quote(p)
		}
	}
	return ""
}

func squeeze(s string) string { return strings.Join(strings.Fields(s), "") }

// rustOut is an answer of the Rust driver.
func rustOut(o string) (d decoded, pos int, none bool, bad string) {
	if strings.HasPrefix(o, "-") {
		n, err := strconv.Atoi(o[1:])
		if err != nil {
			return d, 0, false, o
		}
		return d, n, true, ""
	}
	if strings.HasPrefix(o, "+") {
		i := strings.LastIndexByte(o, '@')
		if i < 0 {
			return d, 0, false, "malformed driver answer"
		}
		pos, _ = strconv.Atoi(o[i+1:])
		o = o[:i]
	}
	d, bad = parseDecoded(o)
	return
}

func rustDecodeCase(t mtype, key string, in []byte, junk []byte, v *schema.Val, class string) Case {
	text := schema.Text(t.msg, v)
	all := append(append([]byte(nil), in...), junk...)
	return Case{Line: "P " + key + " " + wire.HexArg(all), Class: class, Triv: trivial(v), Check: func(im *Impl, o string) string {
		d, pos, none, bad := rustOut(o)
		switch {
		case bad != "":
			return bad
		case none:
			return "a message is decoded as none"
		case !d.ok:
			return "decoding a valid message fails: " + d.text
		case d.text != text:
			return "decoded another message:\n  got  " + clip(d.text, 1000) + "\n  want " + clip(text, 1000)
		case pos != len(in):
			return fmt.Sprintf("decoding stopped at %d, the message has %d bytes", pos, len(in))
		}
		return sameEncoding(t, d.again, v, schema.Encode(nil, t.msg, v), text)
	}}
}

func rustFailCase(t mtype, key string, in []byte, class, errText string) Case {
	return Case{Line: "P " + key + " " + wire.HexArg(in), Class: class, Check: func(im *Impl, o string) string {
		d, _, none, bad := rustOut(o)
		switch {
		case bad != "":
			return bad
		case none || d.ok:
			return "decoding succeeds, it must fail"
		case errText != "\x00" && !strings.HasPrefix(d.text+" ", "x"+hex.EncodeToString([]byte(errText))+" "):
			return fmt.Sprintf("decoded another error than the transported %q", errText)
		}
		return ""
	}}
}

func (c *Check) transcode(rim *Impl, gim map[string]*Impl, ts []mtype) {
	vers := []string{}
	for _, v := range []string{"v1", "v2"} {
		if gim[v] != nil {
			vers = append(vers, v)
		}
	}
	pool(len(ts), 8, func(i int) {
		t := ts[i]
		r := c.rng("c16 " + t.key)
		n := c.scale(40, 300)
		var vs []*schema.Val
		for j := 0; j < n; j++ {
			budget := 3000
			if j%10 == 9 {
				budget = 30000
			}
			if j < 2 {
				budget = 0
			}
			if j == 11 && huge(t) {
				budget = 200000
			}
			vs = append(vs, schema.GenVal(r, t.msg, 0, &budget, true))
		}
		keys := []string{t.key}
		if c.hasV2(t) {
			keys = append(keys, base(t.file)+"_v2."+t.msg.Full)
		}
		for _, key := range keys {
			kt := t
			kt.key = key
			var rc []Case
			fromRust := make([][]byte, n)
			fromGo := map[string][][]byte{}
			for _, v := range vers {
				fromGo[v] = make([][]byte, n)
			}
			record := func(k Case, to *[]byte) Case {
				f := k.Check
				k.Check = func(im *Impl, o string) string {
					bad := f(im, o)
					if bad == "" {
						*to, _ = hex.DecodeString(o[1:])
					}
					return bad
				}
				return k
			}
			// both sides encode
			for j, v := range vs {
				rc = append(rc, record(msgEncodeCase(kt, v), &fromRust[j]))
			}
			c.run(rim, rc, 1)
			for _, ver := range vers {
				var gc []Case
				for j, v := range vs {
					gc = append(gc, record(msgEncodeCase(t, v), &fromGo[ver][j]))
				}
				c.run(gim[ver], gc, 1)
			}
			// both sides decode the other's bytes
			rc = nil
			for j, v := range vs {
				for _, ver := range vers {
					if b := fromGo[ver][j]; b != nil {
						junk := r.Bytes(r.N(12))
						if len(junk) > 0 {
							junk[0] |= 0x80 // no item starts like this
						}
						rc = append(rc, rustDecodeCase(kt, key, b, junk, v, "Go "+ver+" bytes decoded by Rust"))
					}
				}
				if b := fromRust[j]; b != nil {
					rc = append(rc, rustDecodeCase(kt, key, b, nil, v, "Rust bytes decoded by Rust"))
					if len(b) == 0 {
						continue
					}
					b = b[:r.N(len(b))]
					if _, _, st := schema.Parse(b, t.msg); st == schema.Bad {
						rc = append(rc, rustFailCase(t, key, b, "truncations", "\x00"))
					}
				}
			}
			for j := 0; j < 4; j++ {
				text := string(r.Text(r.N(40)))
				rc = append(rc, rustFailCase(t, key, append(wire.Encode([]wire.Op{{C: 'e', B: []byte(text)}}), r.Bytes(r.N(5))...), "error-marked messages", text))
			}
			// an error in the place of a message inside the message
			for j, k := 0, 0; j < len(vs) && k < 12; j++ {
				at := schema.Nested(t.msg, vs[j])
				if len(at) == 0 {
					continue
				}
				b := schema.Encode(nil, t.msg, vs[j])
				for n := 0; n < 3; n++ {
					text := string(r.Text(r.N(40)))
					p := at[r.N(len(at))]
					if n == 0 {
						p = at[len(at)-1]
					}
					in := append(append([]byte(nil), b[:p]...), wire.Encode([]wire.Op{{C: 'e', B: []byte(text)}})...)
					rc = append(rc, rustFailCase(t, key, append(in, b[p:]...), "errors in place of nested messages", text))
				}
				k++
			}
			rc = append(rc, Case{Line: "P " + key + " 00ff", Class: "nil messages", Check: func(im *Impl, o string) string {
				if o != "-1" {
					return "a nil message is not decoded as none"
				}
				return ""
			}})
			// an absent sub-message has no Rust counterpart: an error, never a crash or another message
			for j := 0; j < 20; j++ {
				budget := 2000
				v := schema.GenVal(r, t.msg, 0, &budget, false)
				b := schema.Encode(nil, t.msg, v)
				if schema.HasNil(t.msg, v) && b[0] != wire.TNil {
					rc = append(rc, rustFailCase(t, key, b, "messages with absent sub-messages", "\x00"))
				}
			}
			c.run(rim, rc, 1)
			for _, ver := range vers {
				var gc []Case
				for j, v := range vs {
					if b := fromRust[j]; b != nil {
						gc = append(gc, msgDecodeCase(t, b, nil, schema.Expect(t.msg, v, ver == "v1"), "Rust bytes decoded by Go "+ver, trivial(v)))
					}
				}
				c.run(gim[ver], gc, 1)
			}
		}
	})
}

// hasV2 tells whether the v2 generator's code has a module of its own.
func (c *Check) hasV2(t mtype) bool { return exists(c.env.path("rgen/src/" + base(t.file) + "_v2.rs")) }
