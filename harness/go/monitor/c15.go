package main

import (
	"encoding/hex"
	"fmt"
	"slices"
	"strconv"
	"strings"
	"sync"

	"verif/schema"
	"verif/wire"
)

func init() {
	checks["C15"] = func(c *Check) error {
		c.rule = "each case is one command to code generated for a random or fixed schema: encode a message built through the public fields, decode the reference bytes into a fresh or a used value, decode a truncation; trivial is a message without any element; distinct by type and value"
		fs, _ := c.schemas(c.scale(60, 160))
		var wg sync.WaitGroup
		errs := make([]error, 2)
		for i, ver := range []string{"v1", "v2"} {
			wg.Add(1)
			go func() {
				defer wg.Done()
				im, bad, err := c.goGen(ver, withProbes(fs), func(f *schema.File, what string) {
					c.note("go-"+ver+" schema "+base(f), false)
					c.violate(what, f.Text())
				})
				if err != nil || im == nil {
					errs[i] = err
					return
				}
				c.count("schemas compiled go-"+ver, len(fs)+1-len(bad))
				c.probesC15(ver, im)
				c.goRoundTrips(im, ver, keep(typesOf(fs), bad))
			}()
		}
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				return err
			}
		}
		return nil
	}
}

// answerParts splits "+alloc value =hex" or "!alloc error".
type decoded struct {
	ok    bool
	alloc int
	text  string // value or error
	again []byte
}

func parseDecoded(o string) (d decoded, bad string) {
	if o == "" {
		return d, "empty answer"
	}
	switch o[0] {
	case '+', '!':
		n, rest, _ := strings.Cut(o[1:], " ")
		a, err := strconv.Atoi(n)
		if err != nil {
			return d, clip(o, 1500)
		}
		d.alloc, d.ok, d.text = a, o[0] == '+', rest
		if d.ok {
			i := strings.LastIndexByte(rest, '=')
			if i < 0 {
				return d, "malformed driver answer"
			}
			d.text = strings.TrimSpace(rest[:i])
			if d.again, err = hex.DecodeString(rest[i+1:]); err != nil {
				return d, "malformed driver answer"
			}
		}
		return d, ""
	}
	return d, clip(o, 1500) // a panic, or the driver's own complaint
}

func trivial(v *schema.Val) bool { return v.Nil || len(v.L) == 0 }

// encodeCase asks for the encoding of v and compares: the bytes are those of the layout, map entries in any order.
func msgEncodeCase(t mtype, v *schema.Val) Case {
	want := schema.Encode(nil, t.msg, v)
	text := schema.Text(t.msg, v)
	return Case{Line: "E " + t.key + " " + text, Class: "messages encoded", Triv: trivial(v), Check: func(im *Impl, o string) string {
		if !strings.HasPrefix(o, "=") {
			return clip(o, 1500)
		}
		b, err := hex.DecodeString(o[1:])
		if err != nil {
			return "malformed driver answer"
		}
		return sameEncoding(t, b, v, want, text)
	}}
}

func sameEncoding(t mtype, b []byte, v *schema.Val, want []byte, text string) string {
	if string(b) == string(want) {
		return ""
	}
	got, n, st := schema.Parse(b, t.msg)
	switch {
	case len(b) == len(want) && schema.Headless(t.msg) && schema.HasNil(t.msg, v):
		// what the bytes mean may depend on the order of a map: compare them as a bag
		if x, y := slices.Sorted(slices.Values(b)), slices.Sorted(slices.Values(want)); !slices.Equal(x, y) {
			return fmt.Sprintf("other bytes than %x in any order of map entries", clipb(want))
		}
		return ""
	case st != schema.OK || n != len(b):
		return fmt.Sprintf("the bytes are no encoding of the schema's layout (stopped at %d of %d)\n  got  %x\n  want %x", n, len(b), clipb(b), clipb(want))
	case string(schema.Encode(nil, t.msg, got)) != string(b):
		return fmt.Sprintf("the bytes are not the canonical encoding of their items: %x", clipb(b))
	case len(b) != len(want):
		return fmt.Sprintf("%d bytes instead of %d", len(b), len(want))
	case schema.Text(t.msg, got) != text:
		return fmt.Sprintf("the bytes encode another message: %s", clip(schema.Text(t.msg, got), 1500))
	}
	return ""
}

func clipb(b []byte) []byte {
	if len(b) > 400 {
		return b[:400]
	}
	return b
}

// decodeCase decodes in (fresh, or into the message dirty) and wants the value want.
func msgDecodeCase(t mtype, in []byte, dirty *schema.Val, want *schema.Val, class string, triv bool) Case {
	line := "P " + t.key + " " + wire.HexArg(in)
	if dirty != nil {
		line = "Q " + t.key + " " + wire.HexArg(in) + " " + schema.Text(t.msg, dirty)
	}
	return Case{Line: line, Class: class, Triv: triv, Check: func(im *Impl, o string) string {
		d, bad := parseDecoded(o)
		if bad != "" {
			return bad
		}
		if !d.ok {
			return "decoding a valid message fails: " + d.text
		}
		if w := schema.Text(t.msg, want); d.text != w {
			return "decoded another message:\n  got  " + clip(d.text, 1000) + "\n  want " + clip(w, 1000)
		}
		if dirty == nil && !schema.Ambiguous(t.msg, want) {
			return sameEncoding(t, d.again, want, schema.Encode(nil, t.msg, want), schema.Text(t.msg, want))
		}
		return ""
	}}
}

// prefixCase decodes a proper prefix, which must fail.
func prefixCase(t mtype, in []byte) Case {
	return Case{Line: "P " + t.key + " " + wire.HexArg(in), Class: "truncations", Check: func(im *Impl, o string) string {
		d, bad := parseDecoded(o)
		if bad != "" {
			return bad
		}
		if d.ok {
			return "decoding a truncated message succeeds"
		}
		return ""
	}}
}

func nilCase(t mtype, text string) Case {
	want := fmt.Sprintf("70726500 true %x true", wire.Encode([]wire.Op{{C: 'e', B: []byte(text)}}))
	return Case{Line: "N " + t.key + " " + wire.HexArg([]byte(text)), Class: "nil messages and errors", Check: func(im *Impl, o string) string {
		if schema.Width0(t.msg) && o == strings.TrimSuffix(want, "true")+"false" {
			return "" // a message that takes no input ends before the error
		}
		if o != want {
			return "a nil message, decoding into one, or an error message is not handled as documented: want " + want
		}
		return ""
	}}
}

func (c *Check) goRoundTrips(im *Impl, ver string, ts []mtype) {
	pool(len(ts), 8, func(i int) {
		t := ts[i]
		r := c.rng("c15 " + ver + t.key)
		n := c.scale(60, 500)
		cases := []Case{nilCase(t, "some error")}
		var prev *schema.Val
		for j := 0; j < n && !c.tooMany(); j++ {
			budget := 3000
			if j%10 == 9 {
				budget = 40000
			}
			if j < 3 {
				budget = 0
			}
			if j == 11 && huge(t) {
				budget = 200000
			}
			v := schema.GenVal(r, t.msg, 0, &budget, r.Bool())
			if j%3 == 1 {
				schema.OpenEnums(r, t.msg, v)
			}
			want := schema.Expect(t.msg, v, strings.HasPrefix(ver, "v1"))
			in := schema.Encode(nil, t.msg, v)
			triv := trivial(v)
			cases = append(cases, msgEncodeCase(t, v))
			clear := schema.Clear(t.msg, v, nil)
			if clear {
				cases = append(cases, msgDecodeCase(t, in, nil, want, "decoded fresh", triv))
			}
			junk := r.Bytes(1 + r.N(20))
			if schema.Clear(t.msg, v, junk) {
				cases = append(cases, msgDecodeCase(t, append(append([]byte(nil), in...), junk...), nil, want, "decoded with bytes after the message", triv))
			}
			if prev != nil && clear {
				cases = append(cases, msgDecodeCase(t, in, prev, want, "decoded into a used value", triv))
			}
			if j%7 == 3 && prev != nil {
				nilv := &schema.Val{Nil: true}
				cases = append(cases, msgDecodeCase(t, []byte{0}, prev, schema.Expect(t.msg, nilv, strings.HasPrefix(ver, "v1")), "nil decoded into a used value", false))
			}
			prev = v
			for k := 0; k < 3 && len(in) > 0; k++ {
				cut := r.N(len(in))
				if k == 0 {
					cut = len(in) - 1
				}
				if _, _, st := schema.Parse(in[:cut], t.msg); st == schema.Bad {
					cases = append(cases, prefixCase(t, in[:cut]))
				}
			}
		}
		c.run(im, cases, 1)
	})
}

// pool runs f(0..n-1) on w goroutines.
func pool(n, w int, f func(i int)) {
	var wg sync.WaitGroup
	next := make(chan int, n)
	for i := 0; i < n; i++ {
		next <- i
	}
	close(next)
	for ; w > 0; w-- {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				f(i)
			}
		}()
	}
	wg.Wait()
}
