package main

import (
	"fmt"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"

	"verif/wire"
)

func init() {
	checks["C01"] = c01
	checks["C02"] = c02
	checks["C03"] = c03
	checks["C04"] = c04
	checks["C05"] = c05
	checks["C06"] = c06
	checks["C07"] = c07
	checks["C19"] = c19
	checks["C20"] = c20
}

func (c *Check) rng(stream string) *wire.RNG { return wire.NewRNG(c.env.seed, c.id+"/"+stream) }

func (c *Check) scale(quick, thorough int) int {
	if c.env.tier == "thorough" {
		return thorough
	}
	return quick
}

// each runs f for every implementation at the same time.
func (c *Check) each(ims []*Impl, f func(im *Impl)) {
	var wg sync.WaitGroup
	for _, im := range ims {
		wg.Add(1)
		go func() { defer wg.Done(); f(im) }()
	}
	wg.Wait()
}

func (im *Impl) opts(max int) wire.Opts {
	return wire.Opts{MaxData: max, NoNaN: im.nan}
}

// can says whether the implementation's API can encode o.
func (im *Impl) can(o wire.Op) bool {
	switch o.C {
	case 'y':
		return im.anyKind
	case 's', 'e':
		d := o.Data()
		if im.noNUL && strings.IndexByte(string(d), 0) >= 0 {
			return false
		}
		if im.utf8 && !utf8.Valid(d) {
			return false
		}
	case 'f', 'd':
		return !(im.nan && isNaN(o))
	}
	return true
}

func isNaN(o wire.Op) bool {
	if o.C == 'f' {
		return o.U&0x7f800000 == 0x7f800000 && o.U&0x7fffff != 0
	}
	return o.C == 'd' && o.U&0x7ff0000000000000 == 0x7ff0000000000000 && o.U&0xfffffffffffff != 0
}

func filter(im *Impl, ops []wire.Op) []wire.Op {
	var r []wire.Op
	for _, o := range ops {
		if im.can(o) {
			r = append(r, o)
		}
	}
	return r
}

// seq makes a random sequence of items; rawText allows text that is not UTF-8.
func seq(r *wire.RNG, n, max int, raw bool) []wire.Op {
	ops := make([]wire.Op, n)
	kinds := wire.Alphabet
	if r.N(8) == 0 {
		kinds += "y"
	}
	for i := range ops {
		ops[i] = r.Item(kinds[r.N(len(kinds))], wire.Opts{MaxData: max, RawText: raw})
	}
	return ops
}

func encodeCase(init string, ops []wire.Op, raw []byte) Case {
	want := wire.OutText(append(append([]byte{}, raw...), wire.Encode(ops)...))
	line := "E "
	if init != "" {
		line += init + " "
	}
	if len(raw) > 0 {
		line += "W" + wire.Hex(raw) + " "
	}
	return Case{Line: line + wire.Texts(ops), Check: func(im *Impl, out string) string {
		if out == want {
			return ""
		}
		return "encoded bytes differ from the wire format, want " + clip(want, 1200)
	}}
}

// lengthOps are variable-length items around every varint length boundary below max.
func lengthOps(max int) []wire.Op {
	var r []wire.Op
	for _, n := range []int{0, 1, 2, 3, 63, 64, 126, 127, 128, 129, 130, 255, 256, 300, 507, 508, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 8191, 16382, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 2097150, 2097151, 2097152, 2097153} {
		if n <= max {
			for _, k := range "XSR" {
				r = append(r, wire.Op{C: byte(k), U: uint64(n), K1: byte(n % 251)})
			}
		}
	}
	return r
}

func c01(c *Check) error {
	c.rule = "each case is one encode-call sequence run on one implementation and compared byte for byte with the reference wire model: every kind at every power-of-two boundary alone, every data length around each varint boundary, and random sequences; distinct by implementation and calls"
	ims, err := c.env.impls()
	if err != nil {
		return err
	}
	c.each(ims, func(im *Impl) {
		var cs []Case
		add := func(class string, ops []wire.Op) {
			k := encodeCase("", ops, nil)
			k.Class = class
			k.Triv = len(ops) == 0
			cs = append(cs, k)
		}
		for _, o := range wire.Boundary() {
			if im.can(o) {
				add("boundary value", []wire.Op{o})
			}
		}
		for _, o := range lengthOps(c.scale(65536, 2097153)) {
			add("length boundary", []wire.Op{o})
		}
		for _, o := range lengthOps(2097153) {
			if o.U > 65536 && (o.C == 'X' || im.name == "rust") {
				add("length boundary", []wire.Op{o})
			}
		}
		if im.anyKind {
			add("boundary value", []wire.Op{{C: 'y'}})
		}
		// every ordered pair of kinds, so that no call depends on its predecessor
		r := c.rng("pairs")
		for _, a := range wire.Alphabet {
			for _, b := range wire.Alphabet {
				for k := 0; k < 3; k++ {
					ops := filter(im, []wire.Op{r.Item(byte(a), im.opts(40)), r.Item(byte(b), im.opts(40)), r.Item(byte(a), im.opts(400))})
					add("kind pairs", ops)
				}
			}
		}
		r = c.rng("random")
		for i := 0; i < c.scale(24000, 120000); i++ {
			ops := filter(im, seq(r, 1+r.N(24), 20000, true))
			add("random sequence", ops)
		}
		for i := 0; i < c.scale(160, 400); i++ {
			add("long sequence", filter(im, seq(r, 400, 300, true)))
		}
		// random numbers of one kind in bulk: many values per line
		for i := 0; i < c.scale(2400, 12000); i++ {
			k := "vwqilfdam"[i%9]
			ops := make([]wire.Op, 100)
			for j := range ops {
				ops[j] = r.Item(k, im.opts(8))
			}
			add("bulk numbers", filter(im, ops))
		}
		c.count("items encoded by "+im.name, countItems(cs))
		c.run(im, cs, 2)
	})
	return nil
}

func countItems(cs []Case) int {
	n := 0
	for _, k := range cs {
		n += strings.Count(k.Line, " ")
	}
	return n
}

// tokEqual compares an answer token with the expected value for im.
func tokEqual(im *Impl, got string, want wire.Op) bool {
	if got == want.ResText() {
		return true
	}
	if im.nan && isNaN(want) {
		o, ok := parseFloatTok(got)
		return ok && o.C == want.C && isNaN(o)
	}
	return false
}

func parseFloatTok(s string) (wire.Op, bool) {
	if s == "" || s[0] != 'f' && s[0] != 'd' {
		return wire.Op{}, false
	}
	u, err := strconv.ParseUint(s[1:], 16, 64)
	return wire.Op{C: s[0], U: u}, err == nil
}

// sane rejects what no call may ever answer, whatever the input.
func sane(out string) string {
	for _, t := range strings.Fields(out) {
		if t[0] == 'P' {
			return "the call panicked: " + t
		}
		if t[0] == '?' {
			return "the call ended in something that is neither a value nor one of the library's errors: " + t
		}
	}
	return ""
}

// judgeDecode walks the answers with the model. It returns the number of answers the model could judge.
func judgeDecode(im *Impl, b []byte, reqs []wire.Op, out string, want func(v wire.Verdict)) string {
	toks := strings.Fields(out)
	if len(toks) != len(reqs) {
		if s := sane(out); s != "" {
			return s
		}
		return fmt.Sprintf("%d answers to %d calls", len(toks), len(reqs))
	}
	if s := sane(out); s != "" {
		return s
	}
	pos := 0
	for i, r := range reqs {
		m := wire.Decode(b, pos, r)
		t := toks[i]
		if (m.V == wire.Value || m.V == wire.Lenient) && (r.C == 's' || r.C == 'e') {
			d := m.Op.B
			if im.utf8 && !utf8.Valid(d) || im.noNUL && strings.IndexByte(string(d), 0) >= 0 {
				m = wire.Result{V: wire.Fail}
			}
		}
		if want != nil {
			want(m.V)
		}
		failed := t[0] == '!' || (r.C == 'n' || r.C == 'y') && t == string(r.C)+"0"
		where := fmt.Sprintf("call %d (%s) at byte %d", i+1, r.ReqText(), pos)
		switch m.V {
		case wire.Value, wire.Lenient:
			if failed && m.V == wire.Lenient {
				return ""
			}
			if !tokEqual(im, t, m.Op) {
				return fmt.Sprintf("%s: want %s, got %s", where, clip(m.Op.ResText(), 300), clip(t, 300))
			}
			pos = m.Pos
		case wire.FailKeep:
			if !failed {
				return fmt.Sprintf("%s: the input has no such item there, but the call gave %s", where, clip(t, 300))
			}
			if t[0] == '!' && t[1] != r.C {
				return fmt.Sprintf("%s: failed with the error of another operation: %s", where, t)
			}
		case wire.Fail:
			if !failed {
				return fmt.Sprintf("%s: the item there is incomplete or malformed, but the call gave %s", where, clip(t, 300))
			}
			if im.strict && t[0] == '!' && t[1] != r.C {
				return fmt.Sprintf("%s: failed with the error of another operation: %s", where, t)
			}
			return ""
		case wire.Gray:
			return ""
		}
	}
	return ""
}

func decodeCase(b []byte, reqs []wire.Op, want func(wire.Verdict)) Case {
	return Case{Line: "D " + wire.HexArg(b) + " " + wire.Reqs(reqs), Check: func(im *Impl, out string) string {
		return judgeDecode(im, b, reqs, out, want)
	}}
}

func reqOf(o wire.Op) wire.Op {
	r := wire.Op{C: o.C, K1: o.K1, K2: o.K2}
	switch o.C {
	case 'X', 'S', 'R':
		r.C, r.K1 = o.ReqText()[0], 0
	}
	return r
}

func reqsOf(ops []wire.Op) []wire.Op {
	r := make([]wire.Op, len(ops))
	for i, o := range ops {
		r[i] = reqOf(o)
	}
	return r
}

func c02(c *Check) error {
	c.rule = "every implementation encodes the same random sequences; every distinct output is decoded by every implementation, which must give back each value and then a sentinel that follows; distinct by decoder, bytes and calls"
	ims, err := c.env.impls()
	if err != nil {
		return err
	}
	r := c.rng("seqs")
	var seqs [][]wire.Op
	for _, o := range wire.Boundary() {
		if n := len(seqs); n > 0 && len(seqs[n-1]) < 12 {
			seqs[n-1] = append(seqs[n-1], o)
		} else {
			seqs = append(seqs, []wire.Op{o})
		}
	}
	for _, o := range lengthOps(c.scale(65536, 2097153)) {
		seqs = append(seqs, []wire.Op{o})
	}
	for i := 0; i < c.scale(10000, 60000); i++ {
		seqs = append(seqs, seq(r, 1+r.N(20), 6000, i%4 == 0))
	}
	for i := 0; i < c.scale(2000, 10000); i++ {
		k := "vwqilfdam"[i%9]
		ops := make([]wire.Op, 60)
		for j := range ops {
			ops[j] = r.Item(k, wire.Opts{})
		}
		seqs = append(seqs, ops)
	}
	// stage 1: what each encoder writes
	type enc struct {
		by  []string
		b   []byte
		ops []wire.Op
	}
	outs := make([]map[string]*enc, len(seqs))
	var mu sync.Mutex
	sentinel := wire.Op{C: 'u', U: 0x5a}
	c.each(ims, func(im *Impl) {
		var cs []Case
		for i, ops := range seqs {
			ops := filter(im, ops)
			i := i
			full := wire.Encode(ops)
			cs = append(cs, Case{Line: "E " + wire.Texts(ops), Class: "encoded", Check: func(im *Impl, out string) string {
				var b []byte
				switch {
				case strings.HasPrefix(out, "="):
					b = wire.Unhex(strings.Replace(out[1:], " ", "", -1))
				case out == wire.OutText(full):
					b = full
				case strings.HasPrefix(out, "#"):
					return "a large encoding differs from the wire format; no decoder can be given it"
				default:
					return "the encoder did not deliver bytes"
				}
				if len(out) == 1 {
					b = []byte{}
				}
				mu.Lock()
				defer mu.Unlock()
				if outs[i] == nil {
					outs[i] = map[string]*enc{}
				}
				key := string(b) + "|" + wire.Reqs(ops)
				if outs[i][key] == nil {
					outs[i][key] = &enc{b: b, ops: ops}
				}
				outs[i][key].by = append(outs[i][key].by, im.name)
				return ""
			}})
		}
		c.run(im, cs, 2)
	})
	c.each(ims, func(im *Impl) {
		var cs []Case
		for _, m := range outs {
			for _, e := range m {
				ok := true
				for _, o := range e.ops {
					if (o.C == 's' || o.C == 'e' || o.C == 'y') && !im.can(o) {
						ok = false
					}
				}
				if !ok {
					continue
				}
				ops := append(append([]wire.Op{}, e.ops...), sentinel)
				b := append(append([]byte{}, e.b...), wire.Encode([]wire.Op{sentinel})...)
				by := strings.Join(e.by, "+")
				reqs := append(reqsOf(ops), wire.Op{C: 'n'}, wire.Op{C: 'u'})
				cs = append(cs, Case{Line: "D " + wire.HexArg(b) + " " + wire.Reqs(reqs), Class: "decoded", Triv: len(e.ops) == 0, Check: func(im *Impl, out string) string {
					toks := strings.Fields(out)
					if len(toks) != len(reqs) {
						return "wrong number of answers"
					}
					for i, o := range ops {
						if !tokEqual(im, toks[i], o) {
							return fmt.Sprintf("item %d encoded by %s as %s decodes to %s", i+1, by, clip(o.ResText(), 200), clip(toks[i], 200))
						}
					}
					if toks[len(ops)] != "n0" || toks[len(ops)+1] != "!u" {
						return "something is left over after the last item"
					}
					return ""
				}})
			}
		}
		c.run(im, cs, 2)
	})
	c.mu.Lock()
	diff := 0
	for _, m := range outs {
		if len(m) > 1 {
			diff++
		}
	}
	c.extra["sequences_encoded_in_more_than_one_form"] = diff
	c.mu.Unlock()
	return nil
}
