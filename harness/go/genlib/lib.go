// Package genlib drives generated Go code through its public API: constructors, fields by name, Encode and Decode.
package genlib

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"math"
	"os"
	"reflect"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// T is one generated message type.
type T struct {
	Name   string
	Fields []string
	New    func() any
	Nil    any
	Enc    func(x any, b []byte) []byte
	Dec    func(x any, b []byte) error
	Err    func(x any, err error) []byte
	Buf    func() Buf
	EncTo  func(x any, b Buf)
}

// Buf is a buffer of the library that messages and other data are written to in turn.
type Buf interface {
	Write(b []byte) int
	Bytes() []byte
	Len() int
	Reset()
}

var types = map[string]*T{}
var fields = map[reflect.Type][]string{}

func Register(ts []*T) {
	for _, t := range ts {
		types[t.Name] = t
		fields[reflect.TypeOf(t.New()).Elem()] = t.Fields
	}
}

type toks struct {
	t []string
	i int
}

func (t *toks) next() string {
	t.i++
	return t.t[t.i-1]
}

func check(err error) {
	if err != nil {
		panic(err)
	}
}

// set reads the next value into v.
func set(t *toks, v reflect.Value) {
	s := t.next()
	switch v.Kind() {
	case reflect.Ptr:
		if s == "-" {
			v.SetZero()
			return
		}
		t.i--
		p := reflect.New(v.Type().Elem())
		fill(t, p.Elem())
		v.Set(p)
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b, err := hex.DecodeString(s[1:])
			check(err)
			if len(b) == 0 {
				b = nil
			}
			v.SetBytes(b)
			return
		}
		n, err := strconv.Atoi(s[1:])
		check(err)
		v.SetZero()
		if n > 0 {
			v.Set(reflect.MakeSlice(v.Type(), n, n))
			for i := 0; i < n; i++ {
				set(t, v.Index(i))
			}
		}
	case reflect.Map:
		n, err := strconv.Atoi(s[1:])
		check(err)
		v.SetZero()
		if n > 0 {
			v.Set(reflect.MakeMap(v.Type()))
			for i := 0; i < n; i++ {
				k := reflect.New(v.Type().Key()).Elem()
				set(t, k)
				e := reflect.New(v.Type().Elem()).Elem()
				set(t, e)
				v.SetMapIndex(k, e)
			}
		}
	case reflect.Bool:
		v.SetBool(s == "1")
	case reflect.String:
		b, err := hex.DecodeString(s[1:])
		check(err)
		v.SetString(string(b))
	case reflect.Float32:
		u, err := strconv.ParseUint(s, 16, 32)
		check(err)
		v.Set(reflect.ValueOf(math.Float32frombits(uint32(u))))
	case reflect.Float64:
		u, err := strconv.ParseUint(s, 16, 64)
		check(err)
		v.Set(reflect.ValueOf(math.Float64frombits(u)))
	case reflect.Int32, reflect.Int64:
		u, err := strconv.ParseInt(s, 10, 64)
		check(err)
		v.SetInt(u)
	case reflect.Uint32, reflect.Uint64:
		u, err := strconv.ParseUint(s, 10, 64)
		check(err)
		v.SetUint(u)
	default:
		panic("field of an unexpected Go type " + v.Type().String())
	}
}

func fill(t *toks, v reflect.Value) {
	if s := t.next(); s != "(" {
		panic("want a message, not " + s)
	}
	for _, f := range fields[v.Type()] {
		set(t, v.FieldByName(f))
	}
}

func dump(b *strings.Builder, v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("- ")
			return
		}
		v = v.Elem()
		b.WriteString("( ")
		for _, f := range fields[v.Type()] {
			dump(b, v.FieldByName(f))
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(b, "x%x ", v.Bytes())
			return
		}
		fmt.Fprintf(b, "[%d ", v.Len())
		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i))
		}
	case reflect.Map:
		m := map[string]string{}
		var ks []string
		for it := v.MapRange(); it.Next(); {
			var kb, vb strings.Builder
			dump(&kb, it.Key())
			dump(&vb, it.Value())
			ks = append(ks, kb.String())
			m[kb.String()] = vb.String()
		}
		sort.Strings(ks)
		fmt.Fprintf(b, "{%d ", len(ks))
		for _, k := range ks {
			b.WriteString(k)
			b.WriteString(m[k])
		}
	case reflect.Bool:
		if v.Bool() {
			b.WriteString("1 ")
		} else {
			b.WriteString("0 ")
		}
	case reflect.String:
		fmt.Fprintf(b, "x%x ", v.String())
	case reflect.Float32:
		fmt.Fprintf(b, "%08x ", math.Float32bits(v.Interface().(float32)))
	case reflect.Float64:
		fmt.Fprintf(b, "%016x ", math.Float64bits(v.Interface().(float64)))
	case reflect.Int32, reflect.Int64:
		fmt.Fprintf(b, "%d ", v.Int())
	default:
		fmt.Fprintf(b, "%d ", v.Uint())
	}
}

func text(x any) string {
	var b strings.Builder
	dump(&b, reflect.ValueOf(x))
	return strings.TrimSuffix(b.String(), " ")
}

func build(t *T, s []string) any {
	k := &toks{t: s}
	if s[0] == "-" {
		return t.Nil
	}
	x := t.New()
	v := reflect.ValueOf(x).Elem()
	v.SetZero()
	fill(k, v)
	return x
}

func unhex(s string) []byte {
	if s == "-" {
		return []byte{}
	}
	b, err := hex.DecodeString(s)
	check(err)
	return b
}

func oneLine(s string) string { return strings.ReplaceAll(s, "\n", " | ") }

// answer runs one command; stage tells a panic of the code under test from one of the driver.
func answer(cmd string, a []string) (r string) {
	stage := ""
	defer func() {
		if p := recover(); p != nil {
			buf := make([]byte, 2000)
			buf = buf[:runtime.Stack(buf, false)]
			if stage == "" {
				r = oneLine(fmt.Sprintf("?driver %v %s", p, buf))
			} else {
				r = oneLine(fmt.Sprintf("panic in %s: %v %s", stage, p, buf))
			}
		}
	}()
	if cmd == "C" {
		return together(a)
	}
	t := types[a[0]]
	if cmd == "S" {
		return sequence(a, &stage)
	}
	if t == nil {
		return "?unknown type " + a[0]
	}
	decode := func(x any, in []byte) (uint64, error) {
		keep := append([]byte(nil), in...)
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		stage = "Decode"
		err := t.Dec(x, in)
		stage = ""
		runtime.ReadMemStats(&m1)
		if string(keep) != string(in) {
			err = errors.New("DECODE CHANGED ITS INPUT")
		}
		n := m1.TotalAlloc - m0.TotalAlloc
		// the counter includes the runtime's own background work: measure again what looks big
		for i := 0; i < 4 && n > 1<<22 && (i < 1 || n < 1<<30); i++ {
			y := t.New()
			runtime.ReadMemStats(&m0)
			stage = "Decode"
			t.Dec(y, in)
			stage = ""
			runtime.ReadMemStats(&m1)
			n = min(n, m1.TotalAlloc-m0.TotalAlloc)
		}
		return n, err
	}
	switch cmd {
	case "E":
		x := build(t, a[1:])
		before := text(x)
		stage = "Encode"
		out := t.Enc(x, nil)
		stage = ""
		if text(x) != before {
			return "!encoding changed the message to " + text(x)
		}
		return fmt.Sprintf("=%x", out)
	case "P":
		x := t.New()
		n, err := decode(x, unhex(a[1]))
		if err != nil {
			return oneLine(fmt.Sprintf("!%d %v", n, err))
		}
		s := text(x)
		stage = "Encode"
		out := t.Enc(x, nil)
		stage = ""
		// the input is the caller's again
		return fmt.Sprintf("+%d %s =%x", n, s, out)
	case "Q":
		x := build(t, a[2:])
		in := unhex(a[1])
		n, err := decode(x, in)
		if err != nil {
			return oneLine(fmt.Sprintf("!%d %v", n, err))
		}
		s := text(x)
		for i := range in {
			in[i] ^= 0xff
		}
		if text(x) != s {
			return "!the decoded message changes with the input: " + text(x)
		}
		return fmt.Sprintf("+%d %s =", n, s)
	case "L":
		return keep(t, a[1:], &stage)
	case "N":
		stage = "nil Encode"
		out := t.Enc(t.Nil, []byte("pre"))
		stage = "nil Decode"
		err := t.Dec(t.Nil, []byte{0})
		stage = "Error"
		e := t.Err(t.New(), errors.New(string(unhex(a[1]))))
		stage = "Decode"
		derr := t.Dec(t.New(), e)
		stage = ""
		return fmt.Sprintf("%x %v %x %v", out, err != nil, e, derr != nil)
	}
	return "?command"
}

// sequence writes messages and raw bytes ("#") into one buffer in the order given, backwards, and in order again, and decodes each message where it begins,
// with all that follows behind it. The answer: the bytes and where each part ends.
func sequence(a []string, stage *string) string {
	type part struct {
		t   *T
		raw []byte
		x   any
		txt string
	}
	var ps []*part
	var b Buf
	for ; len(a) > 1; a = a[2:] {
		p := &part{raw: unhex(a[1])}
		if a[0] != "#" {
			if p.t = types[a[0]]; p.t == nil {
				return "?unknown type " + a[0]
			}
			if b == nil {
				b = p.t.Buf()
			}
			p.x = p.t.New()
			*stage = "Decode"
			if err := p.t.Dec(p.x, p.raw); err != nil {
				return oneLine("!alone: " + err.Error())
			}
			p.txt = text(p.x)
		}
		ps = append(ps, p)
	}
	if b == nil {
		return "?no messages"
	}
	ends, back := make([]int, len(ps)), make([]int, len(ps))
	slices.Reverse(ps)
	used := map[*T]any{}
	for round := 0; round < 3; round++ {
		b.Reset()
		slices.Reverse(ps)
		ends, back = back, ends
		for i, p := range ps {
			before := string(b.Bytes())
			*stage = "Encode"
			if p.t == nil {
				b.Write(p.raw)
			} else {
				p.t.EncTo(p.x, b)
			}
			if string(b.Bytes()[:len(before)]) != before {
				return fmt.Sprintf("!part %d changed what was in the buffer", i)
			}
			if round == 2 && ends[i] != b.Len() {
				return fmt.Sprintf("!part %d ends at %d the second time and ended at %d", i, b.Len(), ends[i])
			}
			ends[i] = b.Len()
		}
		whole := b.Bytes()
		at := 0
		for i, p := range ps {
			if p.t != nil {
				*stage = "Decode"
				x := used[p.t]
				if x == nil || i%2 == 0 {
					x = p.t.New()
				}
				if err := p.t.Dec(x, whole[at:]); err != nil {
					return oneLine(fmt.Sprintf("!part %d does not decode where it begins: %v", i, err))
				}
				if text(x) != p.txt {
					return fmt.Sprintf("!part %d decodes to %s instead of %s", i, text(x), p.txt)
				}
				used[p.t] = x
			}
			at = ends[i]
		}
		if len(whole) != b.Len() {
			return "!decoding changed the buffer"
		}
	}
	*stage = ""
	return fmt.Sprintf("S%x %s", b.Bytes(), strings.Trim(strings.ReplaceAll(fmt.Sprint(ends), " ", ","), "[]"))
}

// together has many goroutines decode the same inputs and encode the same messages, each into values and buffers of its own,
// and compares what each gets with what it gets alone. Arguments: goroutines, rounds, then types and inputs.
func together(a []string) string {
	g, err := strconv.Atoi(a[0])
	check(err)
	rounds, err := strconv.Atoi(a[1])
	check(err)
	type one struct {
		t         *T
		in        []byte
		x         any
		txt, fail string
		enc       []byte
		encTxt    string
		shared    []any // one per round, that nobody encoded before: as decoded
		fresh     []any // and as made by the constructor
		freshEnc  []byte
	}
	decode := func(t *T, x any, in []byte) string {
		if err := t.Dec(x, in); err != nil {
			return "error " + err.Error()
		}
		return ""
	}
	var all []*one
	for a = a[2:]; len(a) > 1; a = a[2:] {
		t := types[a[0]]
		if t == nil {
			return "?unknown type " + a[0]
		}
		o := &one{t: t, in: unhex(a[1]), x: t.New()}
		o.fail = decode(t, o.x, o.in)
		if o.fail == "" {
			o.txt = text(o.x)
			o.enc = t.Enc(o.x, nil)
			y := t.New()
			if f := decode(t, y, o.enc); f != "" {
				return "!alone: " + f
			}
			o.encTxt = text(y)
			for i := 0; i < rounds; i++ {
				z := t.New()
				if f := decode(t, z, o.in); f != "" {
					return "!again: " + f
				}
				o.shared = append(o.shared, z)
			}
		}
		for i := 0; i < rounds; i++ {
			o.fresh = append(o.fresh, t.New())
		}
		o.freshEnc = t.Enc(t.New(), nil)
		all = append(all, o)
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	what := ""
	bad := func(s string, o *one, got string) {
		mu.Lock()
		defer mu.Unlock()
		if what == "" {
			what = fmt.Sprintf("!%s: %s %x gave %.600s instead of %.600s", o.t.Name, s, o.in[:min(len(o.in), 200)], got, o.txt+o.fail)
		}
	}
	begin := make(chan struct{})
	for w := 0; w < g; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					mu.Lock()
					defer mu.Unlock()
					buf := make([]byte, 1500)
					what = oneLine(fmt.Sprintf("panic among %d goroutines: %v %s", g, p, buf[:runtime.Stack(buf, false)]))
				}
			}()
			mine := map[*T]any{}
			<-begin
			for k := 0; k < rounds; k++ {
				for i := range all {
					o := all[(i*(2*w+1)+k+w*5)%len(all)]
					if (i+w)%4 == 0 {
						runtime.Gosched()
					}
					x := o.t.New()
					if k%2 == 1 && mine[o.t] != nil { // one of its own that is used again
						x = mine[o.t]
					}
					f := decode(o.t, x, o.in)
					if f != o.fail || f == "" && text(x) != o.txt {
						bad("decoding in parallel", o, f+" "+text(x))
						return
					}
					if e := o.t.Enc(o.fresh[k], nil); !bytes.Equal(e, o.freshEnc) {
						bad("encoding a new message in parallel", o, fmt.Sprintf("%x", e))
						return
					}
					if f != "" {
						continue
					}
					mine[o.t] = x
					if k == 0 {
						mine[o.t] = nil
					}
					z := o.x
					if k < len(o.shared) && (k+w)%3 != 0 {
						z = o.shared[k]
					}
					e := o.t.Enc(z, nil)
					if bytes.Equal(e, o.enc) {
						continue
					}
					y := o.t.New()
					if f := decode(o.t, y, e); f != "" || text(y) != o.encTxt || len(e) != len(o.enc) {
						bad("encoding in parallel", o, fmt.Sprintf("%x", e))
						return
					}
				}
			}
		}()
	}
	close(begin)
	wg.Wait()
	if what != "" {
		return oneLine(what)
	}
	for _, o := range all {
		if o.fail == "" && text(o.x) != o.txt {
			bad("the shared message", o, text(o.x))
		}
		for _, z := range o.shared {
			if text(z) != o.txt {
				bad("a shared message", o, text(z))
			}
		}
	}
	if what != "" {
		return oneLine(what)
	}
	return fmt.Sprintf("C%d", g*rounds*len(all))
}

// vary makes another message of the same shape: every text and byte field gets pad more bytes, other ones each time.
func vary(toks []string, pad, n int) []string {
	var b strings.Builder
	for b.Len() < 2*pad {
		for _, c := range []byte(fmt.Sprintf("%08d", n)) {
			fmt.Fprintf(&b, "%02x", c)
		}
	}
	r := append([]string(nil), toks...)
	for i, s := range r {
		if s[0] == 'x' {
			r[i] = s + b.String()[:2*pad]
		}
	}
	return r
}

func live() int {
	best := 1 << 62
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		best = min(best, int(m.HeapAlloc))
	}
	return best
}

// keep encodes and decodes messages that never come twice and drops them; the answer is by how much what is alive grew in each
// of three stretches.
func keep(t *T, a []string, stage *string) string {
	rounds, err := strconv.Atoi(a[0])
	check(err)
	pad, err := strconv.Atoi(a[1])
	check(err)
	n := 0
	stretch := func(k int) {
		for ; k > 0; k-- {
			n++
			x := build(t, vary(a[2:], pad, n))
			*stage = "Encode"
			b := t.Enc(x, nil)
			*stage = "Decode"
			y := t.New()
			if err := t.Dec(y, b); err != nil {
				panic(err)
			}
			t.Dec(y, b)
			if len(b) > 0 {
				t.Dec(t.New(), b[:(n*7919)%len(b)])
			}
			*stage = "Error"
			t.Dec(y, t.Err(y, errors.New(strings.Repeat("e", pad)+strconv.Itoa(n))))
			*stage = ""
		}
	}
	stretch(rounds/4 + 1)
	last := live()
	var grown []string
	for k := 0; k < 3; k++ {
		stretch(rounds)
		now := live()
		grown = append(grown, strconv.Itoa(now-last))
		last = now
	}
	return "L" + strings.Join(grown, ",")
}

func Main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<16)
	for {
		l, err := in.ReadString('\n')
		if err != nil {
			break
		}
		p := strings.Fields(l)
		fmt.Fprintf(out, "%s %s\n", p[1], answer(p[0], p[2:]))
		if in.Buffered() == 0 {
			out.Flush()
		}
	}
	out.Flush()
}
