// Command drv runs the Go implementations under the line protocol of the monitor (see DESIGN.md).
package main

import (
	"bufio"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"

	"verif/wire"
)

// encoder and decoder hide which Go version is under test.
type encoder interface {
	op(o wire.Op)
	raw(b []byte)
	reset()
	bytes() []byte
	len() int
}

type decoder interface {
	// op runs one request and gives a function that renders the token from the retained value.
	op(r wire.Op) func() string
}

// dsts are the destinations byte arrays are decoded into, each used once: none, and ones of every small size. They exist before
// the first request, so that what the decoder allocates is its own.
type dsts [][]byte

func newDsts(b []byte) dsts {
	n := len(b)
	for i := 0; i < len(b) && i < 8; i++ {
		n = n*31 + int(b[i])
	}
	ds := make(dsts, 0, 8)
	for i := uint(n); len(ds) < 8; i = i*5 + 3 {
		if i%3 == 0 {
			ds = append(ds, nil)
			continue
		}
		c := i / 3 % 24
		ds = append(ds, make([]byte, i/72%(c+1), c))
	}
	return ds
}

func (d *dsts) take() []byte {
	if len(*d) == 0 {
		return nil
	}
	x := (*d)[0]
	*d = (*d)[1:]
	return x
}

type impl struct {
	newEnc  func() encoder
	sized   func(n int) encoder
	from    func(b []byte) encoder // caller storage
	fromAdd bool                   // existing length of the storage is content that is kept in front
	pooled  func() encoder
	newDec  func(b []byte) (decoder, func())
}

func main() {
	impls := map[string]impl{"v1": v1Impl, "v2": v2Impl}
	im, ok := impls[os.Args[1]]
	if !ok {
		panic("impl")
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<16)
	for {
		line, err := in.ReadString('\n')
		if err != nil {
			return
		}
		f := strings.Fields(line)
		if len(f) < 2 {
			continue
		}
		var res string
		switch f[0] {
		case "E":
			res = encodeCase(im, f[2:])
		case "D":
			res = decodeCase(im, wire.Unhex(f[2]), f[3:])
		case "A":
			res = allocCase(im, wire.Unhex(f[2]), f[3:])
		case "O":
			res = ownCase(im, wire.Unhex(f[2]), f[3:])
		case "R":
			res = roundTrip(im, f[2])
		}
		out.WriteString(f[1])
		out.WriteByte(' ')
		out.WriteString(res)
		out.WriteByte('\n')
		out.Flush()
	}
}

func guard(res *string) {
	if r := recover(); r != nil {
		*res += " P:" + strings.Join(strings.Fields(fmt.Sprint(r)), "_")
	}
}

func ints(s string) []int {
	var r []int
	for _, p := range strings.Split(s, ",") {
		n, err := strconv.Atoi(p)
		if err != nil {
			panic(err)
		}
		r = append(r, n)
	}
	return r
}

func encodeCase(im impl, toks []string) (res string) {
	defer guard(&res)
	var e encoder
	var storage []byte
	var lo, hi, pre int
	if len(toks) > 0 && toks[0][0] == 'I' {
		t := toks[0]
		toks = toks[1:]
		switch t[1] {
		case '-':
			e = im.newEnc()
		case 'z':
			e = im.sized(ints(t[2:])[0])
		case 'b':
			a := ints(t[2:])
			storage = make([]byte, a[0]+a[2]+a[3])
			for i := range storage {
				storage[i] = 0xA5
			}
			lo, hi = a[0], a[0]+a[2]
			e = im.from(storage[a[0] : a[0]+a[1] : a[0]+a[2]])
			if im.fromAdd {
				pre = a[1]
			}
		case 'r':
			e = im.newEnc()
			e.raw(wire.Pattern(ints(t[2:])[0], 9, false))
			e.op(wire.Op{C: 'q', U: ^uint64(0)})
			e.reset()
		case 'p':
			e = im.pooled()
		}
	} else {
		e = im.newEnc()
	}
	for _, t := range toks {
		if t[0] == 'W' {
			e.raw(wire.Unhex(t[1:]))
			continue
		}
		e.op(wire.ParseOp(t))
	}
	b := e.bytes()
	if e.len() != len(b) {
		return fmt.Sprintf("?len%d!=%d", e.len(), len(b))
	}
	for i, c := range storage {
		if (i < lo || i >= hi) && c != 0xA5 {
			return fmt.Sprintf("?storage[%d]", i-lo)
		}
	}
	for _, c := range b[:pre] {
		if c != 0xA5 {
			return "?prefix"
		}
	}
	return wire.OutText(b[pre:])
}

func decodeCase(im impl, b []byte, reqs []string) (res string) {
	defer guard(&res)
	// exact capacity, followed by canary bytes the decoder must not see
	st := make([]byte, len(b)+16)
	copy(st, b)
	for i := len(b); i < len(st); i++ {
		st[i] = byte(i)
	}
	d, done := im.newDec(st[:len(b):len(b)])
	for _, t := range reqs {
		res += d.op(wire.ParseReq(t))() + " "
	}
	done()
	if string(st[:len(b)]) != string(b) {
		res += "?input-changed"
	}
	return
}

// allocCase reports the bytes the requests allocate. The runtime's own background work is counted by the same
// counter, so a measurement that looks big is repeated and the smallest one is reported.
func allocCase(im impl, b []byte, reqs []string) (res string) {
	for i, best := 0, ^uint64(0); i < 6; i++ {
		toks, n := allocOnce(im, b, reqs)
		best = min(best, n)
		res = toks + fmt.Sprintf(" @%d", best)
		if strings.Contains(toks, "P:") || best < 2048 {
			break
		}
		if best > 1<<26 && i == 1 {
			break
		}
	}
	return
}

func allocOnce(im impl, b []byte, reqs []string) (res string, n uint64) {
	defer guard(&res)
	d, done := im.newDec(b)
	var ops []wire.Op
	for _, t := range reqs {
		ops = append(ops, wire.ParseReq(t))
	}
	var m0, m1 runtime.MemStats
	vals := make([]func() string, len(ops))
	runtime.ReadMemStats(&m0)
	for i, o := range ops {
		vals[i] = d.op(o)
	}
	runtime.ReadMemStats(&m1)
	done()
	out := make([]string, len(ops))
	for i := range vals {
		out[i] = vals[i]()
	}
	return strings.Join(out, " "), m1.TotalAlloc - m0.TotalAlloc
}

func roundTrip(im impl, tok string) (res string) {
	defer guard(&res)
	o := wire.ParseOp(tok)
	e := im.newEnc()
	e.op(o)
	e.op(wire.Op{C: 'u', U: 77})
	b := e.bytes()
	n := min(len(b), 16)
	res = fmt.Sprintf("=%s %s ", wire.Hex(b[:n]), wire.Digest(b))
	d, done := im.newDec(b)
	res += d.op(o)() + " " + d.op(wire.Op{C: 'u'})() + " " + d.op(wire.Op{C: 'u'})()
	done()
	return
}

// ownCase keeps every decoded value, then destroys the input and reuses the decoder before rendering.
func ownCase(im impl, b []byte, reqs []string) (res string) {
	defer guard(&res)
	in := append(make([]byte, 0, len(b)), b...)
	d, done := im.newDec(in)
	var vals []func() string
	for _, t := range reqs {
		vals = append(vals, d.op(wire.ParseReq(t)))
	}
	done()
	if string(in) != string(b) {
		return "?input-changed"
	}
	for i := range in {
		in[i] = 0xEE
	}
	d2, done2 := im.newDec([]byte{0, 0, 0})
	d2.op(wire.Op{C: 'n'})
	done2()
	for _, v := range vals {
		res += v() + " "
	}
	return
}
