package main

import (
	"errors"
	"fmt"
	"io"
	"strings"

	v1 "github.com/loopholelabs/polyglot"
	v2 "github.com/loopholelabs/polyglot/v2"

	"verif/wire"
)

func init() { checks["C19"] = c19 }

type custom struct{ code int }

func (c *custom) Error() string { return fmt.Sprintf("custom %d", c.code) }

type byValue struct{ s string }

func (c byValue) Error() string { return c.s }

func decodeErr(ver string, e error) (error, error) {
	var in []byte
	if ver == "v1" {
		b := v1.NewBuffer()
		v1.Encoder(b).Error(e)
		in = b.Bytes()
	} else {
		b := v2.NewBuffer()
		v2.Encoder(b).Error(e)
		in = b.Bytes()
	}
	d, done := newDec(ver, in)
	defer done()
	v, err := d.Error()
	if d.Nil() || err == nil && func() bool { _, e := d.Uint8(); return e == nil }() {
		violate("%s: something is left over after the error %q", ver, clip(e.Error(), 80))
	}
	return v, err
}

func c19() {
	r := rng("C19")
	var originals []error
	for _, s := range []string{"", "a", "b", "A", "a ", " a", "a\n", "EOF", "invalid error encoding", "invalid string encoding", "invalid bytes encoding", "nil", "<nil>", "%!v", "caf\u00e9", "cafe\u0301", "\u4e16\u754c", "\xff\xfe not utf8", "nul\x00inside", strings.Repeat("long ", 5000), strings.Repeat("long ", 4999) + "lonG "} {
		originals = append(originals, errors.New(s), v1.Error(s), v2.Error(s), byValue{s}, fmt.Errorf("%s", s))
	}
	originals = append(originals, io.EOF, io.ErrUnexpectedEOF, &custom{4}, &custom{5}, fmt.Errorf("outer: %w", io.EOF), errors.Join(errors.New("one"), errors.New("two")),
		v1.InvalidError, v1.InvalidBytes, v2.ErrInvalidError, v2.ErrInvalidString)
	for i := 0; i < scale(150, 1500); i++ {
		s := string(r.Text(r.Size(300)))
		originals = append(originals, errors.New(s))
		if r.Bool() {
			originals = append(originals, errors.New(s+"x"), errors.New("x"+s), errors.New(strings.ToUpper(s)))
		}
	}
	for _, ver := range []string{"v1", "v2"} {
		for i, e := range originals {
			dec, err := decodeErr(ver, e)
			if err != nil {
				violate("%s: the error %q is reported as a decoding failure: %v", ver, clip(e.Error(), 80), err)
				continue
			}
			if dec == nil || dec.Error() != e.Error() {
				violate("%s: the error %q decodes to %q", ver, clip(e.Error(), 80), fmt.Sprint(dec))
				continue
			}
			wraps := []error{dec, fmt.Errorf("context: %w", dec), fmt.Errorf("a: %w", fmt.Errorf("b: %w", dec)), errors.Join(errors.New("other \x01"), dec)}
			// against itself, its neighbours, and a sample of all others
			for j := 0; j < 60; j++ {
				k := i
				if j > 0 {
					k = (i + j - 10 + len(originals)) % len(originals)
				}
				if j > 20 {
					k = r.N(len(originals))
				}
				o := originals[k]
				want := o.Error() == e.Error()
				w := wraps[j%len(wraps)]
				expect := want || w.Error() == o.Error() && isComparableTo(w, o)
				if got := errors.Is(w, o); got != expect {
					violate("%s: errors.Is(decoded %q, original %q) is %v (wrapping %d)", ver, clip(e.Error(), 60), clip(o.Error(), 60), got, j%len(wraps))
				}
			}
			if errors.Is(dec, nil) {
				violate("%s: a decoded error matches nil", ver)
			}
			note(fmt.Sprintf("%s error %T %q", ver, e, clip(e.Error(), 100)), false)
			count("errors.Is comparisons", 60)
		}
		// malformed errors are decoding failures and never an error value
		for i := 0; i < scale(3000, 30000); i++ {
			in := wire.Encode([]wire.Op{{C: 'e', B: r.Text(r.N(30))}})
			cut := r.N(len(in))
			d, done := newDec(ver, in[:cut])
			v, err := d.Error()
			done()
			sentinel := v1.InvalidError
			if ver == "v2" {
				sentinel = v2.ErrInvalidError
			}
			if err != sentinel || v != nil {
				violate("%s: a truncated error (%d of %d bytes) gave value %v and failure %v", ver, cut, len(in), v, err)
			}
			note(fmt.Sprintf("%s truncated %x %d", ver, in, cut), cut == 0)
		}
	}
}

// isComparableTo: the wrapper itself being the target is the only other way to match.
func isComparableTo(w, o error) bool { return w == o }
