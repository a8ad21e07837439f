package main

import (
	"errors"
	"fmt"

	p1 "github.com/loopholelabs/polyglot"
	p2 "github.com/loopholelabs/polyglot/v2"
)

// Errors of every make whose text is the given one and nothing else about them is.
type wrapping struct {
	text  string
	inner error
}

func (w wrapping) Error() string { return w.text }
func (w wrapping) Unwrap() error { return w.inner }

type joining struct{ text string }

func (j *joining) Error() string   { return j.text }
func (j *joining) Unwrap() []error { return []error{errors.New("first"), errors.New("second")} }

// silent joins nothing and has a cause and a code that say nothing.
type silent struct{ text string }

func (s silent) Error() string   { return s.text }
func (s silent) Unwrap() []error { return nil }
func (s silent) Cause() error    { return errors.New("") }
func (s silent) String() string  { return "" }
func (s silent) Code() int       { return 0 }

type talkative struct{ text string }

func (t talkative) Error() string                 { return t.text }
func (t talkative) String() string                { return "as a string" }
func (t talkative) GoString() string              { return "in Go" }
func (t talkative) Message() string               { return "a message" }
func (t talkative) Format(f fmt.State, verb rune) { fmt.Fprint(f, "formatted") }
func (t talkative) Is(error) bool                 { return true }
func (t talkative) As(any) bool                   { return false }
func (t talkative) Timeout() bool                 { return true }
func (t talkative) MarshalText() ([]byte, error)  { return []byte("marshalled"), nil }

type bytesError []byte

func (b bytesError) Error() string { return string(b) }

type mapError map[string]string // not comparable

func (m mapError) Error() string { return m["text"] }

func errorOf(b []byte) error {
	t := string(b)
	n := len(b)
	if n > 0 {
		n += int(b[n/2])
	}
	switch n % 15 {
	case 9:
		return wrapping{t, nil}
	case 10: // wraps an error without a message
		return &wrapping{t, errors.New("")}
	case 11:
		return wrapping{t, &wrapping{"", p1.Error("")}}
	case 12:
		return &wrapping{t, &joining{""}}
	case 13:
		return silent{t}
	case 14:
		return &wrapping{t, wrapping{t, p1.Error(t + ".")}}
	case 0:
		return p1.Error(t)
	case 1:
		return p2.Error(t)
	case 2:
		return errors.New(t)
	case 3:
		return wrapping{t, errors.New("inner")}
	case 4:
		return &wrapping{t, wrapping{"middle", p2.Error("innermost")}}
	case 5:
		return &joining{t}
	case 6:
		return talkative{t}
	case 7:
		return bytesError(b)
	default:
		return mapError{"text": t}
	}
}
