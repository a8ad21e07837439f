// Command plug2 makes plugins of what the repository offers as libraries only: the v2 generators of Rust and TypeScript, and the
// hooks of the Go generators.
package main

import (
	"hash/crc32"
	"io"
	"os"
	"sync"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/pluginpb"

	go1 "github.com/loopholelabs/polyglot/generator/golang"
	go2 "github.com/loopholelabs/polyglot/v2/generator/golang"
	"github.com/loopholelabs/polyglot/v2/generator/rust"
	"github.com/loopholelabs/polyglot/v2/generator/typescript"
)

type gen interface {
	UnmarshalRequest(buf []byte) (*pluginpb.CodeGeneratorRequest, error)
	Generate(req *pluginpb.CodeGeneratorRequest) (*pluginpb.CodeGeneratorResponse, error)
	MarshalResponse(res *pluginpb.CodeGeneratorResponse) ([]byte, error)
}

type hook struct{ fields, encode, decode string }

var hooks = map[string]hook{
	"string": {"HookAddedA string", "polyglot.Encoder(b).String(x.HookAddedA)", "x.HookAddedA, err = d.String()\nif err != nil {\nreturn err\n}"},
	"int64":  {"HookAddedA int64", "polyglot.Encoder(b).Int64(x.HookAddedA)", "x.HookAddedA, err = d.Int64()\nif err != nil {\nreturn err\n}"},
	"two": {"HookAddedA []byte\nHookAddedB bool", "polyglot.Encoder(b).Bytes(x.HookAddedA)\npolyglot.Encoder(b).Bool(x.HookAddedB)",
		"x.HookAddedA, err = d.Bytes(nil)\nif err != nil {\nreturn err\n}\nx.HookAddedB, err = d.Bool()\nif err != nil {\nreturn err\n}"},
}

func give(s string) func() string { return func() string { return s } }

func generator(name string) gen {
	switch name {
	case "typescript":
		return typescript.New()
	case "hooks-v1":
		return go1.New()
	case "hooks-v2":
		return go2.New()
	}
	return rust.New()
}

func set(g gen, h hook) {
	switch g := g.(type) {
	case *go1.Generator:
		g.CustomFields, g.CustomEncode, g.CustomDecode = give(h.fields), give(h.encode), give(h.decode)
	case *go2.Generator:
		g.CustomFields, g.CustomEncode, g.CustomDecode = give(h.fields), give(h.encode), give(h.decode)
	}
}

// others lets other hooks be used in this process before or while those asked for are, which must not matter.
// One of the other generators was made before it, one after it.
func others(name string, first, g gen, req *pluginpb.CodeGeneratorRequest) (done func()) {
	var n uint32
	for _, f := range req.FileToGenerate {
		n += crc32.ChecksumIEEE([]byte(f))
	}
	run := func(g gen) { g.Generate(proto.Clone(req).(*pluginpb.CodeGeneratorRequest)) }
	unwanted := hook{"Unwanted float64", "polyglot.Encoder(b).Float64(x.Unwanted)", "x.Unwanted, err = d.Float64()\nif err != nil {\nreturn err\n}"}
	last := generator(name)
	set(first, unwanted)
	set(last, unwanted)
	switch n % 5 {
	case 1: // other generators, used before
		run(first)
		run(last)
	case 2: // another generator without hooks, used before
		run(generator(name))
	case 3: // the same generator, before it has its hooks and with others
		run(g)
		set(g, hook{"Unwanted bool", "", ""})
		run(g)
	case 4: // others at the same time
		var wg sync.WaitGroup
		wg.Add(2)
		for _, other := range []gen{first, last} {
			go func() {
				defer wg.Done()
				for range 4 {
					run(other)
				}
			}()
		}
		return wg.Wait
	}
	return func() {}
}

func main() {
	data, err := io.ReadAll(os.Stdin)
	if err != nil {
		panic(err)
	}
	req, err := rust.New().UnmarshalRequest(data)
	if err != nil {
		panic(err)
	}
	first := generator(os.Args[1])
	g := generator(os.Args[1])
	done := func() {}
	if h, ok := hooks[req.GetParameter()]; ok {
		done = others(os.Args[1], first, g, req)
		set(g, h)
	}
	res, err := g.Generate(req)
	done()
	if err != nil {
		panic(err)
	}
	if data, err = g.MarshalResponse(res); err != nil {
		panic(err)
	}
	os.Stdout.Write(data)
}
