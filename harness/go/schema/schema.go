// Package schema models protobuf schemas, messages of them and the documented field layout of the generated codecs:
// an independent reference for everything the generators produce.
package schema

import (
	"fmt"
	"go/token"
	"regexp"
	"strings"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
)

// Protobuf type numbers.
const (
	Double = 1 + iota
	Float
	Int64
	Uint64
	Int32
	Fixed64
	Fixed32
	Bool
	String
	Group
	Msg
	Bytes
	Uint32
	EnumT
	Sfixed32
	Sfixed64
	Sint32
	Sint64
)

var Scalars = []int{Double, Float, Int64, Uint64, Int32, Fixed64, Fixed32, Bool, String, Bytes, Uint32, EnumT, Sfixed32, Sfixed64, Sint32, Sint64}
var MapKeys = []int{Int64, Uint64, Int32, Fixed64, Fixed32, Bool, String, Uint32, Sfixed32, Sfixed64, Sint32, Sint64}

type Enum struct {
	Name, Full string
	Values     []string
	Nums       []int32
	Alias      bool
}

type Field struct {
	Name     string
	T        int
	Rep, Map bool
	Hook     bool // added by hooks of the generator, not declared
	Req, Opt bool // proto2 labels
	One      int  // number of its oneof, from 1
	Num      int32
	KeyT     int
	Msg      *Message
	Enum     *Enum
}

type Message struct {
	Name, Full string
	Fields     []*Field
	Nested     []*Message
	Enums      []*Enum
	Oneofs     int
}

type File struct {
	Name, Pkg, GoPkg string
	Proto2           bool
	Hook             string // parameter of the generator with hooks
	Rec              bool   // some message contains itself through singular fields
	Messages         []*Message
	Enums            []*Enum
}

// resolve fills in the full names.
func (f *File) Resolve() {
	pre := ""
	if f.Pkg != "" {
		pre = f.Pkg + "."
	}
	var walk func(pre string, ms []*Message, es []*Enum)
	walk = func(pre string, ms []*Message, es []*Enum) {
		for _, e := range es {
			e.Full = pre + e.Name
		}
		for _, m := range ms {
			m.Full = pre + m.Name
			walk(m.Full+".", m.Nested, m.Enums)
		}
	}
	walk(pre, f.Messages, f.Enums)
}

// All lists every message, nested ones included.
func (f *File) All() []*Message {
	var r []*Message
	var walk func(ms []*Message)
	walk = func(ms []*Message) {
		for _, m := range ms {
			r = append(r, m)
			walk(m.Nested)
		}
	}
	walk(f.Messages)
	return r
}

func (f *File) AllEnums() []*Enum {
	r := append([]*Enum(nil), f.Enums...)
	for _, m := range f.All() {
		r = append(r, m.Enums...)
	}
	return r
}

// Proto is the descriptor of the file.
func (f *File) Proto() *descriptorpb.FileDescriptorProto {
	f.Resolve()
	d := &descriptorpb.FileDescriptorProto{Name: proto.String(f.Name), Options: &descriptorpb.FileOptions{GoPackage: proto.String(f.GoPkg)}}
	if f.Pkg != "" {
		d.Package = proto.String(f.Pkg)
	}
	d.Syntax = proto.String("proto3")
	if f.Proto2 {
		d.Syntax = nil
	}
	for _, e := range f.Enums {
		d.EnumType = append(d.EnumType, e.proto())
	}
	for _, m := range f.Messages {
		d.MessageType = append(d.MessageType, m.proto())
	}
	return d
}

func (e *Enum) proto() *descriptorpb.EnumDescriptorProto {
	d := &descriptorpb.EnumDescriptorProto{Name: proto.String(e.Name)}
	if e.Alias {
		d.Options = &descriptorpb.EnumOptions{AllowAlias: proto.Bool(true)}
	}
	for i, v := range e.Values {
		d.Value = append(d.Value, &descriptorpb.EnumValueDescriptorProto{Name: proto.String(v), Number: proto.Int32(e.Nums[i])})
	}
	return d
}

func typeOf(t int) *descriptorpb.FieldDescriptorProto_Type {
	x := descriptorpb.FieldDescriptorProto_Type(t)
	return &x
}

func (m *Message) proto() *descriptorpb.DescriptorProto {
	d := &descriptorpb.DescriptorProto{Name: proto.String(m.Name)}
	for _, e := range m.Enums {
		d.EnumType = append(d.EnumType, e.proto())
	}
	for _, n := range m.Nested {
		d.NestedType = append(d.NestedType, n.proto())
	}
	for i := 0; i < m.Oneofs; i++ {
		d.OneofDecl = append(d.OneofDecl, &descriptorpb.OneofDescriptorProto{Name: proto.String(fmt.Sprintf("which_%d", i+1))})
	}
	typed := func(p *descriptorpb.FieldDescriptorProto, f *Field) {
		p.Type = typeOf(f.T)
		switch f.T {
		case Msg:
			p.TypeName = proto.String("." + f.Msg.Full)
		case EnumT:
			p.TypeName = proto.String("." + f.Enum.Full)
		}
	}
	for i, f := range m.Fields {
		if f.Hook {
			continue
		}
		num := f.Num
		if num == 0 {
			num = int32(i + 1)
		}
		p := &descriptorpb.FieldDescriptorProto{Name: proto.String(f.Name), Number: proto.Int32(num), JsonName: proto.String(f.Name)}
		if i%5 == 3 {
			p.JsonName = proto.String("jsonNameOf" + Camel(f.Name))
		}
		l := descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL
		switch {
		case f.Rep || f.Map:
			l = descriptorpb.FieldDescriptorProto_LABEL_REPEATED
		case f.Req:
			l = descriptorpb.FieldDescriptorProto_LABEL_REQUIRED
		}
		p.Label = &l
		if f.One > 0 {
			p.OneofIndex = proto.Int32(int32(f.One - 1))
		}
		if f.Map {
			entry := entryName(f.Name)
			k := &descriptorpb.FieldDescriptorProto{Name: proto.String("key"), Number: proto.Int32(1), Type: typeOf(f.KeyT), JsonName: proto.String("key"), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()}
			v := &descriptorpb.FieldDescriptorProto{Name: proto.String("value"), Number: proto.Int32(2), JsonName: proto.String("value"), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()}
			typed(v, f)
			d.NestedType = append(d.NestedType, &descriptorpb.DescriptorProto{Name: proto.String(entry), Field: []*descriptorpb.FieldDescriptorProto{k, v}, Options: &descriptorpb.MessageOptions{MapEntry: proto.Bool(true)}})
			p.Type = typeOf(Msg)
			p.TypeName = proto.String("." + m.Full + "." + entry)
		} else {
			typed(p, f)
		}
		d.Field = append(d.Field, p)
	}
	return d
}

// entryName is protoc's name for the entry message of a map field.
func entryName(s string) string {
	var b strings.Builder
	up := true
	for _, c := range s {
		switch {
		case c == '_':
			up = true
			continue
		case up && 'a' <= c && c <= 'z':
			c -= 32
		}
		up = false
		b.WriteRune(c)
	}
	return b.String() + "Entry"
}

// AddHooks gives every message the fields that hooks of the generator add in front.
func (f *File) AddHooks(hook string) {
	f.Hook = hook
	ts := map[string][]int{"string": {String}, "int64": {Int64}, "two": {Bytes, Bool}}[hook]
	for _, m := range f.All() {
		var fs []*Field
		for i, t := range ts {
			fs = append(fs, &Field{Name: fmt.Sprintf("hook_added_%c", 'a'+i), T: t, Hook: true})
		}
		for i, x := range m.Fields {
			if x.Num == 0 {
				x.Num = int32(i + 1)
			}
		}
		m.Fields = append(fs, m.Fields...)
	}
}

var typeNames = []string{"", "double", "float", "int64", "uint64", "int32", "fixed64", "fixed32", "bool", "string", "group", "message", "bytes", "uint32", "enum", "sfixed32", "sfixed64", "sint32", "sint64"}

// Text is the schema in protobuf notation, for reports.
func (f *File) Text() string {
	f.Resolve()
	var b strings.Builder
	if f.Proto2 {
		b.WriteString("syntax = \"proto2\";\n")
	} else {
		b.WriteString("syntax = \"proto3\";\n")
	}
	if f.Pkg != "" {
		fmt.Fprintf(&b, "package %s;\n", f.Pkg)
	}
	fmt.Fprintf(&b, "option go_package = %q;\n", f.GoPkg)
	enum := func(in string, e *Enum) {
		fmt.Fprintf(&b, "%senum %s {", in, e.Name)
		for i, v := range e.Values {
			fmt.Fprintf(&b, " %s = %d;", v, e.Nums[i])
		}
		b.WriteString(" }\n")
	}
	name := func(t int, x *Field) string {
		switch t {
		case Msg:
			return "." + x.Msg.Full
		case EnumT:
			return "." + x.Enum.Full
		}
		return typeNames[t]
	}
	var msg func(in string, m *Message)
	msg = func(in string, m *Message) {
		fmt.Fprintf(&b, "%smessage %s {\n", in, m.Name)
		for _, e := range m.Enums {
			enum(in+"  ", e)
		}
		for _, n := range m.Nested {
			msg(in+"  ", n)
		}
		for i, x := range m.Fields {
			fmt.Fprintf(&b, "%s  ", in)
			switch {
			case x.Map:
				fmt.Fprintf(&b, "map<%s, %s>", name(x.KeyT, nil), name(x.T, x))
			case x.Rep:
				fmt.Fprintf(&b, "repeated %s", name(x.T, x))
			case x.Req:
				fmt.Fprintf(&b, "required %s", name(x.T, x))
			case f.Proto2:
				fmt.Fprintf(&b, "optional %s", name(x.T, x))
			default:
				b.WriteString(name(x.T, x))
			}
			num := x.Num
			if num == 0 {
				num = int32(i + 1)
			}
			if x.Hook {
				b.WriteString(" (added by hooks)")
			}
			fmt.Fprintf(&b, " %s = %d;", x.Name, num)
			if x.One > 0 {
				fmt.Fprintf(&b, " // in oneof which_%d", x.One)
			}
			b.WriteByte('\n')
		}
		fmt.Fprintf(&b, "%s}\n", in)
	}
	for _, e := range f.Enums {
		enum("", e)
	}
	for _, m := range f.Messages {
		msg("", m)
	}
	return b.String()
}

// Camel is the Go and type name of a declared name: words start upper case, an underscore before a lower case letter goes.
func Camel(s string) string {
	var t []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		low := func(j int) bool { return j < len(s) && 'a' <= s[j] && s[j] <= 'z' }
		switch {
		case i == 0 && c == '_', c == '.', c == '_' && low(i+1):
			continue
		case '0' <= c && c <= '9':
			t = append(t, c)
			continue
		}
		if low(i) {
			c -= 32
		}
		t = append(t, c)
		for low(i + 1) {
			i++
			t = append(t, s[i])
		}
	}
	return string(t)
}

// Snake is the Rust field name of a declared name.
func Snake(s string) string {
	var b strings.Builder
	prev := false
	for _, c := range s {
		up := 'A' <= c && c <= 'Z'
		if up {
			if b.Len() > 0 && !prev {
				b.WriteByte('_')
			}
			c += 32
		}
		b.WriteRune(c)
		prev = up
	}
	return b.String()
}

// GoField is the Go struct field of a declared field: never the name of a generated method.
func GoField(s string) string {
	n := Camel(s)
	if n == "Encode" || n == "Decode" || n == "Error" {
		n += "_"
	}
	return n
}

var rustWords = map[string]bool{}

func init() {
	for _, w := range strings.Fields("as break const continue else enum extern false fn for if impl in let loop match mod move mut pub ref return static struct trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try gen") {
		rustWords[w] = true
	}
}

// RustField is the Rust struct field of a declared field.
func RustField(s string) string {
	n := Snake(s)
	switch {
	case n == "self" || n == "super" || n == "crate":
		return n + "_"
	case rustWords[n]:
		return "r#" + n
	}
	return n
}

// TSField is the TypeScript property of a declared field: never a word of the language or a name the generated class uses itself.
func TSField(s string) string {
	n := strings.ToLower(s[:1]) + s[1:]
	if tsWords[n] {
		n += "_"
	}
	return n
}

var plainWord = regexp.MustCompile(`^_*[A-Za-z][a-z]*[0-9]*_*$`)

// TSLists gives lists and maps named by one word longer names: generated decoders have variables of these names, which could be
// those of any other variable of the decoder.
func TSLists(f *File) {
	for _, m := range f.All() {
		n := namer{used: map[string]bool{}}
		for _, x := range m.Fields {
			n.take(x.Name)
		}
		for _, x := range m.Fields {
			if !(x.Rep || x.Map) || !plainWord.MatchString(x.Name) || tsWords[strings.ToLower(x.Name[:1])+x.Name[1:]] {
				continue
			}
			for s := x.Name; ; {
				if s += "Items"; n.take(s) {
					x.Name = s
					break
				}
			}
		}
	}
}

var tsWords = map[string]bool{}

func init() {
	for _, w := range strings.Fields("break case catch class const continue debugger default delete do else enum export extends false finally for function if import in instanceof new null return super switch this throw true try typeof var void while with implements interface let package private protected public static yield await eval arguments buf encoded decoded i encode constructor") {
		tsWords[w] = true
	}
}

// GoPackage is the package clause of the generated Go file.
func (f *File) GoPackage() string {
	n := f.Pkg[strings.LastIndexByte(f.Pkg, '.')+1:]
	if f.Pkg == "" {
		n = f.GoPkg[strings.LastIndexAny(f.GoPkg, "/;")+1:]
	}
	if token.IsKeyword(n) {
		n = "_" + n
	}
	return n
}

// Recursive tells whether the message of a singular field contains the message that declares the field through singular fields.
func Recursive(m *Message, f *Field) bool {
	seen := map[*Message]bool{}
	var has func(x *Message) bool
	has = func(x *Message) bool {
		if x == m {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, g := range x.Fields {
			if g.T == Msg && !g.Rep && !g.Map && has(g.Msg) {
				return true
			}
		}
		return false
	}
	return has(f.Msg)
}
