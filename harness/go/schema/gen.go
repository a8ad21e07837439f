package schema

import (
	"fmt"
	"strings"

	"verif/wire"
)

// odd names are words of the target languages and of the generated code itself.
var odd = strings.Fields("encode decode error type fn for in if else match mod move mut pub ref return self static struct super trait true false unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try as break const continue crate enum extern impl let loop gen b d k v i x err size temp map item nil func var range select go defer chan package import interface switch new buf encoded decoded number class this")

var words = []string{"id", "name", "user", "alpha", "beta", "gamma", "count", "flag", "data", "raw", "note", "level", "score", "ratio", "key", "value", "entry", "parent", "child", "node", "left", "right", "meta", "label", "owner", "state", "kind", "begin", "end", "path", "port", "host", "len", "result", "option", "string", "bytes", "total"}

type namer struct {
	r    *wire.RNG
	used map[string]bool
}

func (n *namer) take(s string) bool {
	plain := "p:" + strings.ToLower(strings.ReplaceAll(s, "_", "")) // also the names of map entries
	if n.used[Camel(s)] || n.used["s:"+Snake(s)] || n.used[plain] {
		return false
	}
	n.used[Camel(s)], n.used["s:"+Snake(s)], n.used[plain] = true, true, true
	return true
}

// takeCased accepts names that differ from others only in case.
func (n *namer) takeCased(s string) bool {
	if n.used[Camel(s)] || n.used["s:"+Snake(s)] {
		return false
	}
	n.used[Camel(s)], n.used["s:"+Snake(s)] = true, true
	return true
}

// field gives a fresh field name in one of the styles people use.
func (n *namer) field() string {
	for {
		a, b := words[n.r.N(len(words))], words[n.r.N(len(words))]
		var s string
		switch n.r.N(11) {
		case 10:
			switch c := strings.ToUpper(b); n.r.N(10) {
			case 8, 9:
				s = a[:1] + Camel(b)
			case 0:
				s = c + Camel(a)
			case 1:
				s = Camel(a) + c
			case 2:
				s = a + "__" + b
			case 3:
				s = a + "_"
			case 4:
				s = a + "_" + c
			case 5:
				s = c[:1]
			case 6:
				s = fmt.Sprintf("%s2%s_%dx", a, b, n.r.N(10))
			default:
				s = Camel(a) + "_" + Camel(b)
			}
		case 9:
			s = Camel(a)
			if n.r.Bool() {
				s += Camel(b)
			}
		case 8:
			s = odd[n.r.N(len(odd))]
		case 0, 1:
			s = a
		case 2, 3:
			s = a + "_" + b
		case 4:
			s = fmt.Sprintf("%s_%d", a, n.r.N(100))
		case 5:
			s = fmt.Sprintf("%s%d", a, n.r.N(100))
		case 6:
			s = a + Camel(b)
		default:
			s = a + "_" + b + "_" + words[n.r.N(len(words))]
		}
		if n.take(s) {
			return s
		}
	}
}

// Gen makes a random schema. Recursion goes only through repeated fields and map values.
func Gen(r *wire.RNG, i int) *File {
	f := &File{Name: fmt.Sprintf("s%d.proto", i), GoPkg: fmt.Sprintf("verif/gen/s%d", i)}
	switch r.N(6) {
	case 0:
		f.Pkg = ""
		if r.Bool() {
			f.GoPkg += fmt.Sprintf(";named_%d", i)
		}
	case 4:
		f.Pkg = fmt.Sprintf("corp%d.%s", i, []string{"type", "func", "range", "map", "string", "error", "interface", "select", "self", "mod", "polyglot", "errors"}[r.N(12)])
	case 5:
		f.Pkg = fmt.Sprintf("Acme.SubPart%d.x", i)
	case 1:
		f.Pkg = "pkg"
	case 2:
		f.Pkg = fmt.Sprintf("acme.part%d", i)
	default:
		f.Pkg = fmt.Sprintf("corp.data_%d.v1", i)
	}
	f.Proto2 = r.N(5) == 0
	types := &namer{r, map[string]bool{}}
	suffix := ""
	if i%4 == 1 {
		f.Pkg, suffix = "shared.names", fmt.Sprintf("Of%d", i)
	}
	styles := r.N(3) == 0
	typeName := func() string {
		for {
			s := Camel(words[r.N(len(words))])
			if r.Bool() {
				s += Camel(words[r.N(len(words))])
			}
			if r.N(4) == 0 {
				s += fmt.Sprint(r.N(10))
			}
			s = "M" + s + suffix // never a name of the Rust prelude or of a map type
			if styles {
				switch r.N(6) {
				case 0:
					s = Snake(s)
				case 1:
					s = "m" + s[1:]
				case 2:
					s = "M_" + s[1:]
				case 3:
					s = "MX" + s
				}
			}
			if types.take(s) {
				return s
			}
		}
	}
	var enums []*Enum
	var inner, innerEnums []string
	// again gives a name that a declaration inside another message has
	again := func(names []string, scope map[string]bool) string {
		if len(names) > 0 && scope != nil && r.N(3) == 0 {
			if s := names[r.N(len(names))]; !scope[s] {
				scope[s] = true
				return s
			}
		}
		return ""
	}
	enum := func(scope map[string]bool) *Enum {
		e := &Enum{Name: again(innerEnums, scope)}
		if e.Name == "" {
			e.Name = typeName() + "E"
			if scope != nil {
				innerEnums = append(innerEnums, e.Name)
				scope[e.Name] = true
			}
		}
		style := r.N(6)
		n := 1 + r.N(6)
		if r.N(10) == 0 {
			n = 100 + r.N(500) // more than a byte counts
		}
		at := int32(0)
		for j := 0; j < n; j++ {
			switch r.N(4) {
			case 0:
				e.Values = append(e.Values, fmt.Sprintf("%s_V%d", upper(e.Name), j))
			default:
				e.Values = append(e.Values, fmt.Sprintf("%s_%s_%d", upper(e.Name), upper(words[r.N(len(words))]), j))
			}
			switch v := &e.Values[j]; style {
			case 0:
				*v = strings.ToLower(*v)
			case 1:
				*v = "C" + Camel(strings.ToLower(*v))
			}
			e.Nums = append(e.Nums, at)
			at += 1 + int32(r.N(3))*int32(r.N(2))
			if style == 2 { // numbers that have nothing to do with positions
				at = []int32{-1, -1 << 31, 1<<31 - 1, 300, 7, -40}[r.N(6)] + int32(j)*int32(1-2*r.N(2))
				for taken := true; taken; {
					taken = false
					for _, n := range e.Nums {
						if n == at {
							taken = true
							at -= 1
						}
					}
				}
			}
		}
		if n > 1 && style == 3 { // two names for one number
			e.Alias = true
			e.Nums[n-1] = e.Nums[r.N(n-1)]
		}
		enums = append(enums, e)
		return e
	}
	var all []*Message
	for n := r.N(3); n > 0; n-- {
		f.Enums = append(f.Enums, enum(nil))
	}
	var shell func(depth int, scope map[string]bool) *Message
	shell = func(depth int, scope map[string]bool) *Message {
		m := &Message{Name: again(inner, scope)}
		if m.Name == "" {
			m.Name = typeName()
			if scope != nil {
				inner = append(inner, m.Name)
				scope[m.Name] = true
			}
		}
		all = append(all, m)
		mine := map[string]bool{}
		for n := r.N(3) / 2 * (1 + r.N(2)); n > 0; n-- {
			m.Enums = append(m.Enums, enum(mine))
		}
		if depth < 5 && len(all) < 14 {
			for n := r.N(3) * r.N(2); n > 0; n-- {
				m.Nested = append(m.Nested, shell(depth+1, mine))
			}
		}
		return m
	}
	for n := 1 + r.N(4); n > 0; n-- {
		f.Messages = append(f.Messages, shell(1, nil))
	}
	if len(enums) == 0 {
		f.Enums = append(f.Enums, enum(nil))
	}
	// single message fields go only to messages with a smaller rank
	rank := map[*Message]int{}
	for j, m := range permute(r, all) {
		rank[m] = j
	}
	lower := func(m *Message) *Message {
		var c []*Message
		for _, o := range all {
			if rank[o] < rank[m] {
				c = append(c, o)
			}
		}
		if len(c) == 0 {
			return nil
		}
		return c[r.N(len(c))]
	}
	for _, m := range all {
		n := &namer{r, map[string]bool{}}
		style := r.N(6)
		fields := 1 + r.N(9)
		if r.N(9) == 0 {
			fields = 0
		}
		for k := fields; k > 0; k-- {
			x := &Field{Name: n.field()}
			what := r.N(10)
			switch style { // messages of one sort of field only
			case 0:
				what = r.N(4)
			case 1:
				what = 4 + r.N(2)
			case 2:
				what = 6 + r.N(2)
			case 3:
				what = 8 + r.N(2)
			}
			switch {
			case what < 4: // scalar
				x.T = Scalars[r.N(len(Scalars))]
			case what < 6: // repeated
				x.Rep = true
				x.T = Scalars[r.N(len(Scalars))]
				if r.N(3) == 0 {
					x.T, x.Msg = Msg, all[r.N(len(all))]
				}
			case what < 8: // map
				x.Map = true
				x.KeyT = MapKeys[r.N(len(MapKeys))]
				x.T = Scalars[r.N(len(Scalars))]
				if r.N(3) == 0 {
					x.T, x.Msg = Msg, all[r.N(len(all))]
				}
			default:
				x.T, x.Msg = Msg, lower(m)
				if x.Msg == nil {
					x.T = Scalars[r.N(len(Scalars))]
				}
			}
			if x.T == EnumT {
				x.Enum = enums[r.N(len(enums))]
			}
			if f.Proto2 && !x.Rep && !x.Map {
				x.Req = r.N(3) == 0
			}
			m.Fields = append(m.Fields, x)
		}
		if r.N(4) == 0 { // neighbouring fields that form a oneof
			for _, x := range m.Fields {
				if !x.Rep && !x.Map && !x.Req && r.N(3) > 0 {
					m.Oneofs = 1
					x.One = 1
				} else if m.Oneofs > 0 {
					break
				}
			}
		}
	}
	if r.N(5) == 0 { // messages that contain themselves or each other, behind a scalar
		f.Rec = true
		for n := 1 + r.N(3); n > 0; n-- {
			m := all[r.N(len(all))]
			m.Fields = append(m.Fields, &Field{Name: fmt.Sprintf("again_%d", n), T: Msg, Msg: all[r.N(len(all))]}, &Field{Name: fmt.Sprintf("first_%d", n), T: Scalars[r.N(11)]})
		}
	}
	for _, m := range all { // the layout is that of the declarations, whatever the numbers
		if r.N(3) == 0 {
			for k, j := range permuteInts(r, len(m.Fields)) {
				m.Fields[k].Num = int32(j*(1+r.N(2)*100) + j + 1)
				if r.N(8) == 0 {
					m.Fields[k].Num = int32([]int{536870911, 31, 32, 2047, 2048, 18999, 20050, 65536}[r.N(8)] - j)
				}
			}
			seen := map[int32]bool{}
			for _, x := range m.Fields {
				for seen[x.Num] {
					x.Num++
				}
				seen[x.Num] = true
			}
		}
	}
	f.Resolve()
	return f
}

func permuteInts(r *wire.RNG, n int) []int {
	b := make([]int, n)
	for i := range b {
		b[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		b[i], b[j] = b[j], b[i]
	}
	return b
}

func permute(r *wire.RNG, a []*Message) []*Message {
	b := append([]*Message(nil), a...)
	for i := len(b) - 1; i > 0; i-- {
		j := r.N(i + 1)
		b[i], b[j] = b[j], b[i]
	}
	return b
}

func upper(s string) string {
	b := []byte(Snake(s))
	for i, c := range b {
		if 'a' <= c && c <= 'z' {
			b[i] = c - 32
		}
	}
	return string(b)
}

// Fixed lists the schemas every run uses: every kind on its own, repeated and in maps, and the shapes that matter.
func Fixed() []*File {
	var fs []*File
	e := func(name string) *Enum {
		return &Enum{Name: name, Values: []string{upper(name) + "_ZERO", upper(name) + "_ONE", upper(name) + "_FIVE"}, Nums: []int32{0, 1, 5}}
	}
	add := func(f *File) *File {
		f.Name = fmt.Sprintf("f%d.proto", len(fs))
		f.GoPkg = fmt.Sprintf("verif/gen/f%d", len(fs))
		fs = append(fs, f)
		return f
	}
	// 0: every scalar kind, in one message and in a message of its own
	f := add(&File{Pkg: "every", Enums: []*Enum{e("Mode")}})
	one := &Message{Name: "All"}
	for _, t := range Scalars {
		n := typeNames[t]
		x := &Field{Name: "f_" + n, T: t}
		y := &Field{Name: "only_" + n, T: t}
		if t == EnumT {
			x.Enum, y.Enum = f.Enums[0], f.Enums[0]
		}
		one.Fields = append(one.Fields, x)
		f.Messages = append(f.Messages, &Message{Name: "One" + Camel(n), Fields: []*Field{y}})
	}
	f.Messages = append(f.Messages, one)
	// 1: every kind repeated, alone and together, and repeated messages
	f = add(&File{Pkg: "lists.v1", Enums: []*Enum{e("Mode")}})
	one = &Message{Name: "All"}
	leaf := &Message{Name: "Leaf", Fields: []*Field{{Name: "id", T: Uint32}}}
	for _, t := range append(append([]int{}, Scalars...), Msg) {
		n := typeNames[t]
		x := &Field{Name: "f_" + n, T: t, Rep: true}
		y := &Field{Name: "only_" + n, T: t, Rep: true}
		switch t {
		case EnumT:
			x.Enum, y.Enum = f.Enums[0], f.Enums[0]
		case Msg:
			x.Msg, y.Msg = leaf, leaf
		}
		one.Fields = append(one.Fields, x)
		f.Messages = append(f.Messages, &Message{Name: "One" + Camel(n), Fields: []*Field{y}})
	}
	f.Messages = append(f.Messages, one, leaf)
	// 2: maps of every key kind and every value kind
	f = add(&File{Enums: []*Enum{e("Mode")}})
	leaf = &Message{Name: "Leaf", Fields: []*Field{{Name: "id", T: String}}}
	one = &Message{Name: "All"}
	k := 0
	for _, t := range append(append([]int{}, Scalars...), Msg) {
		n := typeNames[t]
		kt := MapKeys[k%len(MapKeys)]
		k++
		x := &Field{Name: "f_" + n, T: t, Map: true, KeyT: kt}
		y := &Field{Name: "only_" + n, T: t, Map: true, KeyT: String}
		switch t {
		case EnumT:
			x.Enum, y.Enum = f.Enums[0], f.Enums[0]
		case Msg:
			x.Msg, y.Msg = leaf, leaf
		}
		one.Fields = append(one.Fields, x)
		f.Messages = append(f.Messages, &Message{Name: "One" + Camel(n), Fields: []*Field{y}})
	}
	for _, kt := range MapKeys {
		one.Fields = append(one.Fields, &Field{Name: "k_" + typeNames[kt], T: Bool, Map: true, KeyT: kt})
	}
	f.Messages = append(f.Messages, one, leaf)
	// 3: recursion through lists and maps, also mutual
	f = add(&File{Pkg: "tree"})
	node := &Message{Name: "Node"}
	a, b := &Message{Name: "Ping"}, &Message{Name: "Pong"}
	node.Fields = []*Field{{Name: "id", T: Int32}, {Name: "children", T: Msg, Rep: true, Msg: node}, {Name: "named", T: Msg, Map: true, KeyT: String, Msg: node}}
	a.Fields = []*Field{{Name: "pongs", T: Msg, Rep: true, Msg: b}, {Name: "tag", T: Bytes}}
	b.Fields = []*Field{{Name: "pings", T: Msg, Map: true, KeyT: Int64, Msg: a}, {Name: "note", T: String, Rep: true}}
	f.Messages = []*Message{node, a, b}
	// 4: nested declarations four deep with enums, used across
	f = add(&File{Pkg: "nest.deep"})
	l4 := &Message{Name: "L4", Enums: []*Enum{e("E4")}}
	l3 := &Message{Name: "L3", Nested: []*Message{l4}, Enums: []*Enum{e("E3")}}
	l2 := &Message{Name: "L2", Nested: []*Message{l3}}
	l1 := &Message{Name: "L1", Nested: []*Message{l2}, Enums: []*Enum{e("E1")}}
	l4.Fields = []*Field{{Name: "e4", T: EnumT, Enum: l4.Enums[0]}, {Name: "e1", T: EnumT, Enum: l1.Enums[0], Rep: true}}
	l3.Fields = []*Field{{Name: "l4", T: Msg, Msg: l4}, {Name: "e3", T: EnumT, Enum: l3.Enums[0]}, {Name: "by", T: EnumT, Enum: l4.Enums[0], Map: true, KeyT: Uint32}}
	l2.Fields = []*Field{{Name: "n", T: Sint64}, {Name: "l3", T: Msg, Msg: l3}, {Name: "l4s", T: Msg, Msg: l4, Rep: true}}
	l1.Fields = []*Field{{Name: "s", T: String}, {Name: "l2", T: Msg, Msg: l2}, {Name: "l3", T: Msg, Msg: l3}, {Name: "m", T: Msg, Msg: l2, Map: true, KeyT: Bool}}
	f.Messages = []*Message{l1}
	// 5: several sub-messages after a scalar, so that each may be absent
	f = add(&File{Pkg: "abs", Proto2: true})
	leaf = &Message{Name: "Leaf", Fields: []*Field{{Name: "id", T: Uint64, Req: true}, {Name: "name", T: String}}}
	mid := &Message{Name: "Mid", Fields: []*Field{{Name: "n", T: Int32}, {Name: "l", T: Msg, Msg: leaf}, {Name: "r", T: Msg, Msg: leaf, Req: true}}}
	top := &Message{Name: "Top", Fields: []*Field{{Name: "z", T: Msg, Msg: mid}, {Name: "n", T: Double}, {Name: "y", T: Msg, Msg: leaf}, {Name: "many", T: Msg, Msg: mid, Rep: true}, {Name: "w", T: Msg, Msg: mid}, {Name: "by", T: Msg, Msg: mid, Map: true, KeyT: Sint32}}}
	f.Messages = []*Message{top, mid, leaf}
	// 6: enums only
	add(&File{Pkg: "enums", Enums: []*Enum{e("First"), e("Second")}})
	// 7: no package, messages of scalars only
	f = add(&File{})
	f.Messages = []*Message{{Name: "Plain", Fields: []*Field{{Name: "on", T: Bool}, {Name: "fooBar", T: String}, {Name: "x_1", T: Sfixed64}, {Name: "y2z", T: Bytes}}}}
	// 8: messages that contain themselves
	f = add(&File{Pkg: "rec", Rec: true})
	node = &Message{Name: "Cell"}
	a, b = &Message{Name: "Even"}, &Message{Name: "Odd"}
	node.Fields = []*Field{{Name: "v", T: Int32}, {Name: "next", T: Msg, Msg: node}}
	a.Fields = []*Field{{Name: "n", T: Uint32}, {Name: "odd", T: Msg, Msg: b}, {Name: "cell", T: Msg, Msg: node}}
	b.Fields = []*Field{{Name: "even", T: Msg, Msg: a}, {Name: "s", T: String}, {Name: "evens", T: Msg, Rep: true, Msg: a}, {Name: "odds", T: Msg, Map: true, KeyT: String, Msg: b}}
	top = &Message{Name: "Root", Fields: []*Field{{Name: "e", T: Msg, Msg: a}, {Name: "o", T: Msg, Msg: b}, {Name: "x", T: Bool}}}
	f.Messages = []*Message{node, a, b, top}
	// 9: messages without fields, alone, nested, in lists and maps, and a oneof
	f = add(&File{Pkg: "void"})
	leaf = &Message{Name: "Nothing"}
	mid = &Message{Name: "Wrapped", Fields: []*Field{{Name: "inner", T: Msg, Msg: leaf}}}
	top = &Message{Name: "Holder", Oneofs: 2, Fields: []*Field{{Name: "id", T: Uint32, One: 1}, {Name: "name", T: String, One: 1}, {Name: "nothing", T: Msg, Msg: leaf, One: 2}, {Name: "some", T: Msg, Rep: true, Msg: leaf},
		{Name: "by", T: Msg, Map: true, KeyT: String, Msg: leaf}, {Name: "deep", T: Msg, Msg: mid}, {Name: "last", T: Msg, Map: true, KeyT: Uint32, Msg: mid}}}
	f.Messages = []*Message{leaf, mid, top}
	// 10: enums of more constants than a byte counts, everywhere an enum can stand
	f = add(&File{Pkg: "wide"})
	wide := &Enum{Name: "Wide"}
	inner := &Enum{Name: "Inner"}
	for i := 0; i < 700; i++ {
		wide.Values = append(wide.Values, fmt.Sprintf("WIDE_%d", i))
		wide.Nums = append(wide.Nums, int32(i))
		if i < 257 {
			inner.Values = append(inner.Values, fmt.Sprintf("INNER_V%d", i))
			inner.Nums = append(inner.Nums, int32(i*3))
		}
	}
	f.Enums = []*Enum{wide}
	mid = &Message{Name: "Part", Enums: []*Enum{inner}, Fields: []*Field{{Name: "inner", T: EnumT, Enum: inner}, {Name: "wides", T: EnumT, Rep: true, Enum: wide}}}
	top = &Message{Name: "Whole", Fields: []*Field{{Name: "wide", T: EnumT, Enum: wide}, {Name: "inners", T: EnumT, Rep: true, Enum: inner}, {Name: "many", T: EnumT, Rep: true, Enum: wide},
		{Name: "by_name", T: EnumT, Map: true, KeyT: String, Enum: wide}, {Name: "by_id", T: EnumT, Map: true, KeyT: Uint64, Enum: inner}, {Name: "part", T: Msg, Msg: mid}, {Name: "parts", T: Msg, Rep: true, Msg: mid}}}
	f.Messages = []*Message{top, mid}
	// 11: a file whose code is long
	f = add(&File{Pkg: "long.file", Enums: []*Enum{e("Mode")}})
	var prev *Message
	for i := 0; i < 60; i++ {
		m := &Message{Name: fmt.Sprintf("Entry%d", i)}
		for j := 0; j < 6; j++ {
			t := Scalars[(i*5+j*3)%len(Scalars)]
			x := &Field{Name: fmt.Sprintf("field_%d_%c", i, 'a'+j), T: t, Rep: (i+j)%4 == 1}
			if (i+j)%4 == 2 {
				x.Map, x.KeyT = true, MapKeys[(i+j)%len(MapKeys)]
			}
			if t == EnumT {
				x.Enum = f.Enums[0]
			}
			m.Fields = append(m.Fields, x)
		}
		if prev != nil && i%7 != 0 {
			m.Fields = append(m.Fields, &Field{Name: "before", T: Msg, Msg: prev, Rep: i%3 == 0})
		}
		f.Messages = append(f.Messages, m)
		prev = m
	}
	// one message of many fields
	m := &Message{Name: "Everything"}
	for j := 0; j < 130; j++ {
		t := Scalars[j%len(Scalars)]
		x := &Field{Name: fmt.Sprintf("many%d", j), T: t, Rep: j%9 == 4}
		if j%9 == 7 {
			x.Map, x.KeyT = true, MapKeys[j%len(MapKeys)]
		}
		if t == EnumT {
			x.Enum = f.Enums[0]
		}
		m.Fields = append(m.Fields, x)
	}
	f.Messages = append(f.Messages, m)
	// 12: the same names in different scopes
	f = add(&File{Pkg: "scopes"})
	for i, outer := range []string{"Left", "Right", "Mid"} {
		o := &Message{Name: outer}
		in := &Message{Name: "Inner"}
		ee := &Enum{Name: "State"}
		for j := 0; j <= i; j++ {
			ee.Values = append(ee.Values, fmt.Sprintf("STATE_%d", (j+i)%3))
			ee.Nums = append(ee.Nums, int32(j))
		}
		in.Fields = []*Field{{Name: "x", T: []int{Int32, String, Double}[i]}, {Name: "state", T: EnumT, Enum: ee}}
		if i == 1 {
			in.Fields = append(in.Fields, &Field{Name: "extra", T: Bytes, Rep: true})
		}
		o.Nested, o.Enums = []*Message{in}, []*Enum{ee}
		o.Fields = []*Field{{Name: "id", T: Uint32}, {Name: "inner", T: Msg, Msg: in}, {Name: "inners", T: Msg, Rep: true, Msg: in}, {Name: "by", T: Msg, Map: true, KeyT: String, Msg: in}, {Name: "states", T: EnumT, Rep: true, Enum: ee}, {Name: "named", T: EnumT, Map: true, KeyT: []int{String, Bool, Uint32}[i], Enum: ee}}
		f.Messages = append(f.Messages, o)
	}
	f.Messages[2].Fields = append(f.Messages[2].Fields, &Field{Name: "other", T: Msg, Msg: f.Messages[0].Nested[0]}, &Field{Name: "others", T: Msg, Rep: true, Msg: f.Messages[1].Nested[0]}, &Field{Name: "other_state", T: EnumT, Enum: f.Messages[0].Enums[0]})
	// 13: names that are nearly the same
	f = add(&File{Pkg: "near"})
	top = &Message{Name: "Near"}
	for i, n := range strings.Fields("ab aB abc aBc abC ABc a1 a_1 a1b a1B x xy xY x_y_z xyZ xYz id iD i_d_s idS idx") {
		t := []int{Uint32, String, Bool, Bytes, Sint64, Double}[i%6]
		top.Fields = append(top.Fields, &Field{Name: n, T: t, Rep: i%5 == 2})
	}
	nn := &namer{r: nil, used: map[string]bool{}}
	kept := top.Fields[:0]
	for _, x := range top.Fields {
		if nn.takeCased(x.Name) {
			kept = append(kept, x)
		}
	}
	top.Fields = kept
	leaf = &Message{Name: "NearBy", Fields: []*Field{{Name: "qTop", T: Msg, Msg: top}, {Name: "qtop", T: Msg, Rep: true, Msg: top}, {Name: "qtOp", T: Msg, Map: true, KeyT: String, Msg: top}, {Name: "qtoP", T: String, Map: true, KeyT: Int32}}}
	f.Messages = []*Message{top, leaf}
	for _, f := range fs {
		f.Resolve()
	}
	return fs
}
