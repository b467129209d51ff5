package hz

import (
	"fmt"
	"slices"
	"strings"

	pb "google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"
	"pgregory.net/rapid"
)

// A set of .proto files, as drawn.

type PEnumVal struct {
	Name    string `json:"n"`
	Num     int32  `json:"v"`
	Comment string `json:"c,omitempty"`
	Trail   string `json:"t,omitempty"`
	Dep     bool   `json:"d,omitempty"`
}

type PEnum struct {
	Name    string     `json:"n"`
	Vals    []PEnumVal `json:"v"`
	Comment string     `json:"c,omitempty"`
	Dep     bool       `json:"d,omitempty"`
}

type PField struct {
	Name    string `json:"n"`
	Num     int    `json:"num"`
	Kind    Kind   `json:"k"`
	Label   string `json:"l,omitempty"` // "", opt, req, rep, map
	Key     Kind   `json:"key,omitempty"`
	Type    string `json:"type,omitempty"` // full name of a message or enum
	Oneof   string `json:"oneof,omitempty"`
	Packed  int    `json:"p,omitempty"` // 0 default, 1 true, 2 false
	Default string `json:"def,omitempty"`
	JSON    string `json:"json,omitempty"`
	Comment string `json:"c,omitempty"`
	Trail   string `json:"t,omitempty"`
	Dep     bool   `json:"d,omitempty"`
}

type PMsg struct {
	Name    string   `json:"n"`
	Fields  []PField `json:"f,omitempty"`
	Msgs    []PMsg   `json:"m,omitempty"`
	Enums   []PEnum  `json:"e,omitempty"`
	Comment string   `json:"c,omitempty"`
	Dep     bool     `json:"d,omitempty"`
	Ext     bool     `json:"ext,omitempty"`  // has an extension range
	Opts    []byte   `json:"opts,omitempty"` // options which are not those of descriptor.proto
}

type PFile struct {
	Path    string  `json:"path"`
	Pkg     string  `json:"pkg,omitempty"`
	Go      string  `json:"go,omitempty"` // go_package
	Proto2  bool    `json:"p2,omitempty"`
	Deps    []int   `json:"deps,omitempty"`
	Public  []int   `json:"pub,omitempty"` // indices of Deps
	Msgs    []PMsg  `json:"m,omitempty"`
	Enums   []PEnum `json:"e,omitempty"`
	Dep     bool    `json:"d,omitempty"`
	Extend  string  `json:"extend,omitempty"` // full name of an extendable message
	Service bool    `json:"svc,omitempty"`
}

type ProtoSet struct {
	Files []PFile `json:"files"`
	Param string  `json:"param,omitempty"`
}

func full(scope, name string) string {
	if scope == "" {
		return name
	}
	return scope + "." + name
}

// Drawing.

type visible struct {
	name string
	enum *PEnum
	p2   bool
	file int
}

type setGen struct {
	t     *rapid.T
	n     int // for unique names
	max   int // the greatest so far
	named map[int]string
	again bool // files of different packages may use the same names
	lits  map[string]bool
	ps    *ProtoSet
	types []visible // all so far
	wide  string    // what there is a lot of in the first file
}

// wides are what a set can have a lot of: more than a byte counts.
var wides = []string{"msgs", "nested", "enums", "vals", "fields", "oneof", "depth", "names"}

var typeStyles = []string{"M%d", "msg_%d", "Foo%dBar", "_m%d", "mM%d", "M%d_", "type_%d_x", "T%dt", "REQ%d", "a%d_b_c", "M_%d", "String%d", "x%d"}
var valStyles = []string{"V%d", "E_VAL_%d", "val%d", "_V%d", "aB%d", "UNKNOWN_%d", "type_%d"}

// names which mean something in Go, in the generated code or in protogen
var fieldNames = []string{"a", "b", "c", "id", "type", "func", "range", "map", "string", "int32", "bool", "len", "nil", "true", "x", "m", "ok", "get_a", "get_b",
	"A", "GetA", "getA", "reset", "Reset", "marshal", "descriptor", "proto_message", "size", "_x", "x_", "a_b", "a__b", "aB", "A_B", "a1", "a_1", "a_1b",
	"proto", "option", "unwrap", "interface", "struct", "return", "package", "import", "XXX_unrecognized", "protobuf", "value", "key", "name", "error", "go",
	"message", "default", "is_x", "get_x", "get_x_", "X", "_b", "f0", "unsafe", "data", "list", "kind", "extension_map", "byte", "float32", "init", "main"}
var oneofNames = []string{"o", "value", "kind", "get_o", "x", "oneof", "type", "m", "isa", "A", "choice", "get_a", "a_b", "string", "reset", "_o"}

var comments = []string{" A comment.\n", " Two\n lines\n", " has */ and /* inside\n", " // nested\n", " `back` \"quotes\"\n", "no space\n", " no newline at the end",
	"\n", " Deprecated: by hand.\n", " tab\there\n", " üñí 世界\n", " a\n\n b\n", " import \"x\"\n package y\n", " {\n}\n", "\n leading empty line\n", " percent %d %s\n",
	" Was once Deprecated: but is deprecated no more.\n", " 50%\n", " a%!b\n\tcode()\n\n # Heading\n\n - one\n - two\n"}

// custom options of messages: field tracking on and off, and others
var customOpts = func() (o [][]byte) {
	const track = 37383685
	v := func(num int, x uint64) []byte { return uvarint(uvarint(nil, tagOf(num, WVarint)), x) }
	return [][]byte{v(track, 1), v(track, 1), v(track, 0), v(50000, 1), append(uvarint(nil, tagOf(50001, WLen)), 3, 'a', 'b', 'c'),
		append(uvarint(nil, tagOf(track, WLen)), 1, 1), append(uvarint(nil, tagOf(50002, WI64)), 1, 2, 3, 4, 5, 6, 7, 8),
		append(uvarint(nil, tagOf(50003, WI32)), 1, 2, 3, 4), uvarint(append(uvarint(nil, tagOf(50005, 3)), v(1, 7)...), tagOf(50005, 4))}
}()

func (g *setGen) comment(p int) string {
	if !chance(g.t, p) {
		return ""
	}
	if s, ok := dictStr(g.t, 30); ok && !strings.ContainsFunc(s, func(c rune) bool { return c < ' ' }) {
		return " about " + s + "\n"
	}
	return pick(g.t, comments)
}

func (g *setGen) uniq(styles []string) string {
	g.n++
	s := fmt.Sprintf(pick(g.t, styles), g.n)
	if g.wide == "names" && chance(g.t, 50) {
		s += strings.Repeat("x", intn(g.t, 1, 400))
	}
	if d, ok := dictName(g.t, 15); ok {
		s = fmt.Sprintf("%s%d", d, g.n)
		if &styles[0] != &valStyles[0] && !g.lits[strings.ToLower(d)] && !strings.ContainsAny(d, "0123456789_") {
			g.lits[strings.ToLower(d)] = true
			return d
		}
	}
	if g.again {
		if old, ok := g.named[g.n]; ok && chance(g.t, 85) && slices.ContainsFunc(styles, func(f string) bool { return fmt.Sprintf(f, g.n) == old }) {
			s = old
		}
		g.named[g.n] = s
	}
	return s
}

var goBases = []string{"p", "v1", "proto", "x", "m", "ok", "fmt", "string", "type", "go-lib", "a.b", "protobuf", "math", "nil", "unsafe", "func", "option"}

// genProtoSet draws a set of files. root is the import path which all Go
// packages have as their prefix.
func genProtoSet(t *rapid.T, root string, maxFiles int) *ProtoSet {
	g := &setGen{t: t, ps: &ProtoSet{}, named: map[int]string{}, lits: map[string]bool{"p": true, "a": true, "b": true, "x": true, "test": true}, again: chance(t, 30)}
	if intn(t, 0, 99) == 77 {
		g.wide = pick(t, wides)
	}
	n := 1 + min(weighted(t, 30, 30, 25, 10, 5), maxFiles-1)
	style := weighted(t, 60, 15, 15, 10) // go_package, M options, source_relative, module
	if root != "" {
		style = 0
	}
	base := root
	if base == "" {
		base = "example.com/gen"
	}
	var params []string
	goOf := make([]string, n)
	for i := 0; i < n; i++ {
		f := PFile{Path: fmt.Sprintf("%s%s%d.proto", pick(t, []string{"", "dir/", "a/b/"}), pick(t, []string{"f", "file-", "x.y", "Foo_"}), i), Proto2: chance(t, 40)}
		if d, ok := dictName(t, 10); ok {
			f.Path = fmt.Sprintf("%s%s%d.proto", pick(t, []string{"", "dir/", d + "/"}), d, i)
		}
		if chance(t, 85) {
			f.Pkg = pick(t, []string{"p", "a.b", "test.v1", "P_q", "x"})
		}
		// a block of files shares a Go package
		if i > 0 && chance(t, 35) {
			goOf[i] = goOf[i-1]
			if chance(t, 80) {
				f.Pkg = g.ps.Files[i-1].Pkg
			}
		} else {
			goOf[i] = fmt.Sprintf("%s/p%d/%s", base, i, pick(t, goBases))
			if chance(t, 20) {
				goOf[i] += pick(t, []string{";main_pkg", ";x", ";pb", ";proto", ";m"})
			}
		}
		if style == 1 && !strings.Contains(goOf[i], ";") {
			goOf[i] += ";pkg"
		}
		if style == 1 && chance(t, 60) {
			params = append(params, "M"+f.Path+"="+goOf[i])
			if chance(t, 30) {
				f.Go = "example.com/other"
			}
		} else {
			f.Go = goOf[i]
		}
		f.Dep = chance(t, 8)
		f.Service = chance(t, 8)
		for j := i - 1; j >= 0; j-- {
			if chance(t, 50) {
				if !g.again && chance(t, 40) {
					f.Public = append(f.Public, len(f.Deps))
				}
				f.Deps = append(f.Deps, j)
			}
		}
		// Start over with the names if no file before shares a package.
		g.max = max(g.max, g.n)
		if !(i > 0 && goOf[i] == goOf[i-1] && f.Pkg == g.ps.Files[i-1].Pkg) {
			g.n = g.max
		}
		if g.again && i > 0 && goOf[i] != goOf[i-1] && !slices.ContainsFunc(g.ps.Files, func(o PFile) bool { return o.Pkg == f.Pkg }) {
			g.n = 0
		}
		g.ps.Files = append(g.ps.Files, f)
		g.file(i)
	}
	switch style {
	case 2:
		params = append(params, "paths=source_relative")
	case 3:
		params = append(params, "module="+pick(t, []string{"example.com", "example.com/gen"}))
	}
	if chance(t, 25) {
		params = append(params, pick(t, []string{"annotate_code", "annotate_code=true", "annotate_code=true", "annotate_code=false"}))
	}
	g.ps.Param = strings.Join(params, ",")
	return g.ps
}

// scope gives the types which file i may use.
func (g *setGen) scope(i int) (vs []visible) {
	ok := map[int]bool{i: true}
	var public func(j int)
	public = func(j int) {
		ok[j] = true
		f := &g.ps.Files[j]
		for _, k := range f.Public {
			public(f.Deps[k])
		}
	}
	for _, j := range g.ps.Files[i].Deps {
		public(j)
	}
	p3 := !g.ps.Files[i].Proto2
	for _, v := range g.types {
		if ok[v.file] && !(p3 && v.enum != nil && v.p2) {
			vs = append(vs, v)
		}
	}
	return
}

// file draws the declarations of a file: first all types, then the fields.
func (g *setGen) file(i int) {
	t := g.t
	f := &g.ps.Files[i]
	for k := g.many("enums", weighted(t, 40, 40, 20)); k > 0; k-- {
		f.Enums = append(f.Enums, g.enum(f.Pkg, i))
	}
	for k := g.many("msgs", 1+weighted(t, 15, 30, 25, 20, 10)); k > 0; k-- {
		f.Msgs = append(f.Msgs, g.msg(f.Pkg, i, 0))
	}
	vs := g.scope(i)
	var walk func(scope string, ms []PMsg)
	walk = func(scope string, ms []PMsg) {
		for k := range ms {
			name := full(scope, ms[k].Name)
			g.fields(&ms[k], name, i, vs)
			if ms[k].Ext && f.Extend == "" && chance(t, 60) {
				f.Extend = name
			}
			walk(name, ms[k].Msgs)
		}
	}
	walk(f.Pkg, f.Msgs)
	g.wide = ""
}

// many is n, or a lot at the first place which asks for what there is a lot of.
func (g *setGen) many(what string, n int) int {
	if g.wide != what {
		return n
	}
	g.wide = ""
	return pick(g.t, []int{127, 128, 129, 255, 256, 257, 300, 400})
}

func (g *setGen) enum(scope string, file int) PEnum {
	t := g.t
	e := PEnum{Name: g.uniq(typeStyles), Comment: g.comment(15), Dep: chance(t, 8)}
	p2 := g.ps.Files[file].Proto2
	used := map[int32]bool{}
	nvals := intn(t, 1, 5)
	if d, ok := dictInt(t, 60, 1, 130); ok {
		nvals = d
	}
	for k := g.many("vals", nvals); k > 0; k-- {
		v := PEnumVal{Name: g.uniq(valStyles), Comment: g.comment(10), Trail: g.comment(10), Dep: chance(t, 8)}
		switch weighted(t, 60, 20, 20) {
		case 0:
			v.Num = int32(len(e.Vals))
		case 1:
			v.Num = -int32(intn(t, 1, 1000))
		default:
			v.Num = int32(pick(t, []int64{1<<31 - 1, -1 << 31, 128, 1 << 20, 2, 1}))
		}
		if d, ok := dictInt(t, 100, 1, 1<<31-1); ok {
			v.Num = int32(d) * int32(pick(t, []int{1, 1, -1}))
		}
		if len(e.Vals) == 0 && (!p2 || chance(t, 70)) {
			v.Num = 0
		}
		if len(e.Vals) > 0 && !used[0] && chance(t, 40) {
			v.Num = 0 // zero, but not the first value
		}
		for used[v.Num] {
			v.Num++
		}
		used[v.Num] = true
		e.Vals = append(e.Vals, v)
	}
	g.types = append(g.types, visible{full(scope, e.Name), &e, p2, file})
	return e
}

func (g *setGen) msg(scope string, file, depth int) PMsg {
	t := g.t
	m := PMsg{Name: g.uniq(typeStyles), Comment: g.comment(20), Dep: chance(t, 8)}
	name := full(scope, m.Name)
	g.types = append(g.types, visible{name, nil, false, file})
	m.Ext = g.ps.Files[file].Proto2 && chance(t, 12)
	if chance(t, 6) {
		for n := intn(t, 1, 3); n > 0; n-- {
			m.Opts = append(m.Opts, pick(t, customOpts)...)
		}
	}
	switch {
	case g.wide == "depth":
		if depth < 40 {
			m.Msgs = append(m.Msgs, g.msg(name, file, depth+1))
		}
	case g.wide == "nested":
		for k := g.many("nested", 0); k > 0; k-- {
			m.Msgs = append(m.Msgs, g.msg(name, file, 2))
		}
	case depth < 2 && chance(t, 25):
		for k := intn(t, 1, 2); k > 0; k-- {
			m.Msgs = append(m.Msgs, g.msg(name, file, depth+1))
		}
	}
	if chance(t, 15) {
		m.Enums = append(m.Enums, g.enum(name, file))
	}
	return m
}

// camel is protoc's name of the entry message of a map field, without "Entry".
func camel(s string) string {
	var b []byte
	up := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '_':
			up = true
			continue
		case up && 'a' <= c && c <= 'z':
			c -= 'a' - 'A'
		}
		up = false
		b = append(b, c)
	}
	return string(b)
}

func jsonName(s string) string {
	var b []byte
	up := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '_' {
			up = true
			continue
		}
		if up && 'a' <= c && c <= 'z' {
			c -= 'a' - 'A'
		}
		up = false
		b = append(b, c)
	}
	return string(b)
}

func (g *setGen) fields(m *PMsg, name string, file int, vs []visible) {
	t := g.t
	p2 := g.ps.Files[file].Proto2
	names := map[string]bool{}
	for _, c := range m.Msgs {
		names[c.Name] = true
	}
	for _, e := range m.Enums {
		names[e.Name] = true
		for _, v := range e.Vals {
			names[v.Name] = true
		}
	}
	jsons := map[string]bool{}
	fresh := func(pool []string, field bool) string {
		for k := 0; ; k++ {
			s := pick(t, pool)
			if d, ok := dictName(t, 15); ok {
				s = d
			}
			if k > 2 || chance(t, 25) {
				g.n++
				s = fmt.Sprintf("%s%d", s, g.n)
			}
			if g.wide == "names" && chance(t, 50) {
				s += strings.Repeat("y", intn(t, 1, 400))
			}
			// all forms differ, as protoc demands of most of them
			forms := []string{s, camel(s) + "Entry", "_" + s}
			bad := names[s] || names[forms[1]] || names[forms[2]]
			if field && (jsons[strings.ToLower(jsonName(s))]) && (!p2 || k > 0 || !chance(t, 50)) {
				bad = true
			}
			if bad {
				continue
			}
			if field {
				jsons[strings.ToLower(jsonName(s))] = true
				for _, x := range forms {
					names[x] = true
				}
			}
			names[s] = true
			return s
		}
	}
	nums := map[int]bool{}
	if m.Ext {
		for i := 1000; i < 1100; i++ {
			nums[i] = true
		}
	}
	oneof := ""
	oneofLeft := 0
	kinds := scalarKinds[:len(scalarKinds)-1]
	nfields := weighted(t, 8, 12, 14, 14, 12, 10, 10, 10, 10)
	if d, ok := dictInt(t, 60, 1, 130); ok {
		nfields = d
	}
	for k := g.many("fields", nfields); k > 0; k-- {
		f := PField{Name: fresh(fieldNames, true), Comment: g.comment(12), Trail: g.comment(12), Dep: chance(t, 6)}
		f.Num = genNum(t, nums, true)
		nums[f.Num] = true
		typ := func(maps bool) {
			switch weighted(t, 55, 30, 15) {
			case 0:
				f.Kind = pick(t, kinds)
			case 1:
				f.Kind = KMessage
				var ms []visible
				for _, v := range vs {
					if v.enum == nil {
						ms = append(ms, v)
					}
				}
				f.Type = pick(t, ms).name
			default:
				var es []visible
				for _, v := range vs {
					if v.enum != nil && !(maps && v.enum.Vals[0].Num != 0) {
						es = append(es, v)
					}
				}
				if len(es) == 0 {
					f.Kind = KInt32
					return
				}
				f.Kind = KEnum
				f.Type = pick(t, es).name
			}
		}
		if oneofLeft > 0 {
			oneofLeft--
			typ(false)
			f.Oneof = oneof
			m.Fields = append(m.Fields, f)
			continue
		}
		switch weighted(t, 50, 20, 15, 15) {
		case 0:
			typ(false)
			f.Label = "opt"
			if p2 && chance(t, 20) {
				f.Label = "req"
			}
			if !p2 && chance(t, 65) {
				f.Label = ""
			}
			if p2 && f.Label == "opt" && chance(t, 10) {
				f.Default = map[Kind]string{KBool: "true", KInt32: "-7", KUint64: "5", KString: "dflt", KBytes: "b\\001", KDouble: "inf", KFloat: "1.5"}[f.Kind]
			}
		case 1:
			typ(false)
			f.Label = "rep"
			if f.Kind.wire() != WLen {
				f.Packed = weighted(t, 50, 25, 25)
			}
		case 2:
			typ(true)
			f.Label = "map"
			f.Key = pick(t, mapKeyKinds)
		default:
			oneof = fresh(oneofNames, false)
			oneofLeft = g.many("oneof", intn(t, 1, 3)) - 1
			k = max(k, oneofLeft+1)
			typ(false)
			f.Oneof = oneof
		}
		if chance(t, 5) {
			f.JSON = "j" + strings.ReplaceAll(f.Name, "_", "")
		}
		m.Fields = append(m.Fields, f)
	}
}

// Descriptors.

type locs struct {
	l []*descriptorpb.SourceCodeInfo_Location
}

func (l *locs) add(path []int32, lead, trail string) {
	loc := &descriptorpb.SourceCodeInfo_Location{Path: append([]int32(nil), path...), Span: []int32{int32(len(l.l)), 0, 1}}
	if lead != "" {
		loc.LeadingComments = pb.String(lead)
	}
	if trail != "" {
		loc.TrailingComments = pb.String(trail)
	}
	l.l = append(l.l, loc)
}

func (ps *ProtoSet) descriptors() (out []*descriptorpb.FileDescriptorProto) {
	for i := range ps.Files {
		out = append(out, ps.fileDesc(i))
	}
	return
}

func (e *PEnum) desc(l *locs, path []int32) *descriptorpb.EnumDescriptorProto {
	d := &descriptorpb.EnumDescriptorProto{Name: pb.String(e.Name)}
	l.add(path, e.Comment, "")
	if e.Dep {
		d.Options = &descriptorpb.EnumOptions{Deprecated: pb.Bool(true)}
	}
	for i, v := range e.Vals {
		l.add(append(append([]int32{}, path...), 2, int32(i)), v.Comment, v.Trail)
		vd := &descriptorpb.EnumValueDescriptorProto{Name: pb.String(v.Name), Number: pb.Int32(v.Num)}
		if v.Dep {
			vd.Options = &descriptorpb.EnumValueOptions{Deprecated: pb.Bool(true)}
		}
		d.Value = append(d.Value, vd)
	}
	return d
}

func (m *PMsg) desc(name string, p2 bool, l *locs, path []int32) *descriptorpb.DescriptorProto {
	d := &descriptorpb.DescriptorProto{Name: pb.String(m.Name)}
	sub := func(x ...int32) []int32 { return append(append([]int32{}, path...), x...) }
	l.add(path, m.Comment, "")
	if m.Dep {
		d.Options = &descriptorpb.MessageOptions{Deprecated: pb.Bool(true)}
	}
	if len(m.Opts) > 0 {
		if d.Options == nil {
			d.Options = &descriptorpb.MessageOptions{}
		}
		d.Options.ProtoReflect().SetUnknown(m.Opts)
	}
	if m.Ext {
		d.ExtensionRange = append(d.ExtensionRange, &descriptorpb.DescriptorProto_ExtensionRange{Start: pb.Int32(1000), End: pb.Int32(1100)})
	}
	for i := range m.Msgs {
		d.NestedType = append(d.NestedType, m.Msgs[i].desc(name+"."+m.Msgs[i].Name, p2, l, sub(3, int32(i))))
	}
	for i := range m.Enums {
		d.EnumType = append(d.EnumType, m.Enums[i].desc(l, sub(4, int32(i))))
	}
	oneofs := map[string]int{}
	for _, f := range m.Fields {
		if f.Oneof != "" {
			if _, ok := oneofs[f.Oneof]; !ok {
				oneofs[f.Oneof] = len(d.OneofDecl)
				l.add(sub(8, int32(len(d.OneofDecl))), f.Trail, "")
				d.OneofDecl = append(d.OneofDecl, &descriptorpb.OneofDescriptorProto{Name: pb.String(f.Oneof)})
			}
		}
	}
	for i := range m.Fields {
		f := &m.Fields[i]
		l.add(sub(2, int32(i)), f.Comment, f.Trail)
		fd := &descriptorpb.FieldDescriptorProto{Name: pb.String(f.Name), Number: pb.Int32(int32(f.Num)), Type: descType[f.Kind].Enum(),
			Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(), JsonName: pb.String(jsonName(f.Name))}
		if f.JSON != "" {
			fd.JsonName = pb.String(f.JSON)
		}
		if f.Type != "" {
			fd.TypeName = pb.String("." + f.Type)
		}
		opts := &descriptorpb.FieldOptions{}
		hasOpts := false
		if f.Dep {
			opts.Deprecated, hasOpts = pb.Bool(true), true
		}
		if f.Packed != 0 {
			opts.Packed, hasOpts = pb.Bool(f.Packed == 1), true
		}
		if hasOpts {
			fd.Options = opts
		}
		if f.Default != "" {
			fd.DefaultValue = pb.String(f.Default)
		}
		switch {
		case f.Oneof != "":
			fd.OneofIndex = pb.Int32(int32(oneofs[f.Oneof]))
		case f.Label == "req":
			fd.Label = descriptorpb.FieldDescriptorProto_LABEL_REQUIRED.Enum()
		case f.Label == "rep":
			fd.Label = descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
		case f.Label == "map":
			en := camel(f.Name) + "Entry"
			val := &descriptorpb.FieldDescriptorProto{Name: pb.String("value"), Number: pb.Int32(2), Type: fd.Type, TypeName: fd.TypeName,
				Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(), JsonName: pb.String("value")}
			key := &descriptorpb.FieldDescriptorProto{Name: pb.String("key"), Number: pb.Int32(1), Type: descType[f.Key].Enum(),
				Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(), JsonName: pb.String("key")}
			d.NestedType = append(d.NestedType, &descriptorpb.DescriptorProto{Name: pb.String(en),
				Field:   []*descriptorpb.FieldDescriptorProto{key, val},
				Options: &descriptorpb.MessageOptions{MapEntry: pb.Bool(true)}})
			fd.Type = descriptorpb.FieldDescriptorProto_TYPE_MESSAGE.Enum()
			fd.TypeName = pb.String("." + name + "." + en)
			fd.Label = descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
		case f.Label == "opt" && !p2:
			fd.Proto3Optional = pb.Bool(true)
		}
		d.Field = append(d.Field, fd)
	}
	// synthetic oneofs are last
	for _, fd := range d.Field {
		if fd.GetProto3Optional() {
			fd.OneofIndex = pb.Int32(int32(len(d.OneofDecl)))
			d.OneofDecl = append(d.OneofDecl, &descriptorpb.OneofDescriptorProto{Name: pb.String("_" + fd.GetName())})
		}
	}
	return d
}

func (ps *ProtoSet) fileDesc(i int) *descriptorpb.FileDescriptorProto {
	f := &ps.Files[i]
	d := &descriptorpb.FileDescriptorProto{Name: pb.String(f.Path), Syntax: pb.String("proto3"), Options: &descriptorpb.FileOptions{}}
	if f.Proto2 {
		d.Syntax = pb.String("proto2")
	}
	if f.Pkg != "" {
		d.Package = pb.String(f.Pkg)
	}
	if f.Go != "" {
		d.Options.GoPackage = pb.String(f.Go)
	}
	if f.Dep {
		d.Options.Deprecated = pb.Bool(true)
	}
	for _, j := range f.Deps {
		d.Dependency = append(d.Dependency, ps.Files[j].Path)
	}
	for _, k := range f.Public {
		d.PublicDependency = append(d.PublicDependency, int32(k))
	}
	l := &locs{}
	for k := range f.Enums {
		d.EnumType = append(d.EnumType, f.Enums[k].desc(l, []int32{5, int32(k)}))
	}
	for k := range f.Msgs {
		d.MessageType = append(d.MessageType, f.Msgs[k].desc(full(f.Pkg, f.Msgs[k].Name), f.Proto2, l, []int32{4, int32(k)}))
	}
	if f.Extend != "" {
		d.Extension = append(d.Extension, &descriptorpb.FieldDescriptorProto{Name: pb.String(fmt.Sprintf("ext_%d", i)), Number: pb.Int32(1000),
			Type: descriptorpb.FieldDescriptorProto_TYPE_STRING.Enum(), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(),
			Extendee: pb.String("." + f.Extend), JsonName: pb.String(fmt.Sprintf("ext%d", i))})
	}
	if f.Service && len(f.Msgs) > 0 {
		n := "." + full(f.Pkg, f.Msgs[0].Name)
		d.Service = append(d.Service, &descriptorpb.ServiceDescriptorProto{Name: pb.String(fmt.Sprintf("Svc%d", i)),
			Method: []*descriptorpb.MethodDescriptorProto{{Name: pb.String("Do"), InputType: pb.String(n), OutputType: pb.String(n)}}})
	}
	d.SourceCodeInfo = &descriptorpb.SourceCodeInfo{Location: l.l}
	return d
}

// registry resolves the files with google.golang.org/protobuf.
func (ps *ProtoSet) registry() (*protoregistry.Files, error) {
	return protodesc.NewFiles(&descriptorpb.FileDescriptorSet{File: ps.descriptors()})
}

func (ps *ProtoSet) request(files []string) *pluginpb.CodeGeneratorRequest {
	r := &pluginpb.CodeGeneratorRequest{FileToGenerate: files, ProtoFile: ps.descriptors()}
	if ps.Param != "" {
		r.Parameter = pb.String(ps.Param)
	}
	return r
}

func (ps *ProtoSet) paths() (out []string) {
	for i := range ps.Files {
		out = append(out, ps.Files[i].Path)
	}
	return
}

var kindOfDesc = map[protoreflect.Kind]Kind{
	protoreflect.BoolKind: KBool, protoreflect.Int32Kind: KInt32, protoreflect.Sint32Kind: KSint32, protoreflect.Sfixed32Kind: KSfixed32,
	protoreflect.Uint32Kind: KUint32, protoreflect.Fixed32Kind: KFixed32, protoreflect.Int64Kind: KInt64, protoreflect.Sint64Kind: KSint64,
	protoreflect.Sfixed64Kind: KSfixed64, protoreflect.Uint64Kind: KUint64, protoreflect.Fixed64Kind: KFixed64, protoreflect.FloatKind: KFloat,
	protoreflect.DoubleKind: KDouble, protoreflect.StringKind: KString, protoreflect.BytesKind: KBytes, protoreflect.EnumKind: KEnum,
	protoreflect.MessageKind: KMessage,
}
