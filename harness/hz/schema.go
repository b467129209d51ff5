// Package hz holds the schema and value model, the reference wire codec, the
// generators and the properties which decide /verif/properties.jsonl.
//
// Everything is black box: it uses only the exported API of the runtime
// (Marshal, Unmarshal, Size, Option) and the plugin binary.
package hz

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/RomiChan/protobuf/proto"
)

// Kind is a protobuf field type.
type Kind string

const (
	KBool     Kind = "bool"
	KInt32    Kind = "int32"
	KSint32   Kind = "sint32"
	KSfixed32 Kind = "sfixed32"
	KUint32   Kind = "uint32"
	KFixed32  Kind = "fixed32"
	KInt64    Kind = "int64"
	KSint64   Kind = "sint64"
	KSfixed64 Kind = "sfixed64"
	KUint64   Kind = "uint64"
	KFixed64  Kind = "fixed64"
	KFloat    Kind = "float"
	KDouble   Kind = "double"
	KString   Kind = "string"
	KBytes    Kind = "bytes"
	KEnum     Kind = "enum"
	KMessage  Kind = "message"
)

var scalarKinds = []Kind{KBool, KInt32, KSint32, KSfixed32, KUint32, KFixed32, KInt64, KSint64,
	KSfixed64, KUint64, KFixed64, KFloat, KDouble, KString, KBytes, KEnum}

var mapKeyKinds = []Kind{KBool, KInt32, KSint32, KSfixed32, KUint32, KFixed32, KInt64, KSint64,
	KSfixed64, KUint64, KFixed64, KString}

// Card says how a field is held in the Go struct.
const (
	CImp   = "imp"   // plain Go value, zero is absent (proto3 scalar)
	COpt   = "opt"   // proto.Option[T]
	CReq   = "req"   // proto.Option[T], tag label req
	CPtr   = "ptr"   // *T, as code generated by the official plugin
	CRep   = "rep"   // slice
	CMap   = "map"   // map
	CGuard = "guard" // exported field without tag: not part of the message
	CUnexp = "unexp" // unexported field with a tag: not part of the message
)

// Wire types.
const (
	WVarint = 0
	WI64    = 1
	WLen    = 2
	WSGroup = 3
	WEGroup = 4
	WI32    = 5
)

type Field struct {
	Num   int    `json:"n"`
	Kind  Kind   `json:"k"`
	Card  string `json:"c"`
	Key   Kind   `json:"key,omitempty"`
	Msg   int    `json:"m,omitempty"`
	Named bool   `json:"named,omitempty"` // named Go scalar type
	Extra string `json:"x,omitempty"`     // further comma separated attributes of the tag
	Name  string `json:"name,omitempty"`  // Go name, for static and generated types
}

type Msg struct {
	Fields []Field `json:"f"`
}

// Schema is a set of message types, the first one is the root. Types built at
// run time (Static == "") refer only to later types.
type Schema struct {
	Msgs   []Msg  `json:"msgs"`
	Static string `json:"static,omitempty"`

	types   []reflect.Type
	canon   *canonFile
	entries map[*Field]*Schema
}

func (k Kind) wire() int {
	switch k {
	case KSfixed32, KFixed32, KFloat:
		return WI32
	case KSfixed64, KFixed64, KDouble:
		return WI64
	case KString, KBytes, KMessage:
		return WLen
	}
	return WVarint
}

func (k Kind) is32() bool {
	switch k {
	case KInt32, KSint32, KSfixed32, KUint32, KFixed32, KFloat, KEnum:
		return true
	}
	return false
}

func (k Kind) tagName() string {
	switch k {
	case KSint32:
		return "zigzag32"
	case KSint64:
		return "zigzag64"
	}
	return [...]string{WVarint: "varint", WI64: "fixed64", WLen: "bytes", WI32: "fixed32"}[k.wire()]
}

func (f *Field) proto() bool { return f.Card != CGuard && f.Card != CUnexp }

// wire is the wire type of one record of the field.
func (f *Field) wire() int {
	if f.Card == CMap {
		return WLen
	}
	return f.Kind.wire()
}

func (f *Field) packable() bool { return f.Card == CRep && f.Kind.wire() != WLen }

// presence reports whether a singular field tells zero from absent.
func (f *Field) presence() bool {
	switch f.Card {
	case COpt, CReq, CPtr:
		return true
	case CImp:
		return f.Kind == KBytes || f.Kind == KMessage
	}
	return false
}

type (
	NBool    bool
	NInt32   int32
	NUint32  uint32
	NInt64   int64
	NUint64  uint64
	NFloat32 float32
	NFloat64 float64
	NString  string
	NBytes   []byte
)

var plainTypes = map[Kind]reflect.Type{
	KBool:     reflect.TypeFor[bool](),
	KInt32:    reflect.TypeFor[int32](),
	KSint32:   reflect.TypeFor[int32](),
	KSfixed32: reflect.TypeFor[int32](),
	KEnum:     reflect.TypeFor[int32](),
	KUint32:   reflect.TypeFor[uint32](),
	KFixed32:  reflect.TypeFor[uint32](),
	KInt64:    reflect.TypeFor[int64](),
	KSint64:   reflect.TypeFor[int64](),
	KSfixed64: reflect.TypeFor[int64](),
	KUint64:   reflect.TypeFor[uint64](),
	KFixed64:  reflect.TypeFor[uint64](),
	KFloat:    reflect.TypeFor[float32](),
	KDouble:   reflect.TypeFor[float64](),
	KString:   reflect.TypeFor[string](),
	KBytes:    reflect.TypeFor[[]byte](),
}

var namedTypes = map[reflect.Kind]reflect.Type{
	reflect.Bool:    reflect.TypeFor[NBool](),
	reflect.Int32:   reflect.TypeFor[NInt32](),
	reflect.Uint32:  reflect.TypeFor[NUint32](),
	reflect.Int64:   reflect.TypeFor[NInt64](),
	reflect.Uint64:  reflect.TypeFor[NUint64](),
	reflect.Float32: reflect.TypeFor[NFloat32](),
	reflect.Float64: reflect.TypeFor[NFloat64](),
	reflect.String:  reflect.TypeFor[NString](),
	reflect.Slice:   reflect.TypeFor[NBytes](),
}

var optionTypes = map[reflect.Kind]reflect.Type{
	reflect.Bool:    reflect.TypeFor[proto.Option[bool]](),
	reflect.Int32:   reflect.TypeFor[proto.Option[int32]](),
	reflect.Uint32:  reflect.TypeFor[proto.Option[uint32]](),
	reflect.Int64:   reflect.TypeFor[proto.Option[int64]](),
	reflect.Uint64:  reflect.TypeFor[proto.Option[uint64]](),
	reflect.Float32: reflect.TypeFor[proto.Option[float32]](),
	reflect.Float64: reflect.TypeFor[proto.Option[float64]](),
	reflect.String:  reflect.TypeFor[proto.Option[string]](),
}

func (s *Schema) elemType(k Kind, msg int, named bool) reflect.Type {
	if k == KMessage {
		return reflect.PointerTo(s.Type(msg))
	}
	t := plainTypes[k]
	if named {
		t = namedTypes[t.Kind()]
	}
	return t
}

func (s *Schema) fieldType(f *Field) reflect.Type {
	e := s.elemType(f.Kind, f.Msg, f.Named)
	switch f.Card {
	case COpt, CReq:
		if f.Kind == KBytes || f.Kind == KMessage {
			return e
		}
		return optionTypes[e.Kind()]
	case CPtr:
		if f.Kind == KBytes || f.Kind == KMessage {
			return e
		}
		return reflect.PointerTo(e)
	case CRep:
		return reflect.SliceOf(e)
	case CMap:
		return reflect.MapOf(plainTypes[f.Key], e)
	}
	return e
}

func (f *Field) tag() reflect.StructTag {
	label := "opt"
	switch f.Card {
	case CReq:
		label = "req"
	case CRep, CMap:
		label = "rep"
	}
	if f.Card == CMap {
		return reflect.StructTag(fmt.Sprintf(`protobuf:"bytes,%d,rep%s" protobuf_key:"%s,1,opt" protobuf_val:"%s,2,opt"`,
			f.Num, f.Extra, f.Key.tagName(), f.Kind.tagName()))
	}
	return reflect.StructTag(fmt.Sprintf(`protobuf:"%s,%d,%s%s"`, f.Kind.tagName(), f.Num, label, f.Extra))
}

// Type returns the Go struct type of message i.
func (s *Schema) Type(i int) reflect.Type {
	if s.types == nil {
		s.types = make([]reflect.Type, len(s.Msgs))
	}
	if s.types[i] != nil {
		return s.types[i]
	}
	if s.Static != "" {
		st := statics[s.Static]
		if st == nil {
			panic("unknown static schema " + s.Static)
		}
		copy(s.types, st.types)
		return s.types[i]
	}
	m := &s.Msgs[i]
	var fs []reflect.StructField
	for j := range m.Fields {
		f := &m.Fields[j]
		sf := reflect.StructField{Name: fmt.Sprintf("F%d", j)}
		if f.isBad() {
			sf.Type, sf.Tag = f.bad()
			fs = append(fs, sf)
			continue
		}
		sf.Type, sf.Tag = s.fieldType(f), f.tag()
		switch f.Card {
		case CGuard:
			sf.Tag = ""
		case CUnexp:
			sf.Name, sf.PkgPath = fmt.Sprintf("f%d", j), "verif/harness/hz"
		}
		fs = append(fs, sf)
	}
	s.types[i] = reflect.StructOf(fs)
	return s.types[i]
}

func (s *Schema) New() reflect.Value { return reflect.New(s.Type(0)) }

func (m *Msg) byNum(n uint64) int {
	for i := range m.Fields {
		if m.Fields[i].proto() && uint64(m.Fields[i].Num) == n {
			return i
		}
	}
	return -1
}

func (s *Schema) String() string {
	var b strings.Builder
	for i := range s.Msgs {
		fmt.Fprintf(&b, "M%d{", i)
		for j := range s.Msgs[i].Fields {
			f := &s.Msgs[i].Fields[j]
			if j > 0 {
				b.WriteString("; ")
			}
			k := string(f.Kind)
			if f.Kind == KMessage {
				k = fmt.Sprintf("M%d", f.Msg)
			}
			if f.Card == CMap {
				k = fmt.Sprintf("%s,%s", f.Key, k)
			}
			fmt.Fprintf(&b, "%s<%s>=%d", f.Card, k, f.Num)
		}
		b.WriteString("} ")
	}
	return strings.TrimSpace(b.String())
}

// static schemas: Go types declared in this program, which may be recursive.
type staticSchema struct {
	schema Schema
	types  []reflect.Type
}

var statics = map[string]*staticSchema{}
var staticNames []string

// register derives the schema of the types reachable from root by their tags.
// kinds maps "Type.Field" to a Kind where the Go type and tag are ambiguous.
func register(name string, root reflect.Type) {
	st := &staticSchema{}
	st.schema.Static = name
	index := map[reflect.Type]int{}
	var add func(t reflect.Type) int
	add = func(t reflect.Type) int {
		if i, ok := index[t]; ok {
			return i
		}
		i := len(st.types)
		index[t] = i
		st.types = append(st.types, t)
		st.schema.Msgs = append(st.schema.Msgs, Msg{})
		var fs []Field
		for j := 0; j < t.NumField(); j++ {
			fs = append(fs, fieldOf(t.Field(j), add))
		}
		st.schema.Msgs[i].Fields = fs
		return i
	}
	add(root)
	statics[name] = st
	if strings.Contains(name, "/") {
		return
	}
	staticNames = append(staticNames, name)
	sort.Strings(staticNames)
}

func parseTag(tag string) (wire string, num int, label, extra string) {
	p := strings.SplitN(tag, ",", 4)
	wire = p[0]
	fmt.Sscan(p[1], &num)
	label = p[2]
	if len(p) > 3 {
		extra = "," + p[3]
	}
	return
}

func kindOf(t reflect.Type, wire string) Kind {
	switch t.Kind() {
	case reflect.Bool:
		return KBool
	case reflect.Int32:
		switch wire {
		case "zigzag32":
			return KSint32
		case "fixed32":
			return KSfixed32
		}
		return KInt32
	case reflect.Int64:
		switch wire {
		case "zigzag64":
			return KSint64
		case "fixed64":
			return KSfixed64
		}
		return KInt64
	case reflect.Uint32:
		if wire == "fixed32" {
			return KFixed32
		}
		return KUint32
	case reflect.Uint64:
		if wire == "fixed64" {
			return KFixed64
		}
		return KUint64
	case reflect.Float32:
		return KFloat
	case reflect.Float64:
		return KDouble
	case reflect.String:
		return KString
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			return KBytes
		}
	case reflect.Ptr:
		if t.Elem().Kind() == reflect.Struct {
			return KMessage
		}
	}
	panic("hz: unsupported static type " + t.String())
}

func fieldOf(sf reflect.StructField, add func(reflect.Type) int) Field {
	f := Field{Name: sf.Name}
	tag, ok := sf.Tag.Lookup("protobuf")
	if !ok || sf.PkgPath != "" {
		f.Card = CGuard
		if sf.PkgPath != "" {
			f.Card = CUnexp
		}
		if sf.Name != "_" && sf.Type.Kind() != reflect.Interface && sf.Type.Kind() != reflect.Struct {
			f.Kind = kindOf(sf.Type, "")
		}
		return f
	}
	var wire, label string
	wire, f.Num, label, f.Extra = parseTag(tag)
	t := sf.Type
	set := func(t reflect.Type) {
		f.Kind = kindOf(t, wire)
		f.Named = t.PkgPath() != ""
		if f.Kind == KMessage {
			f.Msg = add(t.Elem())
			f.Named = false
		}
	}
	switch {
	case t.Kind() == reflect.Struct && strings.HasPrefix(t.Name(), "Option["):
		f.Card = COpt
		if label == "req" {
			f.Card = CReq
		}
		m, _ := t.MethodByName("Unwrap")
		set(m.Type.Out(0))
	case t.Kind() == reflect.Map:
		f.Card = CMap
		kw, _, _, _ := parseTag(sf.Tag.Get("protobuf_key"))
		f.Key = kindOf(t.Key(), kw)
		wire, _, _, _ = parseTag(sf.Tag.Get("protobuf_val"))
		set(t.Elem())
	case t.Kind() == reflect.Slice && t.Elem().Kind() != reflect.Uint8:
		f.Card = CRep
		set(t.Elem())
	case t.Kind() == reflect.Ptr && t.Elem().Kind() != reflect.Struct:
		f.Card = CPtr
		set(t.Elem())
	default:
		f.Card = CImp
		set(t)
	}
	return f
}

func jsonStr(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}
