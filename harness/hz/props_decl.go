package hz

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/RomiChan/protobuf/proto"
	"pgregory.net/rapid"
)

// C25: declarations which the library does not support.

type badLeaf struct {
	X int32 `protobuf:"varint,1,opt"`
}

type badField struct {
	t   reflect.Type
	tag string
}

// badFields are declarations without a meaning: Go types which are no protobuf
// type, and tags which cannot be understood.
var badFields []badField

func init() {
	scalars := []any{int(0), uint(0), int8(0), int16(0), uint8(0), uint16(0), uintptr(0), complex64(0), complex128(0), make(chan int32), func() {},
		[4]int32{}, [4]byte{}, badLeaf{}, proto.Option[[]byte]{}, proto.Option[int]{}, proto.Option[*badLeaf]{}, proto.Option[badLeaf]{}, proto.Option[int8]{},
		new(int), new(uint8), new([]int32), new([]string), new(any), struct{}{}}
	for _, v := range scalars {
		badFields = append(badFields, badField{reflect.TypeOf(v), "varint,%d,opt"}, badField{reflect.TypeOf(v), "bytes,%d,opt"})
	}
	badFields = append(badFields, badField{reflect.TypeFor[any](), "bytes,%d,opt"})
	for _, v := range []any{[]int{}, [][]int32{}, [][]string{}, []any{}, []badLeaf{}, []uint16{}, []int8{}, []proto.Option[int32]{}, [][4]byte{}, []map[string]int32{}, []*int{}, []uint{}} {
		badFields = append(badFields, badField{reflect.TypeOf(v), "varint,%d,rep"}, badField{reflect.TypeOf(v), "bytes,%d,rep"})
	}
	for _, v := range []any{map[string]int{}, map[string]badLeaf{}, map[string][]string{}, map[string]any{}, map[int8]string{}, map[uint]string{}, map[[2]int32]string{}, map[any]string{}, map[string]proto.Option[int32]{}, map[string]map[string]int32{}, map[badLeaf]int32{}} {
		badFields = append(badFields, badField{reflect.TypeOf(v), "map,%d"})
	}
	for _, tag := range []string{"", "group,%d,opt", "bogus,%d,opt", ",%d,opt", "varint,x,opt", "varint,,opt", "varint,%d,bad", "varint,%d,", "varint, %d,opt", "varint,0x%d,opt", "varint,%d.5,opt", "varint,%d99999999999999999999,opt", "Varint,%d,opt", "varint ,%d,opt", "fixed,%d,opt", "zigzag,%d,opt", "int32,%d,opt", "varint,%d,optional",
		"varint", "bytes", "varint,0,opt", "bytes,0,opt", "fixed64,-%d,opt", "bytes,-1,rep", "varint,536870912,opt", "bytes,536870913,rep", "varint,2147483649,opt", "bytes,4294967297,opt", "varint,1152921504606846977,opt"} {
		for _, v := range []any{int64(0), int32(0), "", proto.Option[int64]{}, []int32{}, []byte{}, &badLeaf{}, []*badLeaf{}} {
			badFields = append(badFields, badField{reflect.TypeOf(v), tag})
		}
	}
}

func init() {
	// Maps whose key or value is not declared by the tags.
	for _, v := range []any{map[int32]int64{}, map[uint64]string{}, map[string]*badLeaf{}, map[bool][]byte{}} {
		for _, tags := range []string{"", "key=varint,1,opt", "val=varint,2,opt", "key=,val=varint,2,opt", "key=varint,1,opt val=bytes", "key=varint val=bytes,2,opt", "key=varint,1,opt val=bogus,2,opt", "key=Varint,1,opt val=varint,2,opt", "key=bytes,x,opt val=bytes,2,opt",
			"key=varint,0,opt val=bytes,2,opt", "key=varint,1,opt val=bytes,-2,opt", "key=varint,536870913,opt val=bytes,2,opt", "key=varint,1,bad val=bytes,2,opt", "key=varint,1,opt val=varint,2,any", "key=group,1,opt val=bytes,2,opt"} {
			badFields = append(badFields, badField{reflect.TypeOf(v), "map " + tags})
		}
	}
}

// bad gives the Go field of a bad declaration.
func (f *Field) bad() (t reflect.Type, tag reflect.StructTag) {
	var n, salt int
	if _, err := fmt.Sscanf(f.Extra, "bad %d %d", &n, &salt); err != nil {
		panic(harnessError{err})
	}
	b := badFields[n%len(badFields)]
	s := b.tag
	if strings.HasPrefix(s, "map ") {
		parts := strings.Fields(strings.ReplaceAll(s, ",val=", " val="))
		s = fmt.Sprintf(`protobuf:"bytes,%d,rep"`, f.Num)
		for _, p := range parts[1:] {
			k, v, _ := strings.Cut(p, "=")
			s += fmt.Sprintf(` protobuf_%s:"%s"`, k, v)
		}
	} else if strings.HasPrefix(s, "map") {
		s = fmt.Sprintf(`protobuf:"bytes,%d,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`, f.Num)
	} else {
		if strings.Contains(s, "%d") {
			s = fmt.Sprintf(s, f.Num)
		}
		s = fmt.Sprintf(`protobuf:"%s"`, s)
	}
	return b.t, reflect.StructTag(fmt.Sprintf(`%s salt:"%d"`, s, salt))
}

func (f *Field) isBad() bool { return f.Name == "_" && strings.HasPrefix(f.Extra, "bad ") }

type BadOp struct {
	T  int   `json:"t"`  // which of the message types
	Op int   `json:"op"` // 0 Marshal, 1 Size, 2 Unmarshal, 3 Marshal of a nil pointer
	V  *MV   `json:"v,omitempty"`
	W  []Rec `json:"w,omitempty"`
}

type BadCase struct {
	S   *Schema `json:"s"`
	Ops []BadOp `json:"ops"`
}

// from is the schema with message i as the root.
func (s *Schema) from(i int) *Schema {
	o := &Schema{}
	for _, m := range s.Msgs[i:] {
		c := Msg{}
		for _, f := range m.Fields {
			f.Msg -= i
			c.Fields = append(c.Fields, f)
		}
		o.Msgs = append(o.Msgs, c)
	}
	return o
}

// refused tells whether a bad declaration can be reached from message i.
func (s *Schema) refused(i int) bool {
	for j := range s.Msgs[i].Fields {
		f := &s.Msgs[i].Fields[j]
		if f.isBad() || f.proto() && f.Kind == KMessage && s.refused(f.Msg) {
			return true
		}
	}
	return false
}

func genBad(t *rapid.T) BadCase {
	o := &genOpts{noStatic: true, maxMsgs: 5, same: 15, budget: 40, guards: true}
	s := genSchema(t, o)
	salt := intn(t, 0, 1<<30)
	c := BadCase{S: s.salted(salt)}
	s = c.S
	for n := 1 + weighted(t, 70, 20, 10); n > 0; n-- {
		m := &s.Msgs[intn(t, 0, len(s.Msgs)-1)]
		f := Field{Name: "_", Card: CGuard, Num: intn(t, 1, 40), Extra: fmt.Sprintf("bad %d %d", intn(t, 0, len(badFields)-1), salt)}
		for m.byNum(uint64(f.Num)) >= 0 {
			f.Num++
		}
		i := intn(t, 0, len(m.Fields))
		m.Fields = append(m.Fields[:i:i], append([]Field{f}, m.Fields[i:]...)...)
	}
	for n := intn(t, 2, 8); n > 0; n-- {
		op := BadOp{T: intn(t, 0, len(s.Msgs)-1), Op: weighted(t, 40, 15, 35, 10)}
		r := s.from(op.T)
		switch op.Op {
		case 2:
			op.W = genWire(t, r, &wireOpts{genOpts: o, packed: true})
		case 0, 1:
			op.V = genMV(t, r, 0, o)
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// panics runs f and gives what it panics with.
func panics(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

func runBad(c BadCase, x *Ctx) error {
	refused, later := map[int]int{}, 0
	for i, op := range c.Ops {
		s := c.S.from(op.T)
		if c.S.refused(op.T) {
			var err error
			what := ""
			p := panics(func() {
				switch op.Op {
				case 0:
					what = "Marshal"
					_, err = marshal(s.build(0, op.V))
				case 1:
					what = "Size"
					proto.Size(s.build(0, op.V).Interface())
				case 3:
					what = "Marshal of a nil pointer"
					_, err = marshal(reflect.Zero(reflect.PointerTo(s.Type(0))))
				default:
					what = "Unmarshal"
					if b := encRecs(nil, op.W); len(b) > 0 {
						err = unmarshal(b, s.New())
					} else {
						p := s.New()
						proto.Size(p.Interface())
					}
				}
			})
			if h, ok := p.(harnessError); ok {
				panic(h)
			}
			if p == nil && err == nil {
				return fmt.Errorf("operation %d: %s accepts a message type with a declaration that has no meaning; it was refused %d times before (%s)", i, what, refused[op.T], c.S.badString(op.T))
			}
			x.class("refused")
			x.classIf(refused[op.T] > 0, "refused again")
			refused[op.T]++
			continue
		}
		if len(refused) > 0 {
			later++
		}
		at := func(f string, a ...any) error {
			return fmt.Errorf("operation %d, on a proper message type, after %d types were refused: %s (%s)", i, len(refused), fmt.Sprintf(f, a...), s)
		}
		switch op.Op {
		case 0, 1:
			n := s.norm(0, op.V)
			p := s.build(0, op.V)
			if w, size := len(s.refEncode(nil, 0, n)), proto.Size(p.Interface()); size != w {
				return at("Size is %d, the encoding has %d bytes", size, w)
			}
			b, err := marshal(p)
			if err != nil {
				return at("Marshal: %v", err)
			}
			got, _, e := s.refDecode(b, nil)
			if e != nil {
				return at("Marshal gives %s: %v", hexs(b), e)
			}
			if d := s.diff(0, s.withoutGuards(0, n), got); d != "" {
				return at("Marshal gives %s: %s", hexs(b), d)
			}
		case 2:
			b := encRecs(nil, op.W)
			want, d, e := s.refDecode(b, nil)
			if d.unspecified || e != nil {
				continue
			}
			v := s.New()
			if err := unmarshal(b, v); err != nil {
				return at("Unmarshal of %s: %v", hexs(b), err)
			}
			if df := s.diff(0, want, s.get(v)); df != "" {
				return at("Unmarshal of %s: %s", hexs(b), df)
			}
		}
	}
	x.nontrivial = len(refused) > 0
	x.classIf(later > 0, "proper types used after")
	x.classIf(len(refused) > 1, "several types refused")
	return nil
}

func (s *Schema) badString(i int) string {
	var b []string
	for i := range s.Msgs {
		for j := range s.Msgs[i].Fields {
			if f := &s.Msgs[i].Fields[j]; f.isBad() {
				t, tag := f.bad()
				b = append(b, fmt.Sprintf("M%d.F%d %v %s", i, j, t, tag))
			}
		}
	}
	return fmt.Sprintf("M%d of %s with %s", i, s, strings.Join(b, ", "))
}

func init() {
	addProp(&Prop{ID: "C25", Rule: "cases are a set of message types into which one to three declarations without a meaning (Go types that are no protobuf type, tags that cannot be understood) are put, and a history of uses of all the types; non-trivial: a type was refused", Subs: []Sub{
		sub("history", 8000, 150000, genBad, runBad),
	}})
}
