package hz

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"github.com/RomiChan/protobuf/proto"
)

// Val is the value of one present field or element.
type Val struct {
	B   uint64 `json:"b,omitempty"` // bits of a scalar, 32 bit kinds in the low half
	S   []byte `json:"s,omitempty"` // string, bytes
	R   int    `json:"r,omitempty"` // if not 0, the content is S repeated R times
	M   *MV    `json:"m,omitempty"` // message
	L   []*Val `json:"l,omitempty"` // list elements, or map values
	K   []*Val `json:"k,omitempty"` // map keys
	Nil bool   `json:"nil,omitempty"`
	// Spare holds elements placed in the spare capacity of a list.
	Spare []*Val `json:"sp,omitempty"`
}

// MV is a message value, one entry per field, nil is absent.
type MV struct {
	F []*Val `json:"f"`
}

func (v *Val) bytes() []byte {
	if v.R > 0 {
		return bytes.Repeat(v.S, v.R)
	}
	return v.S
}

func (s *Schema) newMV(mi int) *MV { return &MV{F: make([]*Val, len(s.Msgs[mi].Fields))} }

// norm gives the normal form of a message: what the format can express.
// Zero fields without presence and empty lists and maps are absent, elements
// are never nil, maps are sorted by key without duplicates.
func (s *Schema) norm(mi int, m *MV) *MV {
	out := s.newMV(mi)
	if m == nil {
		return out
	}
	for i := range s.Msgs[mi].Fields {
		f := &s.Msgs[mi].Fields[i]
		if i < len(m.F) {
			out.F[i] = s.normField(f, m.F[i])
		}
	}
	return out
}

func (s *Schema) normField(f *Field, v *Val) *Val {
	if v == nil {
		return nil
	}
	switch f.Card {
	case CRep:
		if len(v.L) == 0 {
			return nil
		}
		o := &Val{L: make([]*Val, len(v.L))}
		for i, e := range v.L {
			o.L[i] = s.normElem(f, e)
		}
		return o
	case CMap:
		if len(v.K) == 0 {
			return nil
		}
		o := &Val{}
		idx := map[string]int{}
		kf := Field{Kind: f.Key}
		for i := range v.K {
			k := s.normElem(&kf, v.K[i])
			e := s.normElem(f, v.L[i])
			ks := k.keyString(f.Key)
			if j, ok := idx[ks]; ok {
				o.L[j] = e
				continue
			}
			idx[ks] = len(o.K)
			o.K = append(o.K, k)
			o.L = append(o.L, e)
		}
		sort.Sort(&byKey{o, f.Key})
		return o
	}
	if v.Nil || f.Kind == KMessage && v.M == nil {
		return nil
	}
	e := s.normElem(f, v)
	if !f.presence() && f.Kind != KMessage {
		if f.Kind == KString || f.Kind == KBytes {
			if len(e.S) == 0 {
				return nil
			}
		} else if e.B == 0 {
			return nil
		}
	}
	return e
}

func (s *Schema) normElem(f *Field, v *Val) *Val {
	if f.Kind == KMessage {
		return &Val{M: s.norm(f.Msg, v.M), Nil: v.Nil || v.M == nil}
	}
	if f.Kind == KString || f.Kind == KBytes {
		return &Val{S: v.bytes()}
	}
	return &Val{B: v.B}
}

func (v *Val) keyString(k Kind) string {
	if k == KString {
		return string(v.bytes())
	}
	return fmt.Sprintf("%020d", v.B)
}

type byKey struct {
	v *Val
	k Kind
}

func (b *byKey) Len() int { return len(b.v.K) }
func (b *byKey) Less(i, j int) bool {
	if b.k == KString {
		return bytes.Compare(b.v.K[i].bytes(), b.v.K[j].bytes()) < 0
	}
	return b.v.K[i].B < b.v.K[j].B
}
func (b *byKey) Swap(i, j int) {
	b.v.K[i], b.v.K[j] = b.v.K[j], b.v.K[i]
	b.v.L[i], b.v.L[j] = b.v.L[j], b.v.L[i]
}

type diffName struct {
	mi int
	f  *Field
}

func (d diffName) String() string {
	return fmt.Sprintf("M%d.%d(%s %s)", d.mi, d.f.Num, d.f.Card, d.f.Kind)
}

// diff compares two normalised messages, "" means equal.
func (s *Schema) diff(mi int, want, got *MV) string {
	for i := range s.Msgs[mi].Fields {
		f := &s.Msgs[mi].Fields[i]
		a, b := want.F[i], got.F[i]
		name := diffName{mi, f}
		if (a == nil) != (b == nil) {
			return fmt.Sprintf("%s: want %s, got %s", name, s.valStr(f, a), s.valStr(f, b))
		}
		if a == nil {
			continue
		}
		switch f.Card {
		case CRep:
			if len(a.L) != len(b.L) {
				return fmt.Sprintf("%s: want %d elements, got %d", name, len(a.L), len(b.L))
			}
			for j := range a.L {
				if d := s.diffElem(f, a.L[j], b.L[j]); d != "" {
					return fmt.Sprintf("%s[%d]: %s", name, j, d)
				}
			}
		case CMap:
			kf := &Field{Kind: f.Key}
			for j := range a.K {
				if j >= len(b.K) || s.diffElem(kf, a.K[j], b.K[j]) != "" {
					return fmt.Sprintf("%s: want %d keys, got %d, first difference at key %s", name, len(a.K), len(b.K), s.valStr(kf, a.K[j]))
				}
			}
			if len(a.K) != len(b.K) {
				return fmt.Sprintf("%s: want %d keys, got %d", name, len(a.K), len(b.K))
			}
			for j := range a.L {
				if d := s.diffElem(f, a.L[j], b.L[j]); d != "" {
					return fmt.Sprintf("%s[%s]: %s", name, s.valStr(kf, a.K[j]), d)
				}
			}
		default:
			if d := s.diffElem(f, a, b); d != "" {
				return name.String() + ": " + d
			}
		}
	}
	return ""
}

func (s *Schema) diffElem(f *Field, a, b *Val) string {
	switch f.Kind {
	case KMessage:
		return s.diff(f.Msg, a.M, b.M)
	case KString, KBytes:
		if !bytes.Equal(a.S, b.S) {
			return fmt.Sprintf("want %s, got %s", s.valStr(f, a), s.valStr(f, b))
		}
	default:
		if a.B != b.B {
			return fmt.Sprintf("want %s, got %s", s.valStr(f, a), s.valStr(f, b))
		}
	}
	return ""
}

func (s *Schema) valStr(f *Field, v *Val) string {
	if v == nil {
		return "absent"
	}
	switch f.Card {
	case CRep:
		return fmt.Sprintf("%d elements", len(v.L))
	case CMap:
		return fmt.Sprintf("%d entries", len(v.K))
	}
	switch f.Kind {
	case KMessage:
		return "message " + clip(jsonStr(v.M))
	case KString, KBytes:
		b := v.bytes()
		return fmt.Sprintf("%d bytes %s", len(b), clip(fmt.Sprintf("%q", b)))
	case KFloat:
		return fmt.Sprintf("%v(%#x)", math.Float32frombits(uint32(v.B)), v.B)
	case KDouble:
		return fmt.Sprintf("%v(%#x)", math.Float64frombits(v.B), v.B)
	}
	return fmt.Sprintf("%#x", v.B)
}

func clip(s string) string {
	if len(s) > 120 {
		return s[:100] + fmt.Sprintf("...(%d)", len(s))
	}
	return s
}

// Go values.

func (s *Schema) goField(mi, i int, p unsafe.Pointer) reflect.Value {
	t := s.Type(mi)
	f := &s.Msgs[mi].Fields[i]
	var sf reflect.StructField
	if f.Name != "" && f.Name != "_" {
		var ok bool
		if sf, ok = t.FieldByName(f.Name); !ok {
			panic("no field " + f.Name + " in " + t.String())
		}
	} else {
		sf = t.Field(i)
	}
	return reflect.NewAt(sf.Type, unsafe.Add(p, sf.Offset)).Elem()
}

// build makes a pointer to a new struct holding m.
func (s *Schema) build(mi int, m *MV) reflect.Value {
	v := reflect.New(s.Type(mi))
	s.fill(mi, m, v.UnsafePointer())
	return v
}

func (s *Schema) fill(mi int, m *MV, p unsafe.Pointer) {
	for i := range s.Msgs[mi].Fields {
		if i >= len(m.F) || m.F[i] == nil {
			continue
		}
		f := &s.Msgs[mi].Fields[i]
		if f.Name == "_" {
			continue
		}
		s.setField(f, m.F[i], s.goField(mi, i, p))
	}
}

func (s *Schema) setField(f *Field, v *Val, fv reflect.Value) {
	switch f.Card {
	case CRep:
		if v.Nil {
			return
		}
		n := len(v.L)
		sl := reflect.MakeSlice(fv.Type(), n+len(v.Spare), n+len(v.Spare))
		for i, e := range v.L {
			s.setElem(f, e, sl.Index(i))
		}
		for i, e := range v.Spare {
			s.setElem(f, e, sl.Index(n+i))
		}
		fv.Set(sl.Slice(0, n))
	case CMap:
		if v.Nil {
			return
		}
		m := reflect.MakeMap(fv.Type())
		kf := &Field{Kind: f.Key}
		for i := range v.K {
			k := reflect.New(fv.Type().Key()).Elem()
			s.setElem(kf, v.K[i], k)
			e := reflect.New(fv.Type().Elem()).Elem()
			s.setElem(f, v.L[i], e)
			m.SetMapIndex(k, e)
		}
		fv.Set(m)
	case COpt, CReq:
		if v.Nil {
			return
		}
		if f.Kind == KBytes || f.Kind == KMessage {
			s.setElem(f, v, fv)
			return
		}
		setOption(f.Kind, v, fv.Addr().UnsafePointer())
	case CPtr:
		if v.Nil {
			return
		}
		if f.Kind == KBytes || f.Kind == KMessage {
			s.setElem(f, v, fv)
			return
		}
		e := reflect.New(fv.Type().Elem())
		s.setElem(f, v, e.Elem())
		fv.Set(e)
	default:
		s.setElem(f, v, fv)
	}
}

func setOption(k Kind, v *Val, p unsafe.Pointer) {
	switch k {
	case KBool:
		*(*proto.Option[bool])(p) = proto.Some(v.B != 0)
	case KInt32, KSint32, KSfixed32, KEnum:
		*(*proto.Option[int32])(p) = proto.Some(int32(v.B))
	case KUint32, KFixed32:
		*(*proto.Option[uint32])(p) = proto.Some(uint32(v.B))
	case KInt64, KSint64, KSfixed64:
		*(*proto.Option[int64])(p) = proto.Some(int64(v.B))
	case KUint64, KFixed64:
		*(*proto.Option[uint64])(p) = proto.Some(v.B)
	case KFloat:
		*(*proto.Option[float32])(p) = proto.Some(math.Float32frombits(uint32(v.B)))
	case KDouble:
		*(*proto.Option[float64])(p) = proto.Some(math.Float64frombits(v.B))
	case KString:
		*(*proto.Option[string])(p) = proto.Some(string(v.bytes()))
	default:
		panic("option of " + k)
	}
}

func getOption(k Kind, p unsafe.Pointer) *Val {
	bit := func(some bool, b uint64) *Val {
		if !some {
			return nil
		}
		return &Val{B: b}
	}
	switch k {
	case KBool:
		o := *(*proto.Option[bool])(p)
		var b uint64
		if o.Unwrap() {
			b = 1
		}
		return bit(o.IsSome(), b)
	case KInt32, KSint32, KSfixed32, KEnum:
		o := *(*proto.Option[int32])(p)
		return bit(o.IsSome(), uint64(uint32(o.Unwrap())))
	case KUint32, KFixed32:
		o := *(*proto.Option[uint32])(p)
		return bit(o.IsSome(), uint64(o.Unwrap()))
	case KInt64, KSint64, KSfixed64:
		o := *(*proto.Option[int64])(p)
		return bit(o.IsSome(), uint64(o.Unwrap()))
	case KUint64, KFixed64:
		o := *(*proto.Option[uint64])(p)
		return bit(o.IsSome(), o.Unwrap())
	case KFloat:
		o := *(*proto.Option[float32])(p)
		return bit(o.IsSome(), uint64(math.Float32bits(o.Unwrap())))
	case KDouble:
		o := *(*proto.Option[float64])(p)
		return bit(o.IsSome(), math.Float64bits(o.Unwrap()))
	case KString:
		o := *(*proto.Option[string])(p)
		if o.IsNone() {
			return nil
		}
		return &Val{S: []byte(o.Unwrap())}
	}
	panic("option of " + k)
}

// setElem stores a scalar, string, bytes or message into an addressable value.
func (s *Schema) setElem(f *Field, v *Val, e reflect.Value) {
	p := e.Addr().UnsafePointer()
	switch {
	case f.Kind == KMessage:
		if v.Nil || v.M == nil {
			return
		}
		e.Set(s.build(f.Msg, v.M))
	case f.Kind == KBytes:
		if v.Nil {
			return
		}
		*(*[]byte)(p) = append([]byte{}, v.bytes()...)
	case f.Kind == KString:
		*(*string)(p) = string(v.bytes())
	case f.Kind == KBool:
		*(*bool)(p) = v.B != 0
	case f.Kind.is32():
		*(*uint32)(p) = uint32(v.B)
	default:
		*(*uint64)(p) = v.B
	}
}

// extract reads a struct into normal form.
func (s *Schema) extract(mi int, p unsafe.Pointer) *MV {
	m := s.newMV(mi)
	if p == nil {
		return m
	}
	for i := range s.Msgs[mi].Fields {
		f := &s.Msgs[mi].Fields[i]
		if f.Name == "_" {
			continue
		}
		m.F[i] = s.normField1(f, s.getField(f, s.goField(mi, i, p)))
	}
	return m
}

// normField1 is normField for values whose elements are already normal.
func (s *Schema) normField1(f *Field, v *Val) *Val {
	if v == nil {
		return nil
	}
	switch f.Card {
	case CRep:
		if len(v.L) == 0 {
			return nil
		}
	case CMap:
		if len(v.K) == 0 {
			return nil
		}
		sort.Sort(&byKey{v, f.Key})
	default:
		if !f.presence() && f.Kind != KMessage && v.B == 0 && len(v.S) == 0 {
			return nil
		}
	}
	return v
}

func (s *Schema) get(v reflect.Value) *MV { return s.extract(0, v.UnsafePointer()) }

func (s *Schema) getField(f *Field, fv reflect.Value) *Val {
	switch f.Card {
	case CRep:
		if fv.IsNil() {
			return nil
		}
		o := &Val{L: make([]*Val, fv.Len())}
		for i := range o.L {
			o.L[i] = s.getElem(f, fv.Index(i))
		}
		return o
	case CMap:
		if fv.IsNil() {
			return nil
		}
		o := &Val{}
		kf := &Field{Kind: f.Key}
		it := fv.MapRange()
		for it.Next() {
			k := reflect.New(fv.Type().Key()).Elem()
			k.Set(it.Key())
			e := reflect.New(fv.Type().Elem()).Elem()
			e.Set(it.Value())
			o.K = append(o.K, s.getElem(kf, k))
			o.L = append(o.L, s.getElem(f, e))
		}
		return o
	case COpt, CReq, CPtr:
		if f.Kind == KBytes || f.Kind == KMessage {
			break
		}
		if f.Card == CPtr {
			if fv.IsNil() {
				return nil
			}
			return s.getElem(f, fv.Elem())
		}
		return getOption(f.Kind, fv.Addr().UnsafePointer())
	}
	if (f.Kind == KBytes || f.Kind == KMessage) && fv.IsNil() {
		return nil
	}
	return s.getElem(f, fv)
}

func (s *Schema) getElem(f *Field, e reflect.Value) *Val {
	p := e.Addr().UnsafePointer()
	switch {
	case f.Kind == KMessage:
		return &Val{M: s.extract(f.Msg, e.UnsafePointer())}
	case f.Kind == KBytes:
		return &Val{S: append([]byte(nil), *(*[]byte)(p)...)}
	case f.Kind == KString:
		return &Val{S: []byte(*(*string)(p))}
	case f.Kind == KBool:
		// read the byte: a bool which is neither 0 nor 1 must show
		return &Val{B: uint64(*(*uint8)(p))}
	case f.Kind.is32():
		return &Val{B: uint64(*(*uint32)(p))}
	}
	return &Val{B: *(*uint64)(p)}
}

// dropNil makes nil map values into empty messages.
func (s *Schema) dropNil(mi int, m *MV) *MV {
	out := s.newMV(mi)
	for i, v := range m.F {
		f := &s.Msgs[mi].Fields[i]
		if v == nil || f.Kind != KMessage {
			out.F[i] = v
			continue
		}
		o := &Val{K: v.K}
		if v.M != nil {
			o.M = s.dropNil(f.Msg, v.M)
		}
		for _, e := range v.L {
			o.L = append(o.L, &Val{M: s.dropNil(f.Msg, e.M)})
		}
		out.F[i] = o
	}
	return out
}

// quiet maps all NaNs to one, for comparison with implementations which do not
// keep NaN payloads.
func (s *Schema) quiet(mi int, m *MV) *MV {
	for i := range s.Msgs[mi].Fields {
		f := &s.Msgs[mi].Fields[i]
		v := m.F[i]
		if v == nil {
			continue
		}
		switch f.Card {
		case CRep, CMap:
			for _, e := range v.L {
				s.quietElem(f, e)
			}
		default:
			s.quietElem(f, v)
		}
	}
	return m
}

func (s *Schema) quietElem(f *Field, v *Val) {
	switch f.Kind {
	case KMessage:
		s.quiet(f.Msg, v.M)
	case KFloat:
		if x := math.Float32frombits(uint32(v.B)); x != x {
			v.B = 0x7fc00000
		}
	case KDouble:
		if x := math.Float64frombits(v.B); x != x {
			v.B = 0x7ff8000000000000
		}
	}
}

func (s *Schema) clone(mi int, m *MV) *MV { return s.norm(mi, m) }

// depth is the nesting depth of a value, count the number of its leaves.
func (m *MV) depth() int {
	d := 0
	for _, v := range m.F {
		if v == nil {
			continue
		}
		if v.M != nil {
			d = max(d, 1+v.M.depth())
		}
		for _, e := range v.L {
			if e.M != nil {
				d = max(d, 1+e.M.depth())
			}
		}
	}
	return d
}

func (m *MV) count() int {
	n := 0
	for _, v := range m.F {
		if v == nil {
			continue
		}
		n++
		if v.M != nil {
			n += v.M.count()
		}
		n += len(v.L)
		for _, e := range v.L {
			if e.M != nil {
				n += e.M.count()
			}
		}
	}
	return n
}

func hexs(b []byte) string {
	if len(b) > 200 {
		return fmt.Sprintf("%x...(%d bytes)", b[:180], len(b))
	}
	return fmt.Sprintf("%x", b)
}

var _ = strings.Join
