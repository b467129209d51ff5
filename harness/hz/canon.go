package hz

import (
	"fmt"
	"math"

	pb "google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
)

// canonFile describes a schema to google.golang.org/protobuf.
type canonFile struct {
	msgs []protoreflect.MessageDescriptor
	fds  [][]protoreflect.FieldDescriptor
}

var descType = map[Kind]descriptorpb.FieldDescriptorProto_Type{
	KBool: descriptorpb.FieldDescriptorProto_TYPE_BOOL, KInt32: descriptorpb.FieldDescriptorProto_TYPE_INT32,
	KSint32: descriptorpb.FieldDescriptorProto_TYPE_SINT32, KSfixed32: descriptorpb.FieldDescriptorProto_TYPE_SFIXED32,
	KUint32: descriptorpb.FieldDescriptorProto_TYPE_UINT32, KFixed32: descriptorpb.FieldDescriptorProto_TYPE_FIXED32,
	KInt64: descriptorpb.FieldDescriptorProto_TYPE_INT64, KSint64: descriptorpb.FieldDescriptorProto_TYPE_SINT64,
	KSfixed64: descriptorpb.FieldDescriptorProto_TYPE_SFIXED64, KUint64: descriptorpb.FieldDescriptorProto_TYPE_UINT64,
	KFixed64: descriptorpb.FieldDescriptorProto_TYPE_FIXED64, KFloat: descriptorpb.FieldDescriptorProto_TYPE_FLOAT,
	KDouble: descriptorpb.FieldDescriptorProto_TYPE_DOUBLE, KString: descriptorpb.FieldDescriptorProto_TYPE_STRING,
	KBytes: descriptorpb.FieldDescriptorProto_TYPE_BYTES, KEnum: descriptorpb.FieldDescriptorProto_TYPE_ENUM,
	KMessage: descriptorpb.FieldDescriptorProto_TYPE_MESSAGE,
}

func fieldDesc(num int, name string, k Kind, msg int) *descriptorpb.FieldDescriptorProto {
	fd := &descriptorpb.FieldDescriptorProto{
		Name: pb.String(name), Number: pb.Int32(int32(num)), Type: descType[k].Enum(),
		Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(),
	}
	switch k {
	case KMessage:
		fd.TypeName = pb.String(fmt.Sprintf(".p.M%d", msg))
	case KEnum:
		fd.TypeName = pb.String(".p.E")
	}
	return fd
}

func (s *Schema) descriptor() *descriptorpb.FileDescriptorProto {
	file := &descriptorpb.FileDescriptorProto{Name: pb.String("x.proto"), Package: pb.String("p"), Syntax: pb.String("proto3"),
		EnumType: []*descriptorpb.EnumDescriptorProto{{Name: pb.String("E"), Value: []*descriptorpb.EnumValueDescriptorProto{
			{Name: pb.String("Z"), Number: pb.Int32(0)}}}}}
	for i := range s.Msgs {
		md := &descriptorpb.DescriptorProto{Name: pb.String(fmt.Sprintf("M%d", i))}
		for j := range s.Msgs[i].Fields {
			f := &s.Msgs[i].Fields[j]
			if !f.proto() {
				continue
			}
			name := fmt.Sprintf("f%d", j)
			fd := fieldDesc(f.Num, name, f.Kind, f.Msg)
			switch f.Card {
			case CRep:
				fd.Label = descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
				if f.packable() {
					fd.Options = &descriptorpb.FieldOptions{Packed: pb.Bool(false)}
				}
			case CMap:
				en := fmt.Sprintf("F%dEntry", j)
				md.NestedType = append(md.NestedType, &descriptorpb.DescriptorProto{Name: pb.String(en),
					Field:   []*descriptorpb.FieldDescriptorProto{fieldDesc(1, "key", f.Key, 0), fieldDesc(2, "value", f.Kind, f.Msg)},
					Options: &descriptorpb.MessageOptions{MapEntry: pb.Bool(true)}})
				fd.Type = descriptorpb.FieldDescriptorProto_TYPE_MESSAGE.Enum()
				fd.TypeName = pb.String(fmt.Sprintf(".p.M%d.%s", i, en))
				fd.Label = descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
			default:
				if f.presence() && f.Kind != KMessage {
					fd.Proto3Optional = pb.Bool(true)
					fd.OneofIndex = pb.Int32(int32(len(md.OneofDecl)))
					md.OneofDecl = append(md.OneofDecl, &descriptorpb.OneofDescriptorProto{Name: pb.String("_" + name)})
				}
			}
			md.Field = append(md.Field, fd)
		}
		file.MessageType = append(file.MessageType, md)
	}
	return file
}

func (s *Schema) canonical() *canonFile {
	if s.canon != nil {
		return s.canon
	}
	fd, err := protodesc.NewFile(s.descriptor(), nil)
	if err != nil {
		panic(harnessError{fmt.Errorf("canonical descriptor: %v", err)})
	}
	c := &canonFile{}
	for i := range s.Msgs {
		md := fd.Messages().Get(i)
		c.msgs = append(c.msgs, md)
		fds := make([]protoreflect.FieldDescriptor, len(s.Msgs[i].Fields))
		for j := range s.Msgs[i].Fields {
			if s.Msgs[i].Fields[j].proto() {
				fds[j] = md.Fields().ByNumber(protoreflect.FieldNumber(s.Msgs[i].Fields[j].Num))
			}
		}
		c.fds = append(c.fds, fds)
	}
	s.canon = c
	return c
}

// canonOK reports whether a descriptor can be made of the schema.
func (s *Schema) canonOK() bool {
	for i := range s.Msgs {
		for j := range s.Msgs[i].Fields {
			if n := s.Msgs[i].Fields[j].Num; n >= 19000 && n <= 19999 {
				return false
			}
		}
	}
	return true
}

// canonDecode decodes b with google.golang.org/protobuf, into a message which
// already holds the encodings in before. It returns the normal form.
func (s *Schema) canonDecode(bs ...[]byte) (m *MV, unknown bool, err error) {
	c := s.canonical()
	dm := dynamicpb.NewMessage(c.msgs[0])
	for _, b := range bs {
		if err := (pb.UnmarshalOptions{Merge: true, AllowPartial: true}).Unmarshal(b, dm); err != nil {
			return nil, false, err
		}
	}
	m = s.fromDyn(0, dm, &unknown)
	return s.norm(0, m), unknown, nil
}

func (s *Schema) fromDyn(mi int, dm protoreflect.Message, unknown *bool) *MV {
	c := s.canonical()
	m := s.newMV(mi)
	if len(dm.GetUnknown()) > 0 {
		*unknown = true
	}
	for i := range s.Msgs[mi].Fields {
		f := &s.Msgs[mi].Fields[i]
		fd := c.fds[mi][i]
		if fd == nil || !dm.Has(fd) {
			continue
		}
		v := dm.Get(fd)
		switch f.Card {
		case CRep:
			o := &Val{}
			for j := 0; j < v.List().Len(); j++ {
				o.L = append(o.L, s.fromDynElem(f.Kind, f.Msg, v.List().Get(j), unknown))
			}
			m.F[i] = o
		case CMap:
			o := &Val{}
			v.Map().Range(func(k protoreflect.MapKey, e protoreflect.Value) bool {
				o.K = append(o.K, s.fromDynElem(f.Key, 0, k.Value(), unknown))
				o.L = append(o.L, s.fromDynElem(f.Kind, f.Msg, e, unknown))
				return true
			})
			m.F[i] = o
		default:
			m.F[i] = s.fromDynElem(f.Kind, f.Msg, v, unknown)
		}
	}
	return m
}

func (s *Schema) fromDynElem(k Kind, msg int, v protoreflect.Value, unknown *bool) *Val {
	switch k {
	case KMessage:
		return &Val{M: s.fromDyn(msg, v.Message(), unknown)}
	case KString:
		return &Val{S: []byte(v.String())}
	case KBytes:
		return &Val{S: v.Bytes()}
	case KBool:
		if v.Bool() {
			return &Val{B: 1}
		}
		return &Val{}
	case KEnum:
		return &Val{B: uint64(uint32(v.Enum()))}
	case KInt32, KSint32, KSfixed32:
		return &Val{B: uint64(uint32(v.Int()))}
	case KInt64, KSint64, KSfixed64:
		return &Val{B: uint64(v.Int())}
	case KUint32, KFixed32, KUint64, KFixed64:
		return &Val{B: v.Uint()}
	case KFloat:
		return &Val{B: uint64(math.Float32bits(float32(v.Float())))}
	case KDouble:
		return &Val{B: math.Float64bits(v.Float())}
	}
	panic("kind")
}

// canonEncode encodes with google.golang.org/protobuf.
func (s *Schema) canonEncode(m *MV) ([]byte, error) {
	c := s.canonical()
	dm := dynamicpb.NewMessage(c.msgs[0])
	s.toDyn(0, m, dm)
	return pb.MarshalOptions{Deterministic: true, AllowPartial: true}.Marshal(dm)
}

func (s *Schema) toDyn(mi int, m *MV, dm protoreflect.Message) {
	c := s.canonical()
	for i := range s.Msgs[mi].Fields {
		f := &s.Msgs[mi].Fields[i]
		fd := c.fds[mi][i]
		v := m.F[i]
		if fd == nil || v == nil {
			continue
		}
		switch f.Card {
		case CRep:
			l := dm.Mutable(fd).List()
			for _, e := range v.L {
				if f.Kind == KMessage {
					s.toDyn(f.Msg, e.M, l.AppendMutable().Message())
				} else {
					l.Append(dynScalar(f.Kind, e))
				}
			}
		case CMap:
			mm := dm.Mutable(fd).Map()
			for j := range v.K {
				k := dynScalar(f.Key, v.K[j]).MapKey()
				if f.Kind == KMessage {
					s.toDyn(f.Msg, v.L[j].M, mm.Mutable(k).Message())
				} else {
					mm.Set(k, dynScalar(f.Kind, v.L[j]))
				}
			}
		default:
			if f.Kind == KMessage {
				s.toDyn(f.Msg, v.M, dm.Mutable(fd).Message())
			} else {
				dm.Set(fd, dynScalar(f.Kind, v))
			}
		}
	}
}

func dynScalar(k Kind, v *Val) protoreflect.Value {
	switch k {
	case KString:
		return protoreflect.ValueOfString(string(v.bytes()))
	case KBytes:
		return protoreflect.ValueOfBytes(append([]byte{}, v.bytes()...))
	case KBool:
		return protoreflect.ValueOfBool(v.B != 0)
	case KEnum:
		return protoreflect.ValueOfEnum(protoreflect.EnumNumber(int32(v.B)))
	case KInt32, KSint32, KSfixed32:
		return protoreflect.ValueOfInt32(int32(v.B))
	case KInt64, KSint64, KSfixed64:
		return protoreflect.ValueOfInt64(int64(v.B))
	case KUint32, KFixed32:
		return protoreflect.ValueOfUint32(uint32(v.B))
	case KUint64, KFixed64:
		return protoreflect.ValueOfUint64(v.B)
	case KFloat:
		return protoreflect.ValueOfFloat32(math.Float32frombits(uint32(v.B)))
	case KDouble:
		return protoreflect.ValueOfFloat64(math.Float64frombits(v.B))
	}
	panic("kind")
}
