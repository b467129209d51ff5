package hz

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/RomiChan/protobuf/proto"
	pb "google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/apipb"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"google.golang.org/protobuf/types/pluginpb"
	"pgregory.net/rapid"

	"verif/harness/gpb"
)

// C32: types generated by the official plugin, protoc-gen-go, which have
// pointers for presence and unexported fields which belong to the official
// runtime, are used with both runtimes.

type GoogleCase struct {
	T    string `json:"t"`
	M    []byte `json:"m"` // a message, as the official runtime encodes it
	N    []byte `json:"n"` // another one, merged into the first
	U    []Rec  `json:"u,omitempty"`
	Edit []Edit `json:"edit,omitempty"`
	Warm bool   `json:"warm,omitempty"` // the official runtime uses the destination first
}

var googleTypes = func() map[string]pb.Message {
	m := map[string]pb.Message{}
	for _, x := range []pb.Message{
		&gpb.P2All{}, &gpb.P2Maps{}, &gpb.P2Leaf{}, &gpb.P2Req{}, &gpb.P2Def{}, &gpb.P3All{}, &gpb.P3Maps{}, &gpb.P3Leaf{},
		&descriptorpb.FileDescriptorProto{}, &descriptorpb.FileDescriptorSet{}, &descriptorpb.FieldOptions{}, &descriptorpb.SourceCodeInfo{},
		&descriptorpb.GeneratedCodeInfo{}, &descriptorpb.UninterpretedOption{},
		&pluginpb.CodeGeneratorRequest{}, &pluginpb.CodeGeneratorResponse{},
		&anypb.Any{}, &apipb.Api{}, &fieldmaskpb.FieldMask{}, &timestamppb.Timestamp{},
		&wrapperspb.DoubleValue{}, &wrapperspb.FloatValue{}, &wrapperspb.Int64Value{}, &wrapperspb.UInt64Value{}, &wrapperspb.Int32Value{},
		&wrapperspb.UInt32Value{}, &wrapperspb.BoolValue{}, &wrapperspb.StringValue{}, &wrapperspb.BytesValue{},
	} {
		m[string(x.ProtoReflect().Descriptor().Name())] = x
	}
	return m
}()

var googleNames = func() (ns []string) {
	for n := range googleTypes {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range []string{"P2All", "P2Maps", "P2Def", "P3All", "P3Maps"} {
		ns = append(ns, n, n, n, n, n)
	}
	return
}()

var googleKinds = map[protoreflect.Kind]Kind{
	protoreflect.BoolKind: KBool, protoreflect.EnumKind: KEnum, protoreflect.Int32Kind: KInt32, protoreflect.Sint32Kind: KSint32,
	protoreflect.Uint32Kind: KUint32, protoreflect.Int64Kind: KInt64, protoreflect.Sint64Kind: KSint64, protoreflect.Uint64Kind: KUint64,
	protoreflect.Sfixed32Kind: KSfixed32, protoreflect.Fixed32Kind: KFixed32, protoreflect.FloatKind: KFloat, protoreflect.Sfixed64Kind: KSfixed64,
	protoreflect.Fixed64Kind: KFixed64, protoreflect.DoubleKind: KDouble, protoreflect.StringKind: KString, protoreflect.BytesKind: KBytes,
}

func genGoogleScalar(t *rapid.T, fd protoreflect.FieldDescriptor, o *genOpts) protoreflect.Value {
	k := googleKinds[fd.Kind()]
	return dynScalar(k, genScalar(t, k, o))
}

// fillGoogle draws the fields of a message.
func fillGoogle(t *rapid.T, m protoreflect.Message, o *genOpts, budget *int, depth int) {
	fds := m.Descriptor().Fields()
	density := pick(t, []int{60, 25, 8, 90})
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		if *budget <= 0 || !chance(t, density) {
			continue
		}
		*budget--
		isMsg := fd.Message() != nil && !fd.IsMap()
		if isMsg && depth > 5 {
			continue
		}
		n := intn(t, 1, 4)
		if chance(t, 4) {
			n = intn(t, 9, 22)
		}
		switch {
		case fd.IsMap():
			mp := m.Mutable(fd).Map()
			for ; n > 0 && *budget > 0; n-- {
				*budget--
				k := genGoogleScalar(t, fd.MapKey(), o).MapKey()
				if fd.MapValue().Message() != nil {
					if depth <= 5 {
						v := mp.NewValue()
						fillGoogle(t, v.Message(), o, budget, depth+1)
						mp.Set(k, v)
					}
				} else {
					mp.Set(k, genGoogleScalar(t, fd.MapValue(), o))
				}
			}
		case fd.IsList():
			l := m.Mutable(fd).List()
			for ; n > 0 && *budget > 0; n-- {
				*budget--
				if isMsg {
					v := l.NewElement()
					fillGoogle(t, v.Message(), o, budget, depth+1)
					l.Append(v)
				} else {
					l.Append(genGoogleScalar(t, fd, o))
				}
			}
		case isMsg:
			fillGoogle(t, m.Mutable(fd).Message(), o, budget, depth+1)
		default:
			m.Set(fd, genGoogleScalar(t, fd, o))
		}
	}
}

var (
	googleOut = pb.MarshalOptions{AllowPartial: true, Deterministic: true}
	googleIn  = pb.UnmarshalOptions{AllowPartial: true, DiscardUnknown: true}
)

func genGoogle(t *rapid.T) GoogleCase {
	c := GoogleCase{T: pick(t, googleNames), Warm: chance(t, 50)}
	draw := func() []byte {
		m := googleTypes[c.T].ProtoReflect().New()
		n := pick(t, []int{40, 10, 120})
		o := &genOpts{utf8: true, zero: pick(t, []int{5, 50}), big: 2}
		fillGoogle(t, m, o, &n, 0)
		b, err := googleOut.Marshal(m.Interface())
		if err != nil {
			panic(err)
		}
		return b
	}
	c.M, c.N = draw(), draw()
	if chance(t, 40) {
		w := &wireOpts{genOpts: &genOpts{}, unknown: true}
		for n := intn(t, 1, 3); n > 0; n-- {
			// beyond the numbers of these types, and of their options' extensions
			r := genUnknown(t, nil, w, 0)
			if r.N = 600000000/2 + r.N%200000000; r.Sub == nil {
				c.U = append(c.U, r)
			}
		}
	}
	if chance(t, 35) {
		for n := intn(t, 1, 3); n > 0; n-- {
			c.Edit = append(c.Edit, genEdit(t))
		}
	}
	return c
}

func runGoogle(c GoogleCase, x *Ctx) error {
	fresh := func() pb.Message { return googleTypes[c.T].ProtoReflect().New().Interface() }
	out := func(m pb.Message) []byte {
		b, err := googleOut.Marshal(m)
		if err != nil {
			panic(err)
		}
		return b
	}
	m := fresh()
	if err := googleIn.Unmarshal(c.M, m); err != nil {
		return nil
	}
	want := out(m)
	x.nontrivial = len(c.M) > 2
	x.class(c.T)

	b, err := proto.Marshal(m)
	if err != nil {
		return fmt.Errorf("Marshal of a %s %s: %v", c.T, hexs(c.M), err)
	}
	if !bytes.Equal(out(m), want) {
		return fmt.Errorf("Marshal changes a %s: %s was %s", c.T, hexs(out(m)), hexs(want))
	}
	if n := proto.Size(m); n != len(b) {
		return fmt.Errorf("Size of a %s is %d, Marshal gives %s", c.T, n, hexs(b))
	}
	m2 := fresh()
	if err := (pb.UnmarshalOptions{AllowPartial: true}).Unmarshal(b, m2); err != nil {
		return fmt.Errorf("Marshal of a %s %s gives %s: %v", c.T, hexs(c.M), hexs(b), err)
	}
	if got := out(m2); !bytes.Equal(got, want) {
		return fmt.Errorf("Marshal of a %s %s gives %s, which reads as %s", c.T, hexs(want), hexs(b), hexs(got))
	}

	dst := fresh()
	if c.Warm {
		pb.Size(dst)
		_ = dst.ProtoReflect().Descriptor()
	}
	in := append(append(encRecs(nil, c.U), c.M...), encRecs(nil, c.U)...)
	if err := proto.Unmarshal(in, dst); err != nil {
		return fmt.Errorf("Unmarshal of a %s %s: %v", c.T, hexs(in), err)
	}
	if got := out(dst); !bytes.Equal(got, want) {
		return fmt.Errorf("Unmarshal of a %s %s gives %s", c.T, hexs(in), hexs(got))
	}
	if !pb.Equal(dst, m) {
		return fmt.Errorf("Unmarshal of a %s %s gives what is not Equal: %s", c.T, hexs(in), hexs(want))
	}
	// merging
	if err := proto.Unmarshal(c.N, dst); err != nil {
		return fmt.Errorf("Unmarshal of a %s %s: %v", c.T, hexs(c.N), err)
	}
	merge := googleIn
	merge.Merge = true
	if err := merge.Unmarshal(c.N, m); err != nil {
		return nil
	}
	if got, want := out(dst), out(m); !bytes.Equal(got, want) {
		return fmt.Errorf("Unmarshal of a %s %s over %s gives %s, not %s", c.T, hexs(c.N), hexs(c.M), hexs(got), hexs(want))
	}
	// what is encoded now is what the message holds now
	want = out(dst)
	if b, err = proto.Marshal(dst); err != nil {
		return fmt.Errorf("Marshal of a %s %s: %v", c.T, hexs(want), err)
	}
	if n := proto.Size(dst); n != len(b) {
		return fmt.Errorf("Size of a %s is %d, Marshal gives %s, after %s was merged into %s", c.T, n, hexs(b), hexs(c.N), hexs(c.M))
	}
	m2 = fresh()
	if err := (pb.UnmarshalOptions{AllowPartial: true}).Unmarshal(b, m2); err != nil {
		return fmt.Errorf("Marshal of a %s %s gives %s: %v", c.T, hexs(want), hexs(b), err)
	}
	if got := out(m2); !bytes.Equal(got, want) {
		return fmt.Errorf("Marshal of a %s gives %s, not %s, after %s was merged into %s", c.T, hexs(got), hexs(want), hexs(c.N), hexs(c.M))
	}
	// altered input: where both accept, both agree
	if len(c.Edit) > 0 {
		in := append([]byte(nil), c.M...)
		for i := range c.Edit {
			in = c.Edit[i].apply(in)
		}
		ours, theirs := fresh(), fresh()
		e1, e2 := proto.Unmarshal(in, ours), googleIn.Unmarshal(in, theirs)
		if e1 == nil && e2 == nil {
			x.class("altered and accepted")
			if got, want := out(ours), out(theirs); !bytes.Equal(got, want) {
				return fmt.Errorf("Unmarshal of a %s %s gives %s, not %s", c.T, hexs(in), hexs(got), hexs(want))
			}
		}
	}
	return nil
}

func init() {
	addProp(&Prop{ID: "C32", Rule: "cases are a message type generated by protoc-gen-go (two which have fields and maps of every kind, in proto2 and proto3; descriptor.proto, plugin.proto and the well-known types), two messages of it, unknown fields and changes to the encoding; non-trivial: the message is not almost empty", Subs: []Sub{
		sub("generated", 16000, 400000, genGoogle, runGoogle),
	}})
}
