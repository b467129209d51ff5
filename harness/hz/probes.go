package hz

import (
	"errors"
	"fmt"
	"strings"

	"github.com/RomiChan/protobuf/proto"
	pb "google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"
)

// Demonstrations of the known findings (known_findings.txt).

// what the plugin makes of a oneof
type (
	isOneofM_O interface{ isOneofM_O() }
	oneofM     struct {
		// Types that are assignable to O:
		//	*OneofM_A
		O isOneofM_O `protobuf_oneof:"o"`
		B int32      `protobuf:"varint,2,opt,name=b"`
	}
	oneofM_A struct {
		A int32 `protobuf:"varint,1,opt,name=a"`
	}
)

func (*oneofM_A) isOneofM_O() {}

// what the plugin makes of a group
type groupM struct {
	G *groupM_G `protobuf:"group,1,opt,name=G"`
}

type groupM_G struct {
	A proto.Option[int32] `protobuf:"varint,1,opt,name=a"`
}

func init() {
	probes["deep"] = probe{crashes: true, run: func() error {
		const levels = 4 << 20
		var b []byte // reversed
		put := func(v uint64) {
			e := uvarint(nil, v)
			for i := len(e) - 1; i >= 0; i-- {
				b = append(b, e[i])
			}
		}
		for i := 0; i < levels; i++ {
			put(uint64(len(b)))
			put(tagOf(2, WLen))
		}
		for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
		err := proto.Unmarshal(b, &ListT{})
		fmt.Println("decoded", levels, "levels:", err)
		return nil
	}}
	probes["oneof"] = probe{run: func() error {
		b, err := proto.Marshal(&oneofM{O: &oneofM_A{A: 5}, B: 7})
		if err != nil {
			return err
		}
		if string(b) != "\x08\x05\x10\x07" {
			return fmt.Errorf("encoding is %x", b)
		}
		m := &oneofM{}
		if err := proto.Unmarshal(b, m); err != nil {
			return err
		}
		if a, ok := m.O.(*oneofM_A); !ok || a.A != 5 {
			return errors.New("member not decoded")
		}
		return nil
	}}
	probes["group"] = probe{run: func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("panic: %v", r)
			}
		}()
		b, err := proto.Marshal(&groupM{G: &groupM_G{A: proto.Some[int32](5)}})
		if err == nil && string(b) != "\x0b\x08\x05\x0c" {
			err = fmt.Errorf("encoding is %x", b)
		}
		return err
	}}
	probes["default"] = probe{run: func() error {
		req := &pluginpb.CodeGeneratorRequest{
			FileToGenerate: []string{"d.proto"},
			ProtoFile: []*descriptorpb.FileDescriptorProto{{
				Name: pb.String("d.proto"), Syntax: pb.String("proto2"),
				Options: &descriptorpb.FileOptions{GoPackage: pb.String("example.com/d")},
				MessageType: []*descriptorpb.DescriptorProto{{
					Name:      pb.String("M"),
					OneofDecl: []*descriptorpb.OneofDescriptorProto{{Name: pb.String("o")}},
					Field: []*descriptorpb.FieldDescriptorProto{{
						Name: pb.String("a"), Number: pb.Int32(1), OneofIndex: pb.Int32(0), DefaultValue: pb.String("4242"),
						Type: descriptorpb.FieldDescriptorProto_TYPE_INT32.Enum(), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(),
					}},
				}},
			}},
		}
		r, _, err := runPlugin(req)
		if err != nil || len(r.File) == 0 {
			return nil // something else is wrong
		}
		if src := r.File[0].GetContent(); !strings.Contains(src, "4242") {
			return errors.New("the default is nowhere in the generated code")
		}
		return nil
	}}
}
