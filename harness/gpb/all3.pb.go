// Code generated by protoc-gen-go. DO NOT EDIT.
// versions:
// 	protoc-gen-go v1.27.1
// 	protoc        v3.21.12
// source: all3.proto

package gpb

import (
	protoreflect "google.golang.org/protobuf/reflect/protoreflect"
	protoimpl "google.golang.org/protobuf/runtime/protoimpl"
	reflect "reflect"
	sync "sync"
)

const (
	// Verify that this generated code is sufficiently up-to-date.
	_ = protoimpl.EnforceVersion(20 - protoimpl.MinVersion)
	// Verify that runtime/protoimpl is sufficiently up-to-date.
	_ = protoimpl.EnforceVersion(protoimpl.MaxVersion - 20)
)

type P3Enum int32

const (
	P3Enum_P3_ZERO P3Enum = 0
	P3Enum_P3_ONE  P3Enum = 1
	P3Enum_P3_NEG  P3Enum = -5
	P3Enum_P3_BIG  P3Enum = 2147483647
)

// Enum value maps for P3Enum.
var (
	P3Enum_name = map[int32]string{
		0:          "P3_ZERO",
		1:          "P3_ONE",
		-5:         "P3_NEG",
		2147483647: "P3_BIG",
	}
	P3Enum_value = map[string]int32{
		"P3_ZERO": 0,
		"P3_ONE":  1,
		"P3_NEG":  -5,
		"P3_BIG":  2147483647,
	}
)

func (x P3Enum) Enum() *P3Enum {
	p := new(P3Enum)
	*p = x
	return p
}

func (x P3Enum) String() string {
	return protoimpl.X.EnumStringOf(x.Descriptor(), protoreflect.EnumNumber(x))
}

func (P3Enum) Descriptor() protoreflect.EnumDescriptor {
	return file_all3_proto_enumTypes[0].Descriptor()
}

func (P3Enum) Type() protoreflect.EnumType {
	return &file_all3_proto_enumTypes[0]
}

func (x P3Enum) Number() protoreflect.EnumNumber {
	return protoreflect.EnumNumber(x)
}

// Deprecated: Use P3Enum.Descriptor instead.
func (P3Enum) EnumDescriptor() ([]byte, []int) {
	return file_all3_proto_rawDescGZIP(), []int{0}
}

type P3All struct {
	state         protoimpl.MessageState
	sizeCache     protoimpl.SizeCache
	unknownFields protoimpl.UnknownFields

	SInt32    int32     `protobuf:"varint,1,opt,name=s_int32,json=sInt32,proto3" json:"s_int32,omitempty"`
	OInt32    *int32    `protobuf:"varint,2,opt,name=o_int32,json=oInt32,proto3,oneof" json:"o_int32,omitempty"`
	RInt32    []int32   `protobuf:"varint,3,rep,packed,name=r_int32,json=rInt32,proto3" json:"r_int32,omitempty"`
	PInt32    []int32   `protobuf:"varint,4,rep,name=p_int32,json=pInt32,proto3" json:"p_int32,omitempty"`
	SSint32   int32     `protobuf:"zigzag32,5,opt,name=s_sint32,json=sSint32,proto3" json:"s_sint32,omitempty"`
	OSint32   *int32    `protobuf:"zigzag32,6,opt,name=o_sint32,json=oSint32,proto3,oneof" json:"o_sint32,omitempty"`
	RSint32   []int32   `protobuf:"zigzag32,7,rep,packed,name=r_sint32,json=rSint32,proto3" json:"r_sint32,omitempty"`
	PSint32   []int32   `protobuf:"zigzag32,8,rep,name=p_sint32,json=pSint32,proto3" json:"p_sint32,omitempty"`
	SSfixed32 int32     `protobuf:"fixed32,9,opt,name=s_sfixed32,json=sSfixed32,proto3" json:"s_sfixed32,omitempty"`
	OSfixed32 *int32    `protobuf:"fixed32,10,opt,name=o_sfixed32,json=oSfixed32,proto3,oneof" json:"o_sfixed32,omitempty"`
	RSfixed32 []int32   `protobuf:"fixed32,11,rep,packed,name=r_sfixed32,json=rSfixed32,proto3" json:"r_sfixed32,omitempty"`
	PSfixed32 []int32   `protobuf:"fixed32,12,rep,name=p_sfixed32,json=pSfixed32,proto3" json:"p_sfixed32,omitempty"`
	SUint32   uint32    `protobuf:"varint,13,opt,name=s_uint32,json=sUint32,proto3" json:"s_uint32,omitempty"`
	OUint32   *uint32   `protobuf:"varint,14,opt,name=o_uint32,json=oUint32,proto3,oneof" json:"o_uint32,omitempty"`
	RUint32   []uint32  `protobuf:"varint,15,rep,packed,name=r_uint32,json=rUint32,proto3" json:"r_uint32,omitempty"`
	PUint32   []uint32  `protobuf:"varint,16,rep,name=p_uint32,json=pUint32,proto3" json:"p_uint32,omitempty"`
	SFixed32  uint32    `protobuf:"fixed32,17,opt,name=s_fixed32,json=sFixed32,proto3" json:"s_fixed32,omitempty"`
	OFixed32  *uint32   `protobuf:"fixed32,18,opt,name=o_fixed32,json=oFixed32,proto3,oneof" json:"o_fixed32,omitempty"`
	RFixed32  []uint32  `protobuf:"fixed32,19,rep,packed,name=r_fixed32,json=rFixed32,proto3" json:"r_fixed32,omitempty"`
	PFixed32  []uint32  `protobuf:"fixed32,20,rep,name=p_fixed32,json=pFixed32,proto3" json:"p_fixed32,omitempty"`
	SInt64    int64     `protobuf:"varint,21,opt,name=s_int64,json=sInt64,proto3" json:"s_int64,omitempty"`
	OInt64    *int64    `protobuf:"varint,22,opt,name=o_int64,json=oInt64,proto3,oneof" json:"o_int64,omitempty"`
	RInt64    []int64   `protobuf:"varint,23,rep,packed,name=r_int64,json=rInt64,proto3" json:"r_int64,omitempty"`
	PInt64    []int64   `protobuf:"varint,24,rep,name=p_int64,json=pInt64,proto3" json:"p_int64,omitempty"`
	SSint64   int64     `protobuf:"zigzag64,25,opt,name=s_sint64,json=sSint64,proto3" json:"s_sint64,omitempty"`
	OSint64   *int64    `protobuf:"zigzag64,26,opt,name=o_sint64,json=oSint64,proto3,oneof" json:"o_sint64,omitempty"`
	RSint64   []int64   `protobuf:"zigzag64,27,rep,packed,name=r_sint64,json=rSint64,proto3" json:"r_sint64,omitempty"`
	PSint64   []int64   `protobuf:"zigzag64,28,rep,name=p_sint64,json=pSint64,proto3" json:"p_sint64,omitempty"`
	SSfixed64 int64     `protobuf:"fixed64,29,opt,name=s_sfixed64,json=sSfixed64,proto3" json:"s_sfixed64,omitempty"`
	OSfixed64 *int64    `protobuf:"fixed64,30,opt,name=o_sfixed64,json=oSfixed64,proto3,oneof" json:"o_sfixed64,omitempty"`
	RSfixed64 []int64   `protobuf:"fixed64,31,rep,packed,name=r_sfixed64,json=rSfixed64,proto3" json:"r_sfixed64,omitempty"`
	PSfixed64 []int64   `protobuf:"fixed64,32,rep,name=p_sfixed64,json=pSfixed64,proto3" json:"p_sfixed64,omitempty"`
	SUint64   uint64    `protobuf:"varint,33,opt,name=s_uint64,json=sUint64,proto3" json:"s_uint64,omitempty"`
	OUint64   *uint64   `protobuf:"varint,34,opt,name=o_uint64,json=oUint64,proto3,oneof" json:"o_uint64,omitempty"`
	RUint64   []uint64  `protobuf:"varint,35,rep,packed,name=r_uint64,json=rUint64,proto3" json:"r_uint64,omitempty"`
	PUint64   []uint64  `protobuf:"varint,36,rep,name=p_uint64,json=pUint64,proto3" json:"p_uint64,omitempty"`
	SFixed64  uint64    `protobuf:"fixed64,37,opt,name=s_fixed64,json=sFixed64,proto3" json:"s_fixed64,omitempty"`
	OFixed64  *uint64   `protobuf:"fixed64,38,opt,name=o_fixed64,json=oFixed64,proto3,oneof" json:"o_fixed64,omitempty"`
	RFixed64  []uint64  `protobuf:"fixed64,39,rep,packed,name=r_fixed64,json=rFixed64,proto3" json:"r_fixed64,omitempty"`
	PFixed64  []uint64  `protobuf:"fixed64,40,rep,name=p_fixed64,json=pFixed64,proto3" json:"p_fixed64,omitempty"`
	SBool     bool      `protobuf:"varint,41,opt,name=s_bool,json=sBool,proto3" json:"s_bool,omitempty"`
	OBool     *bool     `protobuf:"varint,42,opt,name=o_bool,json=oBool,proto3,oneof" json:"o_bool,omitempty"`
	RBool     []bool    `protobuf:"varint,43,rep,packed,name=r_bool,json=rBool,proto3" json:"r_bool,omitempty"`
	PBool     []bool    `protobuf:"varint,44,rep,name=p_bool,json=pBool,proto3" json:"p_bool,omitempty"`
	SFloat    float32   `protobuf:"fixed32,45,opt,name=s_float,json=sFloat,proto3" json:"s_float,omitempty"`
	OFloat    *float32  `protobuf:"fixed32,46,opt,name=o_float,json=oFloat,proto3,oneof" json:"o_float,omitempty"`
	RFloat    []float32 `protobuf:"fixed32,47,rep,packed,name=r_float,json=rFloat,proto3" json:"r_float,omitempty"`
	PFloat    []float32 `protobuf:"fixed32,48,rep,name=p_float,json=pFloat,proto3" json:"p_float,omitempty"`
	SDouble   float64   `protobuf:"fixed64,49,opt,name=s_double,json=sDouble,proto3" json:"s_double,omitempty"`
	ODouble   *float64  `protobuf:"fixed64,50,opt,name=o_double,json=oDouble,proto3,oneof" json:"o_double,omitempty"`
	RDouble   []float64 `protobuf:"fixed64,51,rep,packed,name=r_double,json=rDouble,proto3" json:"r_double,omitempty"`
	PDouble   []float64 `protobuf:"fixed64,52,rep,name=p_double,json=pDouble,proto3" json:"p_double,omitempty"`
	SString   string    `protobuf:"bytes,53,opt,name=s_string,json=sString,proto3" json:"s_string,omitempty"`
	OString   *string   `protobuf:"bytes,54,opt,name=o_string,json=oString,proto3,oneof" json:"o_string,omitempty"`
	RString   []string  `protobuf:"bytes,55,rep,name=r_string,json=rString,proto3" json:"r_string,omitempty"`
	SBytes    []byte    `protobuf:"bytes,56,opt,name=s_bytes,json=sBytes,proto3" json:"s_bytes,omitempty"`
	OBytes    []byte    `protobuf:"bytes,57,opt,name=o_bytes,json=oBytes,proto3,oneof" json:"o_bytes,omitempty"`
	RBytes    [][]byte  `protobuf:"bytes,58,rep,name=r_bytes,json=rBytes,proto3" json:"r_bytes,omitempty"`
	SP3Enum   P3Enum    `protobuf:"varint,59,opt,name=s_p3enum,json=sP3enum,proto3,enum=gpb3.P3Enum" json:"s_p3enum,omitempty"`
	OP3Enum   *P3Enum   `protobuf:"varint,60,opt,name=o_p3enum,json=oP3enum,proto3,enum=gpb3.P3Enum,oneof" json:"o_p3enum,omitempty"`
	RP3Enum   []P3Enum  `protobuf:"varint,61,rep,packed,name=r_p3enum,json=rP3enum,proto3,enum=gpb3.P3Enum" json:"r_p3enum,omitempty"`
	PP3Enum   []P3Enum  `protobuf:"varint,62,rep,name=p_p3enum,json=pP3enum,proto3,enum=gpb3.P3Enum" json:"p_p3enum,omitempty"`
	Self      *P3All    `protobuf:"bytes,63,opt,name=self,proto3" json:"self,omitempty"`
	Selves    []*P3All  `protobuf:"bytes,64,rep,name=selves,proto3" json:"selves,omitempty"`
	Maps      *P3Maps   `protobuf:"bytes,2000,opt,name=maps,proto3" json:"maps,omitempty"`
	Leaf      *P3Leaf   `protobuf:"bytes,536870911,opt,name=leaf,proto3" json:"leaf,omitempty"`
}

func (x *P3All) Reset() {
	*x = P3All{}
	if protoimpl.UnsafeEnabled {
		mi := &file_all3_proto_msgTypes[0]
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		ms.StoreMessageInfo(mi)
	}
}

func (x *P3All) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*P3All) ProtoMessage() {}

func (x *P3All) ProtoReflect() protoreflect.Message {
	mi := &file_all3_proto_msgTypes[0]
	if protoimpl.UnsafeEnabled && x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use P3All.ProtoReflect.Descriptor instead.
func (*P3All) Descriptor() ([]byte, []int) {
	return file_all3_proto_rawDescGZIP(), []int{0}
}

func (x *P3All) GetSInt32() int32 {
	if x != nil {
		return x.SInt32
	}
	return 0
}

func (x *P3All) GetOInt32() int32 {
	if x != nil && x.OInt32 != nil {
		return *x.OInt32
	}
	return 0
}

func (x *P3All) GetRInt32() []int32 {
	if x != nil {
		return x.RInt32
	}
	return nil
}

func (x *P3All) GetPInt32() []int32 {
	if x != nil {
		return x.PInt32
	}
	return nil
}

func (x *P3All) GetSSint32() int32 {
	if x != nil {
		return x.SSint32
	}
	return 0
}

func (x *P3All) GetOSint32() int32 {
	if x != nil && x.OSint32 != nil {
		return *x.OSint32
	}
	return 0
}

func (x *P3All) GetRSint32() []int32 {
	if x != nil {
		return x.RSint32
	}
	return nil
}

func (x *P3All) GetPSint32() []int32 {
	if x != nil {
		return x.PSint32
	}
	return nil
}

func (x *P3All) GetSSfixed32() int32 {
	if x != nil {
		return x.SSfixed32
	}
	return 0
}

func (x *P3All) GetOSfixed32() int32 {
	if x != nil && x.OSfixed32 != nil {
		return *x.OSfixed32
	}
	return 0
}

func (x *P3All) GetRSfixed32() []int32 {
	if x != nil {
		return x.RSfixed32
	}
	return nil
}

func (x *P3All) GetPSfixed32() []int32 {
	if x != nil {
		return x.PSfixed32
	}
	return nil
}

func (x *P3All) GetSUint32() uint32 {
	if x != nil {
		return x.SUint32
	}
	return 0
}

func (x *P3All) GetOUint32() uint32 {
	if x != nil && x.OUint32 != nil {
		return *x.OUint32
	}
	return 0
}

func (x *P3All) GetRUint32() []uint32 {
	if x != nil {
		return x.RUint32
	}
	return nil
}

func (x *P3All) GetPUint32() []uint32 {
	if x != nil {
		return x.PUint32
	}
	return nil
}

func (x *P3All) GetSFixed32() uint32 {
	if x != nil {
		return x.SFixed32
	}
	return 0
}

func (x *P3All) GetOFixed32() uint32 {
	if x != nil && x.OFixed32 != nil {
		return *x.OFixed32
	}
	return 0
}

func (x *P3All) GetRFixed32() []uint32 {
	if x != nil {
		return x.RFixed32
	}
	return nil
}

func (x *P3All) GetPFixed32() []uint32 {
	if x != nil {
		return x.PFixed32
	}
	return nil
}

func (x *P3All) GetSInt64() int64 {
	if x != nil {
		return x.SInt64
	}
	return 0
}

func (x *P3All) GetOInt64() int64 {
	if x != nil && x.OInt64 != nil {
		return *x.OInt64
	}
	return 0
}

func (x *P3All) GetRInt64() []int64 {
	if x != nil {
		return x.RInt64
	}
	return nil
}

func (x *P3All) GetPInt64() []int64 {
	if x != nil {
		return x.PInt64
	}
	return nil
}

func (x *P3All) GetSSint64() int64 {
	if x != nil {
		return x.SSint64
	}
	return 0
}

func (x *P3All) GetOSint64() int64 {
	if x != nil && x.OSint64 != nil {
		return *x.OSint64
	}
	return 0
}

func (x *P3All) GetRSint64() []int64 {
	if x != nil {
		return x.RSint64
	}
	return nil
}

func (x *P3All) GetPSint64() []int64 {
	if x != nil {
		return x.PSint64
	}
	return nil
}

func (x *P3All) GetSSfixed64() int64 {
	if x != nil {
		return x.SSfixed64
	}
	return 0
}

func (x *P3All) GetOSfixed64() int64 {
	if x != nil && x.OSfixed64 != nil {
		return *x.OSfixed64
	}
	return 0
}

func (x *P3All) GetRSfixed64() []int64 {
	if x != nil {
		return x.RSfixed64
	}
	return nil
}

func (x *P3All) GetPSfixed64() []int64 {
	if x != nil {
		return x.PSfixed64
	}
	return nil
}

func (x *P3All) GetSUint64() uint64 {
	if x != nil {
		return x.SUint64
	}
	return 0
}

func (x *P3All) GetOUint64() uint64 {
	if x != nil && x.OUint64 != nil {
		return *x.OUint64
	}
	return 0
}

func (x *P3All) GetRUint64() []uint64 {
	if x != nil {
		return x.RUint64
	}
	return nil
}

func (x *P3All) GetPUint64() []uint64 {
	if x != nil {
		return x.PUint64
	}
	return nil
}

func (x *P3All) GetSFixed64() uint64 {
	if x != nil {
		return x.SFixed64
	}
	return 0
}

func (x *P3All) GetOFixed64() uint64 {
	if x != nil && x.OFixed64 != nil {
		return *x.OFixed64
	}
	return 0
}

func (x *P3All) GetRFixed64() []uint64 {
	if x != nil {
		return x.RFixed64
	}
	return nil
}

func (x *P3All) GetPFixed64() []uint64 {
	if x != nil {
		return x.PFixed64
	}
	return nil
}

func (x *P3All) GetSBool() bool {
	if x != nil {
		return x.SBool
	}
	return false
}

func (x *P3All) GetOBool() bool {
	if x != nil && x.OBool != nil {
		return *x.OBool
	}
	return false
}

func (x *P3All) GetRBool() []bool {
	if x != nil {
		return x.RBool
	}
	return nil
}

func (x *P3All) GetPBool() []bool {
	if x != nil {
		return x.PBool
	}
	return nil
}

func (x *P3All) GetSFloat() float32 {
	if x != nil {
		return x.SFloat
	}
	return 0
}

func (x *P3All) GetOFloat() float32 {
	if x != nil && x.OFloat != nil {
		return *x.OFloat
	}
	return 0
}

func (x *P3All) GetRFloat() []float32 {
	if x != nil {
		return x.RFloat
	}
	return nil
}

func (x *P3All) GetPFloat() []float32 {
	if x != nil {
		return x.PFloat
	}
	return nil
}

func (x *P3All) GetSDouble() float64 {
	if x != nil {
		return x.SDouble
	}
	return 0
}

func (x *P3All) GetODouble() float64 {
	if x != nil && x.ODouble != nil {
		return *x.ODouble
	}
	return 0
}

func (x *P3All) GetRDouble() []float64 {
	if x != nil {
		return x.RDouble
	}
	return nil
}

func (x *P3All) GetPDouble() []float64 {
	if x != nil {
		return x.PDouble
	}
	return nil
}

func (x *P3All) GetSString() string {
	if x != nil {
		return x.SString
	}
	return ""
}

func (x *P3All) GetOString() string {
	if x != nil && x.OString != nil {
		return *x.OString
	}
	return ""
}

func (x *P3All) GetRString() []string {
	if x != nil {
		return x.RString
	}
	return nil
}

func (x *P3All) GetSBytes() []byte {
	if x != nil {
		return x.SBytes
	}
	return nil
}

func (x *P3All) GetOBytes() []byte {
	if x != nil {
		return x.OBytes
	}
	return nil
}

func (x *P3All) GetRBytes() [][]byte {
	if x != nil {
		return x.RBytes
	}
	return nil
}

func (x *P3All) GetSP3Enum() P3Enum {
	if x != nil {
		return x.SP3Enum
	}
	return P3Enum_P3_ZERO
}

func (x *P3All) GetOP3Enum() P3Enum {
	if x != nil && x.OP3Enum != nil {
		return *x.OP3Enum
	}
	return P3Enum_P3_ZERO
}

func (x *P3All) GetRP3Enum() []P3Enum {
	if x != nil {
		return x.RP3Enum
	}
	return nil
}

func (x *P3All) GetPP3Enum() []P3Enum {
	if x != nil {
		return x.PP3Enum
	}
	return nil
}

func (x *P3All) GetSelf() *P3All {
	if x != nil {
		return x.Self
	}
	return nil
}

func (x *P3All) GetSelves() []*P3All {
	if x != nil {
		return x.Selves
	}
	return nil
}

func (x *P3All) GetMaps() *P3Maps {
	if x != nil {
		return x.Maps
	}
	return nil
}

func (x *P3All) GetLeaf() *P3Leaf {
	if x != nil {
		return x.Leaf
	}
	return nil
}

type P3Maps struct {
	state         protoimpl.MessageState
	sizeCache     protoimpl.SizeCache
	unknownFields protoimpl.UnknownFields

	MInt32    map[int32]uint32  `protobuf:"bytes,1,rep,name=m_int32,json=mInt32,proto3" json:"m_int32,omitempty" protobuf_key:"varint,1,opt,name=key,proto3" protobuf_val:"varint,2,opt,name=value,proto3"`
	NInt32    map[int32]int32   `protobuf:"bytes,2,rep,name=n_int32,json=nInt32,proto3" json:"n_int32,omitempty" protobuf_key:"varint,1,opt,name=key,proto3" protobuf_val:"zigzag32,2,opt,name=value,proto3"`
	MSint32   map[int32]bool    `protobuf:"bytes,3,rep,name=m_sint32,json=mSint32,proto3" json:"m_sint32,omitempty" protobuf_key:"zigzag32,1,opt,name=key,proto3" protobuf_val:"varint,2,opt,name=value,proto3"`
	NSint32   map[int32]int64   `protobuf:"bytes,4,rep,name=n_sint32,json=nSint32,proto3" json:"n_sint32,omitempty" protobuf_key:"zigzag32,1,opt,name=key,proto3" protobuf_val:"varint,2,opt,name=value,proto3"`
	MSfixed32 map[int32]int32   `protobuf:"bytes,5,rep,name=m_sfixed32,json=mSfixed32,proto3" json:"m_sfixed32,omitempty" protobuf_key:"fixed32,1,opt,name=key,proto3" protobuf_val:"fixed32,2,opt,name=value,proto3"`
	NSfixed32 map[int32]uint64  `protobuf:"bytes,6,rep,name=n_sfixed32,json=nSfixed32,proto3" json:"n_sfixed32,omitempty" protobuf_key:"fixed32,1,opt,name=key,proto3" protobuf_val:"fixed64,2,opt,name=value,proto3"`
	MUint32   map[uint32]uint64 `protobuf:"bytes,7,rep,name=m_uint32,json=mUint32,proto3" json:"m_uint32,omitempty" protobuf_key:"varint,1,opt,name=key,proto3" protobuf_val:"fixed64,2,opt,name=value,proto3"`
	NUint32   map[uint32]string `protobuf:"bytes,8,rep,name=n_uint32,json=nUint32,proto3" json:"n_uint32,omitempty" protobuf_key:"varint,1,opt,name=key,proto3" protobuf_val:"bytes,2,opt,name=value,proto3"`
	MFixed32  map[uint32]int32  `protobuf:"bytes,9,rep,name=m_fixed32,json=mFixed32,proto3" json:"m_fixed32,omitempty" protobuf_key:"fixed32,1,opt,name=key,proto3" protobuf_val:"zigzag32,2,opt,name=value,proto3"`
	NFixed32  map[uint32]int32  `protobuf:"bytes,10,rep,name=n_fixed32,json=nFixed32,proto3" json:"n_fixed32,omitempty" protobuf_key:"fixed32,1,opt,name=key,proto3" protobuf_val:"fixed32,2,opt,name=value,proto3"`
	MInt64    map[int64]uint64  `protobuf:"bytes,11,rep,name=m_int64,json=mInt64,proto3" json:"m_int64,omitempty" protobuf_key:"varint,1,opt,name=key,proto3" protobuf_val:"varint,2,opt,name=value,proto3"`
	NInt64    map[int64]int64   `protobuf:"bytes,12,rep,name=n_int64,json=nInt64,proto3" json:"n_int64,omitempty" protobuf_key:"varint,1,opt,name=key,proto3" protobuf_val:"zigzag64,2,opt,name=value,proto3"`
	MSint64   map[int64]int32   `protobuf:"bytes,13,rep,name=m_sint64,json=mSint64,proto3" json:"m_sint64,omitempty" protobuf_key:"zigzag64,1,opt,name=key,proto3" protobuf_val:"varint,2,opt,name=value,proto3"`
	NSint64   map[int64]bool    `protobuf:"bytes,14,rep,name=n_sint64,json=nSint64,proto3" json:"n_sint64,omitempty" protobuf_key:"zigzag64,1,opt,name=key,proto3" protobuf_val:"varint,2,opt,name=value,proto3"`
	MSfixed64 map[int64]int64   `protobuf:"bytes,15,rep,name=m_sfixed64,json=mSfixed64,proto3" json:"m_sfixed64,omitempty" protobuf_key:"fixed64,1,opt,name=key,proto3" protobuf_val:"fixed64,2,opt,name=value,proto3"`
	NSfixed64 map[int64][]byte  `protobuf:"bytes,16,rep,name=n_sfixed64,json=nSfixed64,proto3" json:"n_sfixed64,omitempty" protobuf_key:"fixed64,1,opt,name=key,proto3" protobuf_val:"bytes,2,opt,name=value,proto3"`
	MUint64   map[uint64][]byte `protobuf:"bytes,17,rep,name=m_uint64,json=mUint64,proto3" json:"m_uint64,omitempty" protobuf_key:"varint,1,opt,name=key,proto3" protobuf_val:"bytes,2,opt,name=value,proto3"`
	NUint64   map[uint64]uint32 `protobuf:"bytes,18,rep,name=n_uint64,json=nUint64,proto3" json:"n_uint64,omitempty" protobuf_key:"varint,1,opt,name=key,proto3" protobuf_val:"varint,2,opt,name=value,proto3"`
	MFixed64  map[uint64]int64  `protobuf:"bytes,19,rep,name=m_fixed64,json=mFixed64,proto3" json:"m_fixed64,omitempty" protobuf_key:"fixed64,1,opt,name=key,proto3" protobuf_val:"zigzag64,2,opt,name=value,proto3"`
	NFixed64  map[uint64]int64  `protobuf:"bytes,20,rep,name=n_fixed64,json=nFixed64,proto3" json:"n_fixed64,omitempty" protobuf_key:"fixed64,1,opt,name=key,proto3" protobuf_val:"fixed64,2,opt,name=value,proto3"`
	MBool     map[bool]string   `protobuf:"bytes,21,rep,name=m_bool,json=mBool,proto3" json:"m_bool,omitempty" protobuf_key:"varint,1,opt,name=key,proto3" protobuf_val:"bytes,2,opt,name=value,proto3"`
	NBool     map[bool]float32  `protobuf:"bytes,22,rep,name=n_bool,json=nBool,proto3" json:"n_bool,omitempty" protobuf_key:"varint,1,opt,name=key,proto3" protobuf_val:"fixed32,2,opt,name=value,proto3"`
	MString   map[string]int64  `protobuf:"bytes,23,rep,name=m_string,json=mString,proto3" json:"m_string,omitempty" protobuf_key:"bytes,1,opt,name=key,proto3" protobuf_val:"varint,2,opt,name=value,proto3"`
	NString   map[string]int32  `protobuf:"bytes,24,rep,name=n_string,json=nString,proto3" json:"n_string,omitempty" protobuf_key:"bytes,1,opt,name=key,proto3" protobuf_val:"varint,2,opt,name=value,proto3"`
	MEnum     map[string]P3Enum `protobuf:"bytes,25,rep,name=m_enum,json=mEnum,proto3" json:"m_enum,omitempty" protobuf_key:"bytes,1,opt,name=key,proto3" protobuf_val:"varint,2,opt,name=value,proto3,enum=gpb3.P3Enum"`
	MLeaf     map[int32]*P3Leaf `protobuf:"bytes,2048,rep,name=m_leaf,json=mLeaf,proto3" json:"m_leaf,omitempty" protobuf_key:"varint,1,opt,name=key,proto3" protobuf_val:"bytes,2,opt,name=value,proto3"`
	MAll      map[int64]*P3All  `protobuf:"bytes,262144,rep,name=m_all,json=mAll,proto3" json:"m_all,omitempty" protobuf_key:"zigzag64,1,opt,name=key,proto3" protobuf_val:"bytes,2,opt,name=value,proto3"`
	MBytes    map[string][]byte `protobuf:"bytes,3000,rep,name=m_bytes,json=mBytes,proto3" json:"m_bytes,omitempty" protobuf_key:"bytes,1,opt,name=key,proto3" protobuf_val:"bytes,2,opt,name=value,proto3"`
}

func (x *P3Maps) Reset() {
	*x = P3Maps{}
	if protoimpl.UnsafeEnabled {
		mi := &file_all3_proto_msgTypes[1]
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		ms.StoreMessageInfo(mi)
	}
}

func (x *P3Maps) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*P3Maps) ProtoMessage() {}

func (x *P3Maps) ProtoReflect() protoreflect.Message {
	mi := &file_all3_proto_msgTypes[1]
	if protoimpl.UnsafeEnabled && x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use P3Maps.ProtoReflect.Descriptor instead.
func (*P3Maps) Descriptor() ([]byte, []int) {
	return file_all3_proto_rawDescGZIP(), []int{1}
}

func (x *P3Maps) GetMInt32() map[int32]uint32 {
	if x != nil {
		return x.MInt32
	}
	return nil
}

func (x *P3Maps) GetNInt32() map[int32]int32 {
	if x != nil {
		return x.NInt32
	}
	return nil
}

func (x *P3Maps) GetMSint32() map[int32]bool {
	if x != nil {
		return x.MSint32
	}
	return nil
}

func (x *P3Maps) GetNSint32() map[int32]int64 {
	if x != nil {
		return x.NSint32
	}
	return nil
}

func (x *P3Maps) GetMSfixed32() map[int32]int32 {
	if x != nil {
		return x.MSfixed32
	}
	return nil
}

func (x *P3Maps) GetNSfixed32() map[int32]uint64 {
	if x != nil {
		return x.NSfixed32
	}
	return nil
}

func (x *P3Maps) GetMUint32() map[uint32]uint64 {
	if x != nil {
		return x.MUint32
	}
	return nil
}

func (x *P3Maps) GetNUint32() map[uint32]string {
	if x != nil {
		return x.NUint32
	}
	return nil
}

func (x *P3Maps) GetMFixed32() map[uint32]int32 {
	if x != nil {
		return x.MFixed32
	}
	return nil
}

func (x *P3Maps) GetNFixed32() map[uint32]int32 {
	if x != nil {
		return x.NFixed32
	}
	return nil
}

func (x *P3Maps) GetMInt64() map[int64]uint64 {
	if x != nil {
		return x.MInt64
	}
	return nil
}

func (x *P3Maps) GetNInt64() map[int64]int64 {
	if x != nil {
		return x.NInt64
	}
	return nil
}

func (x *P3Maps) GetMSint64() map[int64]int32 {
	if x != nil {
		return x.MSint64
	}
	return nil
}

func (x *P3Maps) GetNSint64() map[int64]bool {
	if x != nil {
		return x.NSint64
	}
	return nil
}

func (x *P3Maps) GetMSfixed64() map[int64]int64 {
	if x != nil {
		return x.MSfixed64
	}
	return nil
}

func (x *P3Maps) GetNSfixed64() map[int64][]byte {
	if x != nil {
		return x.NSfixed64
	}
	return nil
}

func (x *P3Maps) GetMUint64() map[uint64][]byte {
	if x != nil {
		return x.MUint64
	}
	return nil
}

func (x *P3Maps) GetNUint64() map[uint64]uint32 {
	if x != nil {
		return x.NUint64
	}
	return nil
}

func (x *P3Maps) GetMFixed64() map[uint64]int64 {
	if x != nil {
		return x.MFixed64
	}
	return nil
}

func (x *P3Maps) GetNFixed64() map[uint64]int64 {
	if x != nil {
		return x.NFixed64
	}
	return nil
}

func (x *P3Maps) GetMBool() map[bool]string {
	if x != nil {
		return x.MBool
	}
	return nil
}

func (x *P3Maps) GetNBool() map[bool]float32 {
	if x != nil {
		return x.NBool
	}
	return nil
}

func (x *P3Maps) GetMString() map[string]int64 {
	if x != nil {
		return x.MString
	}
	return nil
}

func (x *P3Maps) GetNString() map[string]int32 {
	if x != nil {
		return x.NString
	}
	return nil
}

func (x *P3Maps) GetMEnum() map[string]P3Enum {
	if x != nil {
		return x.MEnum
	}
	return nil
}

func (x *P3Maps) GetMLeaf() map[int32]*P3Leaf {
	if x != nil {
		return x.MLeaf
	}
	return nil
}

func (x *P3Maps) GetMAll() map[int64]*P3All {
	if x != nil {
		return x.MAll
	}
	return nil
}

func (x *P3Maps) GetMBytes() map[string][]byte {
	if x != nil {
		return x.MBytes
	}
	return nil
}

type P3Leaf struct {
	state         protoimpl.MessageState
	sizeCache     protoimpl.SizeCache
	unknownFields protoimpl.UnknownFields

	A int64  `protobuf:"zigzag64,1,opt,name=a,proto3" json:"a,omitempty"`
	B string `protobuf:"bytes,16,opt,name=b,proto3" json:"b,omitempty"`
}

func (x *P3Leaf) Reset() {
	*x = P3Leaf{}
	if protoimpl.UnsafeEnabled {
		mi := &file_all3_proto_msgTypes[2]
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		ms.StoreMessageInfo(mi)
	}
}

func (x *P3Leaf) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*P3Leaf) ProtoMessage() {}

func (x *P3Leaf) ProtoReflect() protoreflect.Message {
	mi := &file_all3_proto_msgTypes[2]
	if protoimpl.UnsafeEnabled && x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use P3Leaf.ProtoReflect.Descriptor instead.
func (*P3Leaf) Descriptor() ([]byte, []int) {
	return file_all3_proto_rawDescGZIP(), []int{2}
}

func (x *P3Leaf) GetA() int64 {
	if x != nil {
		return x.A
	}
	return 0
}

func (x *P3Leaf) GetB() string {
	if x != nil {
		return x.B
	}
	return ""
}

var File_all3_proto protoreflect.FileDescriptor

var file_all3_proto_rawDesc = []byte{
	0x0a, 0x0a, 0x61, 0x6c, 0x6c, 0x33, 0x2e, 0x70, 0x72, 0x6f, 0x74, 0x6f, 0x12, 0x04, 0x67, 0x70,
	0x62, 0x33, 0x22, 0xb2, 0x11, 0x0a, 0x05, 0x50, 0x33, 0x41, 0x6c, 0x6c, 0x12, 0x17, 0x0a, 0x07,
	0x73, 0x5f, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x18, 0x01, 0x20, 0x01, 0x28, 0x05, 0x52, 0x06, 0x73,
	0x49, 0x6e, 0x74, 0x33, 0x32, 0x12, 0x1c, 0x0a, 0x07, 0x6f, 0x5f, 0x69, 0x6e, 0x74, 0x33, 0x32,
	0x18, 0x02, 0x20, 0x01, 0x28, 0x05, 0x48, 0x00, 0x52, 0x06, 0x6f, 0x49, 0x6e, 0x74, 0x33, 0x32,
	0x88, 0x01, 0x01, 0x12, 0x17, 0x0a, 0x07, 0x72, 0x5f, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x18, 0x03,
	0x20, 0x03, 0x28, 0x05, 0x52, 0x06, 0x72, 0x49, 0x6e, 0x74, 0x33, 0x32, 0x12, 0x1b, 0x0a, 0x07,
	0x70, 0x5f, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x18, 0x04, 0x20, 0x03, 0x28, 0x05, 0x42, 0x02, 0x10,
	0x00, 0x52, 0x06, 0x70, 0x49, 0x6e, 0x74, 0x33, 0x32, 0x12, 0x19, 0x0a, 0x08, 0x73, 0x5f, 0x73,
	0x69, 0x6e, 0x74, 0x33, 0x32, 0x18, 0x05, 0x20, 0x01, 0x28, 0x11, 0x52, 0x07, 0x73, 0x53, 0x69,
	0x6e, 0x74, 0x33, 0x32, 0x12, 0x1e, 0x0a, 0x08, 0x6f, 0x5f, 0x73, 0x69, 0x6e, 0x74, 0x33, 0x32,
	0x18, 0x06, 0x20, 0x01, 0x28, 0x11, 0x48, 0x01, 0x52, 0x07, 0x6f, 0x53, 0x69, 0x6e, 0x74, 0x33,
	0x32, 0x88, 0x01, 0x01, 0x12, 0x19, 0x0a, 0x08, 0x72, 0x5f, 0x73, 0x69, 0x6e, 0x74, 0x33, 0x32,
	0x18, 0x07, 0x20, 0x03, 0x28, 0x11, 0x52, 0x07, 0x72, 0x53, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x12,
	0x1d, 0x0a, 0x08, 0x70, 0x5f, 0x73, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x18, 0x08, 0x20, 0x03, 0x28,
	0x11, 0x42, 0x02, 0x10, 0x00, 0x52, 0x07, 0x70, 0x53, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x12, 0x1d,
	0x0a, 0x0a, 0x73, 0x5f, 0x73, 0x66, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32, 0x18, 0x09, 0x20, 0x01,
	0x28, 0x0f, 0x52, 0x09, 0x73, 0x53, 0x66, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32, 0x12, 0x22, 0x0a,
	0x0a, 0x6f, 0x5f, 0x73, 0x66, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32, 0x18, 0x0a, 0x20, 0x01, 0x28,
	0x0f, 0x48, 0x02, 0x52, 0x09, 0x6f, 0x53, 0x66, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32, 0x88, 0x01,
	0x01, 0x12, 0x1d, 0x0a, 0x0a, 0x72, 0x5f, 0x73, 0x66, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32, 0x18,
	0x0b, 0x20, 0x03, 0x28, 0x0f, 0x52, 0x09, 0x72, 0x53, 0x66, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32,
	0x12, 0x21, 0x0a, 0x0a, 0x70, 0x5f, 0x73, 0x66, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32, 0x18, 0x0c,
	0x20, 0x03, 0x28, 0x0f, 0x42, 0x02, 0x10, 0x00, 0x52, 0x09, 0x70, 0x53, 0x66, 0x69, 0x78, 0x65,
	0x64, 0x33, 0x32, 0x12, 0x19, 0x0a, 0x08, 0x73, 0x5f, 0x75, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x18,
	0x0d, 0x20, 0x01, 0x28, 0x0d, 0x52, 0x07, 0x73, 0x55, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x12, 0x1e,
	0x0a, 0x08, 0x6f, 0x5f, 0x75, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x18, 0x0e, 0x20, 0x01, 0x28, 0x0d,
	0x48, 0x03, 0x52, 0x07, 0x6f, 0x55, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x88, 0x01, 0x01, 0x12, 0x19,
	0x0a, 0x08, 0x72, 0x5f, 0x75, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x18, 0x0f, 0x20, 0x03, 0x28, 0x0d,
	0x52, 0x07, 0x72, 0x55, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x12, 0x1d, 0x0a, 0x08, 0x70, 0x5f, 0x75,
	0x69, 0x6e, 0x74, 0x33, 0x32, 0x18, 0x10, 0x20, 0x03, 0x28, 0x0d, 0x42, 0x02, 0x10, 0x00, 0x52,
	0x07, 0x70, 0x55, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x12, 0x1b, 0x0a, 0x09, 0x73, 0x5f, 0x66, 0x69,
	0x78, 0x65, 0x64, 0x33, 0x32, 0x18, 0x11, 0x20, 0x01, 0x28, 0x07, 0x52, 0x08, 0x73, 0x46, 0x69,
	0x78, 0x65, 0x64, 0x33, 0x32, 0x12, 0x20, 0x0a, 0x09, 0x6f, 0x5f, 0x66, 0x69, 0x78, 0x65, 0x64,
	0x33, 0x32, 0x18, 0x12, 0x20, 0x01, 0x28, 0x07, 0x48, 0x04, 0x52, 0x08, 0x6f, 0x46, 0x69, 0x78,
	0x65, 0x64, 0x33, 0x32, 0x88, 0x01, 0x01, 0x12, 0x1b, 0x0a, 0x09, 0x72, 0x5f, 0x66, 0x69, 0x78,
	0x65, 0x64, 0x33, 0x32, 0x18, 0x13, 0x20, 0x03, 0x28, 0x07, 0x52, 0x08, 0x72, 0x46, 0x69, 0x78,
	0x65, 0x64, 0x33, 0x32, 0x12, 0x1f, 0x0a, 0x09, 0x70, 0x5f, 0x66, 0x69, 0x78, 0x65, 0x64, 0x33,
	0x32, 0x18, 0x14, 0x20, 0x03, 0x28, 0x07, 0x42, 0x02, 0x10, 0x00, 0x52, 0x08, 0x70, 0x46, 0x69,
	0x78, 0x65, 0x64, 0x33, 0x32, 0x12, 0x17, 0x0a, 0x07, 0x73, 0x5f, 0x69, 0x6e, 0x74, 0x36, 0x34,
	0x18, 0x15, 0x20, 0x01, 0x28, 0x03, 0x52, 0x06, 0x73, 0x49, 0x6e, 0x74, 0x36, 0x34, 0x12, 0x1c,
	0x0a, 0x07, 0x6f, 0x5f, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x18, 0x16, 0x20, 0x01, 0x28, 0x03, 0x48,
	0x05, 0x52, 0x06, 0x6f, 0x49, 0x6e, 0x74, 0x36, 0x34, 0x88, 0x01, 0x01, 0x12, 0x17, 0x0a, 0x07,
	0x72, 0x5f, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x18, 0x17, 0x20, 0x03, 0x28, 0x03, 0x52, 0x06, 0x72,
	0x49, 0x6e, 0x74, 0x36, 0x34, 0x12, 0x1b, 0x0a, 0x07, 0x70, 0x5f, 0x69, 0x6e, 0x74, 0x36, 0x34,
	0x18, 0x18, 0x20, 0x03, 0x28, 0x03, 0x42, 0x02, 0x10, 0x00, 0x52, 0x06, 0x70, 0x49, 0x6e, 0x74,
	0x36, 0x34, 0x12, 0x19, 0x0a, 0x08, 0x73, 0x5f, 0x73, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x18, 0x19,
	0x20, 0x01, 0x28, 0x12, 0x52, 0x07, 0x73, 0x53, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x12, 0x1e, 0x0a,
	0x08, 0x6f, 0x5f, 0x73, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x18, 0x1a, 0x20, 0x01, 0x28, 0x12, 0x48,
	0x06, 0x52, 0x07, 0x6f, 0x53, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x88, 0x01, 0x01, 0x12, 0x19, 0x0a,
	0x08, 0x72, 0x5f, 0x73, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x18, 0x1b, 0x20, 0x03, 0x28, 0x12, 0x52,
	0x07, 0x72, 0x53, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x12, 0x1d, 0x0a, 0x08, 0x70, 0x5f, 0x73, 0x69,
	0x6e, 0x74, 0x36, 0x34, 0x18, 0x1c, 0x20, 0x03, 0x28, 0x12, 0x42, 0x02, 0x10, 0x00, 0x52, 0x07,
	0x70, 0x53, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x12, 0x1d, 0x0a, 0x0a, 0x73, 0x5f, 0x73, 0x66, 0x69,
	0x78, 0x65, 0x64, 0x36, 0x34, 0x18, 0x1d, 0x20, 0x01, 0x28, 0x10, 0x52, 0x09, 0x73, 0x53, 0x66,
	0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x12, 0x22, 0x0a, 0x0a, 0x6f, 0x5f, 0x73, 0x66, 0x69, 0x78,
	0x65, 0x64, 0x36, 0x34, 0x18, 0x1e, 0x20, 0x01, 0x28, 0x10, 0x48, 0x07, 0x52, 0x09, 0x6f, 0x53,
	0x66, 0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x88, 0x01, 0x01, 0x12, 0x1d, 0x0a, 0x0a, 0x72, 0x5f,
	0x73, 0x66, 0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x18, 0x1f, 0x20, 0x03, 0x28, 0x10, 0x52, 0x09,
	0x72, 0x53, 0x66, 0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x12, 0x21, 0x0a, 0x0a, 0x70, 0x5f, 0x73,
	0x66, 0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x18, 0x20, 0x20, 0x03, 0x28, 0x10, 0x42, 0x02, 0x10,
	0x00, 0x52, 0x09, 0x70, 0x53, 0x66, 0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x12, 0x19, 0x0a, 0x08,
	0x73, 0x5f, 0x75, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x18, 0x21, 0x20, 0x01, 0x28, 0x04, 0x52, 0x07,
	0x73, 0x55, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x12, 0x1e, 0x0a, 0x08, 0x6f, 0x5f, 0x75, 0x69, 0x6e,
	0x74, 0x36, 0x34, 0x18, 0x22, 0x20, 0x01, 0x28, 0x04, 0x48, 0x08, 0x52, 0x07, 0x6f, 0x55, 0x69,
	0x6e, 0x74, 0x36, 0x34, 0x88, 0x01, 0x01, 0x12, 0x19, 0x0a, 0x08, 0x72, 0x5f, 0x75, 0x69, 0x6e,
	0x74, 0x36, 0x34, 0x18, 0x23, 0x20, 0x03, 0x28, 0x04, 0x52, 0x07, 0x72, 0x55, 0x69, 0x6e, 0x74,
	0x36, 0x34, 0x12, 0x1d, 0x0a, 0x08, 0x70, 0x5f, 0x75, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x18, 0x24,
	0x20, 0x03, 0x28, 0x04, 0x42, 0x02, 0x10, 0x00, 0x52, 0x07, 0x70, 0x55, 0x69, 0x6e, 0x74, 0x36,
	0x34, 0x12, 0x1b, 0x0a, 0x09, 0x73, 0x5f, 0x66, 0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x18, 0x25,
	0x20, 0x01, 0x28, 0x06, 0x52, 0x08, 0x73, 0x46, 0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x12, 0x20,
	0x0a, 0x09, 0x6f, 0x5f, 0x66, 0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x18, 0x26, 0x20, 0x01, 0x28,
	0x06, 0x48, 0x09, 0x52, 0x08, 0x6f, 0x46, 0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x88, 0x01, 0x01,
	0x12, 0x1b, 0x0a, 0x09, 0x72, 0x5f, 0x66, 0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x18, 0x27, 0x20,
	0x03, 0x28, 0x06, 0x52, 0x08, 0x72, 0x46, 0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x12, 0x1f, 0x0a,
	0x09, 0x70, 0x5f, 0x66, 0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x18, 0x28, 0x20, 0x03, 0x28, 0x06,
	0x42, 0x02, 0x10, 0x00, 0x52, 0x08, 0x70, 0x46, 0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x12, 0x15,
	0x0a, 0x06, 0x73, 0x5f, 0x62, 0x6f, 0x6f, 0x6c, 0x18, 0x29, 0x20, 0x01, 0x28, 0x08, 0x52, 0x05,
	0x73, 0x42, 0x6f, 0x6f, 0x6c, 0x12, 0x1a, 0x0a, 0x06, 0x6f, 0x5f, 0x62, 0x6f, 0x6f, 0x6c, 0x18,
	0x2a, 0x20, 0x01, 0x28, 0x08, 0x48, 0x0a, 0x52, 0x05, 0x6f, 0x42, 0x6f, 0x6f, 0x6c, 0x88, 0x01,
	0x01, 0x12, 0x15, 0x0a, 0x06, 0x72, 0x5f, 0x62, 0x6f, 0x6f, 0x6c, 0x18, 0x2b, 0x20, 0x03, 0x28,
	0x08, 0x52, 0x05, 0x72, 0x42, 0x6f, 0x6f, 0x6c, 0x12, 0x19, 0x0a, 0x06, 0x70, 0x5f, 0x62, 0x6f,
	0x6f, 0x6c, 0x18, 0x2c, 0x20, 0x03, 0x28, 0x08, 0x42, 0x02, 0x10, 0x00, 0x52, 0x05, 0x70, 0x42,
	0x6f, 0x6f, 0x6c, 0x12, 0x17, 0x0a, 0x07, 0x73, 0x5f, 0x66, 0x6c, 0x6f, 0x61, 0x74, 0x18, 0x2d,
	0x20, 0x01, 0x28, 0x02, 0x52, 0x06, 0x73, 0x46, 0x6c, 0x6f, 0x61, 0x74, 0x12, 0x1c, 0x0a, 0x07,
	0x6f, 0x5f, 0x66, 0x6c, 0x6f, 0x61, 0x74, 0x18, 0x2e, 0x20, 0x01, 0x28, 0x02, 0x48, 0x0b, 0x52,
	0x06, 0x6f, 0x46, 0x6c, 0x6f, 0x61, 0x74, 0x88, 0x01, 0x01, 0x12, 0x17, 0x0a, 0x07, 0x72, 0x5f,
	0x66, 0x6c, 0x6f, 0x61, 0x74, 0x18, 0x2f, 0x20, 0x03, 0x28, 0x02, 0x52, 0x06, 0x72, 0x46, 0x6c,
	0x6f, 0x61, 0x74, 0x12, 0x1b, 0x0a, 0x07, 0x70, 0x5f, 0x66, 0x6c, 0x6f, 0x61, 0x74, 0x18, 0x30,
	0x20, 0x03, 0x28, 0x02, 0x42, 0x02, 0x10, 0x00, 0x52, 0x06, 0x70, 0x46, 0x6c, 0x6f, 0x61, 0x74,
	0x12, 0x19, 0x0a, 0x08, 0x73, 0x5f, 0x64, 0x6f, 0x75, 0x62, 0x6c, 0x65, 0x18, 0x31, 0x20, 0x01,
	0x28, 0x01, 0x52, 0x07, 0x73, 0x44, 0x6f, 0x75, 0x62, 0x6c, 0x65, 0x12, 0x1e, 0x0a, 0x08, 0x6f,
	0x5f, 0x64, 0x6f, 0x75, 0x62, 0x6c, 0x65, 0x18, 0x32, 0x20, 0x01, 0x28, 0x01, 0x48, 0x0c, 0x52,
	0x07, 0x6f, 0x44, 0x6f, 0x75, 0x62, 0x6c, 0x65, 0x88, 0x01, 0x01, 0x12, 0x19, 0x0a, 0x08, 0x72,
	0x5f, 0x64, 0x6f, 0x75, 0x62, 0x6c, 0x65, 0x18, 0x33, 0x20, 0x03, 0x28, 0x01, 0x52, 0x07, 0x72,
	0x44, 0x6f, 0x75, 0x62, 0x6c, 0x65, 0x12, 0x1d, 0x0a, 0x08, 0x70, 0x5f, 0x64, 0x6f, 0x75, 0x62,
	0x6c, 0x65, 0x18, 0x34, 0x20, 0x03, 0x28, 0x01, 0x42, 0x02, 0x10, 0x00, 0x52, 0x07, 0x70, 0x44,
	0x6f, 0x75, 0x62, 0x6c, 0x65, 0x12, 0x19, 0x0a, 0x08, 0x73, 0x5f, 0x73, 0x74, 0x72, 0x69, 0x6e,
	0x67, 0x18, 0x35, 0x20, 0x01, 0x28, 0x09, 0x52, 0x07, 0x73, 0x53, 0x74, 0x72, 0x69, 0x6e, 0x67,
	0x12, 0x1e, 0x0a, 0x08, 0x6f, 0x5f, 0x73, 0x74, 0x72, 0x69, 0x6e, 0x67, 0x18, 0x36, 0x20, 0x01,
	0x28, 0x09, 0x48, 0x0d, 0x52, 0x07, 0x6f, 0x53, 0x74, 0x72, 0x69, 0x6e, 0x67, 0x88, 0x01, 0x01,
	0x12, 0x19, 0x0a, 0x08, 0x72, 0x5f, 0x73, 0x74, 0x72, 0x69, 0x6e, 0x67, 0x18, 0x37, 0x20, 0x03,
	0x28, 0x09, 0x52, 0x07, 0x72, 0x53, 0x74, 0x72, 0x69, 0x6e, 0x67, 0x12, 0x17, 0x0a, 0x07, 0x73,
	0x5f, 0x62, 0x79, 0x74, 0x65, 0x73, 0x18, 0x38, 0x20, 0x01, 0x28, 0x0c, 0x52, 0x06, 0x73, 0x42,
	0x79, 0x74, 0x65, 0x73, 0x12, 0x1c, 0x0a, 0x07, 0x6f, 0x5f, 0x62, 0x79, 0x74, 0x65, 0x73, 0x18,
	0x39, 0x20, 0x01, 0x28, 0x0c, 0x48, 0x0e, 0x52, 0x06, 0x6f, 0x42, 0x79, 0x74, 0x65, 0x73, 0x88,
	0x01, 0x01, 0x12, 0x17, 0x0a, 0x07, 0x72, 0x5f, 0x62, 0x79, 0x74, 0x65, 0x73, 0x18, 0x3a, 0x20,
	0x03, 0x28, 0x0c, 0x52, 0x06, 0x72, 0x42, 0x79, 0x74, 0x65, 0x73, 0x12, 0x27, 0x0a, 0x08, 0x73,
	0x5f, 0x70, 0x33, 0x65, 0x6e, 0x75, 0x6d, 0x18, 0x3b, 0x20, 0x01, 0x28, 0x0e, 0x32, 0x0c, 0x2e,
	0x67, 0x70, 0x62, 0x33, 0x2e, 0x50, 0x33, 0x45, 0x6e, 0x75, 0x6d, 0x52, 0x07, 0x73, 0x50, 0x33,
	0x65, 0x6e, 0x75, 0x6d, 0x12, 0x2c, 0x0a, 0x08, 0x6f, 0x5f, 0x70, 0x33, 0x65, 0x6e, 0x75, 0x6d,
	0x18, 0x3c, 0x20, 0x01, 0x28, 0x0e, 0x32, 0x0c, 0x2e, 0x67, 0x70, 0x62, 0x33, 0x2e, 0x50, 0x33,
	0x45, 0x6e, 0x75, 0x6d, 0x48, 0x0f, 0x52, 0x07, 0x6f, 0x50, 0x33, 0x65, 0x6e, 0x75, 0x6d, 0x88,
	0x01, 0x01, 0x12, 0x27, 0x0a, 0x08, 0x72, 0x5f, 0x70, 0x33, 0x65, 0x6e, 0x75, 0x6d, 0x18, 0x3d,
	0x20, 0x03, 0x28, 0x0e, 0x32, 0x0c, 0x2e, 0x67, 0x70, 0x62, 0x33, 0x2e, 0x50, 0x33, 0x45, 0x6e,
	0x75, 0x6d, 0x52, 0x07, 0x72, 0x50, 0x33, 0x65, 0x6e, 0x75, 0x6d, 0x12, 0x2b, 0x0a, 0x08, 0x70,
	0x5f, 0x70, 0x33, 0x65, 0x6e, 0x75, 0x6d, 0x18, 0x3e, 0x20, 0x03, 0x28, 0x0e, 0x32, 0x0c, 0x2e,
	0x67, 0x70, 0x62, 0x33, 0x2e, 0x50, 0x33, 0x45, 0x6e, 0x75, 0x6d, 0x42, 0x02, 0x10, 0x00, 0x52,
	0x07, 0x70, 0x50, 0x33, 0x65, 0x6e, 0x75, 0x6d, 0x12, 0x1f, 0x0a, 0x04, 0x73, 0x65, 0x6c, 0x66,
	0x18, 0x3f, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x0b, 0x2e, 0x67, 0x70, 0x62, 0x33, 0x2e, 0x50, 0x33,
	0x41, 0x6c, 0x6c, 0x52, 0x04, 0x73, 0x65, 0x6c, 0x66, 0x12, 0x23, 0x0a, 0x06, 0x73, 0x65, 0x6c,
	0x76, 0x65, 0x73, 0x18, 0x40, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x0b, 0x2e, 0x67, 0x70, 0x62, 0x33,
	0x2e, 0x50, 0x33, 0x41, 0x6c, 0x6c, 0x52, 0x06, 0x73, 0x65, 0x6c, 0x76, 0x65, 0x73, 0x12, 0x21,
	0x0a, 0x04, 0x6d, 0x61, 0x70, 0x73, 0x18, 0xd0, 0x0f, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x0c, 0x2e,
	0x67, 0x70, 0x62, 0x33, 0x2e, 0x50, 0x33, 0x4d, 0x61, 0x70, 0x73, 0x52, 0x04, 0x6d, 0x61, 0x70,
	0x73, 0x12, 0x24, 0x0a, 0x04, 0x6c, 0x65, 0x61, 0x66, 0x18, 0xff, 0xff, 0xff, 0xff, 0x01, 0x20,
	0x01, 0x28, 0x0b, 0x32, 0x0c, 0x2e, 0x67, 0x70, 0x62, 0x33, 0x2e, 0x50, 0x33, 0x4c, 0x65, 0x61,
	0x66, 0x52, 0x04, 0x6c, 0x65, 0x61, 0x66, 0x42, 0x0a, 0x0a, 0x08, 0x5f, 0x6f, 0x5f, 0x69, 0x6e,
	0x74, 0x33, 0x32, 0x42, 0x0b, 0x0a, 0x09, 0x5f, 0x6f, 0x5f, 0x73, 0x69, 0x6e, 0x74, 0x33, 0x32,
	0x42, 0x0d, 0x0a, 0x0b, 0x5f, 0x6f, 0x5f, 0x73, 0x66, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32, 0x42,
	0x0b, 0x0a, 0x09, 0x5f, 0x6f, 0x5f, 0x75, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x42, 0x0c, 0x0a, 0x0a,
	0x5f, 0x6f, 0x5f, 0x66, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32, 0x42, 0x0a, 0x0a, 0x08, 0x5f, 0x6f,
	0x5f, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x42, 0x0b, 0x0a, 0x09, 0x5f, 0x6f, 0x5f, 0x73, 0x69, 0x6e,
	0x74, 0x36, 0x34, 0x42, 0x0d, 0x0a, 0x0b, 0x5f, 0x6f, 0x5f, 0x73, 0x66, 0x69, 0x78, 0x65, 0x64,
	0x36, 0x34, 0x42, 0x0b, 0x0a, 0x09, 0x5f, 0x6f, 0x5f, 0x75, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x42,
	0x0c, 0x0a, 0x0a, 0x5f, 0x6f, 0x5f, 0x66, 0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x42, 0x09, 0x0a,
	0x07, 0x5f, 0x6f, 0x5f, 0x62, 0x6f, 0x6f, 0x6c, 0x42, 0x0a, 0x0a, 0x08, 0x5f, 0x6f, 0x5f, 0x66,
	0x6c, 0x6f, 0x61, 0x74, 0x42, 0x0b, 0x0a, 0x09, 0x5f, 0x6f, 0x5f, 0x64, 0x6f, 0x75, 0x62, 0x6c,
	0x65, 0x42, 0x0b, 0x0a, 0x09, 0x5f, 0x6f, 0x5f, 0x73, 0x74, 0x72, 0x69, 0x6e, 0x67, 0x42, 0x0a,
	0x0a, 0x08, 0x5f, 0x6f, 0x5f, 0x62, 0x79, 0x74, 0x65, 0x73, 0x42, 0x0b, 0x0a, 0x09, 0x5f, 0x6f,
	0x5f, 0x70, 0x33, 0x65, 0x6e, 0x75, 0x6d, 0x22, 0x9d, 0x19, 0x0a, 0x06, 0x50, 0x33, 0x4d, 0x61,
	0x70, 0x73, 0x12, 0x31, 0x0a, 0x07, 0x6d, 0x5f, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x18, 0x01, 0x20,
	0x03, 0x28, 0x0b, 0x32, 0x18, 0x2e, 0x67, 0x70, 0x62, 0x33, 0x2e, 0x50, 0x33, 0x4d, 0x61, 0x70,
	0x73, 0x2e, 0x4d, 0x49, 0x6e, 0x74, 0x33, 0x32, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x52, 0x06, 0x6d,
	0x49, 0x6e, 0x74, 0x33, 0x32, 0x12, 0x31, 0x0a, 0x07, 0x6e, 0x5f, 0x69, 0x6e, 0x74, 0x33, 0x32,
	0x18, 0x02, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x18, 0x2e, 0x67, 0x70, 0x62, 0x33, 0x2e, 0x50, 0x33,
	0x4d, 0x61, 0x70, 0x73, 0x2e, 0x4e, 0x49, 0x6e, 0x74, 0x33, 0x32, 0x45, 0x6e, 0x74, 0x72, 0x79,
	0x52, 0x06, 0x6e, 0x49, 0x6e, 0x74, 0x33, 0x32, 0x12, 0x34, 0x0a, 0x08, 0x6d, 0x5f, 0x73, 0x69,
	0x6e, 0x74, 0x33, 0x32, 0x18, 0x03, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x19, 0x2e, 0x67, 0x70, 0x62,
	0x33, 0x2e, 0x50, 0x33, 0x4d, 0x61, 0x70, 0x73, 0x2e, 0x4d, 0x53, 0x69, 0x6e, 0x74, 0x33, 0x32,
	0x45, 0x6e, 0x74, 0x72, 0x79, 0x52, 0x07, 0x6d, 0x53, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x12, 0x34,
	0x0a, 0x08, 0x6e, 0x5f, 0x73, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x18, 0x04, 0x20, 0x03, 0x28, 0x0b,
	0x32, 0x19, 0x2e, 0x67, 0x70, 0x62, 0x33, 0x2e, 0x50, 0x33, 0x4d, 0x61, 0x70, 0x73, 0x2e, 0x4e,
	0x53, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x52, 0x07, 0x6e, 0x53, 0x69,
	0x6e, 0x74, 0x33, 0x32, 0x12, 0x3a, 0x0a, 0x0a, 0x6d, 0x5f, 0x73, 0x66, 0x69, 0x78, 0x65, 0x64,
	0x33, 0x32, 0x18, 0x05, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x1b, 0x2e, 0x67, 0x70, 0x62, 0x33, 0x2e,
	0x50, 0x33, 0x4d, 0x61, 0x70, 0x73, 0x2e, 0x4d, 0x53, 0x66, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32,
	0x45, 0x6e, 0x74, 0x72, 0x79, 0x52, 0x09, 0x6d, 0x53, 0x66, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32,
	0x12, 0x3a, 0x0a, 0x0a, 0x6e, 0x5f, 0x73, 0x66, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32, 0x18, 0x06,
	0x20, 0x03, 0x28, 0x0b, 0x32, 0x1b, 0x2e, 0x67, 0x70, 0x62, 0x33, 0x2e, 0x50, 0x33, 0x4d, 0x61,
	0x70, 0x73, 0x2e, 0x4e, 0x53, 0x66, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32, 0x45, 0x6e, 0x74, 0x72,
	0x79, 0x52, 0x09, 0x6e, 0x53, 0x66, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32, 0x12, 0x34, 0x0a, 0x08,
	0x6d, 0x5f, 0x75, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x18, 0x07, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x19,
	0x2e, 0x67, 0x70, 0x62, 0x33, 0x2e, 0x50, 0x33, 0x4d, 0x61, 0x70, 0x73, 0x2e, 0x4d, 0x55, 0x69,
	0x6e, 0x74, 0x33, 0x32, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x52, 0x07, 0x6d, 0x55, 0x69, 0x6e, 0x74,
	0x33, 0x32, 0x12, 0x34, 0x0a, 0x08, 0x6e, 0x5f, 0x75, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x18, 0x08,
	0x20, 0x03, 0x28, 0x0b, 0x32, 0x19, 0x2e, 0x67, 0x70, 0x62, 0x33, 0x2e, 0x50, 0x33, 0x4d, 0x61,
	0x70, 0x73, 0x2e, 0x4e, 0x55, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x52,
	0x07, 0x6e, 0x55, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x12, 0x37, 0x0a, 0x09, 0x6d, 0x5f, 0x66, 0x69,
	0x78, 0x65, 0x64, 0x33, 0x32, 0x18, 0x09, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x1a, 0x2e, 0x67, 0x70,
	0x62, 0x33, 0x2e, 0x50, 0x33, 0x4d, 0x61, 0x70, 0x73, 0x2e, 0x4d, 0x46, 0x69, 0x78, 0x65, 0x64,
	0x33, 0x32, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x52, 0x08, 0x6d, 0x46, 0x69, 0x78, 0x65, 0x64, 0x33,
	0x32, 0x12, 0x37, 0x0a, 0x09, 0x6e, 0x5f, 0x66, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32, 0x18, 0x0a,
	0x20, 0x03, 0x28, 0x0b, 0x32, 0x1a, 0x2e, 0x67, 0x70, 0x62, 0x33, 0x2e, 0x50, 0x33, 0x4d, 0x61,
	0x70, 0x73, 0x2e, 0x4e, 0x46, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32, 0x45, 0x6e, 0x74, 0x72, 0x79,
	0x52, 0x08, 0x6e, 0x46, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32, 0x12, 0x31, 0x0a, 0x07, 0x6d, 0x5f,
	0x69, 0x6e, 0x74, 0x36, 0x34, 0x18, 0x0b, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x18, 0x2e, 0x67, 0x70,
	0x62, 0x33, 0x2e, 0x50, 0x33, 0x4d, 0x61, 0x70, 0x73, 0x2e, 0x4d, 0x49, 0x6e, 0x74, 0x36, 0x34,
	0x45, 0x6e, 0x74, 0x72, 0x79, 0x52, 0x06, 0x6d, 0x49, 0x6e, 0x74, 0x36, 0x34, 0x12, 0x31, 0x0a,
	0x07, 0x6e, 0x5f, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x18, 0x0c, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x18,
	0x2e, 0x67, 0x70, 0x62, 0x33, 0x2e, 0x50, 0x33, 0x4d, 0x61, 0x70, 0x73, 0x2e, 0x4e, 0x49, 0x6e,
	0x74, 0x36, 0x34, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x52, 0x06, 0x6e, 0x49, 0x6e, 0x74, 0x36, 0x34,
	0x12, 0x34, 0x0a, 0x08, 0x6d, 0x5f, 0x73, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x18, 0x0d, 0x20, 0x03,
	0x28, 0x0b, 0x32, 0x19, 0x2e, 0x67, 0x70, 0x62, 0x33, 0x2e, 0x50, 0x33, 0x4d, 0x61, 0x70, 0x73,
	0x2e, 0x4d, 0x53, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x52, 0x07, 0x6d,
	0x53, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x12, 0x34, 0x0a, 0x08, 0x6e, 0x5f, 0x73, 0x69, 0x6e, 0x74,
	0x36, 0x34, 0x18, 0x0e, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x19, 0x2e, 0x67, 0x70, 0x62, 0x33, 0x2e,
	0x50, 0x33, 0x4d, 0x61, 0x70, 0x73, 0x2e, 0x4e, 0x53, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x45, 0x6e,
	0x74, 0x72, 0x79, 0x52, 0x07, 0x6e, 0x53, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x12, 0x3a, 0x0a, 0x0a,
	0x6d, 0x5f, 0x73, 0x66, 0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x18, 0x0f, 0x20, 0x03, 0x28, 0x0b,
	0x32, 0x1b, 0x2e, 0x67, 0x70, 0x62, 0x33, 0x2e, 0x50, 0x33, 0x4d, 0x61, 0x70, 0x73, 0x2e, 0x4d,
	0x53, 0x66, 0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x52, 0x09, 0x6d,
	0x53, 0x66, 0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x12, 0x3a, 0x0a, 0x0a, 0x6e, 0x5f, 0x73, 0x66,
	0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x18, 0x10, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x1b, 0x2e, 0x67,
	0x70, 0x62, 0x33, 0x2e, 0x50, 0x33, 0x4d, 0x61, 0x70, 0x73, 0x2e, 0x4e, 0x53, 0x66, 0x69, 0x78,
	0x65, 0x64, 0x36, 0x34, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x52, 0x09, 0x6e, 0x53, 0x66, 0x69, 0x78,
	0x65, 0x64, 0x36, 0x34, 0x12, 0x34, 0x0a, 0x08, 0x6d, 0x5f, 0x75, 0x69, 0x6e, 0x74, 0x36, 0x34,
	0x18, 0x11, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x19, 0x2e, 0x67, 0x70, 0x62, 0x33, 0x2e, 0x50, 0x33,
	0x4d, 0x61, 0x70, 0x73, 0x2e, 0x4d, 0x55, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x45, 0x6e, 0x74, 0x72,
	0x79, 0x52, 0x07, 0x6d, 0x55, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x12, 0x34, 0x0a, 0x08, 0x6e, 0x5f,
	0x75, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x18, 0x12, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x19, 0x2e, 0x67,
	0x70, 0x62, 0x33, 0x2e, 0x50, 0x33, 0x4d, 0x61, 0x70, 0x73, 0x2e, 0x4e, 0x55, 0x69, 0x6e, 0x74,
	0x36, 0x34, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x52, 0x07, 0x6e, 0x55, 0x69, 0x6e, 0x74, 0x36, 0x34,
	0x12, 0x37, 0x0a, 0x09, 0x6d, 0x5f, 0x66, 0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x18, 0x13, 0x20,
	0x03, 0x28, 0x0b, 0x32, 0x1a, 0x2e, 0x67, 0x70, 0x62, 0x33, 0x2e, 0x50, 0x33, 0x4d, 0x61, 0x70,
	0x73, 0x2e, 0x4d, 0x46, 0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x52,
	0x08, 0x6d, 0x46, 0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x12, 0x37, 0x0a, 0x09, 0x6e, 0x5f, 0x66,
	0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x18, 0x14, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x1a, 0x2e, 0x67,
	0x70, 0x62, 0x33, 0x2e, 0x50, 0x33, 0x4d, 0x61, 0x70, 0x73, 0x2e, 0x4e, 0x46, 0x69, 0x78, 0x65,
	0x64, 0x36, 0x34, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x52, 0x08, 0x6e, 0x46, 0x69, 0x78, 0x65, 0x64,
	0x36, 0x34, 0x12, 0x2e, 0x0a, 0x06, 0x6d, 0x5f, 0x62, 0x6f, 0x6f, 0x6c, 0x18, 0x15, 0x20, 0x03,
	0x28, 0x0b, 0x32, 0x17, 0x2e, 0x67, 0x70, 0x62, 0x33, 0x2e, 0x50, 0x33, 0x4d, 0x61, 0x70, 0x73,
	0x2e, 0x4d, 0x42, 0x6f, 0x6f, 0x6c, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x52, 0x05, 0x6d, 0x42, 0x6f,
	0x6f, 0x6c, 0x12, 0x2e, 0x0a, 0x06, 0x6e, 0x5f, 0x62, 0x6f, 0x6f, 0x6c, 0x18, 0x16, 0x20, 0x03,
	0x28, 0x0b, 0x32, 0x17, 0x2e, 0x67, 0x70, 0x62, 0x33, 0x2e, 0x50, 0x33, 0x4d, 0x61, 0x70, 0x73,
	0x2e, 0x4e, 0x42, 0x6f, 0x6f, 0x6c, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x52, 0x05, 0x6e, 0x42, 0x6f,
	0x6f, 0x6c, 0x12, 0x34, 0x0a, 0x08, 0x6d, 0x5f, 0x73, 0x74, 0x72, 0x69, 0x6e, 0x67, 0x18, 0x17,
	0x20, 0x03, 0x28, 0x0b, 0x32, 0x19, 0x2e, 0x67, 0x70, 0x62, 0x33, 0x2e, 0x50, 0x33, 0x4d, 0x61,
	0x70, 0x73, 0x2e, 0x4d, 0x53, 0x74, 0x72, 0x69, 0x6e, 0x67, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x52,
	0x07, 0x6d, 0x53, 0x74, 0x72, 0x69, 0x6e, 0x67, 0x12, 0x34, 0x0a, 0x08, 0x6e, 0x5f, 0x73, 0x74,
	0x72, 0x69, 0x6e, 0x67, 0x18, 0x18, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x19, 0x2e, 0x67, 0x70, 0x62,
	0x33, 0x2e, 0x50, 0x33, 0x4d, 0x61, 0x70, 0x73, 0x2e, 0x4e, 0x53, 0x74, 0x72, 0x69, 0x6e, 0x67,
	0x45, 0x6e, 0x74, 0x72, 0x79, 0x52, 0x07, 0x6e, 0x53, 0x74, 0x72, 0x69, 0x6e, 0x67, 0x12, 0x2e,
	0x0a, 0x06, 0x6d, 0x5f, 0x65, 0x6e, 0x75, 0x6d, 0x18, 0x19, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x17,
	0x2e, 0x67, 0x70, 0x62, 0x33, 0x2e, 0x50, 0x33, 0x4d, 0x61, 0x70, 0x73, 0x2e, 0x4d, 0x45, 0x6e,
	0x75, 0x6d, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x52, 0x05, 0x6d, 0x45, 0x6e, 0x75, 0x6d, 0x12, 0x2f,
	0x0a, 0x06, 0x6d, 0x5f, 0x6c, 0x65, 0x61, 0x66, 0x18, 0x80, 0x10, 0x20, 0x03, 0x28, 0x0b, 0x32,
	0x17, 0x2e, 0x67, 0x70, 0x62, 0x33, 0x2e, 0x50, 0x33, 0x4d, 0x61, 0x70, 0x73, 0x2e, 0x4d, 0x4c,
	0x65, 0x61, 0x66, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x52, 0x05, 0x6d, 0x4c, 0x65, 0x61, 0x66, 0x12,
	0x2d, 0x0a, 0x05, 0x6d, 0x5f, 0x61, 0x6c, 0x6c, 0x18, 0x80, 0x80, 0x10, 0x20, 0x03, 0x28, 0x0b,
	0x32, 0x16, 0x2e, 0x67, 0x70, 0x62, 0x33, 0x2e, 0x50, 0x33, 0x4d, 0x61, 0x70, 0x73, 0x2e, 0x4d,
	0x41, 0x6c, 0x6c, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x52, 0x04, 0x6d, 0x41, 0x6c, 0x6c, 0x12, 0x32,
	0x0a, 0x07, 0x6d, 0x5f, 0x62, 0x79, 0x74, 0x65, 0x73, 0x18, 0xb8, 0x17, 0x20, 0x03, 0x28, 0x0b,
	0x32, 0x18, 0x2e, 0x67, 0x70, 0x62, 0x33, 0x2e, 0x50, 0x33, 0x4d, 0x61, 0x70, 0x73, 0x2e, 0x4d,
	0x42, 0x79, 0x74, 0x65, 0x73, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x52, 0x06, 0x6d, 0x42, 0x79, 0x74,
	0x65, 0x73, 0x1a, 0x39, 0x0a, 0x0b, 0x4d, 0x49, 0x6e, 0x74, 0x33, 0x32, 0x45, 0x6e, 0x74, 0x72,
	0x79, 0x12, 0x10, 0x0a, 0x03, 0x6b, 0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28, 0x05, 0x52, 0x03,
	0x6b, 0x65, 0x79, 0x12, 0x14, 0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02, 0x20, 0x01,
	0x28, 0x0d, 0x52, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38, 0x01, 0x1a, 0x39, 0x0a,
	0x0b, 0x4e, 0x49, 0x6e, 0x74, 0x33, 0x32, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x12, 0x10, 0x0a, 0x03,
	0x6b, 0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28, 0x05, 0x52, 0x03, 0x6b, 0x65, 0x79, 0x12, 0x14,
	0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x11, 0x52, 0x05, 0x76,
	0x61, 0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38, 0x01, 0x1a, 0x3a, 0x0a, 0x0c, 0x4d, 0x53, 0x69, 0x6e,
	0x74, 0x33, 0x32, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x12, 0x10, 0x0a, 0x03, 0x6b, 0x65, 0x79, 0x18,
	0x01, 0x20, 0x01, 0x28, 0x11, 0x52, 0x03, 0x6b, 0x65, 0x79, 0x12, 0x14, 0x0a, 0x05, 0x76, 0x61,
	0x6c, 0x75, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x08, 0x52, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65,
	0x3a, 0x02, 0x38, 0x01, 0x1a, 0x3a, 0x0a, 0x0c, 0x4e, 0x53, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x45,
	0x6e, 0x74, 0x72, 0x79, 0x12, 0x10, 0x0a, 0x03, 0x6b, 0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28,
	0x11, 0x52, 0x03, 0x6b, 0x65, 0x79, 0x12, 0x14, 0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18,
	0x02, 0x20, 0x01, 0x28, 0x03, 0x52, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38, 0x01,
	0x1a, 0x3c, 0x0a, 0x0e, 0x4d, 0x53, 0x66, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32, 0x45, 0x6e, 0x74,
	0x72, 0x79, 0x12, 0x10, 0x0a, 0x03, 0x6b, 0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28, 0x0f, 0x52,
	0x03, 0x6b, 0x65, 0x79, 0x12, 0x14, 0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02, 0x20,
	0x01, 0x28, 0x0f, 0x52, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38, 0x01, 0x1a, 0x3c,
	0x0a, 0x0e, 0x4e, 0x53, 0x66, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32, 0x45, 0x6e, 0x74, 0x72, 0x79,
	0x12, 0x10, 0x0a, 0x03, 0x6b, 0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28, 0x0f, 0x52, 0x03, 0x6b,
	0x65, 0x79, 0x12, 0x14, 0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28,
	0x06, 0x52, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38, 0x01, 0x1a, 0x3a, 0x0a, 0x0c,
	0x4d, 0x55, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x12, 0x10, 0x0a, 0x03,
	0x6b, 0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28, 0x0d, 0x52, 0x03, 0x6b, 0x65, 0x79, 0x12, 0x14,
	0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x06, 0x52, 0x05, 0x76,
	0x61, 0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38, 0x01, 0x1a, 0x3a, 0x0a, 0x0c, 0x4e, 0x55, 0x69, 0x6e,
	0x74, 0x33, 0x32, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x12, 0x10, 0x0a, 0x03, 0x6b, 0x65, 0x79, 0x18,
	0x01, 0x20, 0x01, 0x28, 0x0d, 0x52, 0x03, 0x6b, 0x65, 0x79, 0x12, 0x14, 0x0a, 0x05, 0x76, 0x61,
	0x6c, 0x75, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x09, 0x52, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65,
	0x3a, 0x02, 0x38, 0x01, 0x1a, 0x3b, 0x0a, 0x0d, 0x4d, 0x46, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32,
	0x45, 0x6e, 0x74, 0x72, 0x79, 0x12, 0x10, 0x0a, 0x03, 0x6b, 0x65, 0x79, 0x18, 0x01, 0x20, 0x01,
	0x28, 0x07, 0x52, 0x03, 0x6b, 0x65, 0x79, 0x12, 0x14, 0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65,
	0x18, 0x02, 0x20, 0x01, 0x28, 0x11, 0x52, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38,
	0x01, 0x1a, 0x3b, 0x0a, 0x0d, 0x4e, 0x46, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32, 0x45, 0x6e, 0x74,
	0x72, 0x79, 0x12, 0x10, 0x0a, 0x03, 0x6b, 0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28, 0x07, 0x52,
	0x03, 0x6b, 0x65, 0x79, 0x12, 0x14, 0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02, 0x20,
	0x01, 0x28, 0x0f, 0x52, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38, 0x01, 0x1a, 0x39,
	0x0a, 0x0b, 0x4d, 0x49, 0x6e, 0x74, 0x36, 0x34, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x12, 0x10, 0x0a,
	0x03, 0x6b, 0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28, 0x03, 0x52, 0x03, 0x6b, 0x65, 0x79, 0x12,
	0x14, 0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x04, 0x52, 0x05,
	0x76, 0x61, 0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38, 0x01, 0x1a, 0x39, 0x0a, 0x0b, 0x4e, 0x49, 0x6e,
	0x74, 0x36, 0x34, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x12, 0x10, 0x0a, 0x03, 0x6b, 0x65, 0x79, 0x18,
	0x01, 0x20, 0x01, 0x28, 0x03, 0x52, 0x03, 0x6b, 0x65, 0x79, 0x12, 0x14, 0x0a, 0x05, 0x76, 0x61,
	0x6c, 0x75, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x12, 0x52, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65,
	0x3a, 0x02, 0x38, 0x01, 0x1a, 0x3a, 0x0a, 0x0c, 0x4d, 0x53, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x45,
	0x6e, 0x74, 0x72, 0x79, 0x12, 0x10, 0x0a, 0x03, 0x6b, 0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28,
	0x12, 0x52, 0x03, 0x6b, 0x65, 0x79, 0x12, 0x14, 0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18,
	0x02, 0x20, 0x01, 0x28, 0x05, 0x52, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38, 0x01,
	0x1a, 0x3a, 0x0a, 0x0c, 0x4e, 0x53, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x45, 0x6e, 0x74, 0x72, 0x79,
	0x12, 0x10, 0x0a, 0x03, 0x6b, 0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28, 0x12, 0x52, 0x03, 0x6b,
	0x65, 0x79, 0x12, 0x14, 0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28,
	0x08, 0x52, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38, 0x01, 0x1a, 0x3c, 0x0a, 0x0e,
	0x4d, 0x53, 0x66, 0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x12, 0x10,
	0x0a, 0x03, 0x6b, 0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28, 0x10, 0x52, 0x03, 0x6b, 0x65, 0x79,
	0x12, 0x14, 0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x10, 0x52,
	0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38, 0x01, 0x1a, 0x3c, 0x0a, 0x0e, 0x4e, 0x53,
	0x66, 0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x12, 0x10, 0x0a, 0x03,
	0x6b, 0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28, 0x10, 0x52, 0x03, 0x6b, 0x65, 0x79, 0x12, 0x14,
	0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x0c, 0x52, 0x05, 0x76,
	0x61, 0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38, 0x01, 0x1a, 0x3a, 0x0a, 0x0c, 0x4d, 0x55, 0x69, 0x6e,
	0x74, 0x36, 0x34, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x12, 0x10, 0x0a, 0x03, 0x6b, 0x65, 0x79, 0x18,
	0x01, 0x20, 0x01, 0x28, 0x04, 0x52, 0x03, 0x6b, 0x65, 0x79, 0x12, 0x14, 0x0a, 0x05, 0x76, 0x61,
	0x6c, 0x75, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x0c, 0x52, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65,
	0x3a, 0x02, 0x38, 0x01, 0x1a, 0x3a, 0x0a, 0x0c, 0x4e, 0x55, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x45,
	0x6e, 0x74, 0x72, 0x79, 0x12, 0x10, 0x0a, 0x03, 0x6b, 0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28,
	0x04, 0x52, 0x03, 0x6b, 0x65, 0x79, 0x12, 0x14, 0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18,
	0x02, 0x20, 0x01, 0x28, 0x0d, 0x52, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38, 0x01,
	0x1a, 0x3b, 0x0a, 0x0d, 0x4d, 0x46, 0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x45, 0x6e, 0x74, 0x72,
	0x79, 0x12, 0x10, 0x0a, 0x03, 0x6b, 0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28, 0x06, 0x52, 0x03,
	0x6b, 0x65, 0x79, 0x12, 0x14, 0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02, 0x20, 0x01,
	0x28, 0x12, 0x52, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38, 0x01, 0x1a, 0x3b, 0x0a,
	0x0d, 0x4e, 0x46, 0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x12, 0x10,
	0x0a, 0x03, 0x6b, 0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28, 0x06, 0x52, 0x03, 0x6b, 0x65, 0x79,
	0x12, 0x14, 0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x10, 0x52,
	0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38, 0x01, 0x1a, 0x38, 0x0a, 0x0a, 0x4d, 0x42,
	0x6f, 0x6f, 0x6c, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x12, 0x10, 0x0a, 0x03, 0x6b, 0x65, 0x79, 0x18,
	0x01, 0x20, 0x01, 0x28, 0x08, 0x52, 0x03, 0x6b, 0x65, 0x79, 0x12, 0x14, 0x0a, 0x05, 0x76, 0x61,
	0x6c, 0x75, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x09, 0x52, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65,
	0x3a, 0x02, 0x38, 0x01, 0x1a, 0x38, 0x0a, 0x0a, 0x4e, 0x42, 0x6f, 0x6f, 0x6c, 0x45, 0x6e, 0x74,
	0x72, 0x79, 0x12, 0x10, 0x0a, 0x03, 0x6b, 0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28, 0x08, 0x52,
	0x03, 0x6b, 0x65, 0x79, 0x12, 0x14, 0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02, 0x20,
	0x01, 0x28, 0x02, 0x52, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38, 0x01, 0x1a, 0x3a,
	0x0a, 0x0c, 0x4d, 0x53, 0x74, 0x72, 0x69, 0x6e, 0x67, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x12, 0x10,
	0x0a, 0x03, 0x6b, 0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x03, 0x6b, 0x65, 0x79,
	0x12, 0x14, 0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x03, 0x52,
	0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38, 0x01, 0x1a, 0x3a, 0x0a, 0x0c, 0x4e, 0x53,
	0x74, 0x72, 0x69, 0x6e, 0x67, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x12, 0x10, 0x0a, 0x03, 0x6b, 0x65,
	0x79, 0x18, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x03, 0x6b, 0x65, 0x79, 0x12, 0x14, 0x0a, 0x05,
	0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x05, 0x52, 0x05, 0x76, 0x61, 0x6c,
	0x75, 0x65, 0x3a, 0x02, 0x38, 0x01, 0x1a, 0x46, 0x0a, 0x0a, 0x4d, 0x45, 0x6e, 0x75, 0x6d, 0x45,
	0x6e, 0x74, 0x72, 0x79, 0x12, 0x10, 0x0a, 0x03, 0x6b, 0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28,
	0x09, 0x52, 0x03, 0x6b, 0x65, 0x79, 0x12, 0x22, 0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18,
	0x02, 0x20, 0x01, 0x28, 0x0e, 0x32, 0x0c, 0x2e, 0x67, 0x70, 0x62, 0x33, 0x2e, 0x50, 0x33, 0x45,
	0x6e, 0x75, 0x6d, 0x52, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38, 0x01, 0x1a, 0x46,
	0x0a, 0x0a, 0x4d, 0x4c, 0x65, 0x61, 0x66, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x12, 0x10, 0x0a, 0x03,
	0x6b, 0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28, 0x05, 0x52, 0x03, 0x6b, 0x65, 0x79, 0x12, 0x22,
	0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x0c, 0x2e,
	0x67, 0x70, 0x62, 0x33, 0x2e, 0x50, 0x33, 0x4c, 0x65, 0x61, 0x66, 0x52, 0x05, 0x76, 0x61, 0x6c,
	0x75, 0x65, 0x3a, 0x02, 0x38, 0x01, 0x1a, 0x44, 0x0a, 0x09, 0x4d, 0x41, 0x6c, 0x6c, 0x45, 0x6e,
	0x74, 0x72, 0x79, 0x12, 0x10, 0x0a, 0x03, 0x6b, 0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28, 0x12,
	0x52, 0x03, 0x6b, 0x65, 0x79, 0x12, 0x21, 0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02,
	0x20, 0x01, 0x28, 0x0b, 0x32, 0x0b, 0x2e, 0x67, 0x70, 0x62, 0x33, 0x2e, 0x50, 0x33, 0x41, 0x6c,
	0x6c, 0x52, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38, 0x01, 0x1a, 0x39, 0x0a, 0x0b,
	0x4d, 0x42, 0x79, 0x74, 0x65, 0x73, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x12, 0x10, 0x0a, 0x03, 0x6b,
	0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x03, 0x6b, 0x65, 0x79, 0x12, 0x14, 0x0a,
	0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x0c, 0x52, 0x05, 0x76, 0x61,
	0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38, 0x01, 0x22, 0x24, 0x0a, 0x06, 0x50, 0x33, 0x4c, 0x65, 0x61,
	0x66, 0x12, 0x0c, 0x0a, 0x01, 0x61, 0x18, 0x01, 0x20, 0x01, 0x28, 0x12, 0x52, 0x01, 0x61, 0x12,
	0x0c, 0x0a, 0x01, 0x62, 0x18, 0x10, 0x20, 0x01, 0x28, 0x09, 0x52, 0x01, 0x62, 0x2a, 0x46, 0x0a,
	0x06, 0x50, 0x33, 0x45, 0x6e, 0x75, 0x6d, 0x12, 0x0b, 0x0a, 0x07, 0x50, 0x33, 0x5f, 0x5a, 0x45,
	0x52, 0x4f, 0x10, 0x00, 0x12, 0x0a, 0x0a, 0x06, 0x50, 0x33, 0x5f, 0x4f, 0x4e, 0x45, 0x10, 0x01,
	0x12, 0x13, 0x0a, 0x06, 0x50, 0x33, 0x5f, 0x4e, 0x45, 0x47, 0x10, 0xfb, 0xff, 0xff, 0xff, 0xff,
	0xff, 0xff, 0xff, 0xff, 0x01, 0x12, 0x0e, 0x0a, 0x06, 0x50, 0x33, 0x5f, 0x42, 0x49, 0x47, 0x10,
	0xff, 0xff, 0xff, 0xff, 0x07, 0x42, 0x17, 0x5a, 0x15, 0x76, 0x65, 0x72, 0x69, 0x66, 0x2f, 0x68,
	0x61, 0x72, 0x6e, 0x65, 0x73, 0x73, 0x2f, 0x67, 0x70, 0x62, 0x3b, 0x67, 0x70, 0x62, 0x62, 0x06,
	0x70, 0x72, 0x6f, 0x74, 0x6f, 0x33,
}

var (
	file_all3_proto_rawDescOnce sync.Once
	file_all3_proto_rawDescData = file_all3_proto_rawDesc
)

func file_all3_proto_rawDescGZIP() []byte {
	file_all3_proto_rawDescOnce.Do(func() {
		file_all3_proto_rawDescData = protoimpl.X.CompressGZIP(file_all3_proto_rawDescData)
	})
	return file_all3_proto_rawDescData
}

var file_all3_proto_enumTypes = make([]protoimpl.EnumInfo, 1)
var file_all3_proto_msgTypes = make([]protoimpl.MessageInfo, 31)
var file_all3_proto_goTypes = []interface{}{
	(P3Enum)(0),    // 0: gpb3.P3Enum
	(*P3All)(nil),  // 1: gpb3.P3All
	(*P3Maps)(nil), // 2: gpb3.P3Maps
	(*P3Leaf)(nil), // 3: gpb3.P3Leaf
	nil,            // 4: gpb3.P3Maps.MInt32Entry
	nil,            // 5: gpb3.P3Maps.NInt32Entry
	nil,            // 6: gpb3.P3Maps.MSint32Entry
	nil,            // 7: gpb3.P3Maps.NSint32Entry
	nil,            // 8: gpb3.P3Maps.MSfixed32Entry
	nil,            // 9: gpb3.P3Maps.NSfixed32Entry
	nil,            // 10: gpb3.P3Maps.MUint32Entry
	nil,            // 11: gpb3.P3Maps.NUint32Entry
	nil,            // 12: gpb3.P3Maps.MFixed32Entry
	nil,            // 13: gpb3.P3Maps.NFixed32Entry
	nil,            // 14: gpb3.P3Maps.MInt64Entry
	nil,            // 15: gpb3.P3Maps.NInt64Entry
	nil,            // 16: gpb3.P3Maps.MSint64Entry
	nil,            // 17: gpb3.P3Maps.NSint64Entry
	nil,            // 18: gpb3.P3Maps.MSfixed64Entry
	nil,            // 19: gpb3.P3Maps.NSfixed64Entry
	nil,            // 20: gpb3.P3Maps.MUint64Entry
	nil,            // 21: gpb3.P3Maps.NUint64Entry
	nil,            // 22: gpb3.P3Maps.MFixed64Entry
	nil,            // 23: gpb3.P3Maps.NFixed64Entry
	nil,            // 24: gpb3.P3Maps.MBoolEntry
	nil,            // 25: gpb3.P3Maps.NBoolEntry
	nil,            // 26: gpb3.P3Maps.MStringEntry
	nil,            // 27: gpb3.P3Maps.NStringEntry
	nil,            // 28: gpb3.P3Maps.MEnumEntry
	nil,            // 29: gpb3.P3Maps.MLeafEntry
	nil,            // 30: gpb3.P3Maps.MAllEntry
	nil,            // 31: gpb3.P3Maps.MBytesEntry
}
var file_all3_proto_depIdxs = []int32{
	0,  // 0: gpb3.P3All.s_p3enum:type_name -> gpb3.P3Enum
	0,  // 1: gpb3.P3All.o_p3enum:type_name -> gpb3.P3Enum
	0,  // 2: gpb3.P3All.r_p3enum:type_name -> gpb3.P3Enum
	0,  // 3: gpb3.P3All.p_p3enum:type_name -> gpb3.P3Enum
	1,  // 4: gpb3.P3All.self:type_name -> gpb3.P3All
	1,  // 5: gpb3.P3All.selves:type_name -> gpb3.P3All
	2,  // 6: gpb3.P3All.maps:type_name -> gpb3.P3Maps
	3,  // 7: gpb3.P3All.leaf:type_name -> gpb3.P3Leaf
	4,  // 8: gpb3.P3Maps.m_int32:type_name -> gpb3.P3Maps.MInt32Entry
	5,  // 9: gpb3.P3Maps.n_int32:type_name -> gpb3.P3Maps.NInt32Entry
	6,  // 10: gpb3.P3Maps.m_sint32:type_name -> gpb3.P3Maps.MSint32Entry
	7,  // 11: gpb3.P3Maps.n_sint32:type_name -> gpb3.P3Maps.NSint32Entry
	8,  // 12: gpb3.P3Maps.m_sfixed32:type_name -> gpb3.P3Maps.MSfixed32Entry
	9,  // 13: gpb3.P3Maps.n_sfixed32:type_name -> gpb3.P3Maps.NSfixed32Entry
	10, // 14: gpb3.P3Maps.m_uint32:type_name -> gpb3.P3Maps.MUint32Entry
	11, // 15: gpb3.P3Maps.n_uint32:type_name -> gpb3.P3Maps.NUint32Entry
	12, // 16: gpb3.P3Maps.m_fixed32:type_name -> gpb3.P3Maps.MFixed32Entry
	13, // 17: gpb3.P3Maps.n_fixed32:type_name -> gpb3.P3Maps.NFixed32Entry
	14, // 18: gpb3.P3Maps.m_int64:type_name -> gpb3.P3Maps.MInt64Entry
	15, // 19: gpb3.P3Maps.n_int64:type_name -> gpb3.P3Maps.NInt64Entry
	16, // 20: gpb3.P3Maps.m_sint64:type_name -> gpb3.P3Maps.MSint64Entry
	17, // 21: gpb3.P3Maps.n_sint64:type_name -> gpb3.P3Maps.NSint64Entry
	18, // 22: gpb3.P3Maps.m_sfixed64:type_name -> gpb3.P3Maps.MSfixed64Entry
	19, // 23: gpb3.P3Maps.n_sfixed64:type_name -> gpb3.P3Maps.NSfixed64Entry
	20, // 24: gpb3.P3Maps.m_uint64:type_name -> gpb3.P3Maps.MUint64Entry
	21, // 25: gpb3.P3Maps.n_uint64:type_name -> gpb3.P3Maps.NUint64Entry
	22, // 26: gpb3.P3Maps.m_fixed64:type_name -> gpb3.P3Maps.MFixed64Entry
	23, // 27: gpb3.P3Maps.n_fixed64:type_name -> gpb3.P3Maps.NFixed64Entry
	24, // 28: gpb3.P3Maps.m_bool:type_name -> gpb3.P3Maps.MBoolEntry
	25, // 29: gpb3.P3Maps.n_bool:type_name -> gpb3.P3Maps.NBoolEntry
	26, // 30: gpb3.P3Maps.m_string:type_name -> gpb3.P3Maps.MStringEntry
	27, // 31: gpb3.P3Maps.n_string:type_name -> gpb3.P3Maps.NStringEntry
	28, // 32: gpb3.P3Maps.m_enum:type_name -> gpb3.P3Maps.MEnumEntry
	29, // 33: gpb3.P3Maps.m_leaf:type_name -> gpb3.P3Maps.MLeafEntry
	30, // 34: gpb3.P3Maps.m_all:type_name -> gpb3.P3Maps.MAllEntry
	31, // 35: gpb3.P3Maps.m_bytes:type_name -> gpb3.P3Maps.MBytesEntry
	0,  // 36: gpb3.P3Maps.MEnumEntry.value:type_name -> gpb3.P3Enum
	3,  // 37: gpb3.P3Maps.MLeafEntry.value:type_name -> gpb3.P3Leaf
	1,  // 38: gpb3.P3Maps.MAllEntry.value:type_name -> gpb3.P3All
	39, // [39:39] is the sub-list for method output_type
	39, // [39:39] is the sub-list for method input_type
	39, // [39:39] is the sub-list for extension type_name
	39, // [39:39] is the sub-list for extension extendee
	0,  // [0:39] is the sub-list for field type_name
}

func init() { file_all3_proto_init() }
func file_all3_proto_init() {
	if File_all3_proto != nil {
		return
	}
	if !protoimpl.UnsafeEnabled {
		file_all3_proto_msgTypes[0].Exporter = func(v interface{}, i int) interface{} {
			switch v := v.(*P3All); i {
			case 0:
				return &v.state
			case 1:
				return &v.sizeCache
			case 2:
				return &v.unknownFields
			default:
				return nil
			}
		}
		file_all3_proto_msgTypes[1].Exporter = func(v interface{}, i int) interface{} {
			switch v := v.(*P3Maps); i {
			case 0:
				return &v.state
			case 1:
				return &v.sizeCache
			case 2:
				return &v.unknownFields
			default:
				return nil
			}
		}
		file_all3_proto_msgTypes[2].Exporter = func(v interface{}, i int) interface{} {
			switch v := v.(*P3Leaf); i {
			case 0:
				return &v.state
			case 1:
				return &v.sizeCache
			case 2:
				return &v.unknownFields
			default:
				return nil
			}
		}
	}
	file_all3_proto_msgTypes[0].OneofWrappers = []interface{}{}
	type x struct{}
	out := protoimpl.TypeBuilder{
		File: protoimpl.DescBuilder{
			GoPackagePath: reflect.TypeOf(x{}).PkgPath(),
			RawDescriptor: file_all3_proto_rawDesc,
			NumEnums:      1,
			NumMessages:   31,
			NumExtensions: 0,
			NumServices:   0,
		},
		GoTypes:           file_all3_proto_goTypes,
		DependencyIndexes: file_all3_proto_depIdxs,
		EnumInfos:         file_all3_proto_enumTypes,
		MessageInfos:      file_all3_proto_msgTypes,
	}.Build()
	File_all3_proto = out.File
	file_all3_proto_rawDesc = nil
	file_all3_proto_goTypes = nil
	file_all3_proto_depIdxs = nil
}
