// Code generated by protoc-gen-go. DO NOT EDIT.
// versions:
// 	protoc-gen-go v1.27.1
// 	protoc        v3.21.12
// source: all2.proto

package gpb

import (
	protoreflect "google.golang.org/protobuf/reflect/protoreflect"
	protoimpl "google.golang.org/protobuf/runtime/protoimpl"
	math "math"
	reflect "reflect"
	sync "sync"
)

const (
	// Verify that this generated code is sufficiently up-to-date.
	_ = protoimpl.EnforceVersion(20 - protoimpl.MinVersion)
	// Verify that runtime/protoimpl is sufficiently up-to-date.
	_ = protoimpl.EnforceVersion(protoimpl.MaxVersion - 20)
)

type P2Enum int32

const (
	P2Enum_P2_ZERO P2Enum = 0
	P2Enum_P2_ONE  P2Enum = 1
	P2Enum_P2_NEG  P2Enum = -5
	P2Enum_P2_BIG  P2Enum = 2147483647
)

// Enum value maps for P2Enum.
var (
	P2Enum_name = map[int32]string{
		0:          "P2_ZERO",
		1:          "P2_ONE",
		-5:         "P2_NEG",
		2147483647: "P2_BIG",
	}
	P2Enum_value = map[string]int32{
		"P2_ZERO": 0,
		"P2_ONE":  1,
		"P2_NEG":  -5,
		"P2_BIG":  2147483647,
	}
)

func (x P2Enum) Enum() *P2Enum {
	p := new(P2Enum)
	*p = x
	return p
}

func (x P2Enum) String() string {
	return protoimpl.X.EnumStringOf(x.Descriptor(), protoreflect.EnumNumber(x))
}

func (P2Enum) Descriptor() protoreflect.EnumDescriptor {
	return file_all2_proto_enumTypes[0].Descriptor()
}

func (P2Enum) Type() protoreflect.EnumType {
	return &file_all2_proto_enumTypes[0]
}

func (x P2Enum) Number() protoreflect.EnumNumber {
	return protoreflect.EnumNumber(x)
}

// Deprecated: Do not use.
func (x *P2Enum) UnmarshalJSON(b []byte) error {
	num, err := protoimpl.X.UnmarshalJSONEnum(x.Descriptor(), b)
	if err != nil {
		return err
	}
	*x = P2Enum(num)
	return nil
}

// Deprecated: Use P2Enum.Descriptor instead.
func (P2Enum) EnumDescriptor() ([]byte, []int) {
	return file_all2_proto_rawDescGZIP(), []int{0}
}

type P2All struct {
	state         protoimpl.MessageState
	sizeCache     protoimpl.SizeCache
	unknownFields protoimpl.UnknownFields

	OInt32    *int32    `protobuf:"varint,1,opt,name=o_int32,json=oInt32" json:"o_int32,omitempty"`
	RInt32    []int32   `protobuf:"varint,2,rep,name=r_int32,json=rInt32" json:"r_int32,omitempty"`
	PInt32    []int32   `protobuf:"varint,3,rep,packed,name=p_int32,json=pInt32" json:"p_int32,omitempty"`
	OSint32   *int32    `protobuf:"zigzag32,4,opt,name=o_sint32,json=oSint32" json:"o_sint32,omitempty"`
	RSint32   []int32   `protobuf:"zigzag32,5,rep,name=r_sint32,json=rSint32" json:"r_sint32,omitempty"`
	PSint32   []int32   `protobuf:"zigzag32,6,rep,packed,name=p_sint32,json=pSint32" json:"p_sint32,omitempty"`
	OSfixed32 *int32    `protobuf:"fixed32,7,opt,name=o_sfixed32,json=oSfixed32" json:"o_sfixed32,omitempty"`
	RSfixed32 []int32   `protobuf:"fixed32,8,rep,name=r_sfixed32,json=rSfixed32" json:"r_sfixed32,omitempty"`
	PSfixed32 []int32   `protobuf:"fixed32,9,rep,packed,name=p_sfixed32,json=pSfixed32" json:"p_sfixed32,omitempty"`
	OUint32   *uint32   `protobuf:"varint,10,opt,name=o_uint32,json=oUint32" json:"o_uint32,omitempty"`
	RUint32   []uint32  `protobuf:"varint,11,rep,name=r_uint32,json=rUint32" json:"r_uint32,omitempty"`
	PUint32   []uint32  `protobuf:"varint,12,rep,packed,name=p_uint32,json=pUint32" json:"p_uint32,omitempty"`
	OFixed32  *uint32   `protobuf:"fixed32,13,opt,name=o_fixed32,json=oFixed32" json:"o_fixed32,omitempty"`
	RFixed32  []uint32  `protobuf:"fixed32,14,rep,name=r_fixed32,json=rFixed32" json:"r_fixed32,omitempty"`
	PFixed32  []uint32  `protobuf:"fixed32,15,rep,packed,name=p_fixed32,json=pFixed32" json:"p_fixed32,omitempty"`
	OInt64    *int64    `protobuf:"varint,16,opt,name=o_int64,json=oInt64" json:"o_int64,omitempty"`
	RInt64    []int64   `protobuf:"varint,17,rep,name=r_int64,json=rInt64" json:"r_int64,omitempty"`
	PInt64    []int64   `protobuf:"varint,18,rep,packed,name=p_int64,json=pInt64" json:"p_int64,omitempty"`
	OSint64   *int64    `protobuf:"zigzag64,19,opt,name=o_sint64,json=oSint64" json:"o_sint64,omitempty"`
	RSint64   []int64   `protobuf:"zigzag64,20,rep,name=r_sint64,json=rSint64" json:"r_sint64,omitempty"`
	PSint64   []int64   `protobuf:"zigzag64,21,rep,packed,name=p_sint64,json=pSint64" json:"p_sint64,omitempty"`
	OSfixed64 *int64    `protobuf:"fixed64,22,opt,name=o_sfixed64,json=oSfixed64" json:"o_sfixed64,omitempty"`
	RSfixed64 []int64   `protobuf:"fixed64,23,rep,name=r_sfixed64,json=rSfixed64" json:"r_sfixed64,omitempty"`
	PSfixed64 []int64   `protobuf:"fixed64,24,rep,packed,name=p_sfixed64,json=pSfixed64" json:"p_sfixed64,omitempty"`
	OUint64   *uint64   `protobuf:"varint,25,opt,name=o_uint64,json=oUint64" json:"o_uint64,omitempty"`
	RUint64   []uint64  `protobuf:"varint,26,rep,name=r_uint64,json=rUint64" json:"r_uint64,omitempty"`
	PUint64   []uint64  `protobuf:"varint,27,rep,packed,name=p_uint64,json=pUint64" json:"p_uint64,omitempty"`
	OFixed64  *uint64   `protobuf:"fixed64,28,opt,name=o_fixed64,json=oFixed64" json:"o_fixed64,omitempty"`
	RFixed64  []uint64  `protobuf:"fixed64,29,rep,name=r_fixed64,json=rFixed64" json:"r_fixed64,omitempty"`
	PFixed64  []uint64  `protobuf:"fixed64,30,rep,packed,name=p_fixed64,json=pFixed64" json:"p_fixed64,omitempty"`
	OBool     *bool     `protobuf:"varint,31,opt,name=o_bool,json=oBool" json:"o_bool,omitempty"`
	RBool     []bool    `protobuf:"varint,32,rep,name=r_bool,json=rBool" json:"r_bool,omitempty"`
	PBool     []bool    `protobuf:"varint,33,rep,packed,name=p_bool,json=pBool" json:"p_bool,omitempty"`
	OFloat    *float32  `protobuf:"fixed32,34,opt,name=o_float,json=oFloat" json:"o_float,omitempty"`
	RFloat    []float32 `protobuf:"fixed32,35,rep,name=r_float,json=rFloat" json:"r_float,omitempty"`
	PFloat    []float32 `protobuf:"fixed32,36,rep,packed,name=p_float,json=pFloat" json:"p_float,omitempty"`
	ODouble   *float64  `protobuf:"fixed64,37,opt,name=o_double,json=oDouble" json:"o_double,omitempty"`
	RDouble   []float64 `protobuf:"fixed64,38,rep,name=r_double,json=rDouble" json:"r_double,omitempty"`
	PDouble   []float64 `protobuf:"fixed64,39,rep,packed,name=p_double,json=pDouble" json:"p_double,omitempty"`
	OString   *string   `protobuf:"bytes,40,opt,name=o_string,json=oString" json:"o_string,omitempty"`
	RString   []string  `protobuf:"bytes,41,rep,name=r_string,json=rString" json:"r_string,omitempty"`
	OBytes    []byte    `protobuf:"bytes,42,opt,name=o_bytes,json=oBytes" json:"o_bytes,omitempty"`
	RBytes    [][]byte  `protobuf:"bytes,43,rep,name=r_bytes,json=rBytes" json:"r_bytes,omitempty"`
	OP2Enum   *P2Enum   `protobuf:"varint,44,opt,name=o_p2enum,json=oP2enum,enum=gpb2.P2Enum" json:"o_p2enum,omitempty"`
	RP2Enum   []P2Enum  `protobuf:"varint,45,rep,name=r_p2enum,json=rP2enum,enum=gpb2.P2Enum" json:"r_p2enum,omitempty"`
	PP2Enum   []P2Enum  `protobuf:"varint,46,rep,packed,name=p_p2enum,json=pP2enum,enum=gpb2.P2Enum" json:"p_p2enum,omitempty"`
	Self      *P2All    `protobuf:"bytes,47,opt,name=self" json:"self,omitempty"`
	Selves    []*P2All  `protobuf:"bytes,48,rep,name=selves" json:"selves,omitempty"`
	Maps      *P2Maps   `protobuf:"bytes,2000,opt,name=maps" json:"maps,omitempty"`
	Req       *P2Req    `protobuf:"bytes,536870911,opt,name=req" json:"req,omitempty"`
}

func (x *P2All) Reset() {
	*x = P2All{}
	if protoimpl.UnsafeEnabled {
		mi := &file_all2_proto_msgTypes[0]
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		ms.StoreMessageInfo(mi)
	}
}

func (x *P2All) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*P2All) ProtoMessage() {}

func (x *P2All) ProtoReflect() protoreflect.Message {
	mi := &file_all2_proto_msgTypes[0]
	if protoimpl.UnsafeEnabled && x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use P2All.ProtoReflect.Descriptor instead.
func (*P2All) Descriptor() ([]byte, []int) {
	return file_all2_proto_rawDescGZIP(), []int{0}
}

func (x *P2All) GetOInt32() int32 {
	if x != nil && x.OInt32 != nil {
		return *x.OInt32
	}
	return 0
}

func (x *P2All) GetRInt32() []int32 {
	if x != nil {
		return x.RInt32
	}
	return nil
}

func (x *P2All) GetPInt32() []int32 {
	if x != nil {
		return x.PInt32
	}
	return nil
}

func (x *P2All) GetOSint32() int32 {
	if x != nil && x.OSint32 != nil {
		return *x.OSint32
	}
	return 0
}

func (x *P2All) GetRSint32() []int32 {
	if x != nil {
		return x.RSint32
	}
	return nil
}

func (x *P2All) GetPSint32() []int32 {
	if x != nil {
		return x.PSint32
	}
	return nil
}

func (x *P2All) GetOSfixed32() int32 {
	if x != nil && x.OSfixed32 != nil {
		return *x.OSfixed32
	}
	return 0
}

func (x *P2All) GetRSfixed32() []int32 {
	if x != nil {
		return x.RSfixed32
	}
	return nil
}

func (x *P2All) GetPSfixed32() []int32 {
	if x != nil {
		return x.PSfixed32
	}
	return nil
}

func (x *P2All) GetOUint32() uint32 {
	if x != nil && x.OUint32 != nil {
		return *x.OUint32
	}
	return 0
}

func (x *P2All) GetRUint32() []uint32 {
	if x != nil {
		return x.RUint32
	}
	return nil
}

func (x *P2All) GetPUint32() []uint32 {
	if x != nil {
		return x.PUint32
	}
	return nil
}

func (x *P2All) GetOFixed32() uint32 {
	if x != nil && x.OFixed32 != nil {
		return *x.OFixed32
	}
	return 0
}

func (x *P2All) GetRFixed32() []uint32 {
	if x != nil {
		return x.RFixed32
	}
	return nil
}

func (x *P2All) GetPFixed32() []uint32 {
	if x != nil {
		return x.PFixed32
	}
	return nil
}

func (x *P2All) GetOInt64() int64 {
	if x != nil && x.OInt64 != nil {
		return *x.OInt64
	}
	return 0
}

func (x *P2All) GetRInt64() []int64 {
	if x != nil {
		return x.RInt64
	}
	return nil
}

func (x *P2All) GetPInt64() []int64 {
	if x != nil {
		return x.PInt64
	}
	return nil
}

func (x *P2All) GetOSint64() int64 {
	if x != nil && x.OSint64 != nil {
		return *x.OSint64
	}
	return 0
}

func (x *P2All) GetRSint64() []int64 {
	if x != nil {
		return x.RSint64
	}
	return nil
}

func (x *P2All) GetPSint64() []int64 {
	if x != nil {
		return x.PSint64
	}
	return nil
}

func (x *P2All) GetOSfixed64() int64 {
	if x != nil && x.OSfixed64 != nil {
		return *x.OSfixed64
	}
	return 0
}

func (x *P2All) GetRSfixed64() []int64 {
	if x != nil {
		return x.RSfixed64
	}
	return nil
}

func (x *P2All) GetPSfixed64() []int64 {
	if x != nil {
		return x.PSfixed64
	}
	return nil
}

func (x *P2All) GetOUint64() uint64 {
	if x != nil && x.OUint64 != nil {
		return *x.OUint64
	}
	return 0
}

func (x *P2All) GetRUint64() []uint64 {
	if x != nil {
		return x.RUint64
	}
	return nil
}

func (x *P2All) GetPUint64() []uint64 {
	if x != nil {
		return x.PUint64
	}
	return nil
}

func (x *P2All) GetOFixed64() uint64 {
	if x != nil && x.OFixed64 != nil {
		return *x.OFixed64
	}
	return 0
}

func (x *P2All) GetRFixed64() []uint64 {
	if x != nil {
		return x.RFixed64
	}
	return nil
}

func (x *P2All) GetPFixed64() []uint64 {
	if x != nil {
		return x.PFixed64
	}
	return nil
}

func (x *P2All) GetOBool() bool {
	if x != nil && x.OBool != nil {
		return *x.OBool
	}
	return false
}

func (x *P2All) GetRBool() []bool {
	if x != nil {
		return x.RBool
	}
	return nil
}

func (x *P2All) GetPBool() []bool {
	if x != nil {
		return x.PBool
	}
	return nil
}

func (x *P2All) GetOFloat() float32 {
	if x != nil && x.OFloat != nil {
		return *x.OFloat
	}
	return 0
}

func (x *P2All) GetRFloat() []float32 {
	if x != nil {
		return x.RFloat
	}
	return nil
}

func (x *P2All) GetPFloat() []float32 {
	if x != nil {
		return x.PFloat
	}
	return nil
}

func (x *P2All) GetODouble() float64 {
	if x != nil && x.ODouble != nil {
		return *x.ODouble
	}
	return 0
}

func (x *P2All) GetRDouble() []float64 {
	if x != nil {
		return x.RDouble
	}
	return nil
}

func (x *P2All) GetPDouble() []float64 {
	if x != nil {
		return x.PDouble
	}
	return nil
}

func (x *P2All) GetOString() string {
	if x != nil && x.OString != nil {
		return *x.OString
	}
	return ""
}

func (x *P2All) GetRString() []string {
	if x != nil {
		return x.RString
	}
	return nil
}

func (x *P2All) GetOBytes() []byte {
	if x != nil {
		return x.OBytes
	}
	return nil
}

func (x *P2All) GetRBytes() [][]byte {
	if x != nil {
		return x.RBytes
	}
	return nil
}

func (x *P2All) GetOP2Enum() P2Enum {
	if x != nil && x.OP2Enum != nil {
		return *x.OP2Enum
	}
	return P2Enum_P2_ZERO
}

func (x *P2All) GetRP2Enum() []P2Enum {
	if x != nil {
		return x.RP2Enum
	}
	return nil
}

func (x *P2All) GetPP2Enum() []P2Enum {
	if x != nil {
		return x.PP2Enum
	}
	return nil
}

func (x *P2All) GetSelf() *P2All {
	if x != nil {
		return x.Self
	}
	return nil
}

func (x *P2All) GetSelves() []*P2All {
	if x != nil {
		return x.Selves
	}
	return nil
}

func (x *P2All) GetMaps() *P2Maps {
	if x != nil {
		return x.Maps
	}
	return nil
}

func (x *P2All) GetReq() *P2Req {
	if x != nil {
		return x.Req
	}
	return nil
}

type P2Maps struct {
	state         protoimpl.MessageState
	sizeCache     protoimpl.SizeCache
	unknownFields protoimpl.UnknownFields

	MInt32    map[int32]uint32  `protobuf:"bytes,1,rep,name=m_int32,json=mInt32" json:"m_int32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	NInt32    map[int32]int32   `protobuf:"bytes,2,rep,name=n_int32,json=nInt32" json:"n_int32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	MSint32   map[int32]bool    `protobuf:"bytes,3,rep,name=m_sint32,json=mSint32" json:"m_sint32,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	NSint32   map[int32]int64   `protobuf:"bytes,4,rep,name=n_sint32,json=nSint32" json:"n_sint32,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSfixed32 map[int32]int32   `protobuf:"bytes,5,rep,name=m_sfixed32,json=mSfixed32" json:"m_sfixed32,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	NSfixed32 map[int32]uint64  `protobuf:"bytes,6,rep,name=n_sfixed32,json=nSfixed32" json:"n_sfixed32,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MUint32   map[uint32]uint64 `protobuf:"bytes,7,rep,name=m_uint32,json=mUint32" json:"m_uint32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	NUint32   map[uint32]string `protobuf:"bytes,8,rep,name=n_uint32,json=nUint32" json:"n_uint32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MFixed32  map[uint32]int32  `protobuf:"bytes,9,rep,name=m_fixed32,json=mFixed32" json:"m_fixed32,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	NFixed32  map[uint32]int32  `protobuf:"bytes,10,rep,name=n_fixed32,json=nFixed32" json:"n_fixed32,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MInt64    map[int64]uint64  `protobuf:"bytes,11,rep,name=m_int64,json=mInt64" json:"m_int64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	NInt64    map[int64]int64   `protobuf:"bytes,12,rep,name=n_int64,json=nInt64" json:"n_int64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	MSint64   map[int64]int32   `protobuf:"bytes,13,rep,name=m_sint64,json=mSint64" json:"m_sint64,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	NSint64   map[int64]bool    `protobuf:"bytes,14,rep,name=n_sint64,json=nSint64" json:"n_sint64,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSfixed64 map[int64]int64   `protobuf:"bytes,15,rep,name=m_sfixed64,json=mSfixed64" json:"m_sfixed64,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	NSfixed64 map[int64][]byte  `protobuf:"bytes,16,rep,name=n_sfixed64,json=nSfixed64" json:"n_sfixed64,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MUint64   map[uint64][]byte `protobuf:"bytes,17,rep,name=m_uint64,json=mUint64" json:"m_uint64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	NUint64   map[uint64]uint32 `protobuf:"bytes,18,rep,name=n_uint64,json=nUint64" json:"n_uint64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MFixed64  map[uint64]int64  `protobuf:"bytes,19,rep,name=m_fixed64,json=mFixed64" json:"m_fixed64,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	NFixed64  map[uint64]int64  `protobuf:"bytes,20,rep,name=n_fixed64,json=nFixed64" json:"n_fixed64,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MBool     map[bool]string   `protobuf:"bytes,21,rep,name=m_bool,json=mBool" json:"m_bool,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	NBool     map[bool]float32  `protobuf:"bytes,22,rep,name=n_bool,json=nBool" json:"n_bool,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MString   map[string]int64  `protobuf:"bytes,23,rep,name=m_string,json=mString" json:"m_string,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	NString   map[string]int32  `protobuf:"bytes,24,rep,name=n_string,json=nString" json:"n_string,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MEnum     map[string]P2Enum `protobuf:"bytes,25,rep,name=m_enum,json=mEnum" json:"m_enum,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=gpb2.P2Enum"`
	MLeaf     map[int32]*P2Leaf `protobuf:"bytes,2048,rep,name=m_leaf,json=mLeaf" json:"m_leaf,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MAll      map[int64]*P2All  `protobuf:"bytes,262144,rep,name=m_all,json=mAll" json:"m_all,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MBytes    map[string][]byte `protobuf:"bytes,3000,rep,name=m_bytes,json=mBytes" json:"m_bytes,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

func (x *P2Maps) Reset() {
	*x = P2Maps{}
	if protoimpl.UnsafeEnabled {
		mi := &file_all2_proto_msgTypes[1]
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		ms.StoreMessageInfo(mi)
	}
}

func (x *P2Maps) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*P2Maps) ProtoMessage() {}

func (x *P2Maps) ProtoReflect() protoreflect.Message {
	mi := &file_all2_proto_msgTypes[1]
	if protoimpl.UnsafeEnabled && x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use P2Maps.ProtoReflect.Descriptor instead.
func (*P2Maps) Descriptor() ([]byte, []int) {
	return file_all2_proto_rawDescGZIP(), []int{1}
}

func (x *P2Maps) GetMInt32() map[int32]uint32 {
	if x != nil {
		return x.MInt32
	}
	return nil
}

func (x *P2Maps) GetNInt32() map[int32]int32 {
	if x != nil {
		return x.NInt32
	}
	return nil
}

func (x *P2Maps) GetMSint32() map[int32]bool {
	if x != nil {
		return x.MSint32
	}
	return nil
}

func (x *P2Maps) GetNSint32() map[int32]int64 {
	if x != nil {
		return x.NSint32
	}
	return nil
}

func (x *P2Maps) GetMSfixed32() map[int32]int32 {
	if x != nil {
		return x.MSfixed32
	}
	return nil
}

func (x *P2Maps) GetNSfixed32() map[int32]uint64 {
	if x != nil {
		return x.NSfixed32
	}
	return nil
}

func (x *P2Maps) GetMUint32() map[uint32]uint64 {
	if x != nil {
		return x.MUint32
	}
	return nil
}

func (x *P2Maps) GetNUint32() map[uint32]string {
	if x != nil {
		return x.NUint32
	}
	return nil
}

func (x *P2Maps) GetMFixed32() map[uint32]int32 {
	if x != nil {
		return x.MFixed32
	}
	return nil
}

func (x *P2Maps) GetNFixed32() map[uint32]int32 {
	if x != nil {
		return x.NFixed32
	}
	return nil
}

func (x *P2Maps) GetMInt64() map[int64]uint64 {
	if x != nil {
		return x.MInt64
	}
	return nil
}

func (x *P2Maps) GetNInt64() map[int64]int64 {
	if x != nil {
		return x.NInt64
	}
	return nil
}

func (x *P2Maps) GetMSint64() map[int64]int32 {
	if x != nil {
		return x.MSint64
	}
	return nil
}

func (x *P2Maps) GetNSint64() map[int64]bool {
	if x != nil {
		return x.NSint64
	}
	return nil
}

func (x *P2Maps) GetMSfixed64() map[int64]int64 {
	if x != nil {
		return x.MSfixed64
	}
	return nil
}

func (x *P2Maps) GetNSfixed64() map[int64][]byte {
	if x != nil {
		return x.NSfixed64
	}
	return nil
}

func (x *P2Maps) GetMUint64() map[uint64][]byte {
	if x != nil {
		return x.MUint64
	}
	return nil
}

func (x *P2Maps) GetNUint64() map[uint64]uint32 {
	if x != nil {
		return x.NUint64
	}
	return nil
}

func (x *P2Maps) GetMFixed64() map[uint64]int64 {
	if x != nil {
		return x.MFixed64
	}
	return nil
}

func (x *P2Maps) GetNFixed64() map[uint64]int64 {
	if x != nil {
		return x.NFixed64
	}
	return nil
}

func (x *P2Maps) GetMBool() map[bool]string {
	if x != nil {
		return x.MBool
	}
	return nil
}

func (x *P2Maps) GetNBool() map[bool]float32 {
	if x != nil {
		return x.NBool
	}
	return nil
}

func (x *P2Maps) GetMString() map[string]int64 {
	if x != nil {
		return x.MString
	}
	return nil
}

func (x *P2Maps) GetNString() map[string]int32 {
	if x != nil {
		return x.NString
	}
	return nil
}

func (x *P2Maps) GetMEnum() map[string]P2Enum {
	if x != nil {
		return x.MEnum
	}
	return nil
}

func (x *P2Maps) GetMLeaf() map[int32]*P2Leaf {
	if x != nil {
		return x.MLeaf
	}
	return nil
}

func (x *P2Maps) GetMAll() map[int64]*P2All {
	if x != nil {
		return x.MAll
	}
	return nil
}

func (x *P2Maps) GetMBytes() map[string][]byte {
	if x != nil {
		return x.MBytes
	}
	return nil
}

type P2Leaf struct {
	state         protoimpl.MessageState
	sizeCache     protoimpl.SizeCache
	unknownFields protoimpl.UnknownFields

	A *int64  `protobuf:"zigzag64,1,opt,name=a" json:"a,omitempty"`
	B *string `protobuf:"bytes,16,opt,name=b" json:"b,omitempty"`
}

func (x *P2Leaf) Reset() {
	*x = P2Leaf{}
	if protoimpl.UnsafeEnabled {
		mi := &file_all2_proto_msgTypes[2]
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		ms.StoreMessageInfo(mi)
	}
}

func (x *P2Leaf) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*P2Leaf) ProtoMessage() {}

func (x *P2Leaf) ProtoReflect() protoreflect.Message {
	mi := &file_all2_proto_msgTypes[2]
	if protoimpl.UnsafeEnabled && x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use P2Leaf.ProtoReflect.Descriptor instead.
func (*P2Leaf) Descriptor() ([]byte, []int) {
	return file_all2_proto_rawDescGZIP(), []int{2}
}

func (x *P2Leaf) GetA() int64 {
	if x != nil && x.A != nil {
		return *x.A
	}
	return 0
}

func (x *P2Leaf) GetB() string {
	if x != nil && x.B != nil {
		return *x.B
	}
	return ""
}

type P2Req struct {
	state         protoimpl.MessageState
	sizeCache     protoimpl.SizeCache
	unknownFields protoimpl.UnknownFields

	A *int32   `protobuf:"varint,1,req,name=a" json:"a,omitempty"`
	B *string  `protobuf:"bytes,2,req,name=b" json:"b,omitempty"`
	C *P2Leaf  `protobuf:"bytes,3,req,name=c" json:"c,omitempty"`
	D []byte   `protobuf:"bytes,4,req,name=d" json:"d,omitempty"`
	E *float64 `protobuf:"fixed64,5,req,name=e" json:"e,omitempty"`
}

func (x *P2Req) Reset() {
	*x = P2Req{}
	if protoimpl.UnsafeEnabled {
		mi := &file_all2_proto_msgTypes[3]
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		ms.StoreMessageInfo(mi)
	}
}

func (x *P2Req) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*P2Req) ProtoMessage() {}

func (x *P2Req) ProtoReflect() protoreflect.Message {
	mi := &file_all2_proto_msgTypes[3]
	if protoimpl.UnsafeEnabled && x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use P2Req.ProtoReflect.Descriptor instead.
func (*P2Req) Descriptor() ([]byte, []int) {
	return file_all2_proto_rawDescGZIP(), []int{3}
}

func (x *P2Req) GetA() int32 {
	if x != nil && x.A != nil {
		return *x.A
	}
	return 0
}

func (x *P2Req) GetB() string {
	if x != nil && x.B != nil {
		return *x.B
	}
	return ""
}

func (x *P2Req) GetC() *P2Leaf {
	if x != nil {
		return x.C
	}
	return nil
}

func (x *P2Req) GetD() []byte {
	if x != nil {
		return x.D
	}
	return nil
}

func (x *P2Req) GetE() float64 {
	if x != nil && x.E != nil {
		return *x.E
	}
	return 0
}

type P2Def struct {
	state           protoimpl.MessageState
	sizeCache       protoimpl.SizeCache
	unknownFields   protoimpl.UnknownFields
	extensionFields protoimpl.ExtensionFields

	A   *string  `protobuf:"bytes,1,opt,name=a,def=a,packed,rep" json:"a,omitempty"`
	B   *int32   `protobuf:"varint,2,opt,name=b,def=-7" json:"b,omitempty"`
	C   *string  `protobuf:"bytes,3,opt,name=c,def=zigzag32,req,proto3" json:"c,omitempty"`
	D   []byte   `protobuf:"bytes,4,opt,name=d,def=\\001,bytes,\\\"x\\\\" json:"d,omitempty"`
	E   *P2Enum  `protobuf:"varint,5,opt,name=e,enum=gpb2.P2Enum,def=1" json:"e,omitempty"`
	F   *float64 `protobuf:"fixed64,6,opt,name=f,def=-inf" json:"f,omitempty"`
	G   *float32 `protobuf:"fixed32,7,opt,name=g,def=nan" json:"g,omitempty"`
	H   *bool    `protobuf:"varint,8,opt,name=h,def=1" json:"h,omitempty"`
	I   *int64   `protobuf:"zigzag64,9,opt,name=i,def=-9223372036854775808" json:"i,omitempty"`
	J   *uint32  `protobuf:"fixed32,10,opt,name=j,def=4294967295" json:"j,omitempty"`
	K   []P2Enum `protobuf:"varint,11,rep,packed,name=k,enum=gpb2.P2Enum" json:"k,omitempty"`
	Req *P2Def   `protobuf:"bytes,12,opt,name=req" json:"req,omitempty"`
	// Deprecated: Do not use.
	Packed []int32 `protobuf:"zigzag32,13,rep,name=packed" json:"packed,omitempty"`
	Rep    *uint64 `protobuf:"varint,14,opt,name=rep,json=fixed64,req" json:"rep,omitempty"`
	Proto3 *bool   `protobuf:"varint,536870911,req,name=proto3" json:"proto3,omitempty"`
	S      *string `protobuf:"bytes,15,opt,name=s,def=x,fixed64,zigzag32" json:"s,omitempty"`
	T      *string `protobuf:"bytes,16,opt,name=t,json=varint,opt,def=,rep" json:"t,omitempty"`
	U      *int64  `protobuf:"varint,17,opt,name=u,json=a,zigzag64" json:"u,omitempty"`
	V      []byte  `protobuf:"bytes,18,opt,name=v,json=p,packed,rep,def=y,req" json:"v,omitempty"`
	W      *P2Leaf `protobuf:"bytes,19,opt,name=w,json=group,req" json:"w,omitempty"`
	Zero   *int32  `protobuf:"varint,20,opt,name=zero,def=0" json:"zero,omitempty"`
	Empty  *string `protobuf:"bytes,21,opt,name=empty,def=" json:"empty,omitempty"`
}

// Default values for P2Def fields.
const (
	Default_P2Def_A     = string("a,packed,rep")
	Default_P2Def_B     = int32(-7)
	Default_P2Def_C     = string("zigzag32,req,proto3")
	Default_P2Def_E     = P2Enum_P2_ONE
	Default_P2Def_H     = bool(true)
	Default_P2Def_I     = int64(-9223372036854775808)
	Default_P2Def_J     = uint32(4294967295)
	Default_P2Def_S     = string("x,fixed64,zigzag32")
	Default_P2Def_T     = string(",rep")
	Default_P2Def_Zero  = int32(0)
	Default_P2Def_Empty = string("")
)

// Default values for P2Def fields.
var (
	Default_P2Def_D = []byte("\x01,bytes,\"x\\")
	Default_P2Def_F = float64(math.Inf(-1))
	Default_P2Def_G = float32(math.NaN())
	Default_P2Def_V = []byte("y,req")
)

func (x *P2Def) Reset() {
	*x = P2Def{}
	if protoimpl.UnsafeEnabled {
		mi := &file_all2_proto_msgTypes[4]
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		ms.StoreMessageInfo(mi)
	}
}

func (x *P2Def) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*P2Def) ProtoMessage() {}

func (x *P2Def) ProtoReflect() protoreflect.Message {
	mi := &file_all2_proto_msgTypes[4]
	if protoimpl.UnsafeEnabled && x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use P2Def.ProtoReflect.Descriptor instead.
func (*P2Def) Descriptor() ([]byte, []int) {
	return file_all2_proto_rawDescGZIP(), []int{4}
}

func (x *P2Def) GetA() string {
	if x != nil && x.A != nil {
		return *x.A
	}
	return Default_P2Def_A
}

func (x *P2Def) GetB() int32 {
	if x != nil && x.B != nil {
		return *x.B
	}
	return Default_P2Def_B
}

func (x *P2Def) GetC() string {
	if x != nil && x.C != nil {
		return *x.C
	}
	return Default_P2Def_C
}

func (x *P2Def) GetD() []byte {
	if x != nil && x.D != nil {
		return x.D
	}
	return append([]byte(nil), Default_P2Def_D...)
}

func (x *P2Def) GetE() P2Enum {
	if x != nil && x.E != nil {
		return *x.E
	}
	return Default_P2Def_E
}

func (x *P2Def) GetF() float64 {
	if x != nil && x.F != nil {
		return *x.F
	}
	return Default_P2Def_F
}

func (x *P2Def) GetG() float32 {
	if x != nil && x.G != nil {
		return *x.G
	}
	return Default_P2Def_G
}

func (x *P2Def) GetH() bool {
	if x != nil && x.H != nil {
		return *x.H
	}
	return Default_P2Def_H
}

func (x *P2Def) GetI() int64 {
	if x != nil && x.I != nil {
		return *x.I
	}
	return Default_P2Def_I
}

func (x *P2Def) GetJ() uint32 {
	if x != nil && x.J != nil {
		return *x.J
	}
	return Default_P2Def_J
}

func (x *P2Def) GetK() []P2Enum {
	if x != nil {
		return x.K
	}
	return nil
}

func (x *P2Def) GetReq() *P2Def {
	if x != nil {
		return x.Req
	}
	return nil
}

// Deprecated: Do not use.
func (x *P2Def) GetPacked() []int32 {
	if x != nil {
		return x.Packed
	}
	return nil
}

func (x *P2Def) GetRep() uint64 {
	if x != nil && x.Rep != nil {
		return *x.Rep
	}
	return 0
}

func (x *P2Def) GetProto3() bool {
	if x != nil && x.Proto3 != nil {
		return *x.Proto3
	}
	return false
}

func (x *P2Def) GetS() string {
	if x != nil && x.S != nil {
		return *x.S
	}
	return Default_P2Def_S
}

func (x *P2Def) GetT() string {
	if x != nil && x.T != nil {
		return *x.T
	}
	return Default_P2Def_T
}

func (x *P2Def) GetU() int64 {
	if x != nil && x.U != nil {
		return *x.U
	}
	return 0
}

func (x *P2Def) GetV() []byte {
	if x != nil && x.V != nil {
		return x.V
	}
	return append([]byte(nil), Default_P2Def_V...)
}

func (x *P2Def) GetW() *P2Leaf {
	if x != nil {
		return x.W
	}
	return nil
}

func (x *P2Def) GetZero() int32 {
	if x != nil && x.Zero != nil {
		return *x.Zero
	}
	return Default_P2Def_Zero
}

func (x *P2Def) GetEmpty() string {
	if x != nil && x.Empty != nil {
		return *x.Empty
	}
	return Default_P2Def_Empty
}

var File_all2_proto protoreflect.FileDescriptor

var file_all2_proto_rawDesc = []byte{
	0x0a, 0x0a, 0x61, 0x6c, 0x6c, 0x32, 0x2e, 0x70, 0x72, 0x6f, 0x74, 0x6f, 0x12, 0x04, 0x67, 0x70,
	0x62, 0x32, 0x22, 0xd1, 0x0b, 0x0a, 0x05, 0x50, 0x32, 0x41, 0x6c, 0x6c, 0x12, 0x17, 0x0a, 0x07,
	0x6f, 0x5f, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x18, 0x01, 0x20, 0x01, 0x28, 0x05, 0x52, 0x06, 0x6f,
	0x49, 0x6e, 0x74, 0x33, 0x32, 0x12, 0x17, 0x0a, 0x07, 0x72, 0x5f, 0x69, 0x6e, 0x74, 0x33, 0x32,
	0x18, 0x02, 0x20, 0x03, 0x28, 0x05, 0x52, 0x06, 0x72, 0x49, 0x6e, 0x74, 0x33, 0x32, 0x12, 0x1b,
	0x0a, 0x07, 0x70, 0x5f, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x18, 0x03, 0x20, 0x03, 0x28, 0x05, 0x42,
	0x02, 0x10, 0x01, 0x52, 0x06, 0x70, 0x49, 0x6e, 0x74, 0x33, 0x32, 0x12, 0x19, 0x0a, 0x08, 0x6f,
	0x5f, 0x73, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x18, 0x04, 0x20, 0x01, 0x28, 0x11, 0x52, 0x07, 0x6f,
	0x53, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x12, 0x19, 0x0a, 0x08, 0x72, 0x5f, 0x73, 0x69, 0x6e, 0x74,
	0x33, 0x32, 0x18, 0x05, 0x20, 0x03, 0x28, 0x11, 0x52, 0x07, 0x72, 0x53, 0x69, 0x6e, 0x74, 0x33,
	0x32, 0x12, 0x1d, 0x0a, 0x08, 0x70, 0x5f, 0x73, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x18, 0x06, 0x20,
	0x03, 0x28, 0x11, 0x42, 0x02, 0x10, 0x01, 0x52, 0x07, 0x70, 0x53, 0x69, 0x6e, 0x74, 0x33, 0x32,
	0x12, 0x1d, 0x0a, 0x0a, 0x6f, 0x5f, 0x73, 0x66, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32, 0x18, 0x07,
	0x20, 0x01, 0x28, 0x0f, 0x52, 0x09, 0x6f, 0x53, 0x66, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32, 0x12,
	0x1d, 0x0a, 0x0a, 0x72, 0x5f, 0x73, 0x66, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32, 0x18, 0x08, 0x20,
	0x03, 0x28, 0x0f, 0x52, 0x09, 0x72, 0x53, 0x66, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32, 0x12, 0x21,
	0x0a, 0x0a, 0x70, 0x5f, 0x73, 0x66, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32, 0x18, 0x09, 0x20, 0x03,
	0x28, 0x0f, 0x42, 0x02, 0x10, 0x01, 0x52, 0x09, 0x70, 0x53, 0x66, 0x69, 0x78, 0x65, 0x64, 0x33,
	0x32, 0x12, 0x19, 0x0a, 0x08, 0x6f, 0x5f, 0x75, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x18, 0x0a, 0x20,
	0x01, 0x28, 0x0d, 0x52, 0x07, 0x6f, 0x55, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x12, 0x19, 0x0a, 0x08,
	0x72, 0x5f, 0x75, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x18, 0x0b, 0x20, 0x03, 0x28, 0x0d, 0x52, 0x07,
	0x72, 0x55, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x12, 0x1d, 0x0a, 0x08, 0x70, 0x5f, 0x75, 0x69, 0x6e,
	0x74, 0x33, 0x32, 0x18, 0x0c, 0x20, 0x03, 0x28, 0x0d, 0x42, 0x02, 0x10, 0x01, 0x52, 0x07, 0x70,
	0x55, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x12, 0x1b, 0x0a, 0x09, 0x6f, 0x5f, 0x66, 0x69, 0x78, 0x65,
	0x64, 0x33, 0x32, 0x18, 0x0d, 0x20, 0x01, 0x28, 0x07, 0x52, 0x08, 0x6f, 0x46, 0x69, 0x78, 0x65,
	0x64, 0x33, 0x32, 0x12, 0x1b, 0x0a, 0x09, 0x72, 0x5f, 0x66, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32,
	0x18, 0x0e, 0x20, 0x03, 0x28, 0x07, 0x52, 0x08, 0x72, 0x46, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32,
	0x12, 0x1f, 0x0a, 0x09, 0x70, 0x5f, 0x66, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32, 0x18, 0x0f, 0x20,
	0x03, 0x28, 0x07, 0x42, 0x02, 0x10, 0x01, 0x52, 0x08, 0x70, 0x46, 0x69, 0x78, 0x65, 0x64, 0x33,
	0x32, 0x12, 0x17, 0x0a, 0x07, 0x6f, 0x5f, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x18, 0x10, 0x20, 0x01,
	0x28, 0x03, 0x52, 0x06, 0x6f, 0x49, 0x6e, 0x74, 0x36, 0x34, 0x12, 0x17, 0x0a, 0x07, 0x72, 0x5f,
	0x69, 0x6e, 0x74, 0x36, 0x34, 0x18, 0x11, 0x20, 0x03, 0x28, 0x03, 0x52, 0x06, 0x72, 0x49, 0x6e,
	0x74, 0x36, 0x34, 0x12, 0x1b, 0x0a, 0x07, 0x70, 0x5f, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x18, 0x12,
	0x20, 0x03, 0x28, 0x03, 0x42, 0x02, 0x10, 0x01, 0x52, 0x06, 0x70, 0x49, 0x6e, 0x74, 0x36, 0x34,
	0x12, 0x19, 0x0a, 0x08, 0x6f, 0x5f, 0x73, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x18, 0x13, 0x20, 0x01,
	0x28, 0x12, 0x52, 0x07, 0x6f, 0x53, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x12, 0x19, 0x0a, 0x08, 0x72,
	0x5f, 0x73, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x18, 0x14, 0x20, 0x03, 0x28, 0x12, 0x52, 0x07, 0x72,
	0x53, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x12, 0x1d, 0x0a, 0x08, 0x70, 0x5f, 0x73, 0x69, 0x6e, 0x74,
	0x36, 0x34, 0x18, 0x15, 0x20, 0x03, 0x28, 0x12, 0x42, 0x02, 0x10, 0x01, 0x52, 0x07, 0x70, 0x53,
	0x69, 0x6e, 0x74, 0x36, 0x34, 0x12, 0x1d, 0x0a, 0x0a, 0x6f, 0x5f, 0x73, 0x66, 0x69, 0x78, 0x65,
	0x64, 0x36, 0x34, 0x18, 0x16, 0x20, 0x01, 0x28, 0x10, 0x52, 0x09, 0x6f, 0x53, 0x66, 0x69, 0x78,
	0x65, 0x64, 0x36, 0x34, 0x12, 0x1d, 0x0a, 0x0a, 0x72, 0x5f, 0x73, 0x66, 0x69, 0x78, 0x65, 0x64,
	0x36, 0x34, 0x18, 0x17, 0x20, 0x03, 0x28, 0x10, 0x52, 0x09, 0x72, 0x53, 0x66, 0x69, 0x78, 0x65,
	0x64, 0x36, 0x34, 0x12, 0x21, 0x0a, 0x0a, 0x70, 0x5f, 0x73, 0x66, 0x69, 0x78, 0x65, 0x64, 0x36,
	0x34, 0x18, 0x18, 0x20, 0x03, 0x28, 0x10, 0x42, 0x02, 0x10, 0x01, 0x52, 0x09, 0x70, 0x53, 0x66,
	0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x12, 0x19, 0x0a, 0x08, 0x6f, 0x5f, 0x75, 0x69, 0x6e, 0x74,
	0x36, 0x34, 0x18, 0x19, 0x20, 0x01, 0x28, 0x04, 0x52, 0x07, 0x6f, 0x55, 0x69, 0x6e, 0x74, 0x36,
	0x34, 0x12, 0x19, 0x0a, 0x08, 0x72, 0x5f, 0x75, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x18, 0x1a, 0x20,
	0x03, 0x28, 0x04, 0x52, 0x07, 0x72, 0x55, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x12, 0x1d, 0x0a, 0x08,
	0x70, 0x5f, 0x75, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x18, 0x1b, 0x20, 0x03, 0x28, 0x04, 0x42, 0x02,
	0x10, 0x01, 0x52, 0x07, 0x70, 0x55, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x12, 0x1b, 0x0a, 0x09, 0x6f,
	0x5f, 0x66, 0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x18, 0x1c, 0x20, 0x01, 0x28, 0x06, 0x52, 0x08,
	0x6f, 0x46, 0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x12, 0x1b, 0x0a, 0x09, 0x72, 0x5f, 0x66, 0x69,
	0x78, 0x65, 0x64, 0x36, 0x34, 0x18, 0x1d, 0x20, 0x03, 0x28, 0x06, 0x52, 0x08, 0x72, 0x46, 0x69,
	0x78, 0x65, 0x64, 0x36, 0x34, 0x12, 0x1f, 0x0a, 0x09, 0x70, 0x5f, 0x66, 0x69, 0x78, 0x65, 0x64,
	0x36, 0x34, 0x18, 0x1e, 0x20, 0x03, 0x28, 0x06, 0x42, 0x02, 0x10, 0x01, 0x52, 0x08, 0x70, 0x46,
	0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x12, 0x15, 0x0a, 0x06, 0x6f, 0x5f, 0x62, 0x6f, 0x6f, 0x6c,
	0x18, 0x1f, 0x20, 0x01, 0x28, 0x08, 0x52, 0x05, 0x6f, 0x42, 0x6f, 0x6f, 0x6c, 0x12, 0x15, 0x0a,
	0x06, 0x72, 0x5f, 0x62, 0x6f, 0x6f, 0x6c, 0x18, 0x20, 0x20, 0x03, 0x28, 0x08, 0x52, 0x05, 0x72,
	0x42, 0x6f, 0x6f, 0x6c, 0x12, 0x19, 0x0a, 0x06, 0x70, 0x5f, 0x62, 0x6f, 0x6f, 0x6c, 0x18, 0x21,
	0x20, 0x03, 0x28, 0x08, 0x42, 0x02, 0x10, 0x01, 0x52, 0x05, 0x70, 0x42, 0x6f, 0x6f, 0x6c, 0x12,
	0x17, 0x0a, 0x07, 0x6f, 0x5f, 0x66, 0x6c, 0x6f, 0x61, 0x74, 0x18, 0x22, 0x20, 0x01, 0x28, 0x02,
	0x52, 0x06, 0x6f, 0x46, 0x6c, 0x6f, 0x61, 0x74, 0x12, 0x17, 0x0a, 0x07, 0x72, 0x5f, 0x66, 0x6c,
	0x6f, 0x61, 0x74, 0x18, 0x23, 0x20, 0x03, 0x28, 0x02, 0x52, 0x06, 0x72, 0x46, 0x6c, 0x6f, 0x61,
	0x74, 0x12, 0x1b, 0x0a, 0x07, 0x70, 0x5f, 0x66, 0x6c, 0x6f, 0x61, 0x74, 0x18, 0x24, 0x20, 0x03,
	0x28, 0x02, 0x42, 0x02, 0x10, 0x01, 0x52, 0x06, 0x70, 0x46, 0x6c, 0x6f, 0x61, 0x74, 0x12, 0x19,
	0x0a, 0x08, 0x6f, 0x5f, 0x64, 0x6f, 0x75, 0x62, 0x6c, 0x65, 0x18, 0x25, 0x20, 0x01, 0x28, 0x01,
	0x52, 0x07, 0x6f, 0x44, 0x6f, 0x75, 0x62, 0x6c, 0x65, 0x12, 0x19, 0x0a, 0x08, 0x72, 0x5f, 0x64,
	0x6f, 0x75, 0x62, 0x6c, 0x65, 0x18, 0x26, 0x20, 0x03, 0x28, 0x01, 0x52, 0x07, 0x72, 0x44, 0x6f,
	0x75, 0x62, 0x6c, 0x65, 0x12, 0x1d, 0x0a, 0x08, 0x70, 0x5f, 0x64, 0x6f, 0x75, 0x62, 0x6c, 0x65,
	0x18, 0x27, 0x20, 0x03, 0x28, 0x01, 0x42, 0x02, 0x10, 0x01, 0x52, 0x07, 0x70, 0x44, 0x6f, 0x75,
	0x62, 0x6c, 0x65, 0x12, 0x19, 0x0a, 0x08, 0x6f, 0x5f, 0x73, 0x74, 0x72, 0x69, 0x6e, 0x67, 0x18,
	0x28, 0x20, 0x01, 0x28, 0x09, 0x52, 0x07, 0x6f, 0x53, 0x74, 0x72, 0x69, 0x6e, 0x67, 0x12, 0x19,
	0x0a, 0x08, 0x72, 0x5f, 0x73, 0x74, 0x72, 0x69, 0x6e, 0x67, 0x18, 0x29, 0x20, 0x03, 0x28, 0x09,
	0x52, 0x07, 0x72, 0x53, 0x74, 0x72, 0x69, 0x6e, 0x67, 0x12, 0x17, 0x0a, 0x07, 0x6f, 0x5f, 0x62,
	0x79, 0x74, 0x65, 0x73, 0x18, 0x2a, 0x20, 0x01, 0x28, 0x0c, 0x52, 0x06, 0x6f, 0x42, 0x79, 0x74,
	0x65, 0x73, 0x12, 0x17, 0x0a, 0x07, 0x72, 0x5f, 0x62, 0x79, 0x74, 0x65, 0x73, 0x18, 0x2b, 0x20,
	0x03, 0x28, 0x0c, 0x52, 0x06, 0x72, 0x42, 0x79, 0x74, 0x65, 0x73, 0x12, 0x27, 0x0a, 0x08, 0x6f,
	0x5f, 0x70, 0x32, 0x65, 0x6e, 0x75, 0x6d, 0x18, 0x2c, 0x20, 0x01, 0x28, 0x0e, 0x32, 0x0c, 0x2e,
	0x67, 0x70, 0x62, 0x32, 0x2e, 0x50, 0x32, 0x45, 0x6e, 0x75, 0x6d, 0x52, 0x07, 0x6f, 0x50, 0x32,
	0x65, 0x6e, 0x75, 0x6d, 0x12, 0x27, 0x0a, 0x08, 0x72, 0x5f, 0x70, 0x32, 0x65, 0x6e, 0x75, 0x6d,
	0x18, 0x2d, 0x20, 0x03, 0x28, 0x0e, 0x32, 0x0c, 0x2e, 0x67, 0x70, 0x62, 0x32, 0x2e, 0x50, 0x32,
	0x45, 0x6e, 0x75, 0x6d, 0x52, 0x07, 0x72, 0x50, 0x32, 0x65, 0x6e, 0x75, 0x6d, 0x12, 0x2b, 0x0a,
	0x08, 0x70, 0x5f, 0x70, 0x32, 0x65, 0x6e, 0x75, 0x6d, 0x18, 0x2e, 0x20, 0x03, 0x28, 0x0e, 0x32,
	0x0c, 0x2e, 0x67, 0x70, 0x62, 0x32, 0x2e, 0x50, 0x32, 0x45, 0x6e, 0x75, 0x6d, 0x42, 0x02, 0x10,
	0x01, 0x52, 0x07, 0x70, 0x50, 0x32, 0x65, 0x6e, 0x75, 0x6d, 0x12, 0x1f, 0x0a, 0x04, 0x73, 0x65,
	0x6c, 0x66, 0x18, 0x2f, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x0b, 0x2e, 0x67, 0x70, 0x62, 0x32, 0x2e,
	0x50, 0x32, 0x41, 0x6c, 0x6c, 0x52, 0x04, 0x73, 0x65, 0x6c, 0x66, 0x12, 0x23, 0x0a, 0x06, 0x73,
	0x65, 0x6c, 0x76, 0x65, 0x73, 0x18, 0x30, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x0b, 0x2e, 0x67, 0x70,
	0x62, 0x32, 0x2e, 0x50, 0x32, 0x41, 0x6c, 0x6c, 0x52, 0x06, 0x73, 0x65, 0x6c, 0x76, 0x65, 0x73,
	0x12, 0x21, 0x0a, 0x04, 0x6d, 0x61, 0x70, 0x73, 0x18, 0xd0, 0x0f, 0x20, 0x01, 0x28, 0x0b, 0x32,
	0x0c, 0x2e, 0x67, 0x70, 0x62, 0x32, 0x2e, 0x50, 0x32, 0x4d, 0x61, 0x70, 0x73, 0x52, 0x04, 0x6d,
	0x61, 0x70, 0x73, 0x12, 0x21, 0x0a, 0x03, 0x72, 0x65, 0x71, 0x18, 0xff, 0xff, 0xff, 0xff, 0x01,
	0x20, 0x01, 0x28, 0x0b, 0x32, 0x0b, 0x2e, 0x67, 0x70, 0x62, 0x32, 0x2e, 0x50, 0x32, 0x52, 0x65,
	0x71, 0x52, 0x03, 0x72, 0x65, 0x71, 0x22, 0x9d, 0x19, 0x0a, 0x06, 0x50, 0x32, 0x4d, 0x61, 0x70,
	0x73, 0x12, 0x31, 0x0a, 0x07, 0x6d, 0x5f, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x18, 0x01, 0x20, 0x03,
	0x28, 0x0b, 0x32, 0x18, 0x2e, 0x67, 0x70, 0x62, 0x32, 0x2e, 0x50, 0x32, 0x4d, 0x61, 0x70, 0x73,
	0x2e, 0x4d, 0x49, 0x6e, 0x74, 0x33, 0x32, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x52, 0x06, 0x6d, 0x49,
	0x6e, 0x74, 0x33, 0x32, 0x12, 0x31, 0x0a, 0x07, 0x6e, 0x5f, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x18,
	0x02, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x18, 0x2e, 0x67, 0x70, 0x62, 0x32, 0x2e, 0x50, 0x32, 0x4d,
	0x61, 0x70, 0x73, 0x2e, 0x4e, 0x49, 0x6e, 0x74, 0x33, 0x32, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x52,
	0x06, 0x6e, 0x49, 0x6e, 0x74, 0x33, 0x32, 0x12, 0x34, 0x0a, 0x08, 0x6d, 0x5f, 0x73, 0x69, 0x6e,
	0x74, 0x33, 0x32, 0x18, 0x03, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x19, 0x2e, 0x67, 0x70, 0x62, 0x32,
	0x2e, 0x50, 0x32, 0x4d, 0x61, 0x70, 0x73, 0x2e, 0x4d, 0x53, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x45,
	0x6e, 0x74, 0x72, 0x79, 0x52, 0x07, 0x6d, 0x53, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x12, 0x34, 0x0a,
	0x08, 0x6e, 0x5f, 0x73, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x18, 0x04, 0x20, 0x03, 0x28, 0x0b, 0x32,
	0x19, 0x2e, 0x67, 0x70, 0x62, 0x32, 0x2e, 0x50, 0x32, 0x4d, 0x61, 0x70, 0x73, 0x2e, 0x4e, 0x53,
	0x69, 0x6e, 0x74, 0x33, 0x32, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x52, 0x07, 0x6e, 0x53, 0x69, 0x6e,
	0x74, 0x33, 0x32, 0x12, 0x3a, 0x0a, 0x0a, 0x6d, 0x5f, 0x73, 0x66, 0x69, 0x78, 0x65, 0x64, 0x33,
	0x32, 0x18, 0x05, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x1b, 0x2e, 0x67, 0x70, 0x62, 0x32, 0x2e, 0x50,
	0x32, 0x4d, 0x61, 0x70, 0x73, 0x2e, 0x4d, 0x53, 0x66, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32, 0x45,
	0x6e, 0x74, 0x72, 0x79, 0x52, 0x09, 0x6d, 0x53, 0x66, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32, 0x12,
	0x3a, 0x0a, 0x0a, 0x6e, 0x5f, 0x73, 0x66, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32, 0x18, 0x06, 0x20,
	0x03, 0x28, 0x0b, 0x32, 0x1b, 0x2e, 0x67, 0x70, 0x62, 0x32, 0x2e, 0x50, 0x32, 0x4d, 0x61, 0x70,
	0x73, 0x2e, 0x4e, 0x53, 0x66, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32, 0x45, 0x6e, 0x74, 0x72, 0x79,
	0x52, 0x09, 0x6e, 0x53, 0x66, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32, 0x12, 0x34, 0x0a, 0x08, 0x6d,
	0x5f, 0x75, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x18, 0x07, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x19, 0x2e,
	0x67, 0x70, 0x62, 0x32, 0x2e, 0x50, 0x32, 0x4d, 0x61, 0x70, 0x73, 0x2e, 0x4d, 0x55, 0x69, 0x6e,
	0x74, 0x33, 0x32, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x52, 0x07, 0x6d, 0x55, 0x69, 0x6e, 0x74, 0x33,
	0x32, 0x12, 0x34, 0x0a, 0x08, 0x6e, 0x5f, 0x75, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x18, 0x08, 0x20,
	0x03, 0x28, 0x0b, 0x32, 0x19, 0x2e, 0x67, 0x70, 0x62, 0x32, 0x2e, 0x50, 0x32, 0x4d, 0x61, 0x70,
	0x73, 0x2e, 0x4e, 0x55, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x52, 0x07,
	0x6e, 0x55, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x12, 0x37, 0x0a, 0x09, 0x6d, 0x5f, 0x66, 0x69, 0x78,
	0x65, 0x64, 0x33, 0x32, 0x18, 0x09, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x1a, 0x2e, 0x67, 0x70, 0x62,
	0x32, 0x2e, 0x50, 0x32, 0x4d, 0x61, 0x70, 0x73, 0x2e, 0x4d, 0x46, 0x69, 0x78, 0x65, 0x64, 0x33,
	0x32, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x52, 0x08, 0x6d, 0x46, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32,
	0x12, 0x37, 0x0a, 0x09, 0x6e, 0x5f, 0x66, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32, 0x18, 0x0a, 0x20,
	0x03, 0x28, 0x0b, 0x32, 0x1a, 0x2e, 0x67, 0x70, 0x62, 0x32, 0x2e, 0x50, 0x32, 0x4d, 0x61, 0x70,
	0x73, 0x2e, 0x4e, 0x46, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x52,
	0x08, 0x6e, 0x46, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32, 0x12, 0x31, 0x0a, 0x07, 0x6d, 0x5f, 0x69,
	0x6e, 0x74, 0x36, 0x34, 0x18, 0x0b, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x18, 0x2e, 0x67, 0x70, 0x62,
	0x32, 0x2e, 0x50, 0x32, 0x4d, 0x61, 0x70, 0x73, 0x2e, 0x4d, 0x49, 0x6e, 0x74, 0x36, 0x34, 0x45,
	0x6e, 0x74, 0x72, 0x79, 0x52, 0x06, 0x6d, 0x49, 0x6e, 0x74, 0x36, 0x34, 0x12, 0x31, 0x0a, 0x07,
	0x6e, 0x5f, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x18, 0x0c, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x18, 0x2e,
	0x67, 0x70, 0x62, 0x32, 0x2e, 0x50, 0x32, 0x4d, 0x61, 0x70, 0x73, 0x2e, 0x4e, 0x49, 0x6e, 0x74,
	0x36, 0x34, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x52, 0x06, 0x6e, 0x49, 0x6e, 0x74, 0x36, 0x34, 0x12,
	0x34, 0x0a, 0x08, 0x6d, 0x5f, 0x73, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x18, 0x0d, 0x20, 0x03, 0x28,
	0x0b, 0x32, 0x19, 0x2e, 0x67, 0x70, 0x62, 0x32, 0x2e, 0x50, 0x32, 0x4d, 0x61, 0x70, 0x73, 0x2e,
	0x4d, 0x53, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x52, 0x07, 0x6d, 0x53,
	0x69, 0x6e, 0x74, 0x36, 0x34, 0x12, 0x34, 0x0a, 0x08, 0x6e, 0x5f, 0x73, 0x69, 0x6e, 0x74, 0x36,
	0x34, 0x18, 0x0e, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x19, 0x2e, 0x67, 0x70, 0x62, 0x32, 0x2e, 0x50,
	0x32, 0x4d, 0x61, 0x70, 0x73, 0x2e, 0x4e, 0x53, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x45, 0x6e, 0x74,
	0x72, 0x79, 0x52, 0x07, 0x6e, 0x53, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x12, 0x3a, 0x0a, 0x0a, 0x6d,
	0x5f, 0x73, 0x66, 0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x18, 0x0f, 0x20, 0x03, 0x28, 0x0b, 0x32,
	0x1b, 0x2e, 0x67, 0x70, 0x62, 0x32, 0x2e, 0x50, 0x32, 0x4d, 0x61, 0x70, 0x73, 0x2e, 0x4d, 0x53,
	0x66, 0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x52, 0x09, 0x6d, 0x53,
	0x66, 0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x12, 0x3a, 0x0a, 0x0a, 0x6e, 0x5f, 0x73, 0x66, 0x69,
	0x78, 0x65, 0x64, 0x36, 0x34, 0x18, 0x10, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x1b, 0x2e, 0x67, 0x70,
	0x62, 0x32, 0x2e, 0x50, 0x32, 0x4d, 0x61, 0x70, 0x73, 0x2e, 0x4e, 0x53, 0x66, 0x69, 0x78, 0x65,
	0x64, 0x36, 0x34, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x52, 0x09, 0x6e, 0x53, 0x66, 0x69, 0x78, 0x65,
	0x64, 0x36, 0x34, 0x12, 0x34, 0x0a, 0x08, 0x6d, 0x5f, 0x75, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x18,
	0x11, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x19, 0x2e, 0x67, 0x70, 0x62, 0x32, 0x2e, 0x50, 0x32, 0x4d,
	0x61, 0x70, 0x73, 0x2e, 0x4d, 0x55, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x45, 0x6e, 0x74, 0x72, 0x79,
	0x52, 0x07, 0x6d, 0x55, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x12, 0x34, 0x0a, 0x08, 0x6e, 0x5f, 0x75,
	0x69, 0x6e, 0x74, 0x36, 0x34, 0x18, 0x12, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x19, 0x2e, 0x67, 0x70,
	0x62, 0x32, 0x2e, 0x50, 0x32, 0x4d, 0x61, 0x70, 0x73, 0x2e, 0x4e, 0x55, 0x69, 0x6e, 0x74, 0x36,
	0x34, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x52, 0x07, 0x6e, 0x55, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x12,
	0x37, 0x0a, 0x09, 0x6d, 0x5f, 0x66, 0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x18, 0x13, 0x20, 0x03,
	0x28, 0x0b, 0x32, 0x1a, 0x2e, 0x67, 0x70, 0x62, 0x32, 0x2e, 0x50, 0x32, 0x4d, 0x61, 0x70, 0x73,
	0x2e, 0x4d, 0x46, 0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x52, 0x08,
	0x6d, 0x46, 0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x12, 0x37, 0x0a, 0x09, 0x6e, 0x5f, 0x66, 0x69,
	0x78, 0x65, 0x64, 0x36, 0x34, 0x18, 0x14, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x1a, 0x2e, 0x67, 0x70,
	0x62, 0x32, 0x2e, 0x50, 0x32, 0x4d, 0x61, 0x70, 0x73, 0x2e, 0x4e, 0x46, 0x69, 0x78, 0x65, 0x64,
	0x36, 0x34, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x52, 0x08, 0x6e, 0x46, 0x69, 0x78, 0x65, 0x64, 0x36,
	0x34, 0x12, 0x2e, 0x0a, 0x06, 0x6d, 0x5f, 0x62, 0x6f, 0x6f, 0x6c, 0x18, 0x15, 0x20, 0x03, 0x28,
	0x0b, 0x32, 0x17, 0x2e, 0x67, 0x70, 0x62, 0x32, 0x2e, 0x50, 0x32, 0x4d, 0x61, 0x70, 0x73, 0x2e,
	0x4d, 0x42, 0x6f, 0x6f, 0x6c, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x52, 0x05, 0x6d, 0x42, 0x6f, 0x6f,
	0x6c, 0x12, 0x2e, 0x0a, 0x06, 0x6e, 0x5f, 0x62, 0x6f, 0x6f, 0x6c, 0x18, 0x16, 0x20, 0x03, 0x28,
	0x0b, 0x32, 0x17, 0x2e, 0x67, 0x70, 0x62, 0x32, 0x2e, 0x50, 0x32, 0x4d, 0x61, 0x70, 0x73, 0x2e,
	0x4e, 0x42, 0x6f, 0x6f, 0x6c, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x52, 0x05, 0x6e, 0x42, 0x6f, 0x6f,
	0x6c, 0x12, 0x34, 0x0a, 0x08, 0x6d, 0x5f, 0x73, 0x74, 0x72, 0x69, 0x6e, 0x67, 0x18, 0x17, 0x20,
	0x03, 0x28, 0x0b, 0x32, 0x19, 0x2e, 0x67, 0x70, 0x62, 0x32, 0x2e, 0x50, 0x32, 0x4d, 0x61, 0x70,
	0x73, 0x2e, 0x4d, 0x53, 0x74, 0x72, 0x69, 0x6e, 0x67, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x52, 0x07,
	0x6d, 0x53, 0x74, 0x72, 0x69, 0x6e, 0x67, 0x12, 0x34, 0x0a, 0x08, 0x6e, 0x5f, 0x73, 0x74, 0x72,
	0x69, 0x6e, 0x67, 0x18, 0x18, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x19, 0x2e, 0x67, 0x70, 0x62, 0x32,
	0x2e, 0x50, 0x32, 0x4d, 0x61, 0x70, 0x73, 0x2e, 0x4e, 0x53, 0x74, 0x72, 0x69, 0x6e, 0x67, 0x45,
	0x6e, 0x74, 0x72, 0x79, 0x52, 0x07, 0x6e, 0x53, 0x74, 0x72, 0x69, 0x6e, 0x67, 0x12, 0x2e, 0x0a,
	0x06, 0x6d, 0x5f, 0x65, 0x6e, 0x75, 0x6d, 0x18, 0x19, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x17, 0x2e,
	0x67, 0x70, 0x62, 0x32, 0x2e, 0x50, 0x32, 0x4d, 0x61, 0x70, 0x73, 0x2e, 0x4d, 0x45, 0x6e, 0x75,
	0x6d, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x52, 0x05, 0x6d, 0x45, 0x6e, 0x75, 0x6d, 0x12, 0x2f, 0x0a,
	0x06, 0x6d, 0x5f, 0x6c, 0x65, 0x61, 0x66, 0x18, 0x80, 0x10, 0x20, 0x03, 0x28, 0x0b, 0x32, 0x17,
	0x2e, 0x67, 0x70, 0x62, 0x32, 0x2e, 0x50, 0x32, 0x4d, 0x61, 0x70, 0x73, 0x2e, 0x4d, 0x4c, 0x65,
	0x61, 0x66, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x52, 0x05, 0x6d, 0x4c, 0x65, 0x61, 0x66, 0x12, 0x2d,
	0x0a, 0x05, 0x6d, 0x5f, 0x61, 0x6c, 0x6c, 0x18, 0x80, 0x80, 0x10, 0x20, 0x03, 0x28, 0x0b, 0x32,
	0x16, 0x2e, 0x67, 0x70, 0x62, 0x32, 0x2e, 0x50, 0x32, 0x4d, 0x61, 0x70, 0x73, 0x2e, 0x4d, 0x41,
	0x6c, 0x6c, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x52, 0x04, 0x6d, 0x41, 0x6c, 0x6c, 0x12, 0x32, 0x0a,
	0x07, 0x6d, 0x5f, 0x62, 0x79, 0x74, 0x65, 0x73, 0x18, 0xb8, 0x17, 0x20, 0x03, 0x28, 0x0b, 0x32,
	0x18, 0x2e, 0x67, 0x70, 0x62, 0x32, 0x2e, 0x50, 0x32, 0x4d, 0x61, 0x70, 0x73, 0x2e, 0x4d, 0x42,
	0x79, 0x74, 0x65, 0x73, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x52, 0x06, 0x6d, 0x42, 0x79, 0x74, 0x65,
	0x73, 0x1a, 0x39, 0x0a, 0x0b, 0x4d, 0x49, 0x6e, 0x74, 0x33, 0x32, 0x45, 0x6e, 0x74, 0x72, 0x79,
	0x12, 0x10, 0x0a, 0x03, 0x6b, 0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28, 0x05, 0x52, 0x03, 0x6b,
	0x65, 0x79, 0x12, 0x14, 0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28,
	0x0d, 0x52, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38, 0x01, 0x1a, 0x39, 0x0a, 0x0b,
	0x4e, 0x49, 0x6e, 0x74, 0x33, 0x32, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x12, 0x10, 0x0a, 0x03, 0x6b,
	0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28, 0x05, 0x52, 0x03, 0x6b, 0x65, 0x79, 0x12, 0x14, 0x0a,
	0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x11, 0x52, 0x05, 0x76, 0x61,
	0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38, 0x01, 0x1a, 0x3a, 0x0a, 0x0c, 0x4d, 0x53, 0x69, 0x6e, 0x74,
	0x33, 0x32, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x12, 0x10, 0x0a, 0x03, 0x6b, 0x65, 0x79, 0x18, 0x01,
	0x20, 0x01, 0x28, 0x11, 0x52, 0x03, 0x6b, 0x65, 0x79, 0x12, 0x14, 0x0a, 0x05, 0x76, 0x61, 0x6c,
	0x75, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x08, 0x52, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x3a,
	0x02, 0x38, 0x01, 0x1a, 0x3a, 0x0a, 0x0c, 0x4e, 0x53, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x45, 0x6e,
	0x74, 0x72, 0x79, 0x12, 0x10, 0x0a, 0x03, 0x6b, 0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28, 0x11,
	0x52, 0x03, 0x6b, 0x65, 0x79, 0x12, 0x14, 0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02,
	0x20, 0x01, 0x28, 0x03, 0x52, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38, 0x01, 0x1a,
	0x3c, 0x0a, 0x0e, 0x4d, 0x53, 0x66, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32, 0x45, 0x6e, 0x74, 0x72,
	0x79, 0x12, 0x10, 0x0a, 0x03, 0x6b, 0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28, 0x0f, 0x52, 0x03,
	0x6b, 0x65, 0x79, 0x12, 0x14, 0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02, 0x20, 0x01,
	0x28, 0x0f, 0x52, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38, 0x01, 0x1a, 0x3c, 0x0a,
	0x0e, 0x4e, 0x53, 0x66, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x12,
	0x10, 0x0a, 0x03, 0x6b, 0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28, 0x0f, 0x52, 0x03, 0x6b, 0x65,
	0x79, 0x12, 0x14, 0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x06,
	0x52, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38, 0x01, 0x1a, 0x3a, 0x0a, 0x0c, 0x4d,
	0x55, 0x69, 0x6e, 0x74, 0x33, 0x32, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x12, 0x10, 0x0a, 0x03, 0x6b,
	0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28, 0x0d, 0x52, 0x03, 0x6b, 0x65, 0x79, 0x12, 0x14, 0x0a,
	0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x06, 0x52, 0x05, 0x76, 0x61,
	0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38, 0x01, 0x1a, 0x3a, 0x0a, 0x0c, 0x4e, 0x55, 0x69, 0x6e, 0x74,
	0x33, 0x32, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x12, 0x10, 0x0a, 0x03, 0x6b, 0x65, 0x79, 0x18, 0x01,
	0x20, 0x01, 0x28, 0x0d, 0x52, 0x03, 0x6b, 0x65, 0x79, 0x12, 0x14, 0x0a, 0x05, 0x76, 0x61, 0x6c,
	0x75, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x09, 0x52, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x3a,
	0x02, 0x38, 0x01, 0x1a, 0x3b, 0x0a, 0x0d, 0x4d, 0x46, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32, 0x45,
	0x6e, 0x74, 0x72, 0x79, 0x12, 0x10, 0x0a, 0x03, 0x6b, 0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28,
	0x07, 0x52, 0x03, 0x6b, 0x65, 0x79, 0x12, 0x14, 0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18,
	0x02, 0x20, 0x01, 0x28, 0x11, 0x52, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38, 0x01,
	0x1a, 0x3b, 0x0a, 0x0d, 0x4e, 0x46, 0x69, 0x78, 0x65, 0x64, 0x33, 0x32, 0x45, 0x6e, 0x74, 0x72,
	0x79, 0x12, 0x10, 0x0a, 0x03, 0x6b, 0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28, 0x07, 0x52, 0x03,
	0x6b, 0x65, 0x79, 0x12, 0x14, 0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02, 0x20, 0x01,
	0x28, 0x0f, 0x52, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38, 0x01, 0x1a, 0x39, 0x0a,
	0x0b, 0x4d, 0x49, 0x6e, 0x74, 0x36, 0x34, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x12, 0x10, 0x0a, 0x03,
	0x6b, 0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28, 0x03, 0x52, 0x03, 0x6b, 0x65, 0x79, 0x12, 0x14,
	0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x04, 0x52, 0x05, 0x76,
	0x61, 0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38, 0x01, 0x1a, 0x39, 0x0a, 0x0b, 0x4e, 0x49, 0x6e, 0x74,
	0x36, 0x34, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x12, 0x10, 0x0a, 0x03, 0x6b, 0x65, 0x79, 0x18, 0x01,
	0x20, 0x01, 0x28, 0x03, 0x52, 0x03, 0x6b, 0x65, 0x79, 0x12, 0x14, 0x0a, 0x05, 0x76, 0x61, 0x6c,
	0x75, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x12, 0x52, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x3a,
	0x02, 0x38, 0x01, 0x1a, 0x3a, 0x0a, 0x0c, 0x4d, 0x53, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x45, 0x6e,
	0x74, 0x72, 0x79, 0x12, 0x10, 0x0a, 0x03, 0x6b, 0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28, 0x12,
	0x52, 0x03, 0x6b, 0x65, 0x79, 0x12, 0x14, 0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02,
	0x20, 0x01, 0x28, 0x05, 0x52, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38, 0x01, 0x1a,
	0x3a, 0x0a, 0x0c, 0x4e, 0x53, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x12,
	0x10, 0x0a, 0x03, 0x6b, 0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28, 0x12, 0x52, 0x03, 0x6b, 0x65,
	0x79, 0x12, 0x14, 0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x08,
	0x52, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38, 0x01, 0x1a, 0x3c, 0x0a, 0x0e, 0x4d,
	0x53, 0x66, 0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x12, 0x10, 0x0a,
	0x03, 0x6b, 0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28, 0x10, 0x52, 0x03, 0x6b, 0x65, 0x79, 0x12,
	0x14, 0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x10, 0x52, 0x05,
	0x76, 0x61, 0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38, 0x01, 0x1a, 0x3c, 0x0a, 0x0e, 0x4e, 0x53, 0x66,
	0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x12, 0x10, 0x0a, 0x03, 0x6b,
	0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28, 0x10, 0x52, 0x03, 0x6b, 0x65, 0x79, 0x12, 0x14, 0x0a,
	0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x0c, 0x52, 0x05, 0x76, 0x61,
	0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38, 0x01, 0x1a, 0x3a, 0x0a, 0x0c, 0x4d, 0x55, 0x69, 0x6e, 0x74,
	0x36, 0x34, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x12, 0x10, 0x0a, 0x03, 0x6b, 0x65, 0x79, 0x18, 0x01,
	0x20, 0x01, 0x28, 0x04, 0x52, 0x03, 0x6b, 0x65, 0x79, 0x12, 0x14, 0x0a, 0x05, 0x76, 0x61, 0x6c,
	0x75, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x0c, 0x52, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x3a,
	0x02, 0x38, 0x01, 0x1a, 0x3a, 0x0a, 0x0c, 0x4e, 0x55, 0x69, 0x6e, 0x74, 0x36, 0x34, 0x45, 0x6e,
	0x74, 0x72, 0x79, 0x12, 0x10, 0x0a, 0x03, 0x6b, 0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28, 0x04,
	0x52, 0x03, 0x6b, 0x65, 0x79, 0x12, 0x14, 0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02,
	0x20, 0x01, 0x28, 0x0d, 0x52, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38, 0x01, 0x1a,
	0x3b, 0x0a, 0x0d, 0x4d, 0x46, 0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x45, 0x6e, 0x74, 0x72, 0x79,
	0x12, 0x10, 0x0a, 0x03, 0x6b, 0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28, 0x06, 0x52, 0x03, 0x6b,
	0x65, 0x79, 0x12, 0x14, 0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28,
	0x12, 0x52, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38, 0x01, 0x1a, 0x3b, 0x0a, 0x0d,
	0x4e, 0x46, 0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x12, 0x10, 0x0a,
	0x03, 0x6b, 0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28, 0x06, 0x52, 0x03, 0x6b, 0x65, 0x79, 0x12,
	0x14, 0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x10, 0x52, 0x05,
	0x76, 0x61, 0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38, 0x01, 0x1a, 0x38, 0x0a, 0x0a, 0x4d, 0x42, 0x6f,
	0x6f, 0x6c, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x12, 0x10, 0x0a, 0x03, 0x6b, 0x65, 0x79, 0x18, 0x01,
	0x20, 0x01, 0x28, 0x08, 0x52, 0x03, 0x6b, 0x65, 0x79, 0x12, 0x14, 0x0a, 0x05, 0x76, 0x61, 0x6c,
	0x75, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x09, 0x52, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x3a,
	0x02, 0x38, 0x01, 0x1a, 0x38, 0x0a, 0x0a, 0x4e, 0x42, 0x6f, 0x6f, 0x6c, 0x45, 0x6e, 0x74, 0x72,
	0x79, 0x12, 0x10, 0x0a, 0x03, 0x6b, 0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28, 0x08, 0x52, 0x03,
	0x6b, 0x65, 0x79, 0x12, 0x14, 0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02, 0x20, 0x01,
	0x28, 0x02, 0x52, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38, 0x01, 0x1a, 0x3a, 0x0a,
	0x0c, 0x4d, 0x53, 0x74, 0x72, 0x69, 0x6e, 0x67, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x12, 0x10, 0x0a,
	0x03, 0x6b, 0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x03, 0x6b, 0x65, 0x79, 0x12,
	0x14, 0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x03, 0x52, 0x05,
	0x76, 0x61, 0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38, 0x01, 0x1a, 0x3a, 0x0a, 0x0c, 0x4e, 0x53, 0x74,
	0x72, 0x69, 0x6e, 0x67, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x12, 0x10, 0x0a, 0x03, 0x6b, 0x65, 0x79,
	0x18, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x03, 0x6b, 0x65, 0x79, 0x12, 0x14, 0x0a, 0x05, 0x76,
	0x61, 0x6c, 0x75, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x05, 0x52, 0x05, 0x76, 0x61, 0x6c, 0x75,
	0x65, 0x3a, 0x02, 0x38, 0x01, 0x1a, 0x46, 0x0a, 0x0a, 0x4d, 0x45, 0x6e, 0x75, 0x6d, 0x45, 0x6e,
	0x74, 0x72, 0x79, 0x12, 0x10, 0x0a, 0x03, 0x6b, 0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28, 0x09,
	0x52, 0x03, 0x6b, 0x65, 0x79, 0x12, 0x22, 0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02,
	0x20, 0x01, 0x28, 0x0e, 0x32, 0x0c, 0x2e, 0x67, 0x70, 0x62, 0x32, 0x2e, 0x50, 0x32, 0x45, 0x6e,
	0x75, 0x6d, 0x52, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38, 0x01, 0x1a, 0x46, 0x0a,
	0x0a, 0x4d, 0x4c, 0x65, 0x61, 0x66, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x12, 0x10, 0x0a, 0x03, 0x6b,
	0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28, 0x05, 0x52, 0x03, 0x6b, 0x65, 0x79, 0x12, 0x22, 0x0a,
	0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x0c, 0x2e, 0x67,
	0x70, 0x62, 0x32, 0x2e, 0x50, 0x32, 0x4c, 0x65, 0x61, 0x66, 0x52, 0x05, 0x76, 0x61, 0x6c, 0x75,
	0x65, 0x3a, 0x02, 0x38, 0x01, 0x1a, 0x44, 0x0a, 0x09, 0x4d, 0x41, 0x6c, 0x6c, 0x45, 0x6e, 0x74,
	0x72, 0x79, 0x12, 0x10, 0x0a, 0x03, 0x6b, 0x65, 0x79, 0x18, 0x01, 0x20, 0x01, 0x28, 0x12, 0x52,
	0x03, 0x6b, 0x65, 0x79, 0x12, 0x21, 0x0a, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02, 0x20,
	0x01, 0x28, 0x0b, 0x32, 0x0b, 0x2e, 0x67, 0x70, 0x62, 0x32, 0x2e, 0x50, 0x32, 0x41, 0x6c, 0x6c,
	0x52, 0x05, 0x76, 0x61, 0x6c, 0x75, 0x65, 0x3a, 0x02, 0x38, 0x01, 0x1a, 0x39, 0x0a, 0x0b, 0x4d,
	0x42, 0x79, 0x74, 0x65, 0x73, 0x45, 0x6e, 0x74, 0x72, 0x79, 0x12, 0x10, 0x0a, 0x03, 0x6b, 0x65,
	0x79, 0x18, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x03, 0x6b, 0x65, 0x79, 0x12, 0x14, 0x0a, 0x05,
	0x76, 0x61, 0x6c, 0x75, 0x65, 0x18, 0x02, 0x20, 0x01, 0x28, 0x0c, 0x52, 0x05, 0x76, 0x61, 0x6c,
	0x75, 0x65, 0x3a, 0x02, 0x38, 0x01, 0x22, 0x24, 0x0a, 0x06, 0x50, 0x32, 0x4c, 0x65, 0x61, 0x66,
	0x12, 0x0c, 0x0a, 0x01, 0x61, 0x18, 0x01, 0x20, 0x01, 0x28, 0x12, 0x52, 0x01, 0x61, 0x12, 0x0c,
	0x0a, 0x01, 0x62, 0x18, 0x10, 0x20, 0x01, 0x28, 0x09, 0x52, 0x01, 0x62, 0x22, 0x5b, 0x0a, 0x05,
	0x50, 0x32, 0x52, 0x65, 0x71, 0x12, 0x0c, 0x0a, 0x01, 0x61, 0x18, 0x01, 0x20, 0x02, 0x28, 0x05,
	0x52, 0x01, 0x61, 0x12, 0x0c, 0x0a, 0x01, 0x62, 0x18, 0x02, 0x20, 0x02, 0x28, 0x09, 0x52, 0x01,
	0x62, 0x12, 0x1a, 0x0a, 0x01, 0x63, 0x18, 0x03, 0x20, 0x02, 0x28, 0x0b, 0x32, 0x0c, 0x2e, 0x67,
	0x70, 0x62, 0x32, 0x2e, 0x50, 0x32, 0x4c, 0x65, 0x61, 0x66, 0x52, 0x01, 0x63, 0x12, 0x0c, 0x0a,
	0x01, 0x64, 0x18, 0x04, 0x20, 0x02, 0x28, 0x0c, 0x52, 0x01, 0x64, 0x12, 0x0c, 0x0a, 0x01, 0x65,
	0x18, 0x05, 0x20, 0x02, 0x28, 0x01, 0x52, 0x01, 0x65, 0x22, 0xfb, 0x04, 0x0a, 0x05, 0x50, 0x32,
	0x44, 0x65, 0x66, 0x12, 0x1a, 0x0a, 0x01, 0x61, 0x18, 0x01, 0x20, 0x01, 0x28, 0x09, 0x3a, 0x0c,
	0x61, 0x2c, 0x70, 0x61, 0x63, 0x6b, 0x65, 0x64, 0x2c, 0x72, 0x65, 0x70, 0x52, 0x01, 0x61, 0x12,
	0x10, 0x0a, 0x01, 0x62, 0x18, 0x02, 0x20, 0x01, 0x28, 0x05, 0x3a, 0x02, 0x2d, 0x37, 0x52, 0x01,
	0x62, 0x12, 0x21, 0x0a, 0x01, 0x63, 0x18, 0x03, 0x20, 0x01, 0x28, 0x09, 0x3a, 0x13, 0x7a, 0x69,
	0x67, 0x7a, 0x61, 0x67, 0x33, 0x32, 0x2c, 0x72, 0x65, 0x71, 0x2c, 0x70, 0x72, 0x6f, 0x74, 0x6f,
	0x33, 0x52, 0x01, 0x63, 0x12, 0x1e, 0x0a, 0x01, 0x64, 0x18, 0x04, 0x20, 0x01, 0x28, 0x0c, 0x3a,
	0x10, 0x5c, 0x30, 0x30, 0x31, 0x2c, 0x62, 0x79, 0x74, 0x65, 0x73, 0x2c, 0x5c, 0x22, 0x78, 0x5c,
	0x5c, 0x52, 0x01, 0x64, 0x12, 0x22, 0x0a, 0x01, 0x65, 0x18, 0x05, 0x20, 0x01, 0x28, 0x0e, 0x32,
	0x0c, 0x2e, 0x67, 0x70, 0x62, 0x32, 0x2e, 0x50, 0x32, 0x45, 0x6e, 0x75, 0x6d, 0x3a, 0x06, 0x50,
	0x32, 0x5f, 0x4f, 0x4e, 0x45, 0x52, 0x01, 0x65, 0x12, 0x12, 0x0a, 0x01, 0x66, 0x18, 0x06, 0x20,
	0x01, 0x28, 0x01, 0x3a, 0x04, 0x2d, 0x69, 0x6e, 0x66, 0x52, 0x01, 0x66, 0x12, 0x11, 0x0a, 0x01,
	0x67, 0x18, 0x07, 0x20, 0x01, 0x28, 0x02, 0x3a, 0x03, 0x6e, 0x61, 0x6e, 0x52, 0x01, 0x67, 0x12,
	0x12, 0x0a, 0x01, 0x68, 0x18, 0x08, 0x20, 0x01, 0x28, 0x08, 0x3a, 0x04, 0x74, 0x72, 0x75, 0x65,
	0x52, 0x01, 0x68, 0x12, 0x22, 0x0a, 0x01, 0x69, 0x18, 0x09, 0x20, 0x01, 0x28, 0x12, 0x3a, 0x14,
	0x2d, 0x39, 0x32, 0x32, 0x33, 0x33, 0x37, 0x32, 0x30, 0x33, 0x36, 0x38, 0x35, 0x34, 0x37, 0x37,
	0x35, 0x38, 0x30, 0x38, 0x52, 0x01, 0x69, 0x12, 0x18, 0x0a, 0x01, 0x6a, 0x18, 0x0a, 0x20, 0x01,
	0x28, 0x07, 0x3a, 0x0a, 0x34, 0x32, 0x39, 0x34, 0x39, 0x36, 0x37, 0x32, 0x39, 0x35, 0x52, 0x01,
	0x6a, 0x12, 0x1e, 0x0a, 0x01, 0x6b, 0x18, 0x0b, 0x20, 0x03, 0x28, 0x0e, 0x32, 0x0c, 0x2e, 0x67,
	0x70, 0x62, 0x32, 0x2e, 0x50, 0x32, 0x45, 0x6e, 0x75, 0x6d, 0x42, 0x02, 0x10, 0x01, 0x52, 0x01,
	0x6b, 0x12, 0x1d, 0x0a, 0x03, 0x72, 0x65, 0x71, 0x18, 0x0c, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x0b,
	0x2e, 0x67, 0x70, 0x62, 0x32, 0x2e, 0x50, 0x32, 0x44, 0x65, 0x66, 0x52, 0x03, 0x72, 0x65, 0x71,
	0x12, 0x1a, 0x0a, 0x06, 0x70, 0x61, 0x63, 0x6b, 0x65, 0x64, 0x18, 0x0d, 0x20, 0x03, 0x28, 0x11,
	0x42, 0x02, 0x18, 0x01, 0x52, 0x06, 0x70, 0x61, 0x63, 0x6b, 0x65, 0x64, 0x12, 0x1c, 0x0a, 0x03,
	0x72, 0x65, 0x70, 0x18, 0x0e, 0x20, 0x01, 0x28, 0x04, 0x42, 0x02, 0x30, 0x01, 0x52, 0x0b, 0x66,
	0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x2c, 0x72, 0x65, 0x71, 0x12, 0x1a, 0x0a, 0x06, 0x70, 0x72,
	0x6f, 0x74, 0x6f, 0x33, 0x18, 0xff, 0xff, 0xff, 0xff, 0x01, 0x20, 0x02, 0x28, 0x08, 0x52, 0x06,
	0x70, 0x72, 0x6f, 0x74, 0x6f, 0x33, 0x12, 0x20, 0x0a, 0x01, 0x73, 0x18, 0x0f, 0x20, 0x01, 0x28,
	0x09, 0x3a, 0x12, 0x78, 0x2c, 0x66, 0x69, 0x78, 0x65, 0x64, 0x36, 0x34, 0x2c, 0x7a, 0x69, 0x67,
	0x7a, 0x61, 0x67, 0x33, 0x32, 0x52, 0x01, 0x73, 0x12, 0x1b, 0x0a, 0x01, 0x74, 0x18, 0x10, 0x20,
	0x01, 0x28, 0x09, 0x3a, 0x04, 0x2c, 0x72, 0x65, 0x70, 0x52, 0x0a, 0x76, 0x61, 0x72, 0x69, 0x6e,
	0x74, 0x2c, 0x6f, 0x70, 0x74, 0x12, 0x15, 0x0a, 0x01, 0x75, 0x18, 0x11, 0x20, 0x01, 0x28, 0x03,
	0x52, 0x0a, 0x61, 0x2c, 0x7a, 0x69, 0x67, 0x7a, 0x61, 0x67, 0x36, 0x34, 0x12, 0x1e, 0x0a, 0x01,
	0x76, 0x18, 0x12, 0x20, 0x01, 0x28, 0x0c, 0x3a, 0x05, 0x79, 0x2c, 0x72, 0x65, 0x71, 0x52, 0x0c,
	0x70, 0x2c, 0x70, 0x61, 0x63, 0x6b, 0x65, 0x64, 0x2c, 0x72, 0x65, 0x70, 0x12, 0x22, 0x0a, 0x01,
	0x77, 0x18, 0x13, 0x20, 0x01, 0x28, 0x0b, 0x32, 0x0c, 0x2e, 0x67, 0x70, 0x62, 0x32, 0x2e, 0x50,
	0x32, 0x4c, 0x65, 0x61, 0x66, 0x52, 0x09, 0x67, 0x72, 0x6f, 0x75, 0x70, 0x2c, 0x72, 0x65, 0x71,
	0x12, 0x15, 0x0a, 0x04, 0x7a, 0x65, 0x72, 0x6f, 0x18, 0x14, 0x20, 0x01, 0x28, 0x05, 0x3a, 0x01,
	0x30, 0x52, 0x04, 0x7a, 0x65, 0x72, 0x6f, 0x12, 0x16, 0x0a, 0x05, 0x65, 0x6d, 0x70, 0x74, 0x79,
	0x18, 0x15, 0x20, 0x01, 0x28, 0x09, 0x3a, 0x00, 0x52, 0x05, 0x65, 0x6d, 0x70, 0x74, 0x79, 0x2a,
	0x06, 0x08, 0xe8, 0x07, 0x10, 0xd0, 0x0f, 0x2a, 0x46, 0x0a, 0x06, 0x50, 0x32, 0x45, 0x6e, 0x75,
	0x6d, 0x12, 0x0b, 0x0a, 0x07, 0x50, 0x32, 0x5f, 0x5a, 0x45, 0x52, 0x4f, 0x10, 0x00, 0x12, 0x0a,
	0x0a, 0x06, 0x50, 0x32, 0x5f, 0x4f, 0x4e, 0x45, 0x10, 0x01, 0x12, 0x13, 0x0a, 0x06, 0x50, 0x32,
	0x5f, 0x4e, 0x45, 0x47, 0x10, 0xfb, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01, 0x12,
	0x0e, 0x0a, 0x06, 0x50, 0x32, 0x5f, 0x42, 0x49, 0x47, 0x10, 0xff, 0xff, 0xff, 0xff, 0x07, 0x42,
	0x17, 0x5a, 0x15, 0x76, 0x65, 0x72, 0x69, 0x66, 0x2f, 0x68, 0x61, 0x72, 0x6e, 0x65, 0x73, 0x73,
	0x2f, 0x67, 0x70, 0x62, 0x3b, 0x67, 0x70, 0x62,
}

var (
	file_all2_proto_rawDescOnce sync.Once
	file_all2_proto_rawDescData = file_all2_proto_rawDesc
)

func file_all2_proto_rawDescGZIP() []byte {
	file_all2_proto_rawDescOnce.Do(func() {
		file_all2_proto_rawDescData = protoimpl.X.CompressGZIP(file_all2_proto_rawDescData)
	})
	return file_all2_proto_rawDescData
}

var file_all2_proto_enumTypes = make([]protoimpl.EnumInfo, 1)
var file_all2_proto_msgTypes = make([]protoimpl.MessageInfo, 33)
var file_all2_proto_goTypes = []interface{}{
	(P2Enum)(0),    // 0: gpb2.P2Enum
	(*P2All)(nil),  // 1: gpb2.P2All
	(*P2Maps)(nil), // 2: gpb2.P2Maps
	(*P2Leaf)(nil), // 3: gpb2.P2Leaf
	(*P2Req)(nil),  // 4: gpb2.P2Req
	(*P2Def)(nil),  // 5: gpb2.P2Def
	nil,            // 6: gpb2.P2Maps.MInt32Entry
	nil,            // 7: gpb2.P2Maps.NInt32Entry
	nil,            // 8: gpb2.P2Maps.MSint32Entry
	nil,            // 9: gpb2.P2Maps.NSint32Entry
	nil,            // 10: gpb2.P2Maps.MSfixed32Entry
	nil,            // 11: gpb2.P2Maps.NSfixed32Entry
	nil,            // 12: gpb2.P2Maps.MUint32Entry
	nil,            // 13: gpb2.P2Maps.NUint32Entry
	nil,            // 14: gpb2.P2Maps.MFixed32Entry
	nil,            // 15: gpb2.P2Maps.NFixed32Entry
	nil,            // 16: gpb2.P2Maps.MInt64Entry
	nil,            // 17: gpb2.P2Maps.NInt64Entry
	nil,            // 18: gpb2.P2Maps.MSint64Entry
	nil,            // 19: gpb2.P2Maps.NSint64Entry
	nil,            // 20: gpb2.P2Maps.MSfixed64Entry
	nil,            // 21: gpb2.P2Maps.NSfixed64Entry
	nil,            // 22: gpb2.P2Maps.MUint64Entry
	nil,            // 23: gpb2.P2Maps.NUint64Entry
	nil,            // 24: gpb2.P2Maps.MFixed64Entry
	nil,            // 25: gpb2.P2Maps.NFixed64Entry
	nil,            // 26: gpb2.P2Maps.MBoolEntry
	nil,            // 27: gpb2.P2Maps.NBoolEntry
	nil,            // 28: gpb2.P2Maps.MStringEntry
	nil,            // 29: gpb2.P2Maps.NStringEntry
	nil,            // 30: gpb2.P2Maps.MEnumEntry
	nil,            // 31: gpb2.P2Maps.MLeafEntry
	nil,            // 32: gpb2.P2Maps.MAllEntry
	nil,            // 33: gpb2.P2Maps.MBytesEntry
}
var file_all2_proto_depIdxs = []int32{
	0,  // 0: gpb2.P2All.o_p2enum:type_name -> gpb2.P2Enum
	0,  // 1: gpb2.P2All.r_p2enum:type_name -> gpb2.P2Enum
	0,  // 2: gpb2.P2All.p_p2enum:type_name -> gpb2.P2Enum
	1,  // 3: gpb2.P2All.self:type_name -> gpb2.P2All
	1,  // 4: gpb2.P2All.selves:type_name -> gpb2.P2All
	2,  // 5: gpb2.P2All.maps:type_name -> gpb2.P2Maps
	4,  // 6: gpb2.P2All.req:type_name -> gpb2.P2Req
	6,  // 7: gpb2.P2Maps.m_int32:type_name -> gpb2.P2Maps.MInt32Entry
	7,  // 8: gpb2.P2Maps.n_int32:type_name -> gpb2.P2Maps.NInt32Entry
	8,  // 9: gpb2.P2Maps.m_sint32:type_name -> gpb2.P2Maps.MSint32Entry
	9,  // 10: gpb2.P2Maps.n_sint32:type_name -> gpb2.P2Maps.NSint32Entry
	10, // 11: gpb2.P2Maps.m_sfixed32:type_name -> gpb2.P2Maps.MSfixed32Entry
	11, // 12: gpb2.P2Maps.n_sfixed32:type_name -> gpb2.P2Maps.NSfixed32Entry
	12, // 13: gpb2.P2Maps.m_uint32:type_name -> gpb2.P2Maps.MUint32Entry
	13, // 14: gpb2.P2Maps.n_uint32:type_name -> gpb2.P2Maps.NUint32Entry
	14, // 15: gpb2.P2Maps.m_fixed32:type_name -> gpb2.P2Maps.MFixed32Entry
	15, // 16: gpb2.P2Maps.n_fixed32:type_name -> gpb2.P2Maps.NFixed32Entry
	16, // 17: gpb2.P2Maps.m_int64:type_name -> gpb2.P2Maps.MInt64Entry
	17, // 18: gpb2.P2Maps.n_int64:type_name -> gpb2.P2Maps.NInt64Entry
	18, // 19: gpb2.P2Maps.m_sint64:type_name -> gpb2.P2Maps.MSint64Entry
	19, // 20: gpb2.P2Maps.n_sint64:type_name -> gpb2.P2Maps.NSint64Entry
	20, // 21: gpb2.P2Maps.m_sfixed64:type_name -> gpb2.P2Maps.MSfixed64Entry
	21, // 22: gpb2.P2Maps.n_sfixed64:type_name -> gpb2.P2Maps.NSfixed64Entry
	22, // 23: gpb2.P2Maps.m_uint64:type_name -> gpb2.P2Maps.MUint64Entry
	23, // 24: gpb2.P2Maps.n_uint64:type_name -> gpb2.P2Maps.NUint64Entry
	24, // 25: gpb2.P2Maps.m_fixed64:type_name -> gpb2.P2Maps.MFixed64Entry
	25, // 26: gpb2.P2Maps.n_fixed64:type_name -> gpb2.P2Maps.NFixed64Entry
	26, // 27: gpb2.P2Maps.m_bool:type_name -> gpb2.P2Maps.MBoolEntry
	27, // 28: gpb2.P2Maps.n_bool:type_name -> gpb2.P2Maps.NBoolEntry
	28, // 29: gpb2.P2Maps.m_string:type_name -> gpb2.P2Maps.MStringEntry
	29, // 30: gpb2.P2Maps.n_string:type_name -> gpb2.P2Maps.NStringEntry
	30, // 31: gpb2.P2Maps.m_enum:type_name -> gpb2.P2Maps.MEnumEntry
	31, // 32: gpb2.P2Maps.m_leaf:type_name -> gpb2.P2Maps.MLeafEntry
	32, // 33: gpb2.P2Maps.m_all:type_name -> gpb2.P2Maps.MAllEntry
	33, // 34: gpb2.P2Maps.m_bytes:type_name -> gpb2.P2Maps.MBytesEntry
	3,  // 35: gpb2.P2Req.c:type_name -> gpb2.P2Leaf
	0,  // 36: gpb2.P2Def.e:type_name -> gpb2.P2Enum
	0,  // 37: gpb2.P2Def.k:type_name -> gpb2.P2Enum
	5,  // 38: gpb2.P2Def.req:type_name -> gpb2.P2Def
	3,  // 39: gpb2.P2Def.w:type_name -> gpb2.P2Leaf
	0,  // 40: gpb2.P2Maps.MEnumEntry.value:type_name -> gpb2.P2Enum
	3,  // 41: gpb2.P2Maps.MLeafEntry.value:type_name -> gpb2.P2Leaf
	1,  // 42: gpb2.P2Maps.MAllEntry.value:type_name -> gpb2.P2All
	43, // [43:43] is the sub-list for method output_type
	43, // [43:43] is the sub-list for method input_type
	43, // [43:43] is the sub-list for extension type_name
	43, // [43:43] is the sub-list for extension extendee
	0,  // [0:43] is the sub-list for field type_name
}

func init() { file_all2_proto_init() }
func file_all2_proto_init() {
	if File_all2_proto != nil {
		return
	}
	if !protoimpl.UnsafeEnabled {
		file_all2_proto_msgTypes[0].Exporter = func(v interface{}, i int) interface{} {
			switch v := v.(*P2All); i {
			case 0:
				return &v.state
			case 1:
				return &v.sizeCache
			case 2:
				return &v.unknownFields
			default:
				return nil
			}
		}
		file_all2_proto_msgTypes[1].Exporter = func(v interface{}, i int) interface{} {
			switch v := v.(*P2Maps); i {
			case 0:
				return &v.state
			case 1:
				return &v.sizeCache
			case 2:
				return &v.unknownFields
			default:
				return nil
			}
		}
		file_all2_proto_msgTypes[2].Exporter = func(v interface{}, i int) interface{} {
			switch v := v.(*P2Leaf); i {
			case 0:
				return &v.state
			case 1:
				return &v.sizeCache
			case 2:
				return &v.unknownFields
			default:
				return nil
			}
		}
		file_all2_proto_msgTypes[3].Exporter = func(v interface{}, i int) interface{} {
			switch v := v.(*P2Req); i {
			case 0:
				return &v.state
			case 1:
				return &v.sizeCache
			case 2:
				return &v.unknownFields
			default:
				return nil
			}
		}
		file_all2_proto_msgTypes[4].Exporter = func(v interface{}, i int) interface{} {
			switch v := v.(*P2Def); i {
			case 0:
				return &v.state
			case 1:
				return &v.sizeCache
			case 2:
				return &v.unknownFields
			case 3:
				return &v.extensionFields
			default:
				return nil
			}
		}
	}
	type x struct{}
	out := protoimpl.TypeBuilder{
		File: protoimpl.DescBuilder{
			GoPackagePath: reflect.TypeOf(x{}).PkgPath(),
			RawDescriptor: file_all2_proto_rawDesc,
			NumEnums:      1,
			NumMessages:   33,
			NumExtensions: 0,
			NumServices:   0,
		},
		GoTypes:           file_all2_proto_goTypes,
		DependencyIndexes: file_all2_proto_depIdxs,
		EnumInfos:         file_all2_proto_enumTypes,
		MessageInfos:      file_all2_proto_msgTypes,
	}.Build()
	File_all2_proto = out.File
	file_all2_proto_rawDesc = nil
	file_all2_proto_goTypes = nil
	file_all2_proto_depIdxs = nil
}
