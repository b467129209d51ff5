package hz

import (
	"fmt"
	"reflect"

	"github.com/RomiChan/protobuf/proto"
)

// Recursive message types, which cannot be built at run time.

// list: refers to itself directly
type ListT struct {
	Val  int64                `protobuf:"varint,1,opt"`
	Next *ListT               `protobuf:"bytes,2,opt"`
	Name proto.Option[string] `protobuf:"bytes,3,opt"`
	_    [0]func()
}

// tree: through a list
type TreeT struct {
	Kids []*TreeT            `protobuf:"bytes,1,rep"`
	V    proto.Option[int32] `protobuf:"zigzag32,2,opt"`
	Tags []string            `protobuf:"bytes,3,rep"`
}

// through map values, next to another map of the same Go type
type DirT struct {
	Sub  map[string]*DirT `protobuf:"bytes,1,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	Size uint64           `protobuf:"fixed64,16,opt"`
	Alt  map[string]*DirT `protobuf:"bytes,2048,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	Up   *DirT            `protobuf:"bytes,3,opt"`
}

// mutual recursion with all containers
type MutA struct {
	B  *MutB           `protobuf:"bytes,1,opt"`
	Bs []*MutB         `protobuf:"bytes,2,rep"`
	C  map[int32]*MutC `protobuf:"bytes,3,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"bytes,2,opt"`
	X  int32           `protobuf:"varint,4,opt"`
}

type MutB struct {
	X proto.Option[uint32] `protobuf:"fixed32,1,opt"`
	A *MutA                `protobuf:"bytes,2,opt"`
	C []*MutC              `protobuf:"bytes,3,rep"`
	M map[bool]*MutB       `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type MutC struct {
	A map[uint64]*MutA `protobuf:"bytes,1,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	B *MutB            `protobuf:"bytes,2,opt"`
	C *MutC            `protobuf:"bytes,3,opt"`
	S []int32          `protobuf:"zigzag32,4,rep"`
	I []int32          `protobuf:"varint,5,rep"`
	F []int32          `protobuf:"fixed32,6,rep"`
}

// in the style of the official generator, with pointers to scalars
type GooT struct {
	Int   *int32           `protobuf:"varint,1,opt,name=int,json=int,proto3,oneof"`
	Zig   *int64           `protobuf:"zigzag64,2,opt,name=zig"`
	Str   *string          `protobuf:"bytes,3,opt,name=str"`
	Bool  *bool            `protobuf:"varint,4,req,name=bool"`
	Fix   *uint32          `protobuf:"fixed32,5,opt,name=fix"`
	Flo   *float32         `protobuf:"fixed32,6,opt,name=flo"`
	Dou   *float64         `protobuf:"fixed64,7,opt,name=dou"`
	Self  *GooT            `protobuf:"bytes,8,opt,name=self"`
	Data  []byte           `protobuf:"bytes,9,opt,name=data"`
	Selfs []*GooT          `protobuf:"bytes,10,rep,name=selfs"`
	ByID  map[int64]*GooT  `protobuf:"bytes,11,rep,name=by_id" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	Count map[string]int64 `protobuf:"bytes,12,rep,name=count" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`

	state         int32
	sizeCache     int32
	unknownFields []byte
}

// many fields, with large numbers, in a recursive type
type WideT struct {
	A1  bool                 `protobuf:"varint,536870911,opt"`
	A2  proto.Option[bool]   `protobuf:"varint,536870910,opt"`
	A3  []bool               `protobuf:"varint,2097151,rep"`
	A4  float32              `protobuf:"fixed32,262144,opt"`
	A5  []float32            `protobuf:"fixed32,262143,rep"`
	A6  proto.Option[string] `protobuf:"bytes,33554432,opt"`
	A7  []string             `protobuf:"bytes,33554431,rep"`
	A8  [][]byte             `protobuf:"bytes,16,rep"`
	A9  []byte               `protobuf:"bytes,15,opt"`
	A10 *WideT               `protobuf:"bytes,2047,opt"`
	A11 []*WideT             `protobuf:"bytes,2048,rep"`
	A12 uint64               `protobuf:"varint,1,opt"`
	A13 []uint64             `protobuf:"varint,2,rep"`
	A14 []uint64             `protobuf:"fixed64,3,rep"`
	A15 []int64              `protobuf:"zigzag64,4,rep"`
	A16 []int64              `protobuf:"varint,5,rep"`
	A17 []int64              `protobuf:"fixed64,6,rep"`
}

// a chain of types in which the cycle closes late
type RingA struct {
	N *RingB `protobuf:"bytes,1,opt"`
	V uint32 `protobuf:"varint,2,opt"`
}
type RingB struct {
	V uint32   `protobuf:"varint,1,opt"`
	N []*RingC `protobuf:"bytes,2,rep"`
}
type RingC struct {
	V proto.Option[uint64] `protobuf:"varint,1,opt"`
	N map[uint32]*RingD    `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type RingD struct {
	V *uint64 `protobuf:"fixed64,1,opt"`
	N *RingA  `protobuf:"bytes,2,opt"`
}

// a small leaf used by several others, with and without cycles
type LeafT struct {
	A int32 `protobuf:"varint,1,opt"`
	B int32 `protobuf:"zigzag32,2,opt"`
}
type TwinT struct {
	L *LeafT           `protobuf:"bytes,1,opt"`
	R *LeafT           `protobuf:"bytes,2,opt"`
	M map[int32]*LeafT `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	N map[int32]*LeafT `protobuf:"bytes,4,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"bytes,2,opt"`
	O map[int32]*LeafT `protobuf:"bytes,5,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	P []*LeafT         `protobuf:"bytes,6,rep"`
	S []*TwinT         `protobuf:"bytes,7,rep"`
}

// fields far from the start of the message
type FarT struct {
	A int64               `protobuf:"varint,1,opt"`
	S []string            `protobuf:"bytes,2,rep"`
	O proto.Option[int32] `protobuf:"zigzag32,3,opt"`
	_ [1<<16 - 40]byte
	B int64               `protobuf:"varint,4,opt"`
	T []string            `protobuf:"bytes,5,rep"`
	P proto.Option[int32] `protobuf:"zigzag32,6,opt"`
	N *FarT               `protobuf:"bytes,7,opt"`
	M map[int32]int32     `protobuf:"bytes,8,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	U []uint32            `protobuf:"fixed32,9,rep"`
}

// Each type refers to the next one in four ways: there are 4^36 ways down.
type DagT[T any] struct {
	L *T           `protobuf:"bytes,1,opt"`
	V int64        `protobuf:"zigzag64,2,opt"`
	K []*T         `protobuf:"bytes,3,rep"`
	M map[int32]*T `protobuf:"bytes,4,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	R *T           `protobuf:"bytes,16,opt"`
}

type (
	dag3  = DagT[DagT[DagT[LeafT]]]
	dag6  = DagT[DagT[DagT[dag3]]]
	dag9  = DagT[DagT[DagT[dag6]]]
	dag12 = DagT[DagT[DagT[dag9]]]
	dag15 = DagT[DagT[DagT[dag12]]]
	dag18 = DagT[DagT[DagT[dag15]]]
	dag21 = DagT[DagT[DagT[dag18]]]
	dag24 = DagT[DagT[DagT[dag21]]]
	dag27 = DagT[DagT[DagT[dag24]]]
	dag30 = DagT[DagT[DagT[dag27]]]
	dag33 = DagT[DagT[DagT[dag30]]]
	dag36 = DagT[DagT[DagT[dag33]]]
)

// Fields of named and embedded types, and tags with other keys.
type (
	OddIDs   []int32
	OddStr   string
	OddBytes []byte
	OddMap   map[OddStr]*LeafT
	OddSelf  []*OddT
)

type OddT struct {
	*LeafT `json:"leaf" protobuf:"bytes,1,opt"`
	OddIDs `protobuf:"zigzag32,2,rep" json:"ids,omitempty"`
	RingA
	OddMap `json:"map" protobuf_val:"bytes,2,opt" protobuf_key:"bytes,1,opt" protobuf:"bytes,3,rep"`
	OddStr `protobuf:"bytes,4,opt" json:"-"`
	Data   OddBytes `xml:"data" protobuf:"bytes,5,opt"`
	Ptr    *OddStr  `protobuf:"bytes,6,opt" yaml:"ptr"`
	Self   OddSelf  `json:"self" protobuf:"bytes,7,rep"`
	Strs   []OddStr `protobuf:"bytes,8,rep" json:"strs"`
}

// Types which have methods, of the names that other libraries look for. This
// library is to call none of them.
type (
	MethEnum  int32
	MethStr   string
	MethBytes []byte
	MethList  []*MethT
	MethInts  []int64
	MethMap   map[MethStr]*MethT
)

type MethT struct {
	E MethEnum            `protobuf:"varint,1,opt"`
	S MethStr             `protobuf:"bytes,2,opt"`
	B MethBytes           `protobuf:"bytes,3,opt"`
	M *MethT              `protobuf:"bytes,4,opt"`
	L MethList            `protobuf:"bytes,5,rep"`
	I MethInts            `protobuf:"zigzag64,6,rep"`
	A MethMap             `protobuf:"bytes,7,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	P *MethEnum           `protobuf:"zigzag32,8,opt"`
	O proto.Option[int64] `protobuf:"fixed64,9,opt"`
	R []MethStr           `protobuf:"bytes,10,rep"`
	N map[MethEnum]string `protobuf:"bytes,11,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

func (MethEnum) Marshal() ([]byte, error)                  { panic(trap) }
func (MethEnum) Unmarshal([]byte) error                    { panic(trap) }
func (MethEnum) MarshalTo([]byte) (int, error)             { panic(trap) }
func (MethEnum) MarshalAppend([]byte) ([]byte, error)      { panic(trap) }
func (MethEnum) AppendBinary([]byte) ([]byte, error)       { panic(trap) }
func (MethEnum) AppendText([]byte) ([]byte, error)         { panic(trap) }
func (MethEnum) MarshalBinary() ([]byte, error)            { panic(trap) }
func (MethEnum) UnmarshalBinary([]byte) error              { panic(trap) }
func (MethEnum) MarshalText() ([]byte, error)              { panic(trap) }
func (MethEnum) UnmarshalText([]byte) error                { panic(trap) }
func (MethEnum) GobEncode() ([]byte, error)                { panic(trap) }
func (MethEnum) GobDecode([]byte) error                    { panic(trap) }
func (MethEnum) Size() int                                 { panic(trap) }
func (MethEnum) Len() int                                  { panic(trap) }
func (MethEnum) XXX_Size() int                             { panic(trap) }
func (MethEnum) ProtoSize() int                            { panic(trap) }
func (MethEnum) XXX_Marshal([]byte, bool) ([]byte, error)  { panic(trap) }
func (MethEnum) XXX_Unmarshal([]byte) error                { panic(trap) }
func (MethEnum) XXX_DiscardUnknown()                       { panic(trap) }
func (MethEnum) Reset()                                    { panic(trap) }
func (MethEnum) ProtoMessage()                             { panic(trap) }
func (MethEnum) Error() string                             { panic(trap) }
func (MethEnum) GoString() string                          { panic(trap) }
func (MethEnum) IsZero() bool                              { panic(trap) }
func (MethEnum) IsNil() bool                               { panic(trap) }
func (MethEnum) IsValid() bool                             { panic(trap) }
func (MethEnum) Validate() error                           { panic(trap) }
func (MethEnum) Bytes() []byte                             { panic(trap) }
func (MethEnum) Descriptor() ([]byte, []int)               { panic(trap) }
func (MethStr) Marshal() ([]byte, error)                   { panic(trap) }
func (MethStr) Unmarshal([]byte) error                     { panic(trap) }
func (MethStr) MarshalTo([]byte) (int, error)              { panic(trap) }
func (MethStr) MarshalAppend([]byte) ([]byte, error)       { panic(trap) }
func (MethStr) AppendBinary([]byte) ([]byte, error)        { panic(trap) }
func (MethStr) AppendText([]byte) ([]byte, error)          { panic(trap) }
func (MethStr) MarshalBinary() ([]byte, error)             { panic(trap) }
func (MethStr) UnmarshalBinary([]byte) error               { panic(trap) }
func (MethStr) MarshalText() ([]byte, error)               { panic(trap) }
func (MethStr) UnmarshalText([]byte) error                 { panic(trap) }
func (MethStr) GobEncode() ([]byte, error)                 { panic(trap) }
func (MethStr) GobDecode([]byte) error                     { panic(trap) }
func (MethStr) Size() int                                  { panic(trap) }
func (MethStr) Len() int                                   { panic(trap) }
func (MethStr) XXX_Size() int                              { panic(trap) }
func (MethStr) ProtoSize() int                             { panic(trap) }
func (MethStr) XXX_Marshal([]byte, bool) ([]byte, error)   { panic(trap) }
func (MethStr) XXX_Unmarshal([]byte) error                 { panic(trap) }
func (MethStr) XXX_DiscardUnknown()                        { panic(trap) }
func (MethStr) Reset()                                     { panic(trap) }
func (MethStr) ProtoMessage()                              { panic(trap) }
func (MethStr) Error() string                              { panic(trap) }
func (MethStr) GoString() string                           { panic(trap) }
func (MethStr) IsZero() bool                               { panic(trap) }
func (MethStr) IsNil() bool                                { panic(trap) }
func (MethStr) IsValid() bool                              { panic(trap) }
func (MethStr) Validate() error                            { panic(trap) }
func (MethStr) Bytes() []byte                              { panic(trap) }
func (MethStr) Descriptor() ([]byte, []int)                { panic(trap) }
func (MethBytes) Marshal() ([]byte, error)                 { panic(trap) }
func (MethBytes) Unmarshal([]byte) error                   { panic(trap) }
func (MethBytes) MarshalTo([]byte) (int, error)            { panic(trap) }
func (MethBytes) MarshalAppend([]byte) ([]byte, error)     { panic(trap) }
func (MethBytes) AppendBinary([]byte) ([]byte, error)      { panic(trap) }
func (MethBytes) AppendText([]byte) ([]byte, error)        { panic(trap) }
func (MethBytes) MarshalBinary() ([]byte, error)           { panic(trap) }
func (MethBytes) UnmarshalBinary([]byte) error             { panic(trap) }
func (MethBytes) MarshalText() ([]byte, error)             { panic(trap) }
func (MethBytes) UnmarshalText([]byte) error               { panic(trap) }
func (MethBytes) GobEncode() ([]byte, error)               { panic(trap) }
func (MethBytes) GobDecode([]byte) error                   { panic(trap) }
func (MethBytes) Size() int                                { panic(trap) }
func (MethBytes) Len() int                                 { panic(trap) }
func (MethBytes) XXX_Size() int                            { panic(trap) }
func (MethBytes) ProtoSize() int                           { panic(trap) }
func (MethBytes) XXX_Marshal([]byte, bool) ([]byte, error) { panic(trap) }
func (MethBytes) XXX_Unmarshal([]byte) error               { panic(trap) }
func (MethBytes) XXX_DiscardUnknown()                      { panic(trap) }
func (MethBytes) Reset()                                   { panic(trap) }
func (MethBytes) ProtoMessage()                            { panic(trap) }
func (MethBytes) Error() string                            { panic(trap) }
func (MethBytes) GoString() string                         { panic(trap) }
func (MethBytes) IsZero() bool                             { panic(trap) }
func (MethBytes) IsNil() bool                              { panic(trap) }
func (MethBytes) IsValid() bool                            { panic(trap) }
func (MethBytes) Validate() error                          { panic(trap) }
func (MethBytes) Bytes() []byte                            { panic(trap) }
func (MethBytes) Descriptor() ([]byte, []int)              { panic(trap) }
func (MethList) Marshal() ([]byte, error)                  { panic(trap) }
func (MethList) Unmarshal([]byte) error                    { panic(trap) }
func (MethList) MarshalTo([]byte) (int, error)             { panic(trap) }
func (MethList) MarshalAppend([]byte) ([]byte, error)      { panic(trap) }
func (MethList) AppendBinary([]byte) ([]byte, error)       { panic(trap) }
func (MethList) AppendText([]byte) ([]byte, error)         { panic(trap) }
func (MethList) MarshalBinary() ([]byte, error)            { panic(trap) }
func (MethList) UnmarshalBinary([]byte) error              { panic(trap) }
func (MethList) MarshalText() ([]byte, error)              { panic(trap) }
func (MethList) UnmarshalText([]byte) error                { panic(trap) }
func (MethList) GobEncode() ([]byte, error)                { panic(trap) }
func (MethList) GobDecode([]byte) error                    { panic(trap) }
func (MethList) Size() int                                 { panic(trap) }
func (MethList) Len() int                                  { panic(trap) }
func (MethList) XXX_Size() int                             { panic(trap) }
func (MethList) ProtoSize() int                            { panic(trap) }
func (MethList) XXX_Marshal([]byte, bool) ([]byte, error)  { panic(trap) }
func (MethList) XXX_Unmarshal([]byte) error                { panic(trap) }
func (MethList) XXX_DiscardUnknown()                       { panic(trap) }
func (MethList) Reset()                                    { panic(trap) }
func (MethList) ProtoMessage()                             { panic(trap) }
func (MethList) Error() string                             { panic(trap) }
func (MethList) GoString() string                          { panic(trap) }
func (MethList) IsZero() bool                              { panic(trap) }
func (MethList) IsNil() bool                               { panic(trap) }
func (MethList) IsValid() bool                             { panic(trap) }
func (MethList) Validate() error                           { panic(trap) }
func (MethList) Bytes() []byte                             { panic(trap) }
func (MethList) Descriptor() ([]byte, []int)               { panic(trap) }
func (MethInts) Marshal() ([]byte, error)                  { panic(trap) }
func (MethInts) Unmarshal([]byte) error                    { panic(trap) }
func (MethInts) MarshalTo([]byte) (int, error)             { panic(trap) }
func (MethInts) MarshalAppend([]byte) ([]byte, error)      { panic(trap) }
func (MethInts) AppendBinary([]byte) ([]byte, error)       { panic(trap) }
func (MethInts) AppendText([]byte) ([]byte, error)         { panic(trap) }
func (MethInts) MarshalBinary() ([]byte, error)            { panic(trap) }
func (MethInts) UnmarshalBinary([]byte) error              { panic(trap) }
func (MethInts) MarshalText() ([]byte, error)              { panic(trap) }
func (MethInts) UnmarshalText([]byte) error                { panic(trap) }
func (MethInts) GobEncode() ([]byte, error)                { panic(trap) }
func (MethInts) GobDecode([]byte) error                    { panic(trap) }
func (MethInts) Size() int                                 { panic(trap) }
func (MethInts) Len() int                                  { panic(trap) }
func (MethInts) XXX_Size() int                             { panic(trap) }
func (MethInts) ProtoSize() int                            { panic(trap) }
func (MethInts) XXX_Marshal([]byte, bool) ([]byte, error)  { panic(trap) }
func (MethInts) XXX_Unmarshal([]byte) error                { panic(trap) }
func (MethInts) XXX_DiscardUnknown()                       { panic(trap) }
func (MethInts) Reset()                                    { panic(trap) }
func (MethInts) ProtoMessage()                             { panic(trap) }
func (MethInts) Error() string                             { panic(trap) }
func (MethInts) GoString() string                          { panic(trap) }
func (MethInts) IsZero() bool                              { panic(trap) }
func (MethInts) IsNil() bool                               { panic(trap) }
func (MethInts) IsValid() bool                             { panic(trap) }
func (MethInts) Validate() error                           { panic(trap) }
func (MethInts) Bytes() []byte                             { panic(trap) }
func (MethInts) Descriptor() ([]byte, []int)               { panic(trap) }
func (MethMap) Marshal() ([]byte, error)                   { panic(trap) }
func (MethMap) Unmarshal([]byte) error                     { panic(trap) }
func (MethMap) MarshalTo([]byte) (int, error)              { panic(trap) }
func (MethMap) MarshalAppend([]byte) ([]byte, error)       { panic(trap) }
func (MethMap) AppendBinary([]byte) ([]byte, error)        { panic(trap) }
func (MethMap) AppendText([]byte) ([]byte, error)          { panic(trap) }
func (MethMap) MarshalBinary() ([]byte, error)             { panic(trap) }
func (MethMap) UnmarshalBinary([]byte) error               { panic(trap) }
func (MethMap) MarshalText() ([]byte, error)               { panic(trap) }
func (MethMap) UnmarshalText([]byte) error                 { panic(trap) }
func (MethMap) GobEncode() ([]byte, error)                 { panic(trap) }
func (MethMap) GobDecode([]byte) error                     { panic(trap) }
func (MethMap) Size() int                                  { panic(trap) }
func (MethMap) Len() int                                   { panic(trap) }
func (MethMap) XXX_Size() int                              { panic(trap) }
func (MethMap) ProtoSize() int                             { panic(trap) }
func (MethMap) XXX_Marshal([]byte, bool) ([]byte, error)   { panic(trap) }
func (MethMap) XXX_Unmarshal([]byte) error                 { panic(trap) }
func (MethMap) XXX_DiscardUnknown()                        { panic(trap) }
func (MethMap) Reset()                                     { panic(trap) }
func (MethMap) ProtoMessage()                              { panic(trap) }
func (MethMap) Error() string                              { panic(trap) }
func (MethMap) GoString() string                           { panic(trap) }
func (MethMap) IsZero() bool                               { panic(trap) }
func (MethMap) IsNil() bool                                { panic(trap) }
func (MethMap) IsValid() bool                              { panic(trap) }
func (MethMap) Validate() error                            { panic(trap) }
func (MethMap) Bytes() []byte                              { panic(trap) }
func (MethMap) Descriptor() ([]byte, []int)                { panic(trap) }
func (*MethT) Marshal() ([]byte, error)                    { panic(trap) }
func (*MethT) Unmarshal([]byte) error                      { panic(trap) }
func (*MethT) MarshalTo([]byte) (int, error)               { panic(trap) }
func (*MethT) MarshalAppend([]byte) ([]byte, error)        { panic(trap) }
func (*MethT) AppendBinary([]byte) ([]byte, error)         { panic(trap) }
func (*MethT) AppendText([]byte) ([]byte, error)           { panic(trap) }
func (*MethT) MarshalBinary() ([]byte, error)              { panic(trap) }
func (*MethT) UnmarshalBinary([]byte) error                { panic(trap) }
func (*MethT) MarshalText() ([]byte, error)                { panic(trap) }
func (*MethT) UnmarshalText([]byte) error                  { panic(trap) }
func (*MethT) GobEncode() ([]byte, error)                  { panic(trap) }
func (*MethT) GobDecode([]byte) error                      { panic(trap) }
func (*MethT) Size() int                                   { panic(trap) }
func (*MethT) Len() int                                    { panic(trap) }
func (*MethT) XXX_Size() int                               { panic(trap) }
func (*MethT) ProtoSize() int                              { panic(trap) }
func (*MethT) XXX_Marshal([]byte, bool) ([]byte, error)    { panic(trap) }
func (*MethT) XXX_Unmarshal([]byte) error                  { panic(trap) }
func (*MethT) XXX_DiscardUnknown()                         { panic(trap) }
func (*MethT) Reset()                                      { panic(trap) }
func (*MethT) ProtoMessage()                               { panic(trap) }
func (*MethT) Error() string                               { panic(trap) }
func (*MethT) GoString() string                            { panic(trap) }
func (*MethT) IsZero() bool                                { panic(trap) }
func (*MethT) IsNil() bool                                 { panic(trap) }
func (*MethT) IsValid() bool                               { panic(trap) }
func (*MethT) Validate() error                             { panic(trap) }
func (*MethT) Bytes() []byte                               { panic(trap) }
func (*MethT) Descriptor() ([]byte, []int)                 { panic(trap) }

const trap = "a method of a message or field was called"

// Different types of one name and one package, as local types of different
// functions have.
func alike1() (reflect.Type, reflect.Type) {
	type Item struct {
		A int64  `protobuf:"varint,1,opt"`
		B uint32 `protobuf:"varint,2,opt"`
		C []byte `protobuf:"bytes,3,opt"`
	}
	type Rec struct {
		I *Item           `protobuf:"bytes,1,opt"`
		L []*Item         `protobuf:"bytes,2,rep"`
		M map[int32]*Item `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
		R *Rec            `protobuf:"bytes,4,opt"`
		N int64           `protobuf:"varint,5,opt"`
	}
	return reflect.TypeFor[Rec](), reflect.TypeFor[Item]()
}

func alike2() (reflect.Type, reflect.Type) {
	type Item struct {
		A int64  `protobuf:"zigzag64,1,opt"`
		B uint32 `protobuf:"fixed32,2,opt"`
		C []byte `protobuf:"bytes,4,opt"`
	}
	type Rec struct {
		I *Item           `protobuf:"bytes,4,opt"`
		L []*Item         `protobuf:"bytes,1,rep"`
		M map[int32]*Item `protobuf:"bytes,3,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"bytes,2,opt"`
		R *Rec            `protobuf:"bytes,2,opt"`
		N int64           `protobuf:"fixed64,5,opt"`
	}
	return reflect.TypeFor[Rec](), reflect.TypeFor[Item]()
}

func alike3() (reflect.Type, reflect.Type) {
	type Item struct {
		X string              `protobuf:"bytes,1,opt"`
		Y proto.Option[int32] `protobuf:"varint,7,opt"`
		Z []int32             `protobuf:"fixed32,3,rep"`
		A int64               `protobuf:"fixed64,5,opt"`
	}
	type Rec struct {
		N int64            `protobuf:"zigzag64,1,opt"`
		M map[string]*Item `protobuf:"bytes,2,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
		I *Item            `protobuf:"bytes,3,opt"`
		L []*Rec           `protobuf:"bytes,9,rep"`
	}
	return reflect.TypeFor[Rec](), reflect.TypeFor[Item]()
}

// Generic recursive types: one more pair of types for each salt, for checks
// which need types that were never used before.
type RecG[S any] struct {
	H *RecH[S]            `protobuf:"bytes,1,opt"`
	L []*RecG[S]          `protobuf:"bytes,2,rep"`
	M map[int32]*RecH[S]  `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	N map[int32]*RecH[S]  `protobuf:"bytes,4,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"bytes,2,opt"`
	V proto.Option[int64] `protobuf:"zigzag64,5,opt"`
	S map[string]*RecG[S] `protobuf:"bytes,6,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
}

type RecH[S any] struct {
	X uint32     `protobuf:"varint,1,opt"`
	G *RecG[S]   `protobuf:"bytes,2,opt"`
	K []*RecH[S] `protobuf:"bytes,3,rep"`
	I *RecI[S]   `protobuf:"bytes,16,opt"`
}

type RecI[S any] struct {
	H []*RecH[S]        `protobuf:"bytes,1,rep"`
	U []uint32          `protobuf:"fixed32,2,rep"`
	W []uint32          `protobuf:"varint,3,rep"`
	G map[bool]*RecG[S] `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type (
	digit0         struct{}
	digit1         struct{}
	digit2         struct{}
	digit3         struct{}
	digit4         struct{}
	digit5         struct{}
	digit6         struct{}
	pair[A, B any] struct{}
)

var saltTypes = map[string][]reflect.Type{}

func salt1[S any]() {
	saltTypes["RecG"] = append(saltTypes["RecG"], reflect.TypeFor[RecG[S]]())
	saltTypes["RecH"] = append(saltTypes["RecH"], reflect.TypeFor[RecH[S]]())
}

func salt2[A any]() {
	salt1[pair[A, digit0]]()
	salt1[pair[A, digit1]]()
	salt1[pair[A, digit2]]()
	salt1[pair[A, digit3]]()
	salt1[pair[A, digit4]]()
	salt1[pair[A, digit5]]()
	salt1[pair[A, digit6]]()
}

// saltedStatic gives the n-th clone of a generic type, if there is one.
func saltedStatic(name string, n int) *Schema {
	ts := saltTypes[name]
	if n >= len(ts) {
		return nil
	}
	key := fmt.Sprintf("%s/%d", name, n)
	if statics[key] == nil {
		register(key, ts[n])
	}
	return staticSchemaOf(key)
}

// Families are groups of types which refer to each other.
var families = map[string][]string{
	"ring":  {"RingA", "RingB", "RingC", "RingD"},
	"mut":   {"MutA", "MutB", "MutC"},
	"twin":  {"TwinT", "LeafT"},
	"alike": {"Rec1", "Rec2", "Rec3", "Item1", "Item2", "Item3"},
	"self":  {"ListT", "TreeT", "DirT", "GooT", "WideT"},
}

func init() {
	register("ListT", reflect.TypeFor[ListT]())
	register("TreeT", reflect.TypeFor[TreeT]())
	register("DirT", reflect.TypeFor[DirT]())
	register("MutA", reflect.TypeFor[MutA]())
	register("MutB", reflect.TypeFor[MutB]())
	register("MutC", reflect.TypeFor[MutC]())
	register("GooT", reflect.TypeFor[GooT]())
	register("WideT", reflect.TypeFor[WideT]())
	register("RingA", reflect.TypeFor[RingA]())
	register("RingB", reflect.TypeFor[RingB]())
	register("RingC", reflect.TypeFor[RingC]())
	register("RingD", reflect.TypeFor[RingD]())
	register("FarT", reflect.TypeFor[FarT]())
	for i, f := range []func() (reflect.Type, reflect.Type){alike1, alike2, alike3} {
		rec, item := f()
		register(fmt.Sprint("Rec", i+1), rec)
		register(fmt.Sprint("Item", i+1), item)
	}
	register("LeafT", reflect.TypeFor[LeafT]())
	register("TwinT", reflect.TypeFor[TwinT]())
	register("DagT", reflect.TypeFor[dag36]())
	register("OddT", reflect.TypeFor[OddT]())
	register("MethT", reflect.TypeFor[MethT]())
	salt2[digit0]()
	salt2[digit1]()
	salt2[digit2]()
	salt2[digit3]()
	salt2[digit4]()
	salt2[digit5]()
	salt2[digit6]()
	register("RecG", reflect.TypeFor[RecG[int]]())
	register("RecH", reflect.TypeFor[RecH[int]]())
}
