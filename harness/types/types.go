// Package types holds static message types: what reflect.StructOf cannot make.
package types

type Color int32
type Flags uint32

type Leaf struct {
	A int32  `protobuf:"varint,1,opt,name=a"`
	S string `protobuf:"bytes,2,opt,name=s"`
	B []byte `protobuf:"bytes,3,opt,name=b"`
}

// Node is recursive through every kind of field.
type Node struct {
	V                int64            `protobuf:"zigzag64,1,opt,name=v"`
	Next             *Node            `protobuf:"bytes,2,opt,name=next"`
	Kids             []*Node          `protobuf:"bytes,3,rep,name=kids"`
	ByID             map[int32]*Node  `protobuf:"bytes,4,rep,name=byid" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	BySt             map[string]*Node `protobuf:"bytes,5,rep,name=byst" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	Vals             []Node           `protobuf:"bytes,6,rep,name=vals"`
	XXX_unrecognized []byte
}

// Ping and Pong are mutually recursive.
type Ping struct {
	P *Pong           `protobuf:"bytes,1,opt,name=p"`
	M map[uint64]Pong `protobuf:"bytes,2,rep,name=m" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	N int32           `protobuf:"varint,1000,opt,name=n"`
}
type Pong struct {
	P             []*Ping        `protobuf:"bytes,1,rep,name=p"`
	M             map[bool]*Ping `protobuf:"bytes,16,rep,name=m" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	S             *string        `protobuf:"bytes,1001,opt,name=s"`
	unknownFields *[]byte
}

// Enums uses named scalar types, as generated code does.
type Enums struct {
	C  Color            `protobuf:"varint,1,opt,name=c"`
	P  *Color           `protobuf:"varint,2,opt,name=p"`
	R  []Color          `protobuf:"varint,3,rep,name=r"`
	K  []Color          `protobuf:"varint,4,rep,packed,name=k"`
	M  map[int32]Color  `protobuf:"bytes,5,rep,name=m" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	M2 map[string]Color `protobuf:"bytes,6,rep,name=m2" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	F  Flags            `protobuf:"varint,7,opt,name=f"`
	FM map[uint64]Color `protobuf:"bytes,8,rep,name=fm" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	BM map[bool]Color   `protobuf:"bytes,9,rep,name=bm" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

// All has every kind with explicit presence.
type All struct {
	A *int32   `protobuf:"varint,1,opt,name=a"`
	B *int64   `protobuf:"varint,2,opt,name=b"`
	C *uint32  `protobuf:"varint,3,opt,name=c"`
	D *uint64  `protobuf:"varint,4,opt,name=d"`
	E *int32   `protobuf:"zigzag32,5,opt,name=e"`
	F *int64   `protobuf:"zigzag64,6,opt,name=f"`
	G *uint32  `protobuf:"fixed32,7,opt,name=g"`
	H *uint64  `protobuf:"fixed64,8,opt,name=h"`
	I *int32   `protobuf:"fixed32,9,opt,name=i"`
	J *int64   `protobuf:"fixed64,10,opt,name=j"`
	K *float32 `protobuf:"fixed32,11,opt,name=k"`
	L *float64 `protobuf:"fixed64,12,opt,name=l"`
	M *bool    `protobuf:"varint,13,opt,name=m"`
	N *string  `protobuf:"bytes,14,opt,name=n"`
	O []byte   `protobuf:"bytes,15,opt,name=o"`
	P *Leaf    `protobuf:"bytes,16,opt,name=p"`
	Q Leaf     `protobuf:"bytes,17,opt,name=q"`
}

// what a generated ProtoReflect returns, as far as prutal looks at it
type reflected struct {
	pad int
	mi  *msgInfo
}
type msgInfo struct {
	name          string
	OneofWrappers []any
}

func newReflect(w []any) any { return &reflected{mi: &msgInfo{OneofWrappers: w}} }
