package types

// Deep nests in every way one message can contain another.
type Deep struct {
	V                int32            `protobuf:"varint,15,opt,name=v"`
	P                *Deep            `protobuf:"bytes,1,opt,name=p"`
	L                []*Deep          `protobuf:"bytes,2,rep,name=l"`
	A                []Deep           `protobuf:"bytes,3,rep,name=a"`
	M                map[int32]*Deep  `protobuf:"bytes,4,rep,name=m" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	S                map[string]Deep  `protobuf:"bytes,5,rep,name=s" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	O                isDeep_O         `protobuf_oneof:"o"`
	B                map[bool]*Deep   `protobuf:"bytes,7,rep,name=b" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	E                DeepBox          `protobuf:"bytes,8,opt,name=e"`
	T                map[string]*Deep `protobuf:"bytes,9,rep,name=t" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	F                map[uint64]Deep  `protobuf:"bytes,2000,rep,name=f" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	U                map[int64]*Deep  `protobuf:"bytes,10,rep,name=u" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	G                map[uint32]Deep  `protobuf:"bytes,11,rep,name=g" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	XXX_unrecognized []byte
}
type DeepBox struct {
	D *Deep `protobuf:"bytes,1,opt,name=d"`
}
type isDeep_O interface{ isDeep_O() }
type Deep_OM struct {
	M *Deep `protobuf:"bytes,6,opt,name=om,oneof"`
}

func (*Deep_OM) isDeep_O()             {}
func (*Deep) XXX_OneofWrappers() []any { return []any{(*Deep_OM)(nil)} }
