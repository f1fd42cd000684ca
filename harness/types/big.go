package types

// Big nests large leaves in every kind of field that carries a length.
type Big struct {
	A                int32             `protobuf:"varint,1,opt,name=a"`
	Str              string            `protobuf:"bytes,2,opt,name=str"`
	Sub              *Big              `protobuf:"bytes,3,opt,name=sub"`
	UP               []uint64          `protobuf:"varint,4,rep,name=up"`
	SS               []string          `protobuf:"bytes,5,rep,name=ss"`
	UF               []uint32          `protobuf:"fixed32,6,rep,name=uf"`
	Byt              []byte            `protobuf:"bytes,16,opt,name=byt"`
	Rep              []*Big            `protobuf:"bytes,17,rep,name=rep"`
	MB               map[int32][]byte  `protobuf:"bytes,18,rep,name=mb" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MS               map[string]*Big   `protobuf:"bytes,19,rep,name=ms" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MK               map[string]uint64 `protobuf:"bytes,20,rep,name=mk" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MM               map[uint32]bool   `protobuf:"bytes,21,rep,name=mm" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	M8               map[string]int64  `protobuf:"bytes,22,rep,name=m8" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	O                isBig_O           `protobuf_oneof:"o"`
	PF               []uint32          `protobuf:"fixed32,2047,rep,packed,name=pf"`
	PV               []int64           `protobuf:"varint,2048,rep,packed,name=pv"`
	PD               []float64         `protobuf:"fixed64,262144,rep,packed,name=pd"`
	Z                *uint32           `protobuf:"varint,536870911,opt,name=z"`
	XXX_unrecognized []byte
}
type isBig_O interface{ isBig_O() }
type Big_One struct {
	One *Big `protobuf:"bytes,300,opt,name=one,oneof"`
}
type Big_OStr struct {
	OStr string `protobuf:"bytes,301,opt,name=ostr,oneof"`
}

func (*Big_One) isBig_O()             {}
func (*Big_OStr) isBig_O()            {}
func (*Big) XXX_OneofWrappers() []any { return []any{(*Big_One)(nil), (*Big_OStr)(nil)} }

// BigOld knows nothing of Big but its first field.
type BigOld struct {
	A                int32 `protobuf:"varint,1,opt,name=a"`
	XXX_unrecognized []byte
}
