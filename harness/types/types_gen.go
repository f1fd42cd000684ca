// Code generated by gen.py. DO NOT EDIT.
package types

import "verifharness/abs"
import "reflect"

type OneofOld struct {
	A                isOneofOld_A `protobuf_oneof:"a"`
	X                int32        `protobuf:"varint,20,opt,name=x"`
	XXX_unrecognized []byte
}
type isOneofOld_A interface{ isOneofOld_A() }
type OneofOld_A1 struct {
	V int32 `protobuf:"varint,1,opt,name=v1,proto3,oneof"`
}

func (*OneofOld_A1) isOneofOld_A() {}

type OneofOld_A2 struct {
	V int64 `protobuf:"varint,2,opt,name=v2,proto3,oneof"`
}

func (*OneofOld_A2) isOneofOld_A() {}

type OneofOld_A3 struct {
	V uint32 `protobuf:"varint,3,opt,name=v3,proto3,oneof"`
}

func (*OneofOld_A3) isOneofOld_A() {}

type OneofOld_A4 struct {
	V uint64 `protobuf:"varint,4,opt,name=v4,proto3,oneof"`
}

func (*OneofOld_A4) isOneofOld_A() {}

type OneofOld_A5 struct {
	V int32 `protobuf:"zigzag32,5,opt,name=v5,proto3,oneof"`
}

func (*OneofOld_A5) isOneofOld_A() {}

type OneofOld_A6 struct {
	V int64 `protobuf:"zigzag64,6,opt,name=v6,proto3,oneof"`
}

func (*OneofOld_A6) isOneofOld_A() {}

type OneofOld_A7 struct {
	V uint32 `protobuf:"fixed32,7,opt,name=v7,proto3,oneof"`
}

func (*OneofOld_A7) isOneofOld_A() {}

type OneofOld_A8 struct {
	V uint64 `protobuf:"fixed64,8,opt,name=v8,proto3,oneof"`
}

func (*OneofOld_A8) isOneofOld_A() {}

type OneofOld_A9 struct {
	V int32 `protobuf:"fixed32,9,opt,name=v9,proto3,oneof"`
}

func (*OneofOld_A9) isOneofOld_A() {}

type OneofOld_A10 struct {
	V int64 `protobuf:"fixed64,10,opt,name=v10,proto3,oneof"`
}

func (*OneofOld_A10) isOneofOld_A() {}

type OneofOld_A11 struct {
	V float32 `protobuf:"fixed32,11,opt,name=v11,proto3,oneof"`
}

func (*OneofOld_A11) isOneofOld_A() {}

type OneofOld_A12 struct {
	V float64 `protobuf:"fixed64,12,opt,name=v12,proto3,oneof"`
}

func (*OneofOld_A12) isOneofOld_A() {}

type OneofOld_A13 struct {
	V bool `protobuf:"varint,13,opt,name=v13,proto3,oneof"`
}

func (*OneofOld_A13) isOneofOld_A() {}

type OneofOld_A14 struct {
	V string `protobuf:"bytes,14,opt,name=v14,proto3,oneof"`
}

func (*OneofOld_A14) isOneofOld_A() {}

type OneofOld_A15 struct {
	V []byte `protobuf:"bytes,15,opt,name=v15,proto3,oneof"`
}

func (*OneofOld_A15) isOneofOld_A() {}

type OneofOld_A16 struct {
	V Color `protobuf:"varint,16,opt,name=v16,proto3,oneof"`
}

func (*OneofOld_A16) isOneofOld_A() {}

type OneofOld_A17 struct {
	V *Leaf `protobuf:"bytes,17,opt,name=v17,proto3,oneof"`
}

func (*OneofOld_A17) isOneofOld_A() {}
func (*OneofOld) XXX_OneofWrappers() []any {
	return []any{(*OneofOld_A1)(nil), (*OneofOld_A2)(nil), (*OneofOld_A3)(nil), (*OneofOld_A4)(nil), (*OneofOld_A5)(nil), (*OneofOld_A6)(nil), (*OneofOld_A7)(nil), (*OneofOld_A8)(nil), (*OneofOld_A9)(nil), (*OneofOld_A10)(nil), (*OneofOld_A11)(nil), (*OneofOld_A12)(nil), (*OneofOld_A13)(nil), (*OneofOld_A14)(nil), (*OneofOld_A15)(nil), (*OneofOld_A16)(nil), (*OneofOld_A17)(nil)}
}

type OneofNew struct {
	A             isOneofNew_A `protobuf_oneof:"a"`
	B             isOneofNew_B `protobuf_oneof:"b"`
	Name          string       `protobuf:"bytes,1,opt,name=name"`
	unknownFields []byte
}
type isOneofNew_A interface{ isOneofNew_A() }
type OneofNew_A2 struct {
	V int32 `protobuf:"varint,2,opt,name=v2,proto3,oneof"`
}

func (*OneofNew_A2) isOneofNew_A() {}

type OneofNew_A8 struct {
	V uint32 `protobuf:"varint,8,opt,name=v8,proto3,oneof"`
}

func (*OneofNew_A8) isOneofNew_A() {}

type OneofNew_A14 struct {
	V int32 `protobuf:"zigzag32,14,opt,name=v14,proto3,oneof"`
}

func (*OneofNew_A14) isOneofNew_A() {}

type OneofNew_A20 struct {
	V uint32 `protobuf:"fixed32,20,opt,name=v20,proto3,oneof"`
}

func (*OneofNew_A20) isOneofNew_A() {}

type OneofNew_A26 struct {
	V int32 `protobuf:"fixed32,26,opt,name=v26,proto3,oneof"`
}

func (*OneofNew_A26) isOneofNew_A() {}

type OneofNew_A32 struct {
	V float32 `protobuf:"fixed32,32,opt,name=v32,proto3,oneof"`
}

func (*OneofNew_A32) isOneofNew_A() {}

type OneofNew_A38 struct {
	V bool `protobuf:"varint,38,opt,name=v38,proto3,oneof"`
}

func (*OneofNew_A38) isOneofNew_A() {}

type OneofNew_A44 struct {
	V []byte `protobuf:"bytes,44,opt,name=v44,proto3,oneof"`
}

func (*OneofNew_A44) isOneofNew_A() {}

type OneofNew_A50 struct {
	V *Leaf `protobuf:"bytes,50,opt,name=v50,proto3,oneof"`
}

func (*OneofNew_A50) isOneofNew_A() {}

type isOneofNew_B interface{ isOneofNew_B() }
type OneofNew_B5 struct {
	V int64 `protobuf:"varint,5,opt,name=v5,proto3,oneof"`
}

func (*OneofNew_B5) isOneofNew_B() {}

type OneofNew_B11 struct {
	V uint64 `protobuf:"varint,11,opt,name=v11,proto3,oneof"`
}

func (*OneofNew_B11) isOneofNew_B() {}

type OneofNew_B17 struct {
	V int64 `protobuf:"zigzag64,17,opt,name=v17,proto3,oneof"`
}

func (*OneofNew_B17) isOneofNew_B() {}

type OneofNew_B23 struct {
	V uint64 `protobuf:"fixed64,23,opt,name=v23,proto3,oneof"`
}

func (*OneofNew_B23) isOneofNew_B() {}

type OneofNew_B29 struct {
	V int64 `protobuf:"fixed64,29,opt,name=v29,proto3,oneof"`
}

func (*OneofNew_B29) isOneofNew_B() {}

type OneofNew_B35 struct {
	V float64 `protobuf:"fixed64,35,opt,name=v35,proto3,oneof"`
}

func (*OneofNew_B35) isOneofNew_B() {}

type OneofNew_B41 struct {
	V string `protobuf:"bytes,41,opt,name=v41,proto3,oneof"`
}

func (*OneofNew_B41) isOneofNew_B() {}

type OneofNew_B47 struct {
	V Color `protobuf:"varint,47,opt,name=v47,proto3,oneof"`
}

func (*OneofNew_B47) isOneofNew_B() {}

var wrappersOneofNew = []any{(*OneofNew_A2)(nil), (*OneofNew_A8)(nil), (*OneofNew_A14)(nil), (*OneofNew_A20)(nil), (*OneofNew_A26)(nil), (*OneofNew_A32)(nil), (*OneofNew_A38)(nil), (*OneofNew_A44)(nil), (*OneofNew_A50)(nil), (*OneofNew_B5)(nil), (*OneofNew_B11)(nil), (*OneofNew_B17)(nil), (*OneofNew_B23)(nil), (*OneofNew_B29)(nil), (*OneofNew_B35)(nil), (*OneofNew_B41)(nil), (*OneofNew_B47)(nil)}

func (*OneofNew) ProtoReflect() any { return newReflect(wrappersOneofNew) }

type OneofTree struct {
	N      isOneofTree_N         `protobuf_oneof:"n"`
	Kids   []*OneofTree          `protobuf:"bytes,7,rep,name=kids"`
	ByName map[string]*OneofTree `protobuf:"bytes,8,rep,name=bn" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}
type isOneofTree_N interface{ isOneofTree_N() }
type OneofTree_N1 struct {
	V *OneofTree `protobuf:"bytes,1,opt,name=v1,proto3,oneof"`
}

func (*OneofTree_N1) isOneofTree_N() {}

type OneofTree_N2 struct {
	V *Leaf `protobuf:"bytes,2,opt,name=v2,proto3,oneof"`
}

func (*OneofTree_N2) isOneofTree_N() {}

type OneofTree_N3 struct {
	V int32 `protobuf:"varint,3,opt,name=v3,proto3,oneof"`
}

func (*OneofTree_N3) isOneofTree_N() {}

type OneofTree_N4 struct {
	V string `protobuf:"bytes,4,opt,name=v4,proto3,oneof"`
}

func (*OneofTree_N4) isOneofTree_N() {}

type OneofTree_N1001 struct {
	V float64 `protobuf:"fixed64,1001,opt,name=v1001,proto3,oneof"`
}

func (*OneofTree_N1001) isOneofTree_N() {}

type OneofTree_N5000 struct {
	V bool `protobuf:"varint,5000,opt,name=v5000,proto3,oneof"`
}

func (*OneofTree_N5000) isOneofTree_N() {}
func (*OneofTree) XXX_OneofWrappers() []any {
	return []any{(*OneofTree_N1)(nil), (*OneofTree_N2)(nil), (*OneofTree_N3)(nil), (*OneofTree_N4)(nil), (*OneofTree_N1001)(nil), (*OneofTree_N5000)(nil)}
}
func init() {
	abs.OneofWrappers[reflect.TypeOf(OneofOld{})] = []any{(*OneofOld_A1)(nil), (*OneofOld_A2)(nil), (*OneofOld_A3)(nil), (*OneofOld_A4)(nil), (*OneofOld_A5)(nil), (*OneofOld_A6)(nil), (*OneofOld_A7)(nil), (*OneofOld_A8)(nil), (*OneofOld_A9)(nil), (*OneofOld_A10)(nil), (*OneofOld_A11)(nil), (*OneofOld_A12)(nil), (*OneofOld_A13)(nil), (*OneofOld_A14)(nil), (*OneofOld_A15)(nil), (*OneofOld_A16)(nil), (*OneofOld_A17)(nil)}
	abs.OneofWrappers[reflect.TypeOf(OneofNew{})] = []any{(*OneofNew_A2)(nil), (*OneofNew_A8)(nil), (*OneofNew_A14)(nil), (*OneofNew_A20)(nil), (*OneofNew_A26)(nil), (*OneofNew_A32)(nil), (*OneofNew_A38)(nil), (*OneofNew_A44)(nil), (*OneofNew_A50)(nil), (*OneofNew_B5)(nil), (*OneofNew_B11)(nil), (*OneofNew_B17)(nil), (*OneofNew_B23)(nil), (*OneofNew_B29)(nil), (*OneofNew_B35)(nil), (*OneofNew_B41)(nil), (*OneofNew_B47)(nil)}
	abs.OneofWrappers[reflect.TypeOf(OneofTree{})] = []any{(*OneofTree_N1)(nil), (*OneofTree_N2)(nil), (*OneofTree_N3)(nil), (*OneofTree_N4)(nil), (*OneofTree_N1001)(nil), (*OneofTree_N5000)(nil)}
}
