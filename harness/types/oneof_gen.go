// Code generated by genone.py. DO NOT EDIT.
package types

import (
	"reflect"

	"verifharness/abs"
)

type One0 struct {
	P  int32    `protobuf:"varint,1,opt,name=p"`
	O0 isOne0_0 `protobuf_oneof:"o0"`
}
type isOne0_0 interface{ isOne0_0() }
type One0_W0 struct {
	V bool `protobuf:"varint,2,opt,name=v,oneof"`
}

func (*One0_W0) isOne0_0() {}

var wrappersOne0 = []any{(*One0_W0)(nil)}

func (*One0) XXX_OneofWrappers() []any { return wrappersOne0 }

type One1 struct {
	P  int32    `protobuf:"varint,1,opt,name=p"`
	O0 isOne1_0 `protobuf_oneof:"o0"`
}
type isOne1_0 interface{ isOne1_0() }
type One1_W0 struct {
	V bool `protobuf:"zigzag32,2,opt,name=v,oneof"`
}

func (*One1_W0) isOne1_0() {}

var wrappersOne1 = []any{(*One1_W0)(nil)}

func (*One1) XXX_OneofWrappers() []any { return wrappersOne1 }

type One2 struct {
	P  int32    `protobuf:"varint,1,opt,name=p"`
	O0 isOne2_0 `protobuf_oneof:"o0"`
}
type isOne2_0 interface{ isOne2_0() }
type One2_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One2_W0) isOne2_0() {}

type One2_W1 struct {
	V bool `protobuf:"zigzag64,2,opt,name=v,oneof"`
}

func (*One2_W1) isOne2_0() {}

var wrappersOne2 = []any{(*One2_W0)(nil), (*One2_W1)(nil)}

func (*One2) XXX_OneofWrappers() []any { return wrappersOne2 }

type One3 struct {
	P  int32    `protobuf:"varint,1,opt,name=p"`
	O0 isOne3_0 `protobuf_oneof:"o0"`
}
type isOne3_0 interface{ isOne3_0() }
type One3_W0 struct {
	V bool `protobuf:"fixed32,2,opt,name=v,oneof"`
}

func (*One3_W0) isOne3_0() {}

var wrappersOne3 = []any{(*One3_W0)(nil)}

func (*One3) XXX_OneofWrappers() []any { return wrappersOne3 }

type One4 struct {
	P  int32    `protobuf:"varint,1,opt,name=p"`
	O0 isOne4_0 `protobuf_oneof:"o0"`
}
type isOne4_0 interface{ isOne4_0() }
type One4_W0 struct {
	V bool `protobuf:"fixed64,2,opt,name=v,oneof"`
}

func (*One4_W0) isOne4_0() {}

var wrappersOne4 = []any{(*One4_W0)(nil)}

func (*One4) ProtoReflect() any { return newReflect(wrappersOne4) }

type One5 struct {
	P  int32    `protobuf:"varint,1,opt,name=p"`
	O0 isOne5_0 `protobuf_oneof:"o0"`
}
type isOne5_0 interface{ isOne5_0() }
type One5_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One5_W0) isOne5_0() {}

type One5_W1 struct {
	V bool `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One5_W1) isOne5_0() {}

var wrappersOne5 = []any{(*One5_W0)(nil), (*One5_W1)(nil)}

func (*One5) XXX_OneofWrappers() []any { return wrappersOne5 }

type One6 struct {
	P  int32    `protobuf:"varint,1,opt,name=p"`
	O0 isOne6_0 `protobuf_oneof:"o0"`
}
type isOne6_0 interface{ isOne6_0() }
type One6_W0 struct {
	V bool `protobuf:"group,2,opt,name=v,oneof"`
}

func (*One6_W0) isOne6_0() {}

var wrappersOne6 = []any{(*One6_W0)(nil)}

func (*One6) XXX_OneofWrappers() []any { return wrappersOne6 }

type One7 struct {
	P  int32    `protobuf:"varint,1,opt,name=p"`
	O0 isOne7_0 `protobuf_oneof:"o0"`
}
type isOne7_0 interface{ isOne7_0() }
type One7_W0 struct {
	V int32 `protobuf:"varint,2,opt,name=v,oneof"`
}

func (*One7_W0) isOne7_0() {}

var wrappersOne7 = []any{(*One7_W0)(nil)}

func (*One7) XXX_OneofWrappers() []any { return wrappersOne7 }

type One8 struct {
	P  int32    `protobuf:"varint,1,opt,name=p"`
	O0 isOne8_0 `protobuf_oneof:"o0"`
}
type isOne8_0 interface{ isOne8_0() }
type One8_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One8_W0) isOne8_0() {}

type One8_W1 struct {
	V int32 `protobuf:"zigzag32,2,opt,name=v,oneof"`
}

func (*One8_W1) isOne8_0() {}

var wrappersOne8 = []any{(*One8_W0)(nil), (*One8_W1)(nil)}

func (*One8) XXX_OneofWrappers() []any { return wrappersOne8 }

type One9 struct {
	P  int32    `protobuf:"varint,1,opt,name=p"`
	O0 isOne9_0 `protobuf_oneof:"o0"`
}
type isOne9_0 interface{ isOne9_0() }
type One9_W0 struct {
	V int32 `protobuf:"zigzag64,2,opt,name=v,oneof"`
}

func (*One9_W0) isOne9_0() {}

var wrappersOne9 = []any{(*One9_W0)(nil)}

func (*One9) ProtoReflect() any { return newReflect(wrappersOne9) }

type One10 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne10_0 `protobuf_oneof:"o0"`
}
type isOne10_0 interface{ isOne10_0() }
type One10_W0 struct {
	V int32 `protobuf:"fixed32,2,opt,name=v,oneof"`
}

func (*One10_W0) isOne10_0() {}

var wrappersOne10 = []any{(*One10_W0)(nil)}

func (*One10) XXX_OneofWrappers() []any { return wrappersOne10 }

type One11 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne11_0 `protobuf_oneof:"o0"`
}
type isOne11_0 interface{ isOne11_0() }
type One11_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One11_W0) isOne11_0() {}

type One11_W1 struct {
	V int32 `protobuf:"fixed64,2,opt,name=v,oneof"`
}

func (*One11_W1) isOne11_0() {}

var wrappersOne11 = []any{(*One11_W0)(nil), (*One11_W1)(nil)}

func (*One11) XXX_OneofWrappers() []any { return wrappersOne11 }

type One12 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne12_0 `protobuf_oneof:"o0"`
}
type isOne12_0 interface{ isOne12_0() }
type One12_W0 struct {
	V int32 `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One12_W0) isOne12_0() {}

var wrappersOne12 = []any{(*One12_W0)(nil)}

func (*One12) XXX_OneofWrappers() []any { return wrappersOne12 }

type One13 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne13_0 `protobuf_oneof:"o0"`
}
type isOne13_0 interface{ isOne13_0() }
type One13_W0 struct {
	V int32 `protobuf:"group,2,opt,name=v,oneof"`
}

func (*One13_W0) isOne13_0() {}

var wrappersOne13 = []any{(*One13_W0)(nil)}

func (*One13) XXX_OneofWrappers() []any { return wrappersOne13 }

type One14 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne14_0 `protobuf_oneof:"o0"`
}
type isOne14_0 interface{ isOne14_0() }
type One14_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One14_W0) isOne14_0() {}

type One14_W1 struct {
	V int64 `protobuf:"varint,2,opt,name=v,oneof"`
}

func (*One14_W1) isOne14_0() {}

var wrappersOne14 = []any{(*One14_W0)(nil), (*One14_W1)(nil)}

func (*One14) ProtoReflect() any { return newReflect(wrappersOne14) }

type One15 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne15_0 `protobuf_oneof:"o0"`
}
type isOne15_0 interface{ isOne15_0() }
type One15_W0 struct {
	V int64 `protobuf:"zigzag32,2,opt,name=v,oneof"`
}

func (*One15_W0) isOne15_0() {}

var wrappersOne15 = []any{(*One15_W0)(nil)}

func (*One15) XXX_OneofWrappers() []any { return wrappersOne15 }

type One16 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne16_0 `protobuf_oneof:"o0"`
}
type isOne16_0 interface{ isOne16_0() }
type One16_W0 struct {
	V int64 `protobuf:"zigzag64,2,opt,name=v,oneof"`
}

func (*One16_W0) isOne16_0() {}

var wrappersOne16 = []any{(*One16_W0)(nil)}

func (*One16) XXX_OneofWrappers() []any { return wrappersOne16 }

type One17 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne17_0 `protobuf_oneof:"o0"`
}
type isOne17_0 interface{ isOne17_0() }
type One17_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One17_W0) isOne17_0() {}

type One17_W1 struct {
	V int64 `protobuf:"fixed32,2,opt,name=v,oneof"`
}

func (*One17_W1) isOne17_0() {}

var wrappersOne17 = []any{(*One17_W0)(nil), (*One17_W1)(nil)}

func (*One17) XXX_OneofWrappers() []any { return wrappersOne17 }

type One18 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne18_0 `protobuf_oneof:"o0"`
}
type isOne18_0 interface{ isOne18_0() }
type One18_W0 struct {
	V int64 `protobuf:"fixed64,2,opt,name=v,oneof"`
}

func (*One18_W0) isOne18_0() {}

var wrappersOne18 = []any{(*One18_W0)(nil)}

func (*One18) XXX_OneofWrappers() []any { return wrappersOne18 }

type One19 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne19_0 `protobuf_oneof:"o0"`
}
type isOne19_0 interface{ isOne19_0() }
type One19_W0 struct {
	V int64 `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One19_W0) isOne19_0() {}

var wrappersOne19 = []any{(*One19_W0)(nil)}

func (*One19) ProtoReflect() any { return newReflect(wrappersOne19) }

type One20 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne20_0 `protobuf_oneof:"o0"`
}
type isOne20_0 interface{ isOne20_0() }
type One20_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One20_W0) isOne20_0() {}

type One20_W1 struct {
	V int64 `protobuf:"group,2,opt,name=v,oneof"`
}

func (*One20_W1) isOne20_0() {}

var wrappersOne20 = []any{(*One20_W0)(nil), (*One20_W1)(nil)}

func (*One20) XXX_OneofWrappers() []any { return wrappersOne20 }

type One21 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne21_0 `protobuf_oneof:"o0"`
}
type isOne21_0 interface{ isOne21_0() }
type One21_W0 struct {
	V uint32 `protobuf:"varint,2,opt,name=v,oneof"`
}

func (*One21_W0) isOne21_0() {}

var wrappersOne21 = []any{(*One21_W0)(nil)}

func (*One21) XXX_OneofWrappers() []any { return wrappersOne21 }

type One22 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne22_0 `protobuf_oneof:"o0"`
}
type isOne22_0 interface{ isOne22_0() }
type One22_W0 struct {
	V uint32 `protobuf:"zigzag32,2,opt,name=v,oneof"`
}

func (*One22_W0) isOne22_0() {}

var wrappersOne22 = []any{(*One22_W0)(nil)}

func (*One22) XXX_OneofWrappers() []any { return wrappersOne22 }

type One23 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne23_0 `protobuf_oneof:"o0"`
}
type isOne23_0 interface{ isOne23_0() }
type One23_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One23_W0) isOne23_0() {}

type One23_W1 struct {
	V uint32 `protobuf:"zigzag64,2,opt,name=v,oneof"`
}

func (*One23_W1) isOne23_0() {}

var wrappersOne23 = []any{(*One23_W0)(nil), (*One23_W1)(nil)}

func (*One23) XXX_OneofWrappers() []any { return wrappersOne23 }

type One24 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne24_0 `protobuf_oneof:"o0"`
}
type isOne24_0 interface{ isOne24_0() }
type One24_W0 struct {
	V uint32 `protobuf:"fixed32,2,opt,name=v,oneof"`
}

func (*One24_W0) isOne24_0() {}

var wrappersOne24 = []any{(*One24_W0)(nil)}

func (*One24) ProtoReflect() any { return newReflect(wrappersOne24) }

type One25 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne25_0 `protobuf_oneof:"o0"`
}
type isOne25_0 interface{ isOne25_0() }
type One25_W0 struct {
	V uint32 `protobuf:"fixed64,2,opt,name=v,oneof"`
}

func (*One25_W0) isOne25_0() {}

var wrappersOne25 = []any{(*One25_W0)(nil)}

func (*One25) XXX_OneofWrappers() []any { return wrappersOne25 }

type One26 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne26_0 `protobuf_oneof:"o0"`
}
type isOne26_0 interface{ isOne26_0() }
type One26_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One26_W0) isOne26_0() {}

type One26_W1 struct {
	V uint32 `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One26_W1) isOne26_0() {}

var wrappersOne26 = []any{(*One26_W0)(nil), (*One26_W1)(nil)}

func (*One26) XXX_OneofWrappers() []any { return wrappersOne26 }

type One27 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne27_0 `protobuf_oneof:"o0"`
}
type isOne27_0 interface{ isOne27_0() }
type One27_W0 struct {
	V uint32 `protobuf:"group,2,opt,name=v,oneof"`
}

func (*One27_W0) isOne27_0() {}

var wrappersOne27 = []any{(*One27_W0)(nil)}

func (*One27) XXX_OneofWrappers() []any { return wrappersOne27 }

type One28 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne28_0 `protobuf_oneof:"o0"`
}
type isOne28_0 interface{ isOne28_0() }
type One28_W0 struct {
	V uint64 `protobuf:"varint,2,opt,name=v,oneof"`
}

func (*One28_W0) isOne28_0() {}

var wrappersOne28 = []any{(*One28_W0)(nil)}

func (*One28) XXX_OneofWrappers() []any { return wrappersOne28 }

type One29 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne29_0 `protobuf_oneof:"o0"`
}
type isOne29_0 interface{ isOne29_0() }
type One29_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One29_W0) isOne29_0() {}

type One29_W1 struct {
	V uint64 `protobuf:"zigzag32,2,opt,name=v,oneof"`
}

func (*One29_W1) isOne29_0() {}

var wrappersOne29 = []any{(*One29_W0)(nil), (*One29_W1)(nil)}

func (*One29) ProtoReflect() any { return newReflect(wrappersOne29) }

type One30 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne30_0 `protobuf_oneof:"o0"`
}
type isOne30_0 interface{ isOne30_0() }
type One30_W0 struct {
	V uint64 `protobuf:"zigzag64,2,opt,name=v,oneof"`
}

func (*One30_W0) isOne30_0() {}

var wrappersOne30 = []any{(*One30_W0)(nil)}

func (*One30) XXX_OneofWrappers() []any { return wrappersOne30 }

type One31 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne31_0 `protobuf_oneof:"o0"`
}
type isOne31_0 interface{ isOne31_0() }
type One31_W0 struct {
	V uint64 `protobuf:"fixed32,2,opt,name=v,oneof"`
}

func (*One31_W0) isOne31_0() {}

var wrappersOne31 = []any{(*One31_W0)(nil)}

func (*One31) XXX_OneofWrappers() []any { return wrappersOne31 }

type One32 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne32_0 `protobuf_oneof:"o0"`
}
type isOne32_0 interface{ isOne32_0() }
type One32_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One32_W0) isOne32_0() {}

type One32_W1 struct {
	V uint64 `protobuf:"fixed64,2,opt,name=v,oneof"`
}

func (*One32_W1) isOne32_0() {}

var wrappersOne32 = []any{(*One32_W0)(nil), (*One32_W1)(nil)}

func (*One32) XXX_OneofWrappers() []any { return wrappersOne32 }

type One33 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne33_0 `protobuf_oneof:"o0"`
}
type isOne33_0 interface{ isOne33_0() }
type One33_W0 struct {
	V uint64 `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One33_W0) isOne33_0() {}

var wrappersOne33 = []any{(*One33_W0)(nil)}

func (*One33) XXX_OneofWrappers() []any { return wrappersOne33 }

type One34 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne34_0 `protobuf_oneof:"o0"`
}
type isOne34_0 interface{ isOne34_0() }
type One34_W0 struct {
	V uint64 `protobuf:"group,2,opt,name=v,oneof"`
}

func (*One34_W0) isOne34_0() {}

var wrappersOne34 = []any{(*One34_W0)(nil)}

func (*One34) ProtoReflect() any { return newReflect(wrappersOne34) }

type One35 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne35_0 `protobuf_oneof:"o0"`
}
type isOne35_0 interface{ isOne35_0() }
type One35_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One35_W0) isOne35_0() {}

type One35_W1 struct {
	V float32 `protobuf:"varint,2,opt,name=v,oneof"`
}

func (*One35_W1) isOne35_0() {}

var wrappersOne35 = []any{(*One35_W0)(nil), (*One35_W1)(nil)}

func (*One35) XXX_OneofWrappers() []any { return wrappersOne35 }

type One36 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne36_0 `protobuf_oneof:"o0"`
}
type isOne36_0 interface{ isOne36_0() }
type One36_W0 struct {
	V float32 `protobuf:"zigzag32,2,opt,name=v,oneof"`
}

func (*One36_W0) isOne36_0() {}

var wrappersOne36 = []any{(*One36_W0)(nil)}

func (*One36) XXX_OneofWrappers() []any { return wrappersOne36 }

type One37 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne37_0 `protobuf_oneof:"o0"`
}
type isOne37_0 interface{ isOne37_0() }
type One37_W0 struct {
	V float32 `protobuf:"zigzag64,2,opt,name=v,oneof"`
}

func (*One37_W0) isOne37_0() {}

var wrappersOne37 = []any{(*One37_W0)(nil)}

func (*One37) XXX_OneofWrappers() []any { return wrappersOne37 }

type One38 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne38_0 `protobuf_oneof:"o0"`
}
type isOne38_0 interface{ isOne38_0() }
type One38_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One38_W0) isOne38_0() {}

type One38_W1 struct {
	V float32 `protobuf:"fixed32,2,opt,name=v,oneof"`
}

func (*One38_W1) isOne38_0() {}

var wrappersOne38 = []any{(*One38_W0)(nil), (*One38_W1)(nil)}

func (*One38) XXX_OneofWrappers() []any { return wrappersOne38 }

type One39 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne39_0 `protobuf_oneof:"o0"`
}
type isOne39_0 interface{ isOne39_0() }
type One39_W0 struct {
	V float32 `protobuf:"fixed64,2,opt,name=v,oneof"`
}

func (*One39_W0) isOne39_0() {}

var wrappersOne39 = []any{(*One39_W0)(nil)}

func (*One39) ProtoReflect() any { return newReflect(wrappersOne39) }

type One40 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne40_0 `protobuf_oneof:"o0"`
}
type isOne40_0 interface{ isOne40_0() }
type One40_W0 struct {
	V float32 `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One40_W0) isOne40_0() {}

var wrappersOne40 = []any{(*One40_W0)(nil)}

func (*One40) XXX_OneofWrappers() []any { return wrappersOne40 }

type One41 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne41_0 `protobuf_oneof:"o0"`
}
type isOne41_0 interface{ isOne41_0() }
type One41_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One41_W0) isOne41_0() {}

type One41_W1 struct {
	V float32 `protobuf:"group,2,opt,name=v,oneof"`
}

func (*One41_W1) isOne41_0() {}

var wrappersOne41 = []any{(*One41_W0)(nil), (*One41_W1)(nil)}

func (*One41) XXX_OneofWrappers() []any { return wrappersOne41 }

type One42 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne42_0 `protobuf_oneof:"o0"`
}
type isOne42_0 interface{ isOne42_0() }
type One42_W0 struct {
	V float64 `protobuf:"varint,2,opt,name=v,oneof"`
}

func (*One42_W0) isOne42_0() {}

var wrappersOne42 = []any{(*One42_W0)(nil)}

func (*One42) XXX_OneofWrappers() []any { return wrappersOne42 }

type One43 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne43_0 `protobuf_oneof:"o0"`
}
type isOne43_0 interface{ isOne43_0() }
type One43_W0 struct {
	V float64 `protobuf:"zigzag32,2,opt,name=v,oneof"`
}

func (*One43_W0) isOne43_0() {}

var wrappersOne43 = []any{(*One43_W0)(nil)}

func (*One43) XXX_OneofWrappers() []any { return wrappersOne43 }

type One44 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne44_0 `protobuf_oneof:"o0"`
}
type isOne44_0 interface{ isOne44_0() }
type One44_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One44_W0) isOne44_0() {}

type One44_W1 struct {
	V float64 `protobuf:"zigzag64,2,opt,name=v,oneof"`
}

func (*One44_W1) isOne44_0() {}

var wrappersOne44 = []any{(*One44_W0)(nil), (*One44_W1)(nil)}

func (*One44) ProtoReflect() any { return newReflect(wrappersOne44) }

type One45 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne45_0 `protobuf_oneof:"o0"`
}
type isOne45_0 interface{ isOne45_0() }
type One45_W0 struct {
	V float64 `protobuf:"fixed32,2,opt,name=v,oneof"`
}

func (*One45_W0) isOne45_0() {}

var wrappersOne45 = []any{(*One45_W0)(nil)}

func (*One45) XXX_OneofWrappers() []any { return wrappersOne45 }

type One46 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne46_0 `protobuf_oneof:"o0"`
}
type isOne46_0 interface{ isOne46_0() }
type One46_W0 struct {
	V float64 `protobuf:"fixed64,2,opt,name=v,oneof"`
}

func (*One46_W0) isOne46_0() {}

var wrappersOne46 = []any{(*One46_W0)(nil)}

func (*One46) XXX_OneofWrappers() []any { return wrappersOne46 }

type One47 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne47_0 `protobuf_oneof:"o0"`
}
type isOne47_0 interface{ isOne47_0() }
type One47_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One47_W0) isOne47_0() {}

type One47_W1 struct {
	V float64 `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One47_W1) isOne47_0() {}

var wrappersOne47 = []any{(*One47_W0)(nil), (*One47_W1)(nil)}

func (*One47) XXX_OneofWrappers() []any { return wrappersOne47 }

type One48 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne48_0 `protobuf_oneof:"o0"`
}
type isOne48_0 interface{ isOne48_0() }
type One48_W0 struct {
	V float64 `protobuf:"group,2,opt,name=v,oneof"`
}

func (*One48_W0) isOne48_0() {}

var wrappersOne48 = []any{(*One48_W0)(nil)}

func (*One48) XXX_OneofWrappers() []any { return wrappersOne48 }

type One49 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne49_0 `protobuf_oneof:"o0"`
}
type isOne49_0 interface{ isOne49_0() }
type One49_W0 struct {
	V string `protobuf:"varint,2,opt,name=v,oneof"`
}

func (*One49_W0) isOne49_0() {}

var wrappersOne49 = []any{(*One49_W0)(nil)}

func (*One49) ProtoReflect() any { return newReflect(wrappersOne49) }

type One50 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne50_0 `protobuf_oneof:"o0"`
}
type isOne50_0 interface{ isOne50_0() }
type One50_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One50_W0) isOne50_0() {}

type One50_W1 struct {
	V string `protobuf:"zigzag32,2,opt,name=v,oneof"`
}

func (*One50_W1) isOne50_0() {}

var wrappersOne50 = []any{(*One50_W0)(nil), (*One50_W1)(nil)}

func (*One50) XXX_OneofWrappers() []any { return wrappersOne50 }

type One51 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne51_0 `protobuf_oneof:"o0"`
}
type isOne51_0 interface{ isOne51_0() }
type One51_W0 struct {
	V string `protobuf:"zigzag64,2,opt,name=v,oneof"`
}

func (*One51_W0) isOne51_0() {}

var wrappersOne51 = []any{(*One51_W0)(nil)}

func (*One51) XXX_OneofWrappers() []any { return wrappersOne51 }

type One52 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne52_0 `protobuf_oneof:"o0"`
}
type isOne52_0 interface{ isOne52_0() }
type One52_W0 struct {
	V string `protobuf:"fixed32,2,opt,name=v,oneof"`
}

func (*One52_W0) isOne52_0() {}

var wrappersOne52 = []any{(*One52_W0)(nil)}

func (*One52) XXX_OneofWrappers() []any { return wrappersOne52 }

type One53 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne53_0 `protobuf_oneof:"o0"`
}
type isOne53_0 interface{ isOne53_0() }
type One53_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One53_W0) isOne53_0() {}

type One53_W1 struct {
	V string `protobuf:"fixed64,2,opt,name=v,oneof"`
}

func (*One53_W1) isOne53_0() {}

var wrappersOne53 = []any{(*One53_W0)(nil), (*One53_W1)(nil)}

func (*One53) XXX_OneofWrappers() []any { return wrappersOne53 }

type One54 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne54_0 `protobuf_oneof:"o0"`
}
type isOne54_0 interface{ isOne54_0() }
type One54_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One54_W0) isOne54_0() {}

var wrappersOne54 = []any{(*One54_W0)(nil)}

func (*One54) ProtoReflect() any { return newReflect(wrappersOne54) }

type One55 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne55_0 `protobuf_oneof:"o0"`
}
type isOne55_0 interface{ isOne55_0() }
type One55_W0 struct {
	V string `protobuf:"group,2,opt,name=v,oneof"`
}

func (*One55_W0) isOne55_0() {}

var wrappersOne55 = []any{(*One55_W0)(nil)}

func (*One55) XXX_OneofWrappers() []any { return wrappersOne55 }

type One56 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne56_0 `protobuf_oneof:"o0"`
}
type isOne56_0 interface{ isOne56_0() }
type One56_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One56_W0) isOne56_0() {}

type One56_W1 struct {
	V []byte `protobuf:"varint,2,opt,name=v,oneof"`
}

func (*One56_W1) isOne56_0() {}

var wrappersOne56 = []any{(*One56_W0)(nil), (*One56_W1)(nil)}

func (*One56) XXX_OneofWrappers() []any { return wrappersOne56 }

type One57 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne57_0 `protobuf_oneof:"o0"`
}
type isOne57_0 interface{ isOne57_0() }
type One57_W0 struct {
	V []byte `protobuf:"varint,2,rep,name=v,oneof"`
}

func (*One57_W0) isOne57_0() {}

var wrappersOne57 = []any{(*One57_W0)(nil)}

func (*One57) XXX_OneofWrappers() []any { return wrappersOne57 }

type One58 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne58_0 `protobuf_oneof:"o0"`
}
type isOne58_0 interface{ isOne58_0() }
type One58_W0 struct {
	V []byte `protobuf:"zigzag32,2,opt,name=v,oneof"`
}

func (*One58_W0) isOne58_0() {}

var wrappersOne58 = []any{(*One58_W0)(nil)}

func (*One58) XXX_OneofWrappers() []any { return wrappersOne58 }

type One59 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne59_0 `protobuf_oneof:"o0"`
}
type isOne59_0 interface{ isOne59_0() }
type One59_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One59_W0) isOne59_0() {}

type One59_W1 struct {
	V []byte `protobuf:"zigzag32,2,rep,name=v,oneof"`
}

func (*One59_W1) isOne59_0() {}

var wrappersOne59 = []any{(*One59_W0)(nil), (*One59_W1)(nil)}

func (*One59) ProtoReflect() any { return newReflect(wrappersOne59) }

type One60 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne60_0 `protobuf_oneof:"o0"`
}
type isOne60_0 interface{ isOne60_0() }
type One60_W0 struct {
	V []byte `protobuf:"zigzag64,2,opt,name=v,oneof"`
}

func (*One60_W0) isOne60_0() {}

var wrappersOne60 = []any{(*One60_W0)(nil)}

func (*One60) XXX_OneofWrappers() []any { return wrappersOne60 }

type One61 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne61_0 `protobuf_oneof:"o0"`
}
type isOne61_0 interface{ isOne61_0() }
type One61_W0 struct {
	V []byte `protobuf:"zigzag64,2,rep,name=v,oneof"`
}

func (*One61_W0) isOne61_0() {}

var wrappersOne61 = []any{(*One61_W0)(nil)}

func (*One61) XXX_OneofWrappers() []any { return wrappersOne61 }

type One62 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne62_0 `protobuf_oneof:"o0"`
}
type isOne62_0 interface{ isOne62_0() }
type One62_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One62_W0) isOne62_0() {}

type One62_W1 struct {
	V []byte `protobuf:"fixed32,2,opt,name=v,oneof"`
}

func (*One62_W1) isOne62_0() {}

var wrappersOne62 = []any{(*One62_W0)(nil), (*One62_W1)(nil)}

func (*One62) XXX_OneofWrappers() []any { return wrappersOne62 }

type One63 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne63_0 `protobuf_oneof:"o0"`
}
type isOne63_0 interface{ isOne63_0() }
type One63_W0 struct {
	V []byte `protobuf:"fixed32,2,rep,name=v,oneof"`
}

func (*One63_W0) isOne63_0() {}

var wrappersOne63 = []any{(*One63_W0)(nil)}

func (*One63) XXX_OneofWrappers() []any { return wrappersOne63 }

type One64 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne64_0 `protobuf_oneof:"o0"`
}
type isOne64_0 interface{ isOne64_0() }
type One64_W0 struct {
	V []byte `protobuf:"fixed64,2,opt,name=v,oneof"`
}

func (*One64_W0) isOne64_0() {}

var wrappersOne64 = []any{(*One64_W0)(nil)}

func (*One64) ProtoReflect() any { return newReflect(wrappersOne64) }

type One65 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne65_0 `protobuf_oneof:"o0"`
}
type isOne65_0 interface{ isOne65_0() }
type One65_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One65_W0) isOne65_0() {}

type One65_W1 struct {
	V []byte `protobuf:"fixed64,2,rep,name=v,oneof"`
}

func (*One65_W1) isOne65_0() {}

var wrappersOne65 = []any{(*One65_W0)(nil), (*One65_W1)(nil)}

func (*One65) XXX_OneofWrappers() []any { return wrappersOne65 }

type One66 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne66_0 `protobuf_oneof:"o0"`
}
type isOne66_0 interface{ isOne66_0() }
type One66_W0 struct {
	V []byte `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One66_W0) isOne66_0() {}

var wrappersOne66 = []any{(*One66_W0)(nil)}

func (*One66) XXX_OneofWrappers() []any { return wrappersOne66 }

type One67 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne67_0 `protobuf_oneof:"o0"`
}
type isOne67_0 interface{ isOne67_0() }
type One67_W0 struct {
	V []byte `protobuf:"bytes,2,rep,name=v,oneof"`
}

func (*One67_W0) isOne67_0() {}

var wrappersOne67 = []any{(*One67_W0)(nil)}

func (*One67) XXX_OneofWrappers() []any { return wrappersOne67 }

type One68 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne68_0 `protobuf_oneof:"o0"`
}
type isOne68_0 interface{ isOne68_0() }
type One68_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One68_W0) isOne68_0() {}

type One68_W1 struct {
	V []byte `protobuf:"group,2,opt,name=v,oneof"`
}

func (*One68_W1) isOne68_0() {}

var wrappersOne68 = []any{(*One68_W0)(nil), (*One68_W1)(nil)}

func (*One68) XXX_OneofWrappers() []any { return wrappersOne68 }

type One69 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne69_0 `protobuf_oneof:"o0"`
}
type isOne69_0 interface{ isOne69_0() }
type One69_W0 struct {
	V []byte `protobuf:"group,2,rep,name=v,oneof"`
}

func (*One69_W0) isOne69_0() {}

var wrappersOne69 = []any{(*One69_W0)(nil)}

func (*One69) ProtoReflect() any { return newReflect(wrappersOne69) }

type One70 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne70_0 `protobuf_oneof:"o0"`
}
type isOne70_0 interface{ isOne70_0() }
type One70_W0 struct {
	V Color `protobuf:"varint,2,opt,name=v,oneof"`
}

func (*One70_W0) isOne70_0() {}

var wrappersOne70 = []any{(*One70_W0)(nil)}

func (*One70) XXX_OneofWrappers() []any { return wrappersOne70 }

type One71 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne71_0 `protobuf_oneof:"o0"`
}
type isOne71_0 interface{ isOne71_0() }
type One71_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One71_W0) isOne71_0() {}

type One71_W1 struct {
	V Color `protobuf:"zigzag32,2,opt,name=v,oneof"`
}

func (*One71_W1) isOne71_0() {}

var wrappersOne71 = []any{(*One71_W0)(nil), (*One71_W1)(nil)}

func (*One71) XXX_OneofWrappers() []any { return wrappersOne71 }

type One72 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne72_0 `protobuf_oneof:"o0"`
}
type isOne72_0 interface{ isOne72_0() }
type One72_W0 struct {
	V Color `protobuf:"zigzag64,2,opt,name=v,oneof"`
}

func (*One72_W0) isOne72_0() {}

var wrappersOne72 = []any{(*One72_W0)(nil)}

func (*One72) XXX_OneofWrappers() []any { return wrappersOne72 }

type One73 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne73_0 `protobuf_oneof:"o0"`
}
type isOne73_0 interface{ isOne73_0() }
type One73_W0 struct {
	V Color `protobuf:"fixed32,2,opt,name=v,oneof"`
}

func (*One73_W0) isOne73_0() {}

var wrappersOne73 = []any{(*One73_W0)(nil)}

func (*One73) XXX_OneofWrappers() []any { return wrappersOne73 }

type One74 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne74_0 `protobuf_oneof:"o0"`
}
type isOne74_0 interface{ isOne74_0() }
type One74_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One74_W0) isOne74_0() {}

type One74_W1 struct {
	V Color `protobuf:"fixed64,2,opt,name=v,oneof"`
}

func (*One74_W1) isOne74_0() {}

var wrappersOne74 = []any{(*One74_W0)(nil), (*One74_W1)(nil)}

func (*One74) ProtoReflect() any { return newReflect(wrappersOne74) }

type One75 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne75_0 `protobuf_oneof:"o0"`
}
type isOne75_0 interface{ isOne75_0() }
type One75_W0 struct {
	V Color `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One75_W0) isOne75_0() {}

var wrappersOne75 = []any{(*One75_W0)(nil)}

func (*One75) XXX_OneofWrappers() []any { return wrappersOne75 }

type One76 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne76_0 `protobuf_oneof:"o0"`
}
type isOne76_0 interface{ isOne76_0() }
type One76_W0 struct {
	V Color `protobuf:"group,2,opt,name=v,oneof"`
}

func (*One76_W0) isOne76_0() {}

var wrappersOne76 = []any{(*One76_W0)(nil)}

func (*One76) XXX_OneofWrappers() []any { return wrappersOne76 }

type One77 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne77_0 `protobuf_oneof:"o0"`
}
type isOne77_0 interface{ isOne77_0() }
type One77_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One77_W0) isOne77_0() {}

type One77_W1 struct {
	V *Leaf `protobuf:"varint,2,opt,name=v,oneof"`
}

func (*One77_W1) isOne77_0() {}

var wrappersOne77 = []any{(*One77_W0)(nil), (*One77_W1)(nil)}

func (*One77) XXX_OneofWrappers() []any { return wrappersOne77 }

type One78 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne78_0 `protobuf_oneof:"o0"`
}
type isOne78_0 interface{ isOne78_0() }
type One78_W0 struct {
	V *Leaf `protobuf:"varint,2,rep,name=v,oneof"`
}

func (*One78_W0) isOne78_0() {}

var wrappersOne78 = []any{(*One78_W0)(nil)}

func (*One78) XXX_OneofWrappers() []any { return wrappersOne78 }

type One79 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne79_0 `protobuf_oneof:"o0"`
}
type isOne79_0 interface{ isOne79_0() }
type One79_W0 struct {
	V *Leaf `protobuf:"zigzag32,2,opt,name=v,oneof"`
}

func (*One79_W0) isOne79_0() {}

var wrappersOne79 = []any{(*One79_W0)(nil)}

func (*One79) ProtoReflect() any { return newReflect(wrappersOne79) }

type One80 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne80_0 `protobuf_oneof:"o0"`
}
type isOne80_0 interface{ isOne80_0() }
type One80_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One80_W0) isOne80_0() {}

type One80_W1 struct {
	V *Leaf `protobuf:"zigzag32,2,rep,name=v,oneof"`
}

func (*One80_W1) isOne80_0() {}

var wrappersOne80 = []any{(*One80_W0)(nil), (*One80_W1)(nil)}

func (*One80) XXX_OneofWrappers() []any { return wrappersOne80 }

type One81 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne81_0 `protobuf_oneof:"o0"`
}
type isOne81_0 interface{ isOne81_0() }
type One81_W0 struct {
	V *Leaf `protobuf:"zigzag64,2,opt,name=v,oneof"`
}

func (*One81_W0) isOne81_0() {}

var wrappersOne81 = []any{(*One81_W0)(nil)}

func (*One81) XXX_OneofWrappers() []any { return wrappersOne81 }

type One82 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne82_0 `protobuf_oneof:"o0"`
}
type isOne82_0 interface{ isOne82_0() }
type One82_W0 struct {
	V *Leaf `protobuf:"zigzag64,2,rep,name=v,oneof"`
}

func (*One82_W0) isOne82_0() {}

var wrappersOne82 = []any{(*One82_W0)(nil)}

func (*One82) XXX_OneofWrappers() []any { return wrappersOne82 }

type One83 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne83_0 `protobuf_oneof:"o0"`
}
type isOne83_0 interface{ isOne83_0() }
type One83_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One83_W0) isOne83_0() {}

type One83_W1 struct {
	V *Leaf `protobuf:"fixed32,2,opt,name=v,oneof"`
}

func (*One83_W1) isOne83_0() {}

var wrappersOne83 = []any{(*One83_W0)(nil), (*One83_W1)(nil)}

func (*One83) XXX_OneofWrappers() []any { return wrappersOne83 }

type One84 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne84_0 `protobuf_oneof:"o0"`
}
type isOne84_0 interface{ isOne84_0() }
type One84_W0 struct {
	V *Leaf `protobuf:"fixed32,2,rep,name=v,oneof"`
}

func (*One84_W0) isOne84_0() {}

var wrappersOne84 = []any{(*One84_W0)(nil)}

func (*One84) ProtoReflect() any { return newReflect(wrappersOne84) }

type One85 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne85_0 `protobuf_oneof:"o0"`
}
type isOne85_0 interface{ isOne85_0() }
type One85_W0 struct {
	V *Leaf `protobuf:"fixed64,2,opt,name=v,oneof"`
}

func (*One85_W0) isOne85_0() {}

var wrappersOne85 = []any{(*One85_W0)(nil)}

func (*One85) XXX_OneofWrappers() []any { return wrappersOne85 }

type One86 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne86_0 `protobuf_oneof:"o0"`
}
type isOne86_0 interface{ isOne86_0() }
type One86_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One86_W0) isOne86_0() {}

type One86_W1 struct {
	V *Leaf `protobuf:"fixed64,2,rep,name=v,oneof"`
}

func (*One86_W1) isOne86_0() {}

var wrappersOne86 = []any{(*One86_W0)(nil), (*One86_W1)(nil)}

func (*One86) XXX_OneofWrappers() []any { return wrappersOne86 }

type One87 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne87_0 `protobuf_oneof:"o0"`
}
type isOne87_0 interface{ isOne87_0() }
type One87_W0 struct {
	V *Leaf `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One87_W0) isOne87_0() {}

var wrappersOne87 = []any{(*One87_W0)(nil)}

func (*One87) XXX_OneofWrappers() []any { return wrappersOne87 }

type One88 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne88_0 `protobuf_oneof:"o0"`
}
type isOne88_0 interface{ isOne88_0() }
type One88_W0 struct {
	V *Leaf `protobuf:"bytes,2,rep,name=v,oneof"`
}

func (*One88_W0) isOne88_0() {}

var wrappersOne88 = []any{(*One88_W0)(nil)}

func (*One88) XXX_OneofWrappers() []any { return wrappersOne88 }

type One89 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne89_0 `protobuf_oneof:"o0"`
}
type isOne89_0 interface{ isOne89_0() }
type One89_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One89_W0) isOne89_0() {}

type One89_W1 struct {
	V *Leaf `protobuf:"group,2,opt,name=v,oneof"`
}

func (*One89_W1) isOne89_0() {}

var wrappersOne89 = []any{(*One89_W0)(nil), (*One89_W1)(nil)}

func (*One89) ProtoReflect() any { return newReflect(wrappersOne89) }

type One90 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne90_0 `protobuf_oneof:"o0"`
}
type isOne90_0 interface{ isOne90_0() }
type One90_W0 struct {
	V *Leaf `protobuf:"group,2,rep,name=v,oneof"`
}

func (*One90_W0) isOne90_0() {}

var wrappersOne90 = []any{(*One90_W0)(nil)}

func (*One90) XXX_OneofWrappers() []any { return wrappersOne90 }

type One91 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne91_0 `protobuf_oneof:"o0"`
}
type isOne91_0 interface{ isOne91_0() }
type One91_W0 struct {
	V Leaf `protobuf:"varint,2,opt,name=v,oneof"`
}

func (*One91_W0) isOne91_0() {}

var wrappersOne91 = []any{(*One91_W0)(nil)}

func (*One91) XXX_OneofWrappers() []any { return wrappersOne91 }

type One92 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne92_0 `protobuf_oneof:"o0"`
}
type isOne92_0 interface{ isOne92_0() }
type One92_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One92_W0) isOne92_0() {}

type One92_W1 struct {
	V Leaf `protobuf:"zigzag32,2,opt,name=v,oneof"`
}

func (*One92_W1) isOne92_0() {}

var wrappersOne92 = []any{(*One92_W0)(nil), (*One92_W1)(nil)}

func (*One92) XXX_OneofWrappers() []any { return wrappersOne92 }

type One93 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne93_0 `protobuf_oneof:"o0"`
}
type isOne93_0 interface{ isOne93_0() }
type One93_W0 struct {
	V Leaf `protobuf:"zigzag64,2,opt,name=v,oneof"`
}

func (*One93_W0) isOne93_0() {}

var wrappersOne93 = []any{(*One93_W0)(nil)}

func (*One93) XXX_OneofWrappers() []any { return wrappersOne93 }

type One94 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne94_0 `protobuf_oneof:"o0"`
}
type isOne94_0 interface{ isOne94_0() }
type One94_W0 struct {
	V Leaf `protobuf:"fixed32,2,opt,name=v,oneof"`
}

func (*One94_W0) isOne94_0() {}

var wrappersOne94 = []any{(*One94_W0)(nil)}

func (*One94) ProtoReflect() any { return newReflect(wrappersOne94) }

type One95 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne95_0 `protobuf_oneof:"o0"`
}
type isOne95_0 interface{ isOne95_0() }
type One95_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One95_W0) isOne95_0() {}

type One95_W1 struct {
	V Leaf `protobuf:"fixed64,2,opt,name=v,oneof"`
}

func (*One95_W1) isOne95_0() {}

var wrappersOne95 = []any{(*One95_W0)(nil), (*One95_W1)(nil)}

func (*One95) XXX_OneofWrappers() []any { return wrappersOne95 }

type One96 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne96_0 `protobuf_oneof:"o0"`
}
type isOne96_0 interface{ isOne96_0() }
type One96_W0 struct {
	V Leaf `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One96_W0) isOne96_0() {}

var wrappersOne96 = []any{(*One96_W0)(nil)}

func (*One96) XXX_OneofWrappers() []any { return wrappersOne96 }

type One97 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne97_0 `protobuf_oneof:"o0"`
}
type isOne97_0 interface{ isOne97_0() }
type One97_W0 struct {
	V Leaf `protobuf:"group,2,opt,name=v,oneof"`
}

func (*One97_W0) isOne97_0() {}

var wrappersOne97 = []any{(*One97_W0)(nil)}

func (*One97) XXX_OneofWrappers() []any { return wrappersOne97 }

type One98 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne98_0 `protobuf_oneof:"o0"`
}
type isOne98_0 interface{ isOne98_0() }
type One98_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One98_W0) isOne98_0() {}

type One98_W1 struct {
	V int `protobuf:"varint,2,opt,name=v,oneof"`
}

func (*One98_W1) isOne98_0() {}

var wrappersOne98 = []any{(*One98_W0)(nil), (*One98_W1)(nil)}

func (*One98) XXX_OneofWrappers() []any { return wrappersOne98 }

type One99 struct {
	P  int32     `protobuf:"varint,1,opt,name=p"`
	O0 isOne99_0 `protobuf_oneof:"o0"`
}
type isOne99_0 interface{ isOne99_0() }
type One99_W0 struct {
	V int `protobuf:"zigzag32,2,opt,name=v,oneof"`
}

func (*One99_W0) isOne99_0() {}

var wrappersOne99 = []any{(*One99_W0)(nil)}

func (*One99) ProtoReflect() any { return newReflect(wrappersOne99) }

type One100 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne100_0 `protobuf_oneof:"o0"`
}
type isOne100_0 interface{ isOne100_0() }
type One100_W0 struct {
	V int `protobuf:"zigzag64,2,opt,name=v,oneof"`
}

func (*One100_W0) isOne100_0() {}

var wrappersOne100 = []any{(*One100_W0)(nil)}

func (*One100) XXX_OneofWrappers() []any { return wrappersOne100 }

type One101 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne101_0 `protobuf_oneof:"o0"`
}
type isOne101_0 interface{ isOne101_0() }
type One101_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One101_W0) isOne101_0() {}

type One101_W1 struct {
	V int `protobuf:"fixed32,2,opt,name=v,oneof"`
}

func (*One101_W1) isOne101_0() {}

var wrappersOne101 = []any{(*One101_W0)(nil), (*One101_W1)(nil)}

func (*One101) XXX_OneofWrappers() []any { return wrappersOne101 }

type One102 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne102_0 `protobuf_oneof:"o0"`
}
type isOne102_0 interface{ isOne102_0() }
type One102_W0 struct {
	V int `protobuf:"fixed64,2,opt,name=v,oneof"`
}

func (*One102_W0) isOne102_0() {}

var wrappersOne102 = []any{(*One102_W0)(nil)}

func (*One102) XXX_OneofWrappers() []any { return wrappersOne102 }

type One103 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne103_0 `protobuf_oneof:"o0"`
}
type isOne103_0 interface{ isOne103_0() }
type One103_W0 struct {
	V int `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One103_W0) isOne103_0() {}

var wrappersOne103 = []any{(*One103_W0)(nil)}

func (*One103) XXX_OneofWrappers() []any { return wrappersOne103 }

type One104 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne104_0 `protobuf_oneof:"o0"`
}
type isOne104_0 interface{ isOne104_0() }
type One104_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One104_W0) isOne104_0() {}

type One104_W1 struct {
	V int `protobuf:"group,2,opt,name=v,oneof"`
}

func (*One104_W1) isOne104_0() {}

var wrappersOne104 = []any{(*One104_W0)(nil), (*One104_W1)(nil)}

func (*One104) ProtoReflect() any { return newReflect(wrappersOne104) }

type One105 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne105_0 `protobuf_oneof:"o0"`
}
type isOne105_0 interface{ isOne105_0() }
type One105_W0 struct {
	V []int32 `protobuf:"varint,2,opt,name=v,oneof"`
}

func (*One105_W0) isOne105_0() {}

var wrappersOne105 = []any{(*One105_W0)(nil)}

func (*One105) XXX_OneofWrappers() []any { return wrappersOne105 }

type One106 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne106_0 `protobuf_oneof:"o0"`
}
type isOne106_0 interface{ isOne106_0() }
type One106_W0 struct {
	V []int32 `protobuf:"varint,2,rep,name=v,oneof"`
}

func (*One106_W0) isOne106_0() {}

var wrappersOne106 = []any{(*One106_W0)(nil)}

func (*One106) XXX_OneofWrappers() []any { return wrappersOne106 }

type One107 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne107_0 `protobuf_oneof:"o0"`
}
type isOne107_0 interface{ isOne107_0() }
type One107_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One107_W0) isOne107_0() {}

type One107_W1 struct {
	V []int32 `protobuf:"zigzag32,2,opt,name=v,oneof"`
}

func (*One107_W1) isOne107_0() {}

var wrappersOne107 = []any{(*One107_W0)(nil), (*One107_W1)(nil)}

func (*One107) XXX_OneofWrappers() []any { return wrappersOne107 }

type One108 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne108_0 `protobuf_oneof:"o0"`
}
type isOne108_0 interface{ isOne108_0() }
type One108_W0 struct {
	V []int32 `protobuf:"zigzag32,2,rep,name=v,oneof"`
}

func (*One108_W0) isOne108_0() {}

var wrappersOne108 = []any{(*One108_W0)(nil)}

func (*One108) XXX_OneofWrappers() []any { return wrappersOne108 }

type One109 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne109_0 `protobuf_oneof:"o0"`
}
type isOne109_0 interface{ isOne109_0() }
type One109_W0 struct {
	V []int32 `protobuf:"zigzag64,2,opt,name=v,oneof"`
}

func (*One109_W0) isOne109_0() {}

var wrappersOne109 = []any{(*One109_W0)(nil)}

func (*One109) ProtoReflect() any { return newReflect(wrappersOne109) }

type One110 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne110_0 `protobuf_oneof:"o0"`
}
type isOne110_0 interface{ isOne110_0() }
type One110_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One110_W0) isOne110_0() {}

type One110_W1 struct {
	V []int32 `protobuf:"zigzag64,2,rep,name=v,oneof"`
}

func (*One110_W1) isOne110_0() {}

var wrappersOne110 = []any{(*One110_W0)(nil), (*One110_W1)(nil)}

func (*One110) XXX_OneofWrappers() []any { return wrappersOne110 }

type One111 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne111_0 `protobuf_oneof:"o0"`
}
type isOne111_0 interface{ isOne111_0() }
type One111_W0 struct {
	V []int32 `protobuf:"fixed32,2,opt,name=v,oneof"`
}

func (*One111_W0) isOne111_0() {}

var wrappersOne111 = []any{(*One111_W0)(nil)}

func (*One111) XXX_OneofWrappers() []any { return wrappersOne111 }

type One112 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne112_0 `protobuf_oneof:"o0"`
}
type isOne112_0 interface{ isOne112_0() }
type One112_W0 struct {
	V []int32 `protobuf:"fixed32,2,rep,name=v,oneof"`
}

func (*One112_W0) isOne112_0() {}

var wrappersOne112 = []any{(*One112_W0)(nil)}

func (*One112) XXX_OneofWrappers() []any { return wrappersOne112 }

type One113 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne113_0 `protobuf_oneof:"o0"`
}
type isOne113_0 interface{ isOne113_0() }
type One113_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One113_W0) isOne113_0() {}

type One113_W1 struct {
	V []int32 `protobuf:"fixed64,2,opt,name=v,oneof"`
}

func (*One113_W1) isOne113_0() {}

var wrappersOne113 = []any{(*One113_W0)(nil), (*One113_W1)(nil)}

func (*One113) XXX_OneofWrappers() []any { return wrappersOne113 }

type One114 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne114_0 `protobuf_oneof:"o0"`
}
type isOne114_0 interface{ isOne114_0() }
type One114_W0 struct {
	V []int32 `protobuf:"fixed64,2,rep,name=v,oneof"`
}

func (*One114_W0) isOne114_0() {}

var wrappersOne114 = []any{(*One114_W0)(nil)}

func (*One114) ProtoReflect() any { return newReflect(wrappersOne114) }

type One115 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne115_0 `protobuf_oneof:"o0"`
}
type isOne115_0 interface{ isOne115_0() }
type One115_W0 struct {
	V []int32 `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One115_W0) isOne115_0() {}

var wrappersOne115 = []any{(*One115_W0)(nil)}

func (*One115) XXX_OneofWrappers() []any { return wrappersOne115 }

type One116 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne116_0 `protobuf_oneof:"o0"`
}
type isOne116_0 interface{ isOne116_0() }
type One116_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One116_W0) isOne116_0() {}

type One116_W1 struct {
	V []int32 `protobuf:"bytes,2,rep,name=v,oneof"`
}

func (*One116_W1) isOne116_0() {}

var wrappersOne116 = []any{(*One116_W0)(nil), (*One116_W1)(nil)}

func (*One116) XXX_OneofWrappers() []any { return wrappersOne116 }

type One117 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne117_0 `protobuf_oneof:"o0"`
}
type isOne117_0 interface{ isOne117_0() }
type One117_W0 struct {
	V []int32 `protobuf:"group,2,opt,name=v,oneof"`
}

func (*One117_W0) isOne117_0() {}

var wrappersOne117 = []any{(*One117_W0)(nil)}

func (*One117) XXX_OneofWrappers() []any { return wrappersOne117 }

type One118 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne118_0 `protobuf_oneof:"o0"`
}
type isOne118_0 interface{ isOne118_0() }
type One118_W0 struct {
	V []int32 `protobuf:"group,2,rep,name=v,oneof"`
}

func (*One118_W0) isOne118_0() {}

var wrappersOne118 = []any{(*One118_W0)(nil)}

func (*One118) XXX_OneofWrappers() []any { return wrappersOne118 }

type One119 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne119_0 `protobuf_oneof:"o0"`
}
type isOne119_0 interface{ isOne119_0() }
type One119_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One119_W0) isOne119_0() {}

type One119_W1 struct {
	V []string `protobuf:"varint,2,opt,name=v,oneof"`
}

func (*One119_W1) isOne119_0() {}

var wrappersOne119 = []any{(*One119_W0)(nil), (*One119_W1)(nil)}

func (*One119) ProtoReflect() any { return newReflect(wrappersOne119) }

type One120 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne120_0 `protobuf_oneof:"o0"`
}
type isOne120_0 interface{ isOne120_0() }
type One120_W0 struct {
	V []string `protobuf:"varint,2,rep,name=v,oneof"`
}

func (*One120_W0) isOne120_0() {}

var wrappersOne120 = []any{(*One120_W0)(nil)}

func (*One120) XXX_OneofWrappers() []any { return wrappersOne120 }

type One121 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne121_0 `protobuf_oneof:"o0"`
}
type isOne121_0 interface{ isOne121_0() }
type One121_W0 struct {
	V []string `protobuf:"zigzag32,2,opt,name=v,oneof"`
}

func (*One121_W0) isOne121_0() {}

var wrappersOne121 = []any{(*One121_W0)(nil)}

func (*One121) XXX_OneofWrappers() []any { return wrappersOne121 }

type One122 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne122_0 `protobuf_oneof:"o0"`
}
type isOne122_0 interface{ isOne122_0() }
type One122_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One122_W0) isOne122_0() {}

type One122_W1 struct {
	V []string `protobuf:"zigzag32,2,rep,name=v,oneof"`
}

func (*One122_W1) isOne122_0() {}

var wrappersOne122 = []any{(*One122_W0)(nil), (*One122_W1)(nil)}

func (*One122) XXX_OneofWrappers() []any { return wrappersOne122 }

type One123 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne123_0 `protobuf_oneof:"o0"`
}
type isOne123_0 interface{ isOne123_0() }
type One123_W0 struct {
	V []string `protobuf:"zigzag64,2,opt,name=v,oneof"`
}

func (*One123_W0) isOne123_0() {}

var wrappersOne123 = []any{(*One123_W0)(nil)}

func (*One123) XXX_OneofWrappers() []any { return wrappersOne123 }

type One124 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne124_0 `protobuf_oneof:"o0"`
}
type isOne124_0 interface{ isOne124_0() }
type One124_W0 struct {
	V []string `protobuf:"zigzag64,2,rep,name=v,oneof"`
}

func (*One124_W0) isOne124_0() {}

var wrappersOne124 = []any{(*One124_W0)(nil)}

func (*One124) ProtoReflect() any { return newReflect(wrappersOne124) }

type One125 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne125_0 `protobuf_oneof:"o0"`
}
type isOne125_0 interface{ isOne125_0() }
type One125_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One125_W0) isOne125_0() {}

type One125_W1 struct {
	V []string `protobuf:"fixed32,2,opt,name=v,oneof"`
}

func (*One125_W1) isOne125_0() {}

var wrappersOne125 = []any{(*One125_W0)(nil), (*One125_W1)(nil)}

func (*One125) XXX_OneofWrappers() []any { return wrappersOne125 }

type One126 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne126_0 `protobuf_oneof:"o0"`
}
type isOne126_0 interface{ isOne126_0() }
type One126_W0 struct {
	V []string `protobuf:"fixed32,2,rep,name=v,oneof"`
}

func (*One126_W0) isOne126_0() {}

var wrappersOne126 = []any{(*One126_W0)(nil)}

func (*One126) XXX_OneofWrappers() []any { return wrappersOne126 }

type One127 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne127_0 `protobuf_oneof:"o0"`
}
type isOne127_0 interface{ isOne127_0() }
type One127_W0 struct {
	V []string `protobuf:"fixed64,2,opt,name=v,oneof"`
}

func (*One127_W0) isOne127_0() {}

var wrappersOne127 = []any{(*One127_W0)(nil)}

func (*One127) XXX_OneofWrappers() []any { return wrappersOne127 }

type One128 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne128_0 `protobuf_oneof:"o0"`
}
type isOne128_0 interface{ isOne128_0() }
type One128_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One128_W0) isOne128_0() {}

type One128_W1 struct {
	V []string `protobuf:"fixed64,2,rep,name=v,oneof"`
}

func (*One128_W1) isOne128_0() {}

var wrappersOne128 = []any{(*One128_W0)(nil), (*One128_W1)(nil)}

func (*One128) XXX_OneofWrappers() []any { return wrappersOne128 }

type One129 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne129_0 `protobuf_oneof:"o0"`
}
type isOne129_0 interface{ isOne129_0() }
type One129_W0 struct {
	V []string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One129_W0) isOne129_0() {}

var wrappersOne129 = []any{(*One129_W0)(nil)}

func (*One129) ProtoReflect() any { return newReflect(wrappersOne129) }

type One130 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne130_0 `protobuf_oneof:"o0"`
}
type isOne130_0 interface{ isOne130_0() }
type One130_W0 struct {
	V []string `protobuf:"bytes,2,rep,name=v,oneof"`
}

func (*One130_W0) isOne130_0() {}

var wrappersOne130 = []any{(*One130_W0)(nil)}

func (*One130) XXX_OneofWrappers() []any { return wrappersOne130 }

type One131 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne131_0 `protobuf_oneof:"o0"`
}
type isOne131_0 interface{ isOne131_0() }
type One131_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One131_W0) isOne131_0() {}

type One131_W1 struct {
	V []string `protobuf:"group,2,opt,name=v,oneof"`
}

func (*One131_W1) isOne131_0() {}

var wrappersOne131 = []any{(*One131_W0)(nil), (*One131_W1)(nil)}

func (*One131) XXX_OneofWrappers() []any { return wrappersOne131 }

type One132 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne132_0 `protobuf_oneof:"o0"`
}
type isOne132_0 interface{ isOne132_0() }
type One132_W0 struct {
	V []string `protobuf:"group,2,rep,name=v,oneof"`
}

func (*One132_W0) isOne132_0() {}

var wrappersOne132 = []any{(*One132_W0)(nil)}

func (*One132) XXX_OneofWrappers() []any { return wrappersOne132 }

type One133 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne133_0 `protobuf_oneof:"o0"`
}
type isOne133_0 interface{ isOne133_0() }
type One133_W0 struct {
	V []*Leaf `protobuf:"varint,2,opt,name=v,oneof"`
}

func (*One133_W0) isOne133_0() {}

var wrappersOne133 = []any{(*One133_W0)(nil)}

func (*One133) XXX_OneofWrappers() []any { return wrappersOne133 }

type One134 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne134_0 `protobuf_oneof:"o0"`
}
type isOne134_0 interface{ isOne134_0() }
type One134_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One134_W0) isOne134_0() {}

type One134_W1 struct {
	V []*Leaf `protobuf:"varint,2,rep,name=v,oneof"`
}

func (*One134_W1) isOne134_0() {}

var wrappersOne134 = []any{(*One134_W0)(nil), (*One134_W1)(nil)}

func (*One134) ProtoReflect() any { return newReflect(wrappersOne134) }

type One135 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne135_0 `protobuf_oneof:"o0"`
}
type isOne135_0 interface{ isOne135_0() }
type One135_W0 struct {
	V []*Leaf `protobuf:"zigzag32,2,opt,name=v,oneof"`
}

func (*One135_W0) isOne135_0() {}

var wrappersOne135 = []any{(*One135_W0)(nil)}

func (*One135) XXX_OneofWrappers() []any { return wrappersOne135 }

type One136 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne136_0 `protobuf_oneof:"o0"`
}
type isOne136_0 interface{ isOne136_0() }
type One136_W0 struct {
	V []*Leaf `protobuf:"zigzag32,2,rep,name=v,oneof"`
}

func (*One136_W0) isOne136_0() {}

var wrappersOne136 = []any{(*One136_W0)(nil)}

func (*One136) XXX_OneofWrappers() []any { return wrappersOne136 }

type One137 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne137_0 `protobuf_oneof:"o0"`
}
type isOne137_0 interface{ isOne137_0() }
type One137_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One137_W0) isOne137_0() {}

type One137_W1 struct {
	V []*Leaf `protobuf:"zigzag64,2,opt,name=v,oneof"`
}

func (*One137_W1) isOne137_0() {}

var wrappersOne137 = []any{(*One137_W0)(nil), (*One137_W1)(nil)}

func (*One137) XXX_OneofWrappers() []any { return wrappersOne137 }

type One138 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne138_0 `protobuf_oneof:"o0"`
}
type isOne138_0 interface{ isOne138_0() }
type One138_W0 struct {
	V []*Leaf `protobuf:"zigzag64,2,rep,name=v,oneof"`
}

func (*One138_W0) isOne138_0() {}

var wrappersOne138 = []any{(*One138_W0)(nil)}

func (*One138) XXX_OneofWrappers() []any { return wrappersOne138 }

type One139 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne139_0 `protobuf_oneof:"o0"`
}
type isOne139_0 interface{ isOne139_0() }
type One139_W0 struct {
	V []*Leaf `protobuf:"fixed32,2,opt,name=v,oneof"`
}

func (*One139_W0) isOne139_0() {}

var wrappersOne139 = []any{(*One139_W0)(nil)}

func (*One139) ProtoReflect() any { return newReflect(wrappersOne139) }

type One140 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne140_0 `protobuf_oneof:"o0"`
}
type isOne140_0 interface{ isOne140_0() }
type One140_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One140_W0) isOne140_0() {}

type One140_W1 struct {
	V []*Leaf `protobuf:"fixed32,2,rep,name=v,oneof"`
}

func (*One140_W1) isOne140_0() {}

var wrappersOne140 = []any{(*One140_W0)(nil), (*One140_W1)(nil)}

func (*One140) XXX_OneofWrappers() []any { return wrappersOne140 }

type One141 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne141_0 `protobuf_oneof:"o0"`
}
type isOne141_0 interface{ isOne141_0() }
type One141_W0 struct {
	V []*Leaf `protobuf:"fixed64,2,opt,name=v,oneof"`
}

func (*One141_W0) isOne141_0() {}

var wrappersOne141 = []any{(*One141_W0)(nil)}

func (*One141) XXX_OneofWrappers() []any { return wrappersOne141 }

type One142 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne142_0 `protobuf_oneof:"o0"`
}
type isOne142_0 interface{ isOne142_0() }
type One142_W0 struct {
	V []*Leaf `protobuf:"fixed64,2,rep,name=v,oneof"`
}

func (*One142_W0) isOne142_0() {}

var wrappersOne142 = []any{(*One142_W0)(nil)}

func (*One142) XXX_OneofWrappers() []any { return wrappersOne142 }

type One143 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne143_0 `protobuf_oneof:"o0"`
}
type isOne143_0 interface{ isOne143_0() }
type One143_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One143_W0) isOne143_0() {}

type One143_W1 struct {
	V []*Leaf `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One143_W1) isOne143_0() {}

var wrappersOne143 = []any{(*One143_W0)(nil), (*One143_W1)(nil)}

func (*One143) XXX_OneofWrappers() []any { return wrappersOne143 }

type One144 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne144_0 `protobuf_oneof:"o0"`
}
type isOne144_0 interface{ isOne144_0() }
type One144_W0 struct {
	V []*Leaf `protobuf:"bytes,2,rep,name=v,oneof"`
}

func (*One144_W0) isOne144_0() {}

var wrappersOne144 = []any{(*One144_W0)(nil)}

func (*One144) ProtoReflect() any { return newReflect(wrappersOne144) }

type One145 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne145_0 `protobuf_oneof:"o0"`
}
type isOne145_0 interface{ isOne145_0() }
type One145_W0 struct {
	V []*Leaf `protobuf:"group,2,opt,name=v,oneof"`
}

func (*One145_W0) isOne145_0() {}

var wrappersOne145 = []any{(*One145_W0)(nil)}

func (*One145) XXX_OneofWrappers() []any { return wrappersOne145 }

type One146 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne146_0 `protobuf_oneof:"o0"`
}
type isOne146_0 interface{ isOne146_0() }
type One146_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One146_W0) isOne146_0() {}

type One146_W1 struct {
	V []*Leaf `protobuf:"group,2,rep,name=v,oneof"`
}

func (*One146_W1) isOne146_0() {}

var wrappersOne146 = []any{(*One146_W0)(nil), (*One146_W1)(nil)}

func (*One146) XXX_OneofWrappers() []any { return wrappersOne146 }

type One147 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne147_0 `protobuf_oneof:"o0"`
}
type isOne147_0 interface{ isOne147_0() }
type One147_W0 struct {
	V map[string]string `protobuf:"varint,2,opt,name=v,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

func (*One147_W0) isOne147_0() {}

var wrappersOne147 = []any{(*One147_W0)(nil)}

func (*One147) XXX_OneofWrappers() []any { return wrappersOne147 }

type One148 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne148_0 `protobuf_oneof:"o0"`
}
type isOne148_0 interface{ isOne148_0() }
type One148_W0 struct {
	V map[string]string `protobuf:"varint,2,rep,name=v,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

func (*One148_W0) isOne148_0() {}

var wrappersOne148 = []any{(*One148_W0)(nil)}

func (*One148) XXX_OneofWrappers() []any { return wrappersOne148 }

type One149 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne149_0 `protobuf_oneof:"o0"`
}
type isOne149_0 interface{ isOne149_0() }
type One149_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One149_W0) isOne149_0() {}

type One149_W1 struct {
	V map[string]string `protobuf:"zigzag32,2,opt,name=v,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

func (*One149_W1) isOne149_0() {}

var wrappersOne149 = []any{(*One149_W0)(nil), (*One149_W1)(nil)}

func (*One149) ProtoReflect() any { return newReflect(wrappersOne149) }

type One150 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne150_0 `protobuf_oneof:"o0"`
}
type isOne150_0 interface{ isOne150_0() }
type One150_W0 struct {
	V map[string]string `protobuf:"zigzag32,2,rep,name=v,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

func (*One150_W0) isOne150_0() {}

var wrappersOne150 = []any{(*One150_W0)(nil)}

func (*One150) XXX_OneofWrappers() []any { return wrappersOne150 }

type One151 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne151_0 `protobuf_oneof:"o0"`
}
type isOne151_0 interface{ isOne151_0() }
type One151_W0 struct {
	V map[string]string `protobuf:"zigzag64,2,opt,name=v,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

func (*One151_W0) isOne151_0() {}

var wrappersOne151 = []any{(*One151_W0)(nil)}

func (*One151) XXX_OneofWrappers() []any { return wrappersOne151 }

type One152 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne152_0 `protobuf_oneof:"o0"`
}
type isOne152_0 interface{ isOne152_0() }
type One152_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One152_W0) isOne152_0() {}

type One152_W1 struct {
	V map[string]string `protobuf:"zigzag64,2,rep,name=v,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

func (*One152_W1) isOne152_0() {}

var wrappersOne152 = []any{(*One152_W0)(nil), (*One152_W1)(nil)}

func (*One152) XXX_OneofWrappers() []any { return wrappersOne152 }

type One153 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne153_0 `protobuf_oneof:"o0"`
}
type isOne153_0 interface{ isOne153_0() }
type One153_W0 struct {
	V map[string]string `protobuf:"fixed32,2,opt,name=v,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

func (*One153_W0) isOne153_0() {}

var wrappersOne153 = []any{(*One153_W0)(nil)}

func (*One153) XXX_OneofWrappers() []any { return wrappersOne153 }

type One154 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne154_0 `protobuf_oneof:"o0"`
}
type isOne154_0 interface{ isOne154_0() }
type One154_W0 struct {
	V map[string]string `protobuf:"fixed32,2,rep,name=v,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

func (*One154_W0) isOne154_0() {}

var wrappersOne154 = []any{(*One154_W0)(nil)}

func (*One154) ProtoReflect() any { return newReflect(wrappersOne154) }

type One155 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne155_0 `protobuf_oneof:"o0"`
}
type isOne155_0 interface{ isOne155_0() }
type One155_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One155_W0) isOne155_0() {}

type One155_W1 struct {
	V map[string]string `protobuf:"fixed64,2,opt,name=v,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

func (*One155_W1) isOne155_0() {}

var wrappersOne155 = []any{(*One155_W0)(nil), (*One155_W1)(nil)}

func (*One155) XXX_OneofWrappers() []any { return wrappersOne155 }

type One156 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne156_0 `protobuf_oneof:"o0"`
}
type isOne156_0 interface{ isOne156_0() }
type One156_W0 struct {
	V map[string]string `protobuf:"fixed64,2,rep,name=v,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

func (*One156_W0) isOne156_0() {}

var wrappersOne156 = []any{(*One156_W0)(nil)}

func (*One156) XXX_OneofWrappers() []any { return wrappersOne156 }

type One157 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne157_0 `protobuf_oneof:"o0"`
}
type isOne157_0 interface{ isOne157_0() }
type One157_W0 struct {
	V map[string]string `protobuf:"bytes,2,opt,name=v,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

func (*One157_W0) isOne157_0() {}

var wrappersOne157 = []any{(*One157_W0)(nil)}

func (*One157) XXX_OneofWrappers() []any { return wrappersOne157 }

type One158 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne158_0 `protobuf_oneof:"o0"`
}
type isOne158_0 interface{ isOne158_0() }
type One158_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One158_W0) isOne158_0() {}

type One158_W1 struct {
	V map[string]string `protobuf:"bytes,2,rep,name=v,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

func (*One158_W1) isOne158_0() {}

var wrappersOne158 = []any{(*One158_W0)(nil), (*One158_W1)(nil)}

func (*One158) XXX_OneofWrappers() []any { return wrappersOne158 }

type One159 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne159_0 `protobuf_oneof:"o0"`
}
type isOne159_0 interface{ isOne159_0() }
type One159_W0 struct {
	V map[string]string `protobuf:"group,2,opt,name=v,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

func (*One159_W0) isOne159_0() {}

var wrappersOne159 = []any{(*One159_W0)(nil)}

func (*One159) ProtoReflect() any { return newReflect(wrappersOne159) }

type One160 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne160_0 `protobuf_oneof:"o0"`
}
type isOne160_0 interface{ isOne160_0() }
type One160_W0 struct {
	V map[string]string `protobuf:"group,2,rep,name=v,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

func (*One160_W0) isOne160_0() {}

var wrappersOne160 = []any{(*One160_W0)(nil)}

func (*One160) XXX_OneofWrappers() []any { return wrappersOne160 }

type One161 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne161_0 `protobuf_oneof:"o0"`
}
type isOne161_0 interface{ isOne161_0() }
type One161_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One161_W0) isOne161_0() {}

type One161_W1 struct {
	V map[int32]*Leaf `protobuf:"varint,2,opt,name=v,oneof" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

func (*One161_W1) isOne161_0() {}

var wrappersOne161 = []any{(*One161_W0)(nil), (*One161_W1)(nil)}

func (*One161) XXX_OneofWrappers() []any { return wrappersOne161 }

type One162 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne162_0 `protobuf_oneof:"o0"`
}
type isOne162_0 interface{ isOne162_0() }
type One162_W0 struct {
	V map[int32]*Leaf `protobuf:"varint,2,rep,name=v,oneof" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

func (*One162_W0) isOne162_0() {}

var wrappersOne162 = []any{(*One162_W0)(nil)}

func (*One162) XXX_OneofWrappers() []any { return wrappersOne162 }

type One163 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne163_0 `protobuf_oneof:"o0"`
}
type isOne163_0 interface{ isOne163_0() }
type One163_W0 struct {
	V map[int32]*Leaf `protobuf:"zigzag32,2,opt,name=v,oneof" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

func (*One163_W0) isOne163_0() {}

var wrappersOne163 = []any{(*One163_W0)(nil)}

func (*One163) XXX_OneofWrappers() []any { return wrappersOne163 }

type One164 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne164_0 `protobuf_oneof:"o0"`
}
type isOne164_0 interface{ isOne164_0() }
type One164_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One164_W0) isOne164_0() {}

type One164_W1 struct {
	V map[int32]*Leaf `protobuf:"zigzag32,2,rep,name=v,oneof" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

func (*One164_W1) isOne164_0() {}

var wrappersOne164 = []any{(*One164_W0)(nil), (*One164_W1)(nil)}

func (*One164) ProtoReflect() any { return newReflect(wrappersOne164) }

type One165 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne165_0 `protobuf_oneof:"o0"`
}
type isOne165_0 interface{ isOne165_0() }
type One165_W0 struct {
	V map[int32]*Leaf `protobuf:"zigzag64,2,opt,name=v,oneof" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

func (*One165_W0) isOne165_0() {}

var wrappersOne165 = []any{(*One165_W0)(nil)}

func (*One165) XXX_OneofWrappers() []any { return wrappersOne165 }

type One166 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne166_0 `protobuf_oneof:"o0"`
}
type isOne166_0 interface{ isOne166_0() }
type One166_W0 struct {
	V map[int32]*Leaf `protobuf:"zigzag64,2,rep,name=v,oneof" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

func (*One166_W0) isOne166_0() {}

var wrappersOne166 = []any{(*One166_W0)(nil)}

func (*One166) XXX_OneofWrappers() []any { return wrappersOne166 }

type One167 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne167_0 `protobuf_oneof:"o0"`
}
type isOne167_0 interface{ isOne167_0() }
type One167_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One167_W0) isOne167_0() {}

type One167_W1 struct {
	V map[int32]*Leaf `protobuf:"fixed32,2,opt,name=v,oneof" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

func (*One167_W1) isOne167_0() {}

var wrappersOne167 = []any{(*One167_W0)(nil), (*One167_W1)(nil)}

func (*One167) XXX_OneofWrappers() []any { return wrappersOne167 }

type One168 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne168_0 `protobuf_oneof:"o0"`
}
type isOne168_0 interface{ isOne168_0() }
type One168_W0 struct {
	V map[int32]*Leaf `protobuf:"fixed32,2,rep,name=v,oneof" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

func (*One168_W0) isOne168_0() {}

var wrappersOne168 = []any{(*One168_W0)(nil)}

func (*One168) XXX_OneofWrappers() []any { return wrappersOne168 }

type One169 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne169_0 `protobuf_oneof:"o0"`
}
type isOne169_0 interface{ isOne169_0() }
type One169_W0 struct {
	V map[int32]*Leaf `protobuf:"fixed64,2,opt,name=v,oneof" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

func (*One169_W0) isOne169_0() {}

var wrappersOne169 = []any{(*One169_W0)(nil)}

func (*One169) ProtoReflect() any { return newReflect(wrappersOne169) }

type One170 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne170_0 `protobuf_oneof:"o0"`
}
type isOne170_0 interface{ isOne170_0() }
type One170_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One170_W0) isOne170_0() {}

type One170_W1 struct {
	V map[int32]*Leaf `protobuf:"fixed64,2,rep,name=v,oneof" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

func (*One170_W1) isOne170_0() {}

var wrappersOne170 = []any{(*One170_W0)(nil), (*One170_W1)(nil)}

func (*One170) XXX_OneofWrappers() []any { return wrappersOne170 }

type One171 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne171_0 `protobuf_oneof:"o0"`
}
type isOne171_0 interface{ isOne171_0() }
type One171_W0 struct {
	V map[int32]*Leaf `protobuf:"bytes,2,opt,name=v,oneof" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

func (*One171_W0) isOne171_0() {}

var wrappersOne171 = []any{(*One171_W0)(nil)}

func (*One171) XXX_OneofWrappers() []any { return wrappersOne171 }

type One172 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne172_0 `protobuf_oneof:"o0"`
}
type isOne172_0 interface{ isOne172_0() }
type One172_W0 struct {
	V map[int32]*Leaf `protobuf:"bytes,2,rep,name=v,oneof" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

func (*One172_W0) isOne172_0() {}

var wrappersOne172 = []any{(*One172_W0)(nil)}

func (*One172) XXX_OneofWrappers() []any { return wrappersOne172 }

type One173 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne173_0 `protobuf_oneof:"o0"`
}
type isOne173_0 interface{ isOne173_0() }
type One173_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One173_W0) isOne173_0() {}

type One173_W1 struct {
	V map[int32]*Leaf `protobuf:"group,2,opt,name=v,oneof" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

func (*One173_W1) isOne173_0() {}

var wrappersOne173 = []any{(*One173_W0)(nil), (*One173_W1)(nil)}

func (*One173) XXX_OneofWrappers() []any { return wrappersOne173 }

type One174 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne174_0 `protobuf_oneof:"o0"`
}
type isOne174_0 interface{ isOne174_0() }
type One174_W0 struct {
	V map[int32]*Leaf `protobuf:"group,2,rep,name=v,oneof" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

func (*One174_W0) isOne174_0() {}

var wrappersOne174 = []any{(*One174_W0)(nil)}

func (*One174) ProtoReflect() any { return newReflect(wrappersOne174) }

type One175 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne175_0 `protobuf_oneof:"o0"`
}
type isOne175_0 interface{ isOne175_0() }
type One175_W0 struct {
	V **Leaf `protobuf:"varint,2,opt,name=v,oneof"`
}

func (*One175_W0) isOne175_0() {}

var wrappersOne175 = []any{(*One175_W0)(nil)}

func (*One175) XXX_OneofWrappers() []any { return wrappersOne175 }

type One176 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne176_0 `protobuf_oneof:"o0"`
}
type isOne176_0 interface{ isOne176_0() }
type One176_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One176_W0) isOne176_0() {}

type One176_W1 struct {
	V **Leaf `protobuf:"varint,2,rep,name=v,oneof"`
}

func (*One176_W1) isOne176_0() {}

var wrappersOne176 = []any{(*One176_W0)(nil), (*One176_W1)(nil)}

func (*One176) XXX_OneofWrappers() []any { return wrappersOne176 }

type One177 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne177_0 `protobuf_oneof:"o0"`
}
type isOne177_0 interface{ isOne177_0() }
type One177_W0 struct {
	V **Leaf `protobuf:"zigzag32,2,opt,name=v,oneof"`
}

func (*One177_W0) isOne177_0() {}

var wrappersOne177 = []any{(*One177_W0)(nil)}

func (*One177) XXX_OneofWrappers() []any { return wrappersOne177 }

type One178 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne178_0 `protobuf_oneof:"o0"`
}
type isOne178_0 interface{ isOne178_0() }
type One178_W0 struct {
	V **Leaf `protobuf:"zigzag32,2,rep,name=v,oneof"`
}

func (*One178_W0) isOne178_0() {}

var wrappersOne178 = []any{(*One178_W0)(nil)}

func (*One178) XXX_OneofWrappers() []any { return wrappersOne178 }

type One179 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne179_0 `protobuf_oneof:"o0"`
}
type isOne179_0 interface{ isOne179_0() }
type One179_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One179_W0) isOne179_0() {}

type One179_W1 struct {
	V **Leaf `protobuf:"zigzag64,2,opt,name=v,oneof"`
}

func (*One179_W1) isOne179_0() {}

var wrappersOne179 = []any{(*One179_W0)(nil), (*One179_W1)(nil)}

func (*One179) ProtoReflect() any { return newReflect(wrappersOne179) }

type One180 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne180_0 `protobuf_oneof:"o0"`
}
type isOne180_0 interface{ isOne180_0() }
type One180_W0 struct {
	V **Leaf `protobuf:"zigzag64,2,rep,name=v,oneof"`
}

func (*One180_W0) isOne180_0() {}

var wrappersOne180 = []any{(*One180_W0)(nil)}

func (*One180) XXX_OneofWrappers() []any { return wrappersOne180 }

type One181 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne181_0 `protobuf_oneof:"o0"`
}
type isOne181_0 interface{ isOne181_0() }
type One181_W0 struct {
	V **Leaf `protobuf:"fixed32,2,opt,name=v,oneof"`
}

func (*One181_W0) isOne181_0() {}

var wrappersOne181 = []any{(*One181_W0)(nil)}

func (*One181) XXX_OneofWrappers() []any { return wrappersOne181 }

type One182 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne182_0 `protobuf_oneof:"o0"`
}
type isOne182_0 interface{ isOne182_0() }
type One182_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One182_W0) isOne182_0() {}

type One182_W1 struct {
	V **Leaf `protobuf:"fixed32,2,rep,name=v,oneof"`
}

func (*One182_W1) isOne182_0() {}

var wrappersOne182 = []any{(*One182_W0)(nil), (*One182_W1)(nil)}

func (*One182) XXX_OneofWrappers() []any { return wrappersOne182 }

type One183 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne183_0 `protobuf_oneof:"o0"`
}
type isOne183_0 interface{ isOne183_0() }
type One183_W0 struct {
	V **Leaf `protobuf:"fixed64,2,opt,name=v,oneof"`
}

func (*One183_W0) isOne183_0() {}

var wrappersOne183 = []any{(*One183_W0)(nil)}

func (*One183) XXX_OneofWrappers() []any { return wrappersOne183 }

type One184 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne184_0 `protobuf_oneof:"o0"`
}
type isOne184_0 interface{ isOne184_0() }
type One184_W0 struct {
	V **Leaf `protobuf:"fixed64,2,rep,name=v,oneof"`
}

func (*One184_W0) isOne184_0() {}

var wrappersOne184 = []any{(*One184_W0)(nil)}

func (*One184) ProtoReflect() any { return newReflect(wrappersOne184) }

type One185 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne185_0 `protobuf_oneof:"o0"`
}
type isOne185_0 interface{ isOne185_0() }
type One185_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One185_W0) isOne185_0() {}

type One185_W1 struct {
	V **Leaf `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One185_W1) isOne185_0() {}

var wrappersOne185 = []any{(*One185_W0)(nil), (*One185_W1)(nil)}

func (*One185) XXX_OneofWrappers() []any { return wrappersOne185 }

type One186 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne186_0 `protobuf_oneof:"o0"`
}
type isOne186_0 interface{ isOne186_0() }
type One186_W0 struct {
	V **Leaf `protobuf:"bytes,2,rep,name=v,oneof"`
}

func (*One186_W0) isOne186_0() {}

var wrappersOne186 = []any{(*One186_W0)(nil)}

func (*One186) XXX_OneofWrappers() []any { return wrappersOne186 }

type One187 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne187_0 `protobuf_oneof:"o0"`
}
type isOne187_0 interface{ isOne187_0() }
type One187_W0 struct {
	V **Leaf `protobuf:"group,2,opt,name=v,oneof"`
}

func (*One187_W0) isOne187_0() {}

var wrappersOne187 = []any{(*One187_W0)(nil)}

func (*One187) XXX_OneofWrappers() []any { return wrappersOne187 }

type One188 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne188_0 `protobuf_oneof:"o0"`
}
type isOne188_0 interface{ isOne188_0() }
type One188_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One188_W0) isOne188_0() {}

type One188_W1 struct {
	V **Leaf `protobuf:"group,2,rep,name=v,oneof"`
}

func (*One188_W1) isOne188_0() {}

var wrappersOne188 = []any{(*One188_W0)(nil), (*One188_W1)(nil)}

func (*One188) XXX_OneofWrappers() []any { return wrappersOne188 }

type One189 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne189_0 `protobuf_oneof:"o0"`
}
type isOne189_0 interface{ isOne189_0() }
type One189_W0 struct {
	V [4]byte `protobuf:"varint,2,opt,name=v,oneof"`
}

func (*One189_W0) isOne189_0() {}

var wrappersOne189 = []any{(*One189_W0)(nil)}

func (*One189) ProtoReflect() any { return newReflect(wrappersOne189) }

type One190 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne190_0 `protobuf_oneof:"o0"`
}
type isOne190_0 interface{ isOne190_0() }
type One190_W0 struct {
	V [4]byte `protobuf:"varint,2,rep,name=v,oneof"`
}

func (*One190_W0) isOne190_0() {}

var wrappersOne190 = []any{(*One190_W0)(nil)}

func (*One190) XXX_OneofWrappers() []any { return wrappersOne190 }

type One191 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne191_0 `protobuf_oneof:"o0"`
}
type isOne191_0 interface{ isOne191_0() }
type One191_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One191_W0) isOne191_0() {}

type One191_W1 struct {
	V [4]byte `protobuf:"zigzag32,2,opt,name=v,oneof"`
}

func (*One191_W1) isOne191_0() {}

var wrappersOne191 = []any{(*One191_W0)(nil), (*One191_W1)(nil)}

func (*One191) XXX_OneofWrappers() []any { return wrappersOne191 }

type One192 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne192_0 `protobuf_oneof:"o0"`
}
type isOne192_0 interface{ isOne192_0() }
type One192_W0 struct {
	V [4]byte `protobuf:"zigzag32,2,rep,name=v,oneof"`
}

func (*One192_W0) isOne192_0() {}

var wrappersOne192 = []any{(*One192_W0)(nil)}

func (*One192) XXX_OneofWrappers() []any { return wrappersOne192 }

type One193 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne193_0 `protobuf_oneof:"o0"`
}
type isOne193_0 interface{ isOne193_0() }
type One193_W0 struct {
	V [4]byte `protobuf:"zigzag64,2,opt,name=v,oneof"`
}

func (*One193_W0) isOne193_0() {}

var wrappersOne193 = []any{(*One193_W0)(nil)}

func (*One193) XXX_OneofWrappers() []any { return wrappersOne193 }

type One194 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne194_0 `protobuf_oneof:"o0"`
}
type isOne194_0 interface{ isOne194_0() }
type One194_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One194_W0) isOne194_0() {}

type One194_W1 struct {
	V [4]byte `protobuf:"zigzag64,2,rep,name=v,oneof"`
}

func (*One194_W1) isOne194_0() {}

var wrappersOne194 = []any{(*One194_W0)(nil), (*One194_W1)(nil)}

func (*One194) ProtoReflect() any { return newReflect(wrappersOne194) }

type One195 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne195_0 `protobuf_oneof:"o0"`
}
type isOne195_0 interface{ isOne195_0() }
type One195_W0 struct {
	V [4]byte `protobuf:"fixed32,2,opt,name=v,oneof"`
}

func (*One195_W0) isOne195_0() {}

var wrappersOne195 = []any{(*One195_W0)(nil)}

func (*One195) XXX_OneofWrappers() []any { return wrappersOne195 }

type One196 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne196_0 `protobuf_oneof:"o0"`
}
type isOne196_0 interface{ isOne196_0() }
type One196_W0 struct {
	V [4]byte `protobuf:"fixed32,2,rep,name=v,oneof"`
}

func (*One196_W0) isOne196_0() {}

var wrappersOne196 = []any{(*One196_W0)(nil)}

func (*One196) XXX_OneofWrappers() []any { return wrappersOne196 }

type One197 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne197_0 `protobuf_oneof:"o0"`
}
type isOne197_0 interface{ isOne197_0() }
type One197_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One197_W0) isOne197_0() {}

type One197_W1 struct {
	V [4]byte `protobuf:"fixed64,2,opt,name=v,oneof"`
}

func (*One197_W1) isOne197_0() {}

var wrappersOne197 = []any{(*One197_W0)(nil), (*One197_W1)(nil)}

func (*One197) XXX_OneofWrappers() []any { return wrappersOne197 }

type One198 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne198_0 `protobuf_oneof:"o0"`
}
type isOne198_0 interface{ isOne198_0() }
type One198_W0 struct {
	V [4]byte `protobuf:"fixed64,2,rep,name=v,oneof"`
}

func (*One198_W0) isOne198_0() {}

var wrappersOne198 = []any{(*One198_W0)(nil)}

func (*One198) XXX_OneofWrappers() []any { return wrappersOne198 }

type One199 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne199_0 `protobuf_oneof:"o0"`
}
type isOne199_0 interface{ isOne199_0() }
type One199_W0 struct {
	V [4]byte `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One199_W0) isOne199_0() {}

var wrappersOne199 = []any{(*One199_W0)(nil)}

func (*One199) ProtoReflect() any { return newReflect(wrappersOne199) }

type One200 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne200_0 `protobuf_oneof:"o0"`
}
type isOne200_0 interface{ isOne200_0() }
type One200_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One200_W0) isOne200_0() {}

type One200_W1 struct {
	V [4]byte `protobuf:"bytes,2,rep,name=v,oneof"`
}

func (*One200_W1) isOne200_0() {}

var wrappersOne200 = []any{(*One200_W0)(nil), (*One200_W1)(nil)}

func (*One200) XXX_OneofWrappers() []any { return wrappersOne200 }

type One201 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne201_0 `protobuf_oneof:"o0"`
}
type isOne201_0 interface{ isOne201_0() }
type One201_W0 struct {
	V [4]byte `protobuf:"group,2,opt,name=v,oneof"`
}

func (*One201_W0) isOne201_0() {}

var wrappersOne201 = []any{(*One201_W0)(nil)}

func (*One201) XXX_OneofWrappers() []any { return wrappersOne201 }

type One202 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne202_0 `protobuf_oneof:"o0"`
}
type isOne202_0 interface{ isOne202_0() }
type One202_W0 struct {
	V [4]byte `protobuf:"group,2,rep,name=v,oneof"`
}

func (*One202_W0) isOne202_0() {}

var wrappersOne202 = []any{(*One202_W0)(nil)}

func (*One202) XXX_OneofWrappers() []any { return wrappersOne202 }

type One203 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne203_0 `protobuf_oneof:"o0"`
}
type isOne203_0 interface{ isOne203_0() }
type One203_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One203_W0) isOne203_0() {}

type One203_W1 struct {
	V any `protobuf:"varint,2,opt,name=v,oneof"`
}

func (*One203_W1) isOne203_0() {}

var wrappersOne203 = []any{(*One203_W0)(nil), (*One203_W1)(nil)}

func (*One203) XXX_OneofWrappers() []any { return wrappersOne203 }

type One204 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne204_0 `protobuf_oneof:"o0"`
}
type isOne204_0 interface{ isOne204_0() }
type One204_W0 struct {
	V any `protobuf:"zigzag32,2,opt,name=v,oneof"`
}

func (*One204_W0) isOne204_0() {}

var wrappersOne204 = []any{(*One204_W0)(nil)}

func (*One204) ProtoReflect() any { return newReflect(wrappersOne204) }

type One205 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne205_0 `protobuf_oneof:"o0"`
}
type isOne205_0 interface{ isOne205_0() }
type One205_W0 struct {
	V any `protobuf:"zigzag64,2,opt,name=v,oneof"`
}

func (*One205_W0) isOne205_0() {}

var wrappersOne205 = []any{(*One205_W0)(nil)}

func (*One205) XXX_OneofWrappers() []any { return wrappersOne205 }

type One206 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne206_0 `protobuf_oneof:"o0"`
}
type isOne206_0 interface{ isOne206_0() }
type One206_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One206_W0) isOne206_0() {}

type One206_W1 struct {
	V any `protobuf:"fixed32,2,opt,name=v,oneof"`
}

func (*One206_W1) isOne206_0() {}

var wrappersOne206 = []any{(*One206_W0)(nil), (*One206_W1)(nil)}

func (*One206) XXX_OneofWrappers() []any { return wrappersOne206 }

type One207 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne207_0 `protobuf_oneof:"o0"`
}
type isOne207_0 interface{ isOne207_0() }
type One207_W0 struct {
	V any `protobuf:"fixed64,2,opt,name=v,oneof"`
}

func (*One207_W0) isOne207_0() {}

var wrappersOne207 = []any{(*One207_W0)(nil)}

func (*One207) XXX_OneofWrappers() []any { return wrappersOne207 }

type One208 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne208_0 `protobuf_oneof:"o0"`
}
type isOne208_0 interface{ isOne208_0() }
type One208_W0 struct {
	V any `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One208_W0) isOne208_0() {}

var wrappersOne208 = []any{(*One208_W0)(nil)}

func (*One208) XXX_OneofWrappers() []any { return wrappersOne208 }

type One209 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne209_0 `protobuf_oneof:"o0"`
}
type isOne209_0 interface{ isOne209_0() }
type One209_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One209_W0) isOne209_0() {}

type One209_W1 struct {
	V any `protobuf:"group,2,opt,name=v,oneof"`
}

func (*One209_W1) isOne209_0() {}

var wrappersOne209 = []any{(*One209_W0)(nil), (*One209_W1)(nil)}

func (*One209) ProtoReflect() any { return newReflect(wrappersOne209) }

type One210 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne210_0 `protobuf_oneof:"o0"`
}
type isOne210_0 interface{ isOne210_0() }
type One210_W0 struct {
	V chan int `protobuf:"varint,2,opt,name=v,oneof"`
}

func (*One210_W0) isOne210_0() {}

var wrappersOne210 = []any{(*One210_W0)(nil)}

func (*One210) XXX_OneofWrappers() []any { return wrappersOne210 }

type One211 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne211_0 `protobuf_oneof:"o0"`
}
type isOne211_0 interface{ isOne211_0() }
type One211_W0 struct {
	V chan int `protobuf:"zigzag32,2,opt,name=v,oneof"`
}

func (*One211_W0) isOne211_0() {}

var wrappersOne211 = []any{(*One211_W0)(nil)}

func (*One211) XXX_OneofWrappers() []any { return wrappersOne211 }

type One212 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne212_0 `protobuf_oneof:"o0"`
}
type isOne212_0 interface{ isOne212_0() }
type One212_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One212_W0) isOne212_0() {}

type One212_W1 struct {
	V chan int `protobuf:"zigzag64,2,opt,name=v,oneof"`
}

func (*One212_W1) isOne212_0() {}

var wrappersOne212 = []any{(*One212_W0)(nil), (*One212_W1)(nil)}

func (*One212) XXX_OneofWrappers() []any { return wrappersOne212 }

type One213 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne213_0 `protobuf_oneof:"o0"`
}
type isOne213_0 interface{ isOne213_0() }
type One213_W0 struct {
	V chan int `protobuf:"fixed32,2,opt,name=v,oneof"`
}

func (*One213_W0) isOne213_0() {}

var wrappersOne213 = []any{(*One213_W0)(nil)}

func (*One213) XXX_OneofWrappers() []any { return wrappersOne213 }

type One214 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne214_0 `protobuf_oneof:"o0"`
}
type isOne214_0 interface{ isOne214_0() }
type One214_W0 struct {
	V chan int `protobuf:"fixed64,2,opt,name=v,oneof"`
}

func (*One214_W0) isOne214_0() {}

var wrappersOne214 = []any{(*One214_W0)(nil)}

func (*One214) ProtoReflect() any { return newReflect(wrappersOne214) }

type One215 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne215_0 `protobuf_oneof:"o0"`
}
type isOne215_0 interface{ isOne215_0() }
type One215_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One215_W0) isOne215_0() {}

type One215_W1 struct {
	V chan int `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One215_W1) isOne215_0() {}

var wrappersOne215 = []any{(*One215_W0)(nil), (*One215_W1)(nil)}

func (*One215) XXX_OneofWrappers() []any { return wrappersOne215 }

type One216 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne216_0 `protobuf_oneof:"o0"`
}
type isOne216_0 interface{ isOne216_0() }
type One216_W0 struct {
	V chan int `protobuf:"group,2,opt,name=v,oneof"`
}

func (*One216_W0) isOne216_0() {}

var wrappersOne216 = []any{(*One216_W0)(nil)}

func (*One216) XXX_OneofWrappers() []any { return wrappersOne216 }

type One217 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne217_0 `protobuf_oneof:"o0"`
}
type isOne217_0 interface{ isOne217_0() }
type One217_W0 struct {
	V *[]byte `protobuf:"varint,2,opt,name=v,oneof"`
}

func (*One217_W0) isOne217_0() {}

var wrappersOne217 = []any{(*One217_W0)(nil)}

func (*One217) XXX_OneofWrappers() []any { return wrappersOne217 }

type One218 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne218_0 `protobuf_oneof:"o0"`
}
type isOne218_0 interface{ isOne218_0() }
type One218_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One218_W0) isOne218_0() {}

type One218_W1 struct {
	V *[]byte `protobuf:"varint,2,rep,name=v,oneof"`
}

func (*One218_W1) isOne218_0() {}

var wrappersOne218 = []any{(*One218_W0)(nil), (*One218_W1)(nil)}

func (*One218) XXX_OneofWrappers() []any { return wrappersOne218 }

type One219 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne219_0 `protobuf_oneof:"o0"`
}
type isOne219_0 interface{ isOne219_0() }
type One219_W0 struct {
	V *[]byte `protobuf:"zigzag32,2,opt,name=v,oneof"`
}

func (*One219_W0) isOne219_0() {}

var wrappersOne219 = []any{(*One219_W0)(nil)}

func (*One219) ProtoReflect() any { return newReflect(wrappersOne219) }

type One220 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne220_0 `protobuf_oneof:"o0"`
}
type isOne220_0 interface{ isOne220_0() }
type One220_W0 struct {
	V *[]byte `protobuf:"zigzag32,2,rep,name=v,oneof"`
}

func (*One220_W0) isOne220_0() {}

var wrappersOne220 = []any{(*One220_W0)(nil)}

func (*One220) XXX_OneofWrappers() []any { return wrappersOne220 }

type One221 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne221_0 `protobuf_oneof:"o0"`
}
type isOne221_0 interface{ isOne221_0() }
type One221_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One221_W0) isOne221_0() {}

type One221_W1 struct {
	V *[]byte `protobuf:"zigzag64,2,opt,name=v,oneof"`
}

func (*One221_W1) isOne221_0() {}

var wrappersOne221 = []any{(*One221_W0)(nil), (*One221_W1)(nil)}

func (*One221) XXX_OneofWrappers() []any { return wrappersOne221 }

type One222 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne222_0 `protobuf_oneof:"o0"`
}
type isOne222_0 interface{ isOne222_0() }
type One222_W0 struct {
	V *[]byte `protobuf:"zigzag64,2,rep,name=v,oneof"`
}

func (*One222_W0) isOne222_0() {}

var wrappersOne222 = []any{(*One222_W0)(nil)}

func (*One222) XXX_OneofWrappers() []any { return wrappersOne222 }

type One223 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne223_0 `protobuf_oneof:"o0"`
}
type isOne223_0 interface{ isOne223_0() }
type One223_W0 struct {
	V *[]byte `protobuf:"fixed32,2,opt,name=v,oneof"`
}

func (*One223_W0) isOne223_0() {}

var wrappersOne223 = []any{(*One223_W0)(nil)}

func (*One223) XXX_OneofWrappers() []any { return wrappersOne223 }

type One224 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne224_0 `protobuf_oneof:"o0"`
}
type isOne224_0 interface{ isOne224_0() }
type One224_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One224_W0) isOne224_0() {}

type One224_W1 struct {
	V *[]byte `protobuf:"fixed32,2,rep,name=v,oneof"`
}

func (*One224_W1) isOne224_0() {}

var wrappersOne224 = []any{(*One224_W0)(nil), (*One224_W1)(nil)}

func (*One224) ProtoReflect() any { return newReflect(wrappersOne224) }

type One225 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne225_0 `protobuf_oneof:"o0"`
}
type isOne225_0 interface{ isOne225_0() }
type One225_W0 struct {
	V *[]byte `protobuf:"fixed64,2,opt,name=v,oneof"`
}

func (*One225_W0) isOne225_0() {}

var wrappersOne225 = []any{(*One225_W0)(nil)}

func (*One225) XXX_OneofWrappers() []any { return wrappersOne225 }

type One226 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne226_0 `protobuf_oneof:"o0"`
}
type isOne226_0 interface{ isOne226_0() }
type One226_W0 struct {
	V *[]byte `protobuf:"fixed64,2,rep,name=v,oneof"`
}

func (*One226_W0) isOne226_0() {}

var wrappersOne226 = []any{(*One226_W0)(nil)}

func (*One226) XXX_OneofWrappers() []any { return wrappersOne226 }

type One227 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne227_0 `protobuf_oneof:"o0"`
}
type isOne227_0 interface{ isOne227_0() }
type One227_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One227_W0) isOne227_0() {}

type One227_W1 struct {
	V *[]byte `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One227_W1) isOne227_0() {}

var wrappersOne227 = []any{(*One227_W0)(nil), (*One227_W1)(nil)}

func (*One227) XXX_OneofWrappers() []any { return wrappersOne227 }

type One228 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne228_0 `protobuf_oneof:"o0"`
}
type isOne228_0 interface{ isOne228_0() }
type One228_W0 struct {
	V *[]byte `protobuf:"bytes,2,rep,name=v,oneof"`
}

func (*One228_W0) isOne228_0() {}

var wrappersOne228 = []any{(*One228_W0)(nil)}

func (*One228) XXX_OneofWrappers() []any { return wrappersOne228 }

type One229 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne229_0 `protobuf_oneof:"o0"`
}
type isOne229_0 interface{ isOne229_0() }
type One229_W0 struct {
	V *[]byte `protobuf:"group,2,opt,name=v,oneof"`
}

func (*One229_W0) isOne229_0() {}

var wrappersOne229 = []any{(*One229_W0)(nil)}

func (*One229) ProtoReflect() any { return newReflect(wrappersOne229) }

type One230 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne230_0 `protobuf_oneof:"o0"`
}
type isOne230_0 interface{ isOne230_0() }
type One230_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One230_W0) isOne230_0() {}

type One230_W1 struct {
	V *[]byte `protobuf:"group,2,rep,name=v,oneof"`
}

func (*One230_W1) isOne230_0() {}

var wrappersOne230 = []any{(*One230_W0)(nil), (*One230_W1)(nil)}

func (*One230) XXX_OneofWrappers() []any { return wrappersOne230 }

type One231 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne231_0 `protobuf_oneof:"o0"`
}
type isOne231_0 interface{ isOne231_0() }
type One231_W0 struct {
	V [][]byte `protobuf:"varint,2,opt,name=v,oneof"`
}

func (*One231_W0) isOne231_0() {}

var wrappersOne231 = []any{(*One231_W0)(nil)}

func (*One231) XXX_OneofWrappers() []any { return wrappersOne231 }

type One232 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne232_0 `protobuf_oneof:"o0"`
}
type isOne232_0 interface{ isOne232_0() }
type One232_W0 struct {
	V [][]byte `protobuf:"varint,2,rep,name=v,oneof"`
}

func (*One232_W0) isOne232_0() {}

var wrappersOne232 = []any{(*One232_W0)(nil)}

func (*One232) XXX_OneofWrappers() []any { return wrappersOne232 }

type One233 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne233_0 `protobuf_oneof:"o0"`
}
type isOne233_0 interface{ isOne233_0() }
type One233_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One233_W0) isOne233_0() {}

type One233_W1 struct {
	V [][]byte `protobuf:"zigzag32,2,opt,name=v,oneof"`
}

func (*One233_W1) isOne233_0() {}

var wrappersOne233 = []any{(*One233_W0)(nil), (*One233_W1)(nil)}

func (*One233) XXX_OneofWrappers() []any { return wrappersOne233 }

type One234 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne234_0 `protobuf_oneof:"o0"`
}
type isOne234_0 interface{ isOne234_0() }
type One234_W0 struct {
	V [][]byte `protobuf:"zigzag32,2,rep,name=v,oneof"`
}

func (*One234_W0) isOne234_0() {}

var wrappersOne234 = []any{(*One234_W0)(nil)}

func (*One234) ProtoReflect() any { return newReflect(wrappersOne234) }

type One235 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne235_0 `protobuf_oneof:"o0"`
}
type isOne235_0 interface{ isOne235_0() }
type One235_W0 struct {
	V [][]byte `protobuf:"zigzag64,2,opt,name=v,oneof"`
}

func (*One235_W0) isOne235_0() {}

var wrappersOne235 = []any{(*One235_W0)(nil)}

func (*One235) XXX_OneofWrappers() []any { return wrappersOne235 }

type One236 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne236_0 `protobuf_oneof:"o0"`
}
type isOne236_0 interface{ isOne236_0() }
type One236_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One236_W0) isOne236_0() {}

type One236_W1 struct {
	V [][]byte `protobuf:"zigzag64,2,rep,name=v,oneof"`
}

func (*One236_W1) isOne236_0() {}

var wrappersOne236 = []any{(*One236_W0)(nil), (*One236_W1)(nil)}

func (*One236) XXX_OneofWrappers() []any { return wrappersOne236 }

type One237 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne237_0 `protobuf_oneof:"o0"`
}
type isOne237_0 interface{ isOne237_0() }
type One237_W0 struct {
	V [][]byte `protobuf:"fixed32,2,opt,name=v,oneof"`
}

func (*One237_W0) isOne237_0() {}

var wrappersOne237 = []any{(*One237_W0)(nil)}

func (*One237) XXX_OneofWrappers() []any { return wrappersOne237 }

type One238 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne238_0 `protobuf_oneof:"o0"`
}
type isOne238_0 interface{ isOne238_0() }
type One238_W0 struct {
	V [][]byte `protobuf:"fixed32,2,rep,name=v,oneof"`
}

func (*One238_W0) isOne238_0() {}

var wrappersOne238 = []any{(*One238_W0)(nil)}

func (*One238) XXX_OneofWrappers() []any { return wrappersOne238 }

type One239 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne239_0 `protobuf_oneof:"o0"`
}
type isOne239_0 interface{ isOne239_0() }
type One239_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One239_W0) isOne239_0() {}

type One239_W1 struct {
	V [][]byte `protobuf:"fixed64,2,opt,name=v,oneof"`
}

func (*One239_W1) isOne239_0() {}

var wrappersOne239 = []any{(*One239_W0)(nil), (*One239_W1)(nil)}

func (*One239) ProtoReflect() any { return newReflect(wrappersOne239) }

type One240 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne240_0 `protobuf_oneof:"o0"`
}
type isOne240_0 interface{ isOne240_0() }
type One240_W0 struct {
	V [][]byte `protobuf:"fixed64,2,rep,name=v,oneof"`
}

func (*One240_W0) isOne240_0() {}

var wrappersOne240 = []any{(*One240_W0)(nil)}

func (*One240) XXX_OneofWrappers() []any { return wrappersOne240 }

type One241 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne241_0 `protobuf_oneof:"o0"`
}
type isOne241_0 interface{ isOne241_0() }
type One241_W0 struct {
	V [][]byte `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One241_W0) isOne241_0() {}

var wrappersOne241 = []any{(*One241_W0)(nil)}

func (*One241) XXX_OneofWrappers() []any { return wrappersOne241 }

type One242 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne242_0 `protobuf_oneof:"o0"`
}
type isOne242_0 interface{ isOne242_0() }
type One242_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One242_W0) isOne242_0() {}

type One242_W1 struct {
	V [][]byte `protobuf:"bytes,2,rep,name=v,oneof"`
}

func (*One242_W1) isOne242_0() {}

var wrappersOne242 = []any{(*One242_W0)(nil), (*One242_W1)(nil)}

func (*One242) XXX_OneofWrappers() []any { return wrappersOne242 }

type One243 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne243_0 `protobuf_oneof:"o0"`
}
type isOne243_0 interface{ isOne243_0() }
type One243_W0 struct {
	V [][]byte `protobuf:"group,2,opt,name=v,oneof"`
}

func (*One243_W0) isOne243_0() {}

var wrappersOne243 = []any{(*One243_W0)(nil)}

func (*One243) XXX_OneofWrappers() []any { return wrappersOne243 }

type One244 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne244_0 `protobuf_oneof:"o0"`
}
type isOne244_0 interface{ isOne244_0() }
type One244_W0 struct {
	V [][]byte `protobuf:"group,2,rep,name=v,oneof"`
}

func (*One244_W0) isOne244_0() {}

var wrappersOne244 = []any{(*One244_W0)(nil)}

func (*One244) ProtoReflect() any { return newReflect(wrappersOne244) }

type One245 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne245_0 `protobuf_oneof:"o0"`
}
type isOne245_0 interface{ isOne245_0() }
type One245_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One245_W0) isOne245_0() {}

type One245_W1 struct {
	V uint8 `protobuf:"varint,2,opt,name=v,oneof"`
}

func (*One245_W1) isOne245_0() {}

var wrappersOne245 = []any{(*One245_W0)(nil), (*One245_W1)(nil)}

func (*One245) XXX_OneofWrappers() []any { return wrappersOne245 }

type One246 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne246_0 `protobuf_oneof:"o0"`
}
type isOne246_0 interface{ isOne246_0() }
type One246_W0 struct {
	V uint8 `protobuf:"zigzag32,2,opt,name=v,oneof"`
}

func (*One246_W0) isOne246_0() {}

var wrappersOne246 = []any{(*One246_W0)(nil)}

func (*One246) XXX_OneofWrappers() []any { return wrappersOne246 }

type One247 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne247_0 `protobuf_oneof:"o0"`
}
type isOne247_0 interface{ isOne247_0() }
type One247_W0 struct {
	V uint8 `protobuf:"zigzag64,2,opt,name=v,oneof"`
}

func (*One247_W0) isOne247_0() {}

var wrappersOne247 = []any{(*One247_W0)(nil)}

func (*One247) XXX_OneofWrappers() []any { return wrappersOne247 }

type One248 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne248_0 `protobuf_oneof:"o0"`
}
type isOne248_0 interface{ isOne248_0() }
type One248_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One248_W0) isOne248_0() {}

type One248_W1 struct {
	V uint8 `protobuf:"fixed32,2,opt,name=v,oneof"`
}

func (*One248_W1) isOne248_0() {}

var wrappersOne248 = []any{(*One248_W0)(nil), (*One248_W1)(nil)}

func (*One248) XXX_OneofWrappers() []any { return wrappersOne248 }

type One249 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne249_0 `protobuf_oneof:"o0"`
}
type isOne249_0 interface{ isOne249_0() }
type One249_W0 struct {
	V uint8 `protobuf:"fixed64,2,opt,name=v,oneof"`
}

func (*One249_W0) isOne249_0() {}

var wrappersOne249 = []any{(*One249_W0)(nil)}

func (*One249) ProtoReflect() any { return newReflect(wrappersOne249) }

type One250 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne250_0 `protobuf_oneof:"o0"`
}
type isOne250_0 interface{ isOne250_0() }
type One250_W0 struct {
	V uint8 `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One250_W0) isOne250_0() {}

var wrappersOne250 = []any{(*One250_W0)(nil)}

func (*One250) XXX_OneofWrappers() []any { return wrappersOne250 }

type One251 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne251_0 `protobuf_oneof:"o0"`
}
type isOne251_0 interface{ isOne251_0() }
type One251_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One251_W0) isOne251_0() {}

type One251_W1 struct {
	V uint8 `protobuf:"group,2,opt,name=v,oneof"`
}

func (*One251_W1) isOne251_0() {}

var wrappersOne251 = []any{(*One251_W0)(nil), (*One251_W1)(nil)}

func (*One251) XXX_OneofWrappers() []any { return wrappersOne251 }

type One252 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne252_0 `protobuf_oneof:"o0"`
}
type isOne252_0 interface{ isOne252_0() }
type One252_W0 struct {
	V *int32 `protobuf:"varint,2,opt,name=v,oneof"`
}

func (*One252_W0) isOne252_0() {}

var wrappersOne252 = []any{(*One252_W0)(nil)}

func (*One252) XXX_OneofWrappers() []any { return wrappersOne252 }

type One253 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne253_0 `protobuf_oneof:"o0"`
}
type isOne253_0 interface{ isOne253_0() }
type One253_W0 struct {
	V *int32 `protobuf:"varint,2,rep,name=v,oneof"`
}

func (*One253_W0) isOne253_0() {}

var wrappersOne253 = []any{(*One253_W0)(nil)}

func (*One253) XXX_OneofWrappers() []any { return wrappersOne253 }

type One254 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne254_0 `protobuf_oneof:"o0"`
}
type isOne254_0 interface{ isOne254_0() }
type One254_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One254_W0) isOne254_0() {}

type One254_W1 struct {
	V *int32 `protobuf:"zigzag32,2,opt,name=v,oneof"`
}

func (*One254_W1) isOne254_0() {}

var wrappersOne254 = []any{(*One254_W0)(nil), (*One254_W1)(nil)}

func (*One254) ProtoReflect() any { return newReflect(wrappersOne254) }

type One255 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne255_0 `protobuf_oneof:"o0"`
}
type isOne255_0 interface{ isOne255_0() }
type One255_W0 struct {
	V *int32 `protobuf:"zigzag32,2,rep,name=v,oneof"`
}

func (*One255_W0) isOne255_0() {}

var wrappersOne255 = []any{(*One255_W0)(nil)}

func (*One255) XXX_OneofWrappers() []any { return wrappersOne255 }

type One256 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne256_0 `protobuf_oneof:"o0"`
}
type isOne256_0 interface{ isOne256_0() }
type One256_W0 struct {
	V *int32 `protobuf:"zigzag64,2,opt,name=v,oneof"`
}

func (*One256_W0) isOne256_0() {}

var wrappersOne256 = []any{(*One256_W0)(nil)}

func (*One256) XXX_OneofWrappers() []any { return wrappersOne256 }

type One257 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne257_0 `protobuf_oneof:"o0"`
}
type isOne257_0 interface{ isOne257_0() }
type One257_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One257_W0) isOne257_0() {}

type One257_W1 struct {
	V *int32 `protobuf:"zigzag64,2,rep,name=v,oneof"`
}

func (*One257_W1) isOne257_0() {}

var wrappersOne257 = []any{(*One257_W0)(nil), (*One257_W1)(nil)}

func (*One257) XXX_OneofWrappers() []any { return wrappersOne257 }

type One258 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne258_0 `protobuf_oneof:"o0"`
}
type isOne258_0 interface{ isOne258_0() }
type One258_W0 struct {
	V *int32 `protobuf:"fixed32,2,opt,name=v,oneof"`
}

func (*One258_W0) isOne258_0() {}

var wrappersOne258 = []any{(*One258_W0)(nil)}

func (*One258) XXX_OneofWrappers() []any { return wrappersOne258 }

type One259 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne259_0 `protobuf_oneof:"o0"`
}
type isOne259_0 interface{ isOne259_0() }
type One259_W0 struct {
	V *int32 `protobuf:"fixed32,2,rep,name=v,oneof"`
}

func (*One259_W0) isOne259_0() {}

var wrappersOne259 = []any{(*One259_W0)(nil)}

func (*One259) ProtoReflect() any { return newReflect(wrappersOne259) }

type One260 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne260_0 `protobuf_oneof:"o0"`
}
type isOne260_0 interface{ isOne260_0() }
type One260_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One260_W0) isOne260_0() {}

type One260_W1 struct {
	V *int32 `protobuf:"fixed64,2,opt,name=v,oneof"`
}

func (*One260_W1) isOne260_0() {}

var wrappersOne260 = []any{(*One260_W0)(nil), (*One260_W1)(nil)}

func (*One260) XXX_OneofWrappers() []any { return wrappersOne260 }

type One261 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne261_0 `protobuf_oneof:"o0"`
}
type isOne261_0 interface{ isOne261_0() }
type One261_W0 struct {
	V *int32 `protobuf:"fixed64,2,rep,name=v,oneof"`
}

func (*One261_W0) isOne261_0() {}

var wrappersOne261 = []any{(*One261_W0)(nil)}

func (*One261) XXX_OneofWrappers() []any { return wrappersOne261 }

type One262 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne262_0 `protobuf_oneof:"o0"`
}
type isOne262_0 interface{ isOne262_0() }
type One262_W0 struct {
	V *int32 `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One262_W0) isOne262_0() {}

var wrappersOne262 = []any{(*One262_W0)(nil)}

func (*One262) XXX_OneofWrappers() []any { return wrappersOne262 }

type One263 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne263_0 `protobuf_oneof:"o0"`
}
type isOne263_0 interface{ isOne263_0() }
type One263_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One263_W0) isOne263_0() {}

type One263_W1 struct {
	V *int32 `protobuf:"bytes,2,rep,name=v,oneof"`
}

func (*One263_W1) isOne263_0() {}

var wrappersOne263 = []any{(*One263_W0)(nil), (*One263_W1)(nil)}

func (*One263) XXX_OneofWrappers() []any { return wrappersOne263 }

type One264 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne264_0 `protobuf_oneof:"o0"`
}
type isOne264_0 interface{ isOne264_0() }
type One264_W0 struct {
	V *int32 `protobuf:"group,2,opt,name=v,oneof"`
}

func (*One264_W0) isOne264_0() {}

var wrappersOne264 = []any{(*One264_W0)(nil)}

func (*One264) ProtoReflect() any { return newReflect(wrappersOne264) }

type One265 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne265_0 `protobuf_oneof:"o0"`
}
type isOne265_0 interface{ isOne265_0() }
type One265_W0 struct {
	V *int32 `protobuf:"group,2,rep,name=v,oneof"`
}

func (*One265_W0) isOne265_0() {}

var wrappersOne265 = []any{(*One265_W0)(nil)}

func (*One265) XXX_OneofWrappers() []any { return wrappersOne265 }

type One266 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne266_0 `protobuf_oneof:"o0"`
}
type isOne266_0 interface{ isOne266_0() }
type One266_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One266_W0) isOne266_0() {}

type One266_W1 struct {
	V *string `protobuf:"varint,2,opt,name=v,oneof"`
}

func (*One266_W1) isOne266_0() {}

var wrappersOne266 = []any{(*One266_W0)(nil), (*One266_W1)(nil)}

func (*One266) XXX_OneofWrappers() []any { return wrappersOne266 }

type One267 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne267_0 `protobuf_oneof:"o0"`
}
type isOne267_0 interface{ isOne267_0() }
type One267_W0 struct {
	V *string `protobuf:"varint,2,rep,name=v,oneof"`
}

func (*One267_W0) isOne267_0() {}

var wrappersOne267 = []any{(*One267_W0)(nil)}

func (*One267) XXX_OneofWrappers() []any { return wrappersOne267 }

type One268 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne268_0 `protobuf_oneof:"o0"`
}
type isOne268_0 interface{ isOne268_0() }
type One268_W0 struct {
	V *string `protobuf:"zigzag32,2,opt,name=v,oneof"`
}

func (*One268_W0) isOne268_0() {}

var wrappersOne268 = []any{(*One268_W0)(nil)}

func (*One268) XXX_OneofWrappers() []any { return wrappersOne268 }

type One269 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne269_0 `protobuf_oneof:"o0"`
}
type isOne269_0 interface{ isOne269_0() }
type One269_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One269_W0) isOne269_0() {}

type One269_W1 struct {
	V *string `protobuf:"zigzag32,2,rep,name=v,oneof"`
}

func (*One269_W1) isOne269_0() {}

var wrappersOne269 = []any{(*One269_W0)(nil), (*One269_W1)(nil)}

func (*One269) ProtoReflect() any { return newReflect(wrappersOne269) }

type One270 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne270_0 `protobuf_oneof:"o0"`
}
type isOne270_0 interface{ isOne270_0() }
type One270_W0 struct {
	V *string `protobuf:"zigzag64,2,opt,name=v,oneof"`
}

func (*One270_W0) isOne270_0() {}

var wrappersOne270 = []any{(*One270_W0)(nil)}

func (*One270) XXX_OneofWrappers() []any { return wrappersOne270 }

type One271 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne271_0 `protobuf_oneof:"o0"`
}
type isOne271_0 interface{ isOne271_0() }
type One271_W0 struct {
	V *string `protobuf:"zigzag64,2,rep,name=v,oneof"`
}

func (*One271_W0) isOne271_0() {}

var wrappersOne271 = []any{(*One271_W0)(nil)}

func (*One271) XXX_OneofWrappers() []any { return wrappersOne271 }

type One272 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne272_0 `protobuf_oneof:"o0"`
}
type isOne272_0 interface{ isOne272_0() }
type One272_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One272_W0) isOne272_0() {}

type One272_W1 struct {
	V *string `protobuf:"fixed32,2,opt,name=v,oneof"`
}

func (*One272_W1) isOne272_0() {}

var wrappersOne272 = []any{(*One272_W0)(nil), (*One272_W1)(nil)}

func (*One272) XXX_OneofWrappers() []any { return wrappersOne272 }

type One273 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne273_0 `protobuf_oneof:"o0"`
}
type isOne273_0 interface{ isOne273_0() }
type One273_W0 struct {
	V *string `protobuf:"fixed32,2,rep,name=v,oneof"`
}

func (*One273_W0) isOne273_0() {}

var wrappersOne273 = []any{(*One273_W0)(nil)}

func (*One273) XXX_OneofWrappers() []any { return wrappersOne273 }

type One274 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne274_0 `protobuf_oneof:"o0"`
}
type isOne274_0 interface{ isOne274_0() }
type One274_W0 struct {
	V *string `protobuf:"fixed64,2,opt,name=v,oneof"`
}

func (*One274_W0) isOne274_0() {}

var wrappersOne274 = []any{(*One274_W0)(nil)}

func (*One274) ProtoReflect() any { return newReflect(wrappersOne274) }

type One275 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne275_0 `protobuf_oneof:"o0"`
}
type isOne275_0 interface{ isOne275_0() }
type One275_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One275_W0) isOne275_0() {}

type One275_W1 struct {
	V *string `protobuf:"fixed64,2,rep,name=v,oneof"`
}

func (*One275_W1) isOne275_0() {}

var wrappersOne275 = []any{(*One275_W0)(nil), (*One275_W1)(nil)}

func (*One275) XXX_OneofWrappers() []any { return wrappersOne275 }

type One276 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne276_0 `protobuf_oneof:"o0"`
}
type isOne276_0 interface{ isOne276_0() }
type One276_W0 struct {
	V *string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One276_W0) isOne276_0() {}

var wrappersOne276 = []any{(*One276_W0)(nil)}

func (*One276) XXX_OneofWrappers() []any { return wrappersOne276 }

type One277 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne277_0 `protobuf_oneof:"o0"`
}
type isOne277_0 interface{ isOne277_0() }
type One277_W0 struct {
	V *string `protobuf:"bytes,2,rep,name=v,oneof"`
}

func (*One277_W0) isOne277_0() {}

var wrappersOne277 = []any{(*One277_W0)(nil)}

func (*One277) XXX_OneofWrappers() []any { return wrappersOne277 }

type One278 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne278_0 `protobuf_oneof:"o0"`
}
type isOne278_0 interface{ isOne278_0() }
type One278_W0 struct {
	V int32 `protobuf:"varint,9,opt,name=v,oneof"`
}

func (*One278_W0) isOne278_0() {}

type One278_W1 struct {
	V *string `protobuf:"group,2,opt,name=v,oneof"`
}

func (*One278_W1) isOne278_0() {}

var wrappersOne278 = []any{(*One278_W0)(nil), (*One278_W1)(nil)}

func (*One278) XXX_OneofWrappers() []any { return wrappersOne278 }

type One279 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne279_0 `protobuf_oneof:"o0"`
}
type isOne279_0 interface{ isOne279_0() }
type One279_W0 struct {
	V *string `protobuf:"group,2,rep,name=v,oneof"`
}

func (*One279_W0) isOne279_0() {}

var wrappersOne279 = []any{(*One279_W0)(nil)}

func (*One279) ProtoReflect() any { return newReflect(wrappersOne279) }

type One280 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne280_0 `protobuf_oneof:"o0"`
}
type isOne280_0 interface{ isOne280_0() }
type One280_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One280_W0) isOne280_0() {}

type One280_W1 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One280_W1) isOne280_0() {}

var wrappersOne280 = []any{(*One280_W0)(nil), (*One280_W1)(nil)}

func (*One280) XXX_OneofWrappers() []any { return wrappersOne280 }

type One281 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne281_0 `protobuf_oneof:"o0"`
}
type isOne281_0 interface{ isOne281_0() }
type One281_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One281_W0) isOne281_0() {}

type One281_W1 struct{}

func (*One281_W1) isOne281_0() {}

var wrappersOne281 = []any{(*One281_W0)(nil), (*One281_W1)(nil)}

func (*One281) XXX_OneofWrappers() []any { return wrappersOne281 }

type One282 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne282_0 `protobuf_oneof:"o0"`
}
type isOne282_0 interface{ isOne282_0() }
type One282_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One282_W0) isOne282_0() {}

type One282_W1 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
	X int32
}

func (*One282_W1) isOne282_0() {}

var wrappersOne282 = []any{(*One282_W0)(nil), (*One282_W1)(nil)}

func (*One282) XXX_OneofWrappers() []any { return wrappersOne282 }

type One283 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne283_0 `protobuf_oneof:"o0"`
}
type isOne283_0 interface{ isOne283_0() }
type One283_W0 struct {
	X int32
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One283_W0) isOne283_0() {}

var wrappersOne283 = []any{(*One283_W0)(nil)}

func (*One283) XXX_OneofWrappers() []any { return wrappersOne283 }

type One284 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne284_0 `protobuf_oneof:"o0"`
}
type isOne284_0 interface{ isOne284_0() }
type One284_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
	W int64  `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One284_W0) isOne284_0() {}

var wrappersOne284 = []any{(*One284_W0)(nil)}

func (*One284) XXX_OneofWrappers() []any { return wrappersOne284 }

type One285 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne285_0 `protobuf_oneof:"o0"`
}
type isOne285_0 interface{ isOne285_0() }
type One285_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One285_W0) isOne285_0() {}

type One285_W1 struct{ V int32 }

func (*One285_W1) isOne285_0() {}

var wrappersOne285 = []any{(*One285_W0)(nil), (*One285_W1)(nil)}

func (*One285) XXX_OneofWrappers() []any { return wrappersOne285 }

type One286 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne286_0 `protobuf_oneof:"o0"`
}
type isOne286_0 interface{ isOne286_0() }
type One286_W0 struct {
	V int32 `json:"v"`
}

func (*One286_W0) isOne286_0() {}

type One286_W1 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One286_W1) isOne286_0() {}

var wrappersOne286 = []any{(*One286_W0)(nil), (*One286_W1)(nil)}

func (*One286) XXX_OneofWrappers() []any { return wrappersOne286 }

type One287 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne287_0 `protobuf_oneof:"o0"`
}
type isOne287_0 interface{ isOne287_0() }
type One287_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One287_W0) isOne287_0() {}

type One287_W1 struct {
	V int32 `protobuf:"varint,1,opt,name=v,oneof"`
}

func (*One287_W1) isOne287_0() {}

var wrappersOne287 = []any{(*One287_W0)(nil), (*One287_W1)(nil)}

func (*One287) XXX_OneofWrappers() []any { return wrappersOne287 }

type One288 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne288_0 `protobuf_oneof:"o0"`
}
type isOne288_0 interface{ isOne288_0() }
type One288_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One288_W0) isOne288_0() {}

type One288_W1 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One288_W1) isOne288_0() {}

type One288_W2 struct {
	V bool `protobuf:"varint,2,opt,name=v,oneof"`
}

func (*One288_W2) isOne288_0() {}

var wrappersOne288 = []any{(*One288_W0)(nil), (*One288_W1)(nil), (*One288_W2)(nil)}

func (*One288) XXX_OneofWrappers() []any { return wrappersOne288 }

type One289 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne289_0 `protobuf_oneof:"o0"`
	O1 isOne289_1 `protobuf_oneof:"o1"`
}
type isOne289_0 interface{ isOne289_0() }
type isOne289_1 interface{ isOne289_1() }
type One289_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One289_W0) isOne289_0() {}

type One289_W1 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One289_W1) isOne289_1() {}

type One289_W2 struct {
	V bool `protobuf:"varint,2,opt,name=v,oneof"`
}

func (*One289_W2) isOne289_0() {}

var wrappersOne289 = []any{(*One289_W0)(nil), (*One289_W1)(nil), (*One289_W2)(nil)}

func (*One289) XXX_OneofWrappers() []any { return wrappersOne289 }

type One290 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne290_0 `protobuf_oneof:"o0"`
	O1 isOne290_1 `protobuf_oneof:"o1"`
}
type isOne290_0 interface{ isOne290_0() }
type isOne290_1 interface{ isOne290_1() }
type One290_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One290_W0) isOne290_0() {}

type One290_W1 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One290_W1) isOne290_1() {}

type One290_W2 struct {
	V bool `protobuf:"varint,4,opt,name=v,oneof"`
}

func (*One290_W2) isOne290_0() {}

var wrappersOne290 = []any{(*One290_W0)(nil), (*One290_W1)(nil), (*One290_W2)(nil)}

func (*One290) XXX_OneofWrappers() []any { return wrappersOne290 }

type One291 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne291_0 `protobuf_oneof:"o0"`
}
type isOne291_0 interface{ isOne291_0() }
type One291_W0 struct {
	V string `protobuf:"bytes,70000,opt,name=v,oneof"`
}

func (*One291_W0) isOne291_0() {}

type One291_W1 struct {
	V bool `protobuf:"varint,70000,opt,name=v,oneof"`
}

func (*One291_W1) isOne291_0() {}

var wrappersOne291 = []any{(*One291_W0)(nil), (*One291_W1)(nil)}

func (*One291) XXX_OneofWrappers() []any { return wrappersOne291 }

type One292 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne292_0 `protobuf_oneof:"o0"`
}
type isOne292_0 interface{ isOne292_0() }
type One292_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One292_W0) isOne292_0() {}

type One292_W1 struct {
	V bool `protobuf:"varint,0,opt,name=v,oneof"`
}

func (*One292_W1) isOne292_0() {}

var wrappersOne292 = []any{(*One292_W0)(nil), (*One292_W1)(nil)}

func (*One292) XXX_OneofWrappers() []any { return wrappersOne292 }

type One293 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne293_0 `protobuf_oneof:"o0"`
}
type isOne293_0 interface{ isOne293_0() }
type One293_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One293_W0) isOne293_0() {}

type One293_W1 struct {
	V bool `protobuf:"varint,,opt,name=v,oneof"`
}

func (*One293_W1) isOne293_0() {}

var wrappersOne293 = []any{(*One293_W0)(nil), (*One293_W1)(nil)}

func (*One293) XXX_OneofWrappers() []any { return wrappersOne293 }

type One294 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne294_0 `protobuf_oneof:"o0"`
}
type isOne294_0 interface{ isOne294_0() }
type One294_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One294_W0) isOne294_0() {}

type One294_W1 struct {
	V bool `protobuf:"varint,536870911,opt,name=v,oneof"`
}

func (*One294_W1) isOne294_0() {}

var wrappersOne294 = []any{(*One294_W0)(nil), (*One294_W1)(nil)}

func (*One294) XXX_OneofWrappers() []any { return wrappersOne294 }

type One295 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne295_0 `protobuf_oneof:"o0"`
}
type isOne295_0 interface{ isOne295_0() }
type One295_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One295_W0) isOne295_0() {}

type One295_W1 struct {
	V bool `protobuf:"varint,536870912,opt,name=v,oneof"`
}

func (*One295_W1) isOne295_0() {}

var wrappersOne295 = []any{(*One295_W0)(nil), (*One295_W1)(nil)}

func (*One295) XXX_OneofWrappers() []any { return wrappersOne295 }

type One296 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne296_0 `protobuf_oneof:"o0"`
}
type isOne296_0 interface{ isOne296_0() }
type One296_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One296_W0) isOne296_0() {}

type One296_W1 struct {
	V bool `protobuf:"varint,4294967298,opt,name=v,oneof"`
}

func (*One296_W1) isOne296_0() {}

var wrappersOne296 = []any{(*One296_W0)(nil), (*One296_W1)(nil)}

func (*One296) XXX_OneofWrappers() []any { return wrappersOne296 }

type One297 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne297_0 `protobuf_oneof:"o0"`
}
type isOne297_0 interface{ isOne297_0() }
type One297_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One297_W0) isOne297_0() {}

type One297_W1 struct {
	V bool `protobuf:"varint,-1,opt,name=v,oneof"`
}

func (*One297_W1) isOne297_0() {}

var wrappersOne297 = []any{(*One297_W0)(nil), (*One297_W1)(nil)}

func (*One297) XXX_OneofWrappers() []any { return wrappersOne297 }

type One298 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne298_0 `protobuf_oneof:"o0"`
}
type isOne298_0 interface{ isOne298_0() }
type One298_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One298_W0) isOne298_0() {}

type One298_W1 struct {
	V bool `protobuf:"varint,4,opt,name=v,packed,oneof"`
}

func (*One298_W1) isOne298_0() {}

var wrappersOne298 = []any{(*One298_W0)(nil), (*One298_W1)(nil)}

func (*One298) XXX_OneofWrappers() []any { return wrappersOne298 }

type One299 struct {
	P  chan int   `protobuf:"varint,1,opt,name=p"`
	O0 isOne299_0 `protobuf_oneof:"o0"`
}
type isOne299_0 interface{ isOne299_0() }
type One299_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One299_W0) isOne299_0() {}

type One299_W1 struct {
	V bool `protobuf:"varint,4,opt,name=v,proto3,oneof"`
}

func (*One299_W1) isOne299_0() {}

var wrappersOne299 = []any{(*One299_W0)(nil), (*One299_W1)(nil)}

func (*One299) XXX_OneofWrappers() []any { return wrappersOne299 }

type One300 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne300_0 `protobuf_oneof:"o0"`
}
type isOne300_0 interface{ isOne300_0() }
type One300_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One300_W0) isOne300_0() {}

type One300_W1 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One300_W1) isOne300_0() {}

var wrappersOne300 = []any{(*One300_W0)(nil), (*One300_W1)(nil)}

func (*One300) XXX_OneofWrappers() []any { return wrappersOne300 }

type One300In struct {
	M []*One300 `protobuf:"bytes,3,rep,name=m"`
}
type One302 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne302_0 `protobuf_oneof:"o0"`
}
type isOne302_0 interface{ isOne302_0() }
type One302_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One302_W0) isOne302_0() {}

type One302_W1 struct{}

func (*One302_W1) isOne302_0() {}

var wrappersOne302 = []any{(*One302_W0)(nil), (*One302_W1)(nil)}

func (*One302) XXX_OneofWrappers() []any { return wrappersOne302 }

type One302In struct {
	M []*One302 `protobuf:"bytes,3,rep,name=m"`
}
type One304 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne304_0 `protobuf_oneof:"o0"`
}
type isOne304_0 interface{ isOne304_0() }
type One304_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One304_W0) isOne304_0() {}

type One304_W1 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
	X int32
}

func (*One304_W1) isOne304_0() {}

var wrappersOne304 = []any{(*One304_W0)(nil), (*One304_W1)(nil)}

func (*One304) XXX_OneofWrappers() []any { return wrappersOne304 }

type One304In struct {
	M []*One304 `protobuf:"bytes,3,rep,name=m"`
}
type One306 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne306_0 `protobuf_oneof:"o0"`
}
type isOne306_0 interface{ isOne306_0() }
type One306_W0 struct {
	X int32
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One306_W0) isOne306_0() {}

var wrappersOne306 = []any{(*One306_W0)(nil)}

func (*One306) XXX_OneofWrappers() []any { return wrappersOne306 }

type One306In struct {
	M []*One306 `protobuf:"bytes,3,rep,name=m"`
}
type One308 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne308_0 `protobuf_oneof:"o0"`
}
type isOne308_0 interface{ isOne308_0() }
type One308_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
	W int64  `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One308_W0) isOne308_0() {}

var wrappersOne308 = []any{(*One308_W0)(nil)}

func (*One308) XXX_OneofWrappers() []any { return wrappersOne308 }

type One308In struct {
	M []*One308 `protobuf:"bytes,3,rep,name=m"`
}
type One310 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne310_0 `protobuf_oneof:"o0"`
}
type isOne310_0 interface{ isOne310_0() }
type One310_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One310_W0) isOne310_0() {}

type One310_W1 struct{ V int32 }

func (*One310_W1) isOne310_0() {}

var wrappersOne310 = []any{(*One310_W0)(nil), (*One310_W1)(nil)}

func (*One310) XXX_OneofWrappers() []any { return wrappersOne310 }

type One310In struct {
	M []*One310 `protobuf:"bytes,3,rep,name=m"`
}
type One312 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne312_0 `protobuf_oneof:"o0"`
}
type isOne312_0 interface{ isOne312_0() }
type One312_W0 struct {
	V int32 `json:"v"`
}

func (*One312_W0) isOne312_0() {}

type One312_W1 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One312_W1) isOne312_0() {}

var wrappersOne312 = []any{(*One312_W0)(nil), (*One312_W1)(nil)}

func (*One312) XXX_OneofWrappers() []any { return wrappersOne312 }

type One312In struct {
	M []*One312 `protobuf:"bytes,3,rep,name=m"`
}
type One314 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne314_0 `protobuf_oneof:"o0"`
}
type isOne314_0 interface{ isOne314_0() }
type One314_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One314_W0) isOne314_0() {}

type One314_W1 struct {
	V int32 `protobuf:"varint,1,opt,name=v,oneof"`
}

func (*One314_W1) isOne314_0() {}

var wrappersOne314 = []any{(*One314_W0)(nil), (*One314_W1)(nil)}

func (*One314) XXX_OneofWrappers() []any { return wrappersOne314 }

type One314In struct {
	M []*One314 `protobuf:"bytes,3,rep,name=m"`
}
type One316 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne316_0 `protobuf_oneof:"o0"`
}
type isOne316_0 interface{ isOne316_0() }
type One316_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One316_W0) isOne316_0() {}

type One316_W1 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One316_W1) isOne316_0() {}

type One316_W2 struct {
	V bool `protobuf:"varint,2,opt,name=v,oneof"`
}

func (*One316_W2) isOne316_0() {}

var wrappersOne316 = []any{(*One316_W0)(nil), (*One316_W1)(nil), (*One316_W2)(nil)}

func (*One316) XXX_OneofWrappers() []any { return wrappersOne316 }

type One316In struct {
	M []*One316 `protobuf:"bytes,3,rep,name=m"`
}
type One318 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne318_0 `protobuf_oneof:"o0"`
	O1 isOne318_1 `protobuf_oneof:"o1"`
}
type isOne318_0 interface{ isOne318_0() }
type isOne318_1 interface{ isOne318_1() }
type One318_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One318_W0) isOne318_0() {}

type One318_W1 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One318_W1) isOne318_1() {}

type One318_W2 struct {
	V bool `protobuf:"varint,2,opt,name=v,oneof"`
}

func (*One318_W2) isOne318_0() {}

var wrappersOne318 = []any{(*One318_W0)(nil), (*One318_W1)(nil), (*One318_W2)(nil)}

func (*One318) XXX_OneofWrappers() []any { return wrappersOne318 }

type One318In struct {
	M []*One318 `protobuf:"bytes,3,rep,name=m"`
}
type One320 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne320_0 `protobuf_oneof:"o0"`
	O1 isOne320_1 `protobuf_oneof:"o1"`
}
type isOne320_0 interface{ isOne320_0() }
type isOne320_1 interface{ isOne320_1() }
type One320_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One320_W0) isOne320_0() {}

type One320_W1 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One320_W1) isOne320_1() {}

type One320_W2 struct {
	V bool `protobuf:"varint,4,opt,name=v,oneof"`
}

func (*One320_W2) isOne320_0() {}

var wrappersOne320 = []any{(*One320_W0)(nil), (*One320_W1)(nil), (*One320_W2)(nil)}

func (*One320) XXX_OneofWrappers() []any { return wrappersOne320 }

type One320In struct {
	M []*One320 `protobuf:"bytes,3,rep,name=m"`
}
type One322 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne322_0 `protobuf_oneof:"o0"`
}
type isOne322_0 interface{ isOne322_0() }
type One322_W0 struct {
	V string `protobuf:"bytes,70000,opt,name=v,oneof"`
}

func (*One322_W0) isOne322_0() {}

type One322_W1 struct {
	V bool `protobuf:"varint,70000,opt,name=v,oneof"`
}

func (*One322_W1) isOne322_0() {}

var wrappersOne322 = []any{(*One322_W0)(nil), (*One322_W1)(nil)}

func (*One322) XXX_OneofWrappers() []any { return wrappersOne322 }

type One322In struct {
	M []*One322 `protobuf:"bytes,3,rep,name=m"`
}
type One324 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne324_0 `protobuf_oneof:"o0"`
}
type isOne324_0 interface{ isOne324_0() }
type One324_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One324_W0) isOne324_0() {}

type One324_W1 struct {
	V bool `protobuf:"varint,0,opt,name=v,oneof"`
}

func (*One324_W1) isOne324_0() {}

var wrappersOne324 = []any{(*One324_W0)(nil), (*One324_W1)(nil)}

func (*One324) XXX_OneofWrappers() []any { return wrappersOne324 }

type One324In struct {
	M []*One324 `protobuf:"bytes,3,rep,name=m"`
}
type One326 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne326_0 `protobuf_oneof:"o0"`
}
type isOne326_0 interface{ isOne326_0() }
type One326_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One326_W0) isOne326_0() {}

type One326_W1 struct {
	V bool `protobuf:"varint,,opt,name=v,oneof"`
}

func (*One326_W1) isOne326_0() {}

var wrappersOne326 = []any{(*One326_W0)(nil), (*One326_W1)(nil)}

func (*One326) XXX_OneofWrappers() []any { return wrappersOne326 }

type One326In struct {
	M []*One326 `protobuf:"bytes,3,rep,name=m"`
}
type One328 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne328_0 `protobuf_oneof:"o0"`
}
type isOne328_0 interface{ isOne328_0() }
type One328_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One328_W0) isOne328_0() {}

type One328_W1 struct {
	V bool `protobuf:"varint,536870911,opt,name=v,oneof"`
}

func (*One328_W1) isOne328_0() {}

var wrappersOne328 = []any{(*One328_W0)(nil), (*One328_W1)(nil)}

func (*One328) XXX_OneofWrappers() []any { return wrappersOne328 }

type One328In struct {
	M []*One328 `protobuf:"bytes,3,rep,name=m"`
}
type One330 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne330_0 `protobuf_oneof:"o0"`
}
type isOne330_0 interface{ isOne330_0() }
type One330_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One330_W0) isOne330_0() {}

type One330_W1 struct {
	V bool `protobuf:"varint,536870912,opt,name=v,oneof"`
}

func (*One330_W1) isOne330_0() {}

var wrappersOne330 = []any{(*One330_W0)(nil), (*One330_W1)(nil)}

func (*One330) XXX_OneofWrappers() []any { return wrappersOne330 }

type One330In struct {
	M []*One330 `protobuf:"bytes,3,rep,name=m"`
}
type One332 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne332_0 `protobuf_oneof:"o0"`
}
type isOne332_0 interface{ isOne332_0() }
type One332_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One332_W0) isOne332_0() {}

type One332_W1 struct {
	V bool `protobuf:"varint,4294967298,opt,name=v,oneof"`
}

func (*One332_W1) isOne332_0() {}

var wrappersOne332 = []any{(*One332_W0)(nil), (*One332_W1)(nil)}

func (*One332) XXX_OneofWrappers() []any { return wrappersOne332 }

type One332In struct {
	M []*One332 `protobuf:"bytes,3,rep,name=m"`
}
type One334 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne334_0 `protobuf_oneof:"o0"`
}
type isOne334_0 interface{ isOne334_0() }
type One334_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One334_W0) isOne334_0() {}

type One334_W1 struct {
	V bool `protobuf:"varint,-1,opt,name=v,oneof"`
}

func (*One334_W1) isOne334_0() {}

var wrappersOne334 = []any{(*One334_W0)(nil), (*One334_W1)(nil)}

func (*One334) XXX_OneofWrappers() []any { return wrappersOne334 }

type One334In struct {
	M []*One334 `protobuf:"bytes,3,rep,name=m"`
}
type One336 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne336_0 `protobuf_oneof:"o0"`
}
type isOne336_0 interface{ isOne336_0() }
type One336_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One336_W0) isOne336_0() {}

type One336_W1 struct {
	V bool `protobuf:"varint,4,opt,name=v,packed,oneof"`
}

func (*One336_W1) isOne336_0() {}

var wrappersOne336 = []any{(*One336_W0)(nil), (*One336_W1)(nil)}

func (*One336) XXX_OneofWrappers() []any { return wrappersOne336 }

type One336In struct {
	M []*One336 `protobuf:"bytes,3,rep,name=m"`
}
type One338 struct {
	P  chan int   `protobuf:"varint,1,opt,name=p"`
	O0 isOne338_0 `protobuf_oneof:"o0"`
}
type isOne338_0 interface{ isOne338_0() }
type One338_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One338_W0) isOne338_0() {}

type One338_W1 struct {
	V bool `protobuf:"varint,4,opt,name=v,proto3,oneof"`
}

func (*One338_W1) isOne338_0() {}

var wrappersOne338 = []any{(*One338_W0)(nil), (*One338_W1)(nil)}

func (*One338) XXX_OneofWrappers() []any { return wrappersOne338 }

type One338In struct {
	M []*One338 `protobuf:"bytes,3,rep,name=m"`
}
type One340 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne340_0 `protobuf_oneof:"o0"`
}
type isOne340_0 interface{ isOne340_0() }
type One340_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One340_W0) isOne340_0() {}

type One340_W1 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One340_W1) isOne340_0() {}

var wrappersOne340 = []any{(*One340_W0)(nil), (*One340_W1)(nil)}

func (*One340) XXX_OneofWrappers() []any { return wrappersOne340 }

type One340In struct {
	M map[int32]*One340 `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type One342 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne342_0 `protobuf_oneof:"o0"`
}
type isOne342_0 interface{ isOne342_0() }
type One342_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One342_W0) isOne342_0() {}

type One342_W1 struct{}

func (*One342_W1) isOne342_0() {}

var wrappersOne342 = []any{(*One342_W0)(nil), (*One342_W1)(nil)}

func (*One342) XXX_OneofWrappers() []any { return wrappersOne342 }

type One342In struct {
	M map[int32]*One342 `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type One344 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne344_0 `protobuf_oneof:"o0"`
}
type isOne344_0 interface{ isOne344_0() }
type One344_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One344_W0) isOne344_0() {}

type One344_W1 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
	X int32
}

func (*One344_W1) isOne344_0() {}

var wrappersOne344 = []any{(*One344_W0)(nil), (*One344_W1)(nil)}

func (*One344) XXX_OneofWrappers() []any { return wrappersOne344 }

type One344In struct {
	M map[int32]*One344 `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type One346 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne346_0 `protobuf_oneof:"o0"`
}
type isOne346_0 interface{ isOne346_0() }
type One346_W0 struct {
	X int32
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One346_W0) isOne346_0() {}

var wrappersOne346 = []any{(*One346_W0)(nil)}

func (*One346) XXX_OneofWrappers() []any { return wrappersOne346 }

type One346In struct {
	M map[int32]*One346 `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type One348 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne348_0 `protobuf_oneof:"o0"`
}
type isOne348_0 interface{ isOne348_0() }
type One348_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
	W int64  `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One348_W0) isOne348_0() {}

var wrappersOne348 = []any{(*One348_W0)(nil)}

func (*One348) XXX_OneofWrappers() []any { return wrappersOne348 }

type One348In struct {
	M map[int32]*One348 `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type One350 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne350_0 `protobuf_oneof:"o0"`
}
type isOne350_0 interface{ isOne350_0() }
type One350_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One350_W0) isOne350_0() {}

type One350_W1 struct{ V int32 }

func (*One350_W1) isOne350_0() {}

var wrappersOne350 = []any{(*One350_W0)(nil), (*One350_W1)(nil)}

func (*One350) XXX_OneofWrappers() []any { return wrappersOne350 }

type One350In struct {
	M map[int32]*One350 `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type One352 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne352_0 `protobuf_oneof:"o0"`
}
type isOne352_0 interface{ isOne352_0() }
type One352_W0 struct {
	V int32 `json:"v"`
}

func (*One352_W0) isOne352_0() {}

type One352_W1 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One352_W1) isOne352_0() {}

var wrappersOne352 = []any{(*One352_W0)(nil), (*One352_W1)(nil)}

func (*One352) XXX_OneofWrappers() []any { return wrappersOne352 }

type One352In struct {
	M map[int32]*One352 `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type One354 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne354_0 `protobuf_oneof:"o0"`
}
type isOne354_0 interface{ isOne354_0() }
type One354_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One354_W0) isOne354_0() {}

type One354_W1 struct {
	V int32 `protobuf:"varint,1,opt,name=v,oneof"`
}

func (*One354_W1) isOne354_0() {}

var wrappersOne354 = []any{(*One354_W0)(nil), (*One354_W1)(nil)}

func (*One354) XXX_OneofWrappers() []any { return wrappersOne354 }

type One354In struct {
	M map[int32]*One354 `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type One356 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne356_0 `protobuf_oneof:"o0"`
}
type isOne356_0 interface{ isOne356_0() }
type One356_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One356_W0) isOne356_0() {}

type One356_W1 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One356_W1) isOne356_0() {}

type One356_W2 struct {
	V bool `protobuf:"varint,2,opt,name=v,oneof"`
}

func (*One356_W2) isOne356_0() {}

var wrappersOne356 = []any{(*One356_W0)(nil), (*One356_W1)(nil), (*One356_W2)(nil)}

func (*One356) XXX_OneofWrappers() []any { return wrappersOne356 }

type One356In struct {
	M map[int32]*One356 `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type One358 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne358_0 `protobuf_oneof:"o0"`
	O1 isOne358_1 `protobuf_oneof:"o1"`
}
type isOne358_0 interface{ isOne358_0() }
type isOne358_1 interface{ isOne358_1() }
type One358_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One358_W0) isOne358_0() {}

type One358_W1 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One358_W1) isOne358_1() {}

type One358_W2 struct {
	V bool `protobuf:"varint,2,opt,name=v,oneof"`
}

func (*One358_W2) isOne358_0() {}

var wrappersOne358 = []any{(*One358_W0)(nil), (*One358_W1)(nil), (*One358_W2)(nil)}

func (*One358) XXX_OneofWrappers() []any { return wrappersOne358 }

type One358In struct {
	M map[int32]*One358 `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type One360 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne360_0 `protobuf_oneof:"o0"`
	O1 isOne360_1 `protobuf_oneof:"o1"`
}
type isOne360_0 interface{ isOne360_0() }
type isOne360_1 interface{ isOne360_1() }
type One360_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One360_W0) isOne360_0() {}

type One360_W1 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One360_W1) isOne360_1() {}

type One360_W2 struct {
	V bool `protobuf:"varint,4,opt,name=v,oneof"`
}

func (*One360_W2) isOne360_0() {}

var wrappersOne360 = []any{(*One360_W0)(nil), (*One360_W1)(nil), (*One360_W2)(nil)}

func (*One360) XXX_OneofWrappers() []any { return wrappersOne360 }

type One360In struct {
	M map[int32]*One360 `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type One362 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne362_0 `protobuf_oneof:"o0"`
}
type isOne362_0 interface{ isOne362_0() }
type One362_W0 struct {
	V string `protobuf:"bytes,70000,opt,name=v,oneof"`
}

func (*One362_W0) isOne362_0() {}

type One362_W1 struct {
	V bool `protobuf:"varint,70000,opt,name=v,oneof"`
}

func (*One362_W1) isOne362_0() {}

var wrappersOne362 = []any{(*One362_W0)(nil), (*One362_W1)(nil)}

func (*One362) XXX_OneofWrappers() []any { return wrappersOne362 }

type One362In struct {
	M map[int32]*One362 `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type One364 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne364_0 `protobuf_oneof:"o0"`
}
type isOne364_0 interface{ isOne364_0() }
type One364_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One364_W0) isOne364_0() {}

type One364_W1 struct {
	V bool `protobuf:"varint,0,opt,name=v,oneof"`
}

func (*One364_W1) isOne364_0() {}

var wrappersOne364 = []any{(*One364_W0)(nil), (*One364_W1)(nil)}

func (*One364) XXX_OneofWrappers() []any { return wrappersOne364 }

type One364In struct {
	M map[int32]*One364 `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type One366 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne366_0 `protobuf_oneof:"o0"`
}
type isOne366_0 interface{ isOne366_0() }
type One366_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One366_W0) isOne366_0() {}

type One366_W1 struct {
	V bool `protobuf:"varint,,opt,name=v,oneof"`
}

func (*One366_W1) isOne366_0() {}

var wrappersOne366 = []any{(*One366_W0)(nil), (*One366_W1)(nil)}

func (*One366) XXX_OneofWrappers() []any { return wrappersOne366 }

type One366In struct {
	M map[int32]*One366 `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type One368 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne368_0 `protobuf_oneof:"o0"`
}
type isOne368_0 interface{ isOne368_0() }
type One368_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One368_W0) isOne368_0() {}

type One368_W1 struct {
	V bool `protobuf:"varint,536870911,opt,name=v,oneof"`
}

func (*One368_W1) isOne368_0() {}

var wrappersOne368 = []any{(*One368_W0)(nil), (*One368_W1)(nil)}

func (*One368) XXX_OneofWrappers() []any { return wrappersOne368 }

type One368In struct {
	M map[int32]*One368 `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type One370 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne370_0 `protobuf_oneof:"o0"`
}
type isOne370_0 interface{ isOne370_0() }
type One370_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One370_W0) isOne370_0() {}

type One370_W1 struct {
	V bool `protobuf:"varint,536870912,opt,name=v,oneof"`
}

func (*One370_W1) isOne370_0() {}

var wrappersOne370 = []any{(*One370_W0)(nil), (*One370_W1)(nil)}

func (*One370) XXX_OneofWrappers() []any { return wrappersOne370 }

type One370In struct {
	M map[int32]*One370 `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type One372 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne372_0 `protobuf_oneof:"o0"`
}
type isOne372_0 interface{ isOne372_0() }
type One372_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One372_W0) isOne372_0() {}

type One372_W1 struct {
	V bool `protobuf:"varint,4294967298,opt,name=v,oneof"`
}

func (*One372_W1) isOne372_0() {}

var wrappersOne372 = []any{(*One372_W0)(nil), (*One372_W1)(nil)}

func (*One372) XXX_OneofWrappers() []any { return wrappersOne372 }

type One372In struct {
	M map[int32]*One372 `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type One374 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne374_0 `protobuf_oneof:"o0"`
}
type isOne374_0 interface{ isOne374_0() }
type One374_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One374_W0) isOne374_0() {}

type One374_W1 struct {
	V bool `protobuf:"varint,-1,opt,name=v,oneof"`
}

func (*One374_W1) isOne374_0() {}

var wrappersOne374 = []any{(*One374_W0)(nil), (*One374_W1)(nil)}

func (*One374) XXX_OneofWrappers() []any { return wrappersOne374 }

type One374In struct {
	M map[int32]*One374 `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type One376 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne376_0 `protobuf_oneof:"o0"`
}
type isOne376_0 interface{ isOne376_0() }
type One376_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One376_W0) isOne376_0() {}

type One376_W1 struct {
	V bool `protobuf:"varint,4,opt,name=v,packed,oneof"`
}

func (*One376_W1) isOne376_0() {}

var wrappersOne376 = []any{(*One376_W0)(nil), (*One376_W1)(nil)}

func (*One376) XXX_OneofWrappers() []any { return wrappersOne376 }

type One376In struct {
	M map[int32]*One376 `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type One378 struct {
	P  chan int   `protobuf:"varint,1,opt,name=p"`
	O0 isOne378_0 `protobuf_oneof:"o0"`
}
type isOne378_0 interface{ isOne378_0() }
type One378_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One378_W0) isOne378_0() {}

type One378_W1 struct {
	V bool `protobuf:"varint,4,opt,name=v,proto3,oneof"`
}

func (*One378_W1) isOne378_0() {}

var wrappersOne378 = []any{(*One378_W0)(nil), (*One378_W1)(nil)}

func (*One378) XXX_OneofWrappers() []any { return wrappersOne378 }

type One378In struct {
	M map[int32]*One378 `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type One380 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne380_0 `protobuf_oneof:"o0"`
}
type isOne380_0 interface{ isOne380_0() }
type One380_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One380_W0) isOne380_0() {}

type One380_W1 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One380_W1) isOne380_0() {}

var wrappersOne380 = []any{(*One380_W0)(nil), (*One380_W1)(nil)}

func (*One380) ProtoReflect() any { return newReflect(wrappersOne380) }

type One381 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne381_0 `protobuf_oneof:"o0"`
}
type isOne381_0 interface{ isOne381_0() }
type One381_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One381_W0) isOne381_0() {}

type One381_W1 struct{}

func (*One381_W1) isOne381_0() {}

var wrappersOne381 = []any{(*One381_W0)(nil), (*One381_W1)(nil)}

func (*One381) ProtoReflect() any { return newReflect(wrappersOne381) }

type One382 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne382_0 `protobuf_oneof:"o0"`
}
type isOne382_0 interface{ isOne382_0() }
type One382_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One382_W0) isOne382_0() {}

type One382_W1 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
	X int32
}

func (*One382_W1) isOne382_0() {}

var wrappersOne382 = []any{(*One382_W0)(nil), (*One382_W1)(nil)}

func (*One382) ProtoReflect() any { return newReflect(wrappersOne382) }

type One383 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne383_0 `protobuf_oneof:"o0"`
}
type isOne383_0 interface{ isOne383_0() }
type One383_W0 struct {
	X int32
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One383_W0) isOne383_0() {}

var wrappersOne383 = []any{(*One383_W0)(nil)}

func (*One383) ProtoReflect() any { return newReflect(wrappersOne383) }

type One384 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne384_0 `protobuf_oneof:"o0"`
}
type isOne384_0 interface{ isOne384_0() }
type One384_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
	W int64  `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One384_W0) isOne384_0() {}

var wrappersOne384 = []any{(*One384_W0)(nil)}

func (*One384) ProtoReflect() any { return newReflect(wrappersOne384) }

type One385 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne385_0 `protobuf_oneof:"o0"`
}
type isOne385_0 interface{ isOne385_0() }
type One385_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One385_W0) isOne385_0() {}

type One385_W1 struct{ V int32 }

func (*One385_W1) isOne385_0() {}

var wrappersOne385 = []any{(*One385_W0)(nil), (*One385_W1)(nil)}

func (*One385) ProtoReflect() any { return newReflect(wrappersOne385) }

type One386 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne386_0 `protobuf_oneof:"o0"`
}
type isOne386_0 interface{ isOne386_0() }
type One386_W0 struct {
	V int32 `json:"v"`
}

func (*One386_W0) isOne386_0() {}

type One386_W1 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One386_W1) isOne386_0() {}

var wrappersOne386 = []any{(*One386_W0)(nil), (*One386_W1)(nil)}

func (*One386) ProtoReflect() any { return newReflect(wrappersOne386) }

type One387 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne387_0 `protobuf_oneof:"o0"`
}
type isOne387_0 interface{ isOne387_0() }
type One387_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One387_W0) isOne387_0() {}

type One387_W1 struct {
	V int32 `protobuf:"varint,1,opt,name=v,oneof"`
}

func (*One387_W1) isOne387_0() {}

var wrappersOne387 = []any{(*One387_W0)(nil), (*One387_W1)(nil)}

func (*One387) ProtoReflect() any { return newReflect(wrappersOne387) }

type One388 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne388_0 `protobuf_oneof:"o0"`
}
type isOne388_0 interface{ isOne388_0() }
type One388_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One388_W0) isOne388_0() {}

type One388_W1 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One388_W1) isOne388_0() {}

type One388_W2 struct {
	V bool `protobuf:"varint,2,opt,name=v,oneof"`
}

func (*One388_W2) isOne388_0() {}

var wrappersOne388 = []any{(*One388_W0)(nil), (*One388_W1)(nil), (*One388_W2)(nil)}

func (*One388) ProtoReflect() any { return newReflect(wrappersOne388) }

type One389 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne389_0 `protobuf_oneof:"o0"`
	O1 isOne389_1 `protobuf_oneof:"o1"`
}
type isOne389_0 interface{ isOne389_0() }
type isOne389_1 interface{ isOne389_1() }
type One389_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One389_W0) isOne389_0() {}

type One389_W1 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One389_W1) isOne389_1() {}

type One389_W2 struct {
	V bool `protobuf:"varint,2,opt,name=v,oneof"`
}

func (*One389_W2) isOne389_0() {}

var wrappersOne389 = []any{(*One389_W0)(nil), (*One389_W1)(nil), (*One389_W2)(nil)}

func (*One389) ProtoReflect() any { return newReflect(wrappersOne389) }

type One390 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne390_0 `protobuf_oneof:"o0"`
	O1 isOne390_1 `protobuf_oneof:"o1"`
}
type isOne390_0 interface{ isOne390_0() }
type isOne390_1 interface{ isOne390_1() }
type One390_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One390_W0) isOne390_0() {}

type One390_W1 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One390_W1) isOne390_1() {}

type One390_W2 struct {
	V bool `protobuf:"varint,4,opt,name=v,oneof"`
}

func (*One390_W2) isOne390_0() {}

var wrappersOne390 = []any{(*One390_W0)(nil), (*One390_W1)(nil), (*One390_W2)(nil)}

func (*One390) ProtoReflect() any { return newReflect(wrappersOne390) }

type One391 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne391_0 `protobuf_oneof:"o0"`
}
type isOne391_0 interface{ isOne391_0() }
type One391_W0 struct {
	V string `protobuf:"bytes,70000,opt,name=v,oneof"`
}

func (*One391_W0) isOne391_0() {}

type One391_W1 struct {
	V bool `protobuf:"varint,70000,opt,name=v,oneof"`
}

func (*One391_W1) isOne391_0() {}

var wrappersOne391 = []any{(*One391_W0)(nil), (*One391_W1)(nil)}

func (*One391) ProtoReflect() any { return newReflect(wrappersOne391) }

type One392 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne392_0 `protobuf_oneof:"o0"`
}
type isOne392_0 interface{ isOne392_0() }
type One392_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One392_W0) isOne392_0() {}

type One392_W1 struct {
	V bool `protobuf:"varint,0,opt,name=v,oneof"`
}

func (*One392_W1) isOne392_0() {}

var wrappersOne392 = []any{(*One392_W0)(nil), (*One392_W1)(nil)}

func (*One392) ProtoReflect() any { return newReflect(wrappersOne392) }

type One393 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne393_0 `protobuf_oneof:"o0"`
}
type isOne393_0 interface{ isOne393_0() }
type One393_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One393_W0) isOne393_0() {}

type One393_W1 struct {
	V bool `protobuf:"varint,,opt,name=v,oneof"`
}

func (*One393_W1) isOne393_0() {}

var wrappersOne393 = []any{(*One393_W0)(nil), (*One393_W1)(nil)}

func (*One393) ProtoReflect() any { return newReflect(wrappersOne393) }

type One394 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne394_0 `protobuf_oneof:"o0"`
}
type isOne394_0 interface{ isOne394_0() }
type One394_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One394_W0) isOne394_0() {}

type One394_W1 struct {
	V bool `protobuf:"varint,536870911,opt,name=v,oneof"`
}

func (*One394_W1) isOne394_0() {}

var wrappersOne394 = []any{(*One394_W0)(nil), (*One394_W1)(nil)}

func (*One394) ProtoReflect() any { return newReflect(wrappersOne394) }

type One395 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne395_0 `protobuf_oneof:"o0"`
}
type isOne395_0 interface{ isOne395_0() }
type One395_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One395_W0) isOne395_0() {}

type One395_W1 struct {
	V bool `protobuf:"varint,536870912,opt,name=v,oneof"`
}

func (*One395_W1) isOne395_0() {}

var wrappersOne395 = []any{(*One395_W0)(nil), (*One395_W1)(nil)}

func (*One395) ProtoReflect() any { return newReflect(wrappersOne395) }

type One396 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne396_0 `protobuf_oneof:"o0"`
}
type isOne396_0 interface{ isOne396_0() }
type One396_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One396_W0) isOne396_0() {}

type One396_W1 struct {
	V bool `protobuf:"varint,4294967298,opt,name=v,oneof"`
}

func (*One396_W1) isOne396_0() {}

var wrappersOne396 = []any{(*One396_W0)(nil), (*One396_W1)(nil)}

func (*One396) ProtoReflect() any { return newReflect(wrappersOne396) }

type One397 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne397_0 `protobuf_oneof:"o0"`
}
type isOne397_0 interface{ isOne397_0() }
type One397_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One397_W0) isOne397_0() {}

type One397_W1 struct {
	V bool `protobuf:"varint,-1,opt,name=v,oneof"`
}

func (*One397_W1) isOne397_0() {}

var wrappersOne397 = []any{(*One397_W0)(nil), (*One397_W1)(nil)}

func (*One397) ProtoReflect() any { return newReflect(wrappersOne397) }

type One398 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne398_0 `protobuf_oneof:"o0"`
}
type isOne398_0 interface{ isOne398_0() }
type One398_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One398_W0) isOne398_0() {}

type One398_W1 struct {
	V bool `protobuf:"varint,4,opt,name=v,packed,oneof"`
}

func (*One398_W1) isOne398_0() {}

var wrappersOne398 = []any{(*One398_W0)(nil), (*One398_W1)(nil)}

func (*One398) ProtoReflect() any { return newReflect(wrappersOne398) }

type One399 struct {
	P  chan int   `protobuf:"varint,1,opt,name=p"`
	O0 isOne399_0 `protobuf_oneof:"o0"`
}
type isOne399_0 interface{ isOne399_0() }
type One399_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One399_W0) isOne399_0() {}

type One399_W1 struct {
	V bool `protobuf:"varint,4,opt,name=v,proto3,oneof"`
}

func (*One399_W1) isOne399_0() {}

var wrappersOne399 = []any{(*One399_W0)(nil), (*One399_W1)(nil)}

func (*One399) ProtoReflect() any { return newReflect(wrappersOne399) }

type One400 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne400_0 `protobuf_oneof:"o0"`
}
type isOne400_0 interface{ isOne400_0() }
type One400_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One400_W0) isOne400_0() {}

type One400_W1 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One400_W1) isOne400_0() {}

var wrappersOne400 = []any{(*One400_W0)(nil), (*One400_W1)(nil)}

func (*One400) ProtoReflect() any { return newReflect(wrappersOne400) }

type One400In struct {
	M []*One400 `protobuf:"bytes,3,rep,name=m"`
}
type One402 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne402_0 `protobuf_oneof:"o0"`
}
type isOne402_0 interface{ isOne402_0() }
type One402_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One402_W0) isOne402_0() {}

type One402_W1 struct{}

func (*One402_W1) isOne402_0() {}

var wrappersOne402 = []any{(*One402_W0)(nil), (*One402_W1)(nil)}

func (*One402) ProtoReflect() any { return newReflect(wrappersOne402) }

type One402In struct {
	M []*One402 `protobuf:"bytes,3,rep,name=m"`
}
type One404 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne404_0 `protobuf_oneof:"o0"`
}
type isOne404_0 interface{ isOne404_0() }
type One404_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One404_W0) isOne404_0() {}

type One404_W1 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
	X int32
}

func (*One404_W1) isOne404_0() {}

var wrappersOne404 = []any{(*One404_W0)(nil), (*One404_W1)(nil)}

func (*One404) ProtoReflect() any { return newReflect(wrappersOne404) }

type One404In struct {
	M []*One404 `protobuf:"bytes,3,rep,name=m"`
}
type One406 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne406_0 `protobuf_oneof:"o0"`
}
type isOne406_0 interface{ isOne406_0() }
type One406_W0 struct {
	X int32
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One406_W0) isOne406_0() {}

var wrappersOne406 = []any{(*One406_W0)(nil)}

func (*One406) ProtoReflect() any { return newReflect(wrappersOne406) }

type One406In struct {
	M []*One406 `protobuf:"bytes,3,rep,name=m"`
}
type One408 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne408_0 `protobuf_oneof:"o0"`
}
type isOne408_0 interface{ isOne408_0() }
type One408_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
	W int64  `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One408_W0) isOne408_0() {}

var wrappersOne408 = []any{(*One408_W0)(nil)}

func (*One408) ProtoReflect() any { return newReflect(wrappersOne408) }

type One408In struct {
	M []*One408 `protobuf:"bytes,3,rep,name=m"`
}
type One410 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne410_0 `protobuf_oneof:"o0"`
}
type isOne410_0 interface{ isOne410_0() }
type One410_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One410_W0) isOne410_0() {}

type One410_W1 struct{ V int32 }

func (*One410_W1) isOne410_0() {}

var wrappersOne410 = []any{(*One410_W0)(nil), (*One410_W1)(nil)}

func (*One410) ProtoReflect() any { return newReflect(wrappersOne410) }

type One410In struct {
	M []*One410 `protobuf:"bytes,3,rep,name=m"`
}
type One412 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne412_0 `protobuf_oneof:"o0"`
}
type isOne412_0 interface{ isOne412_0() }
type One412_W0 struct {
	V int32 `json:"v"`
}

func (*One412_W0) isOne412_0() {}

type One412_W1 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One412_W1) isOne412_0() {}

var wrappersOne412 = []any{(*One412_W0)(nil), (*One412_W1)(nil)}

func (*One412) ProtoReflect() any { return newReflect(wrappersOne412) }

type One412In struct {
	M []*One412 `protobuf:"bytes,3,rep,name=m"`
}
type One414 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne414_0 `protobuf_oneof:"o0"`
}
type isOne414_0 interface{ isOne414_0() }
type One414_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One414_W0) isOne414_0() {}

type One414_W1 struct {
	V int32 `protobuf:"varint,1,opt,name=v,oneof"`
}

func (*One414_W1) isOne414_0() {}

var wrappersOne414 = []any{(*One414_W0)(nil), (*One414_W1)(nil)}

func (*One414) ProtoReflect() any { return newReflect(wrappersOne414) }

type One414In struct {
	M []*One414 `protobuf:"bytes,3,rep,name=m"`
}
type One416 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne416_0 `protobuf_oneof:"o0"`
}
type isOne416_0 interface{ isOne416_0() }
type One416_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One416_W0) isOne416_0() {}

type One416_W1 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One416_W1) isOne416_0() {}

type One416_W2 struct {
	V bool `protobuf:"varint,2,opt,name=v,oneof"`
}

func (*One416_W2) isOne416_0() {}

var wrappersOne416 = []any{(*One416_W0)(nil), (*One416_W1)(nil), (*One416_W2)(nil)}

func (*One416) ProtoReflect() any { return newReflect(wrappersOne416) }

type One416In struct {
	M []*One416 `protobuf:"bytes,3,rep,name=m"`
}
type One418 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne418_0 `protobuf_oneof:"o0"`
	O1 isOne418_1 `protobuf_oneof:"o1"`
}
type isOne418_0 interface{ isOne418_0() }
type isOne418_1 interface{ isOne418_1() }
type One418_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One418_W0) isOne418_0() {}

type One418_W1 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One418_W1) isOne418_1() {}

type One418_W2 struct {
	V bool `protobuf:"varint,2,opt,name=v,oneof"`
}

func (*One418_W2) isOne418_0() {}

var wrappersOne418 = []any{(*One418_W0)(nil), (*One418_W1)(nil), (*One418_W2)(nil)}

func (*One418) ProtoReflect() any { return newReflect(wrappersOne418) }

type One418In struct {
	M []*One418 `protobuf:"bytes,3,rep,name=m"`
}
type One420 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne420_0 `protobuf_oneof:"o0"`
	O1 isOne420_1 `protobuf_oneof:"o1"`
}
type isOne420_0 interface{ isOne420_0() }
type isOne420_1 interface{ isOne420_1() }
type One420_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One420_W0) isOne420_0() {}

type One420_W1 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One420_W1) isOne420_1() {}

type One420_W2 struct {
	V bool `protobuf:"varint,4,opt,name=v,oneof"`
}

func (*One420_W2) isOne420_0() {}

var wrappersOne420 = []any{(*One420_W0)(nil), (*One420_W1)(nil), (*One420_W2)(nil)}

func (*One420) ProtoReflect() any { return newReflect(wrappersOne420) }

type One420In struct {
	M []*One420 `protobuf:"bytes,3,rep,name=m"`
}
type One422 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne422_0 `protobuf_oneof:"o0"`
}
type isOne422_0 interface{ isOne422_0() }
type One422_W0 struct {
	V string `protobuf:"bytes,70000,opt,name=v,oneof"`
}

func (*One422_W0) isOne422_0() {}

type One422_W1 struct {
	V bool `protobuf:"varint,70000,opt,name=v,oneof"`
}

func (*One422_W1) isOne422_0() {}

var wrappersOne422 = []any{(*One422_W0)(nil), (*One422_W1)(nil)}

func (*One422) ProtoReflect() any { return newReflect(wrappersOne422) }

type One422In struct {
	M []*One422 `protobuf:"bytes,3,rep,name=m"`
}
type One424 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne424_0 `protobuf_oneof:"o0"`
}
type isOne424_0 interface{ isOne424_0() }
type One424_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One424_W0) isOne424_0() {}

type One424_W1 struct {
	V bool `protobuf:"varint,0,opt,name=v,oneof"`
}

func (*One424_W1) isOne424_0() {}

var wrappersOne424 = []any{(*One424_W0)(nil), (*One424_W1)(nil)}

func (*One424) ProtoReflect() any { return newReflect(wrappersOne424) }

type One424In struct {
	M []*One424 `protobuf:"bytes,3,rep,name=m"`
}
type One426 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne426_0 `protobuf_oneof:"o0"`
}
type isOne426_0 interface{ isOne426_0() }
type One426_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One426_W0) isOne426_0() {}

type One426_W1 struct {
	V bool `protobuf:"varint,,opt,name=v,oneof"`
}

func (*One426_W1) isOne426_0() {}

var wrappersOne426 = []any{(*One426_W0)(nil), (*One426_W1)(nil)}

func (*One426) ProtoReflect() any { return newReflect(wrappersOne426) }

type One426In struct {
	M []*One426 `protobuf:"bytes,3,rep,name=m"`
}
type One428 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne428_0 `protobuf_oneof:"o0"`
}
type isOne428_0 interface{ isOne428_0() }
type One428_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One428_W0) isOne428_0() {}

type One428_W1 struct {
	V bool `protobuf:"varint,536870911,opt,name=v,oneof"`
}

func (*One428_W1) isOne428_0() {}

var wrappersOne428 = []any{(*One428_W0)(nil), (*One428_W1)(nil)}

func (*One428) ProtoReflect() any { return newReflect(wrappersOne428) }

type One428In struct {
	M []*One428 `protobuf:"bytes,3,rep,name=m"`
}
type One430 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne430_0 `protobuf_oneof:"o0"`
}
type isOne430_0 interface{ isOne430_0() }
type One430_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One430_W0) isOne430_0() {}

type One430_W1 struct {
	V bool `protobuf:"varint,536870912,opt,name=v,oneof"`
}

func (*One430_W1) isOne430_0() {}

var wrappersOne430 = []any{(*One430_W0)(nil), (*One430_W1)(nil)}

func (*One430) ProtoReflect() any { return newReflect(wrappersOne430) }

type One430In struct {
	M []*One430 `protobuf:"bytes,3,rep,name=m"`
}
type One432 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne432_0 `protobuf_oneof:"o0"`
}
type isOne432_0 interface{ isOne432_0() }
type One432_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One432_W0) isOne432_0() {}

type One432_W1 struct {
	V bool `protobuf:"varint,4294967298,opt,name=v,oneof"`
}

func (*One432_W1) isOne432_0() {}

var wrappersOne432 = []any{(*One432_W0)(nil), (*One432_W1)(nil)}

func (*One432) ProtoReflect() any { return newReflect(wrappersOne432) }

type One432In struct {
	M []*One432 `protobuf:"bytes,3,rep,name=m"`
}
type One434 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne434_0 `protobuf_oneof:"o0"`
}
type isOne434_0 interface{ isOne434_0() }
type One434_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One434_W0) isOne434_0() {}

type One434_W1 struct {
	V bool `protobuf:"varint,-1,opt,name=v,oneof"`
}

func (*One434_W1) isOne434_0() {}

var wrappersOne434 = []any{(*One434_W0)(nil), (*One434_W1)(nil)}

func (*One434) ProtoReflect() any { return newReflect(wrappersOne434) }

type One434In struct {
	M []*One434 `protobuf:"bytes,3,rep,name=m"`
}
type One436 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne436_0 `protobuf_oneof:"o0"`
}
type isOne436_0 interface{ isOne436_0() }
type One436_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One436_W0) isOne436_0() {}

type One436_W1 struct {
	V bool `protobuf:"varint,4,opt,name=v,packed,oneof"`
}

func (*One436_W1) isOne436_0() {}

var wrappersOne436 = []any{(*One436_W0)(nil), (*One436_W1)(nil)}

func (*One436) ProtoReflect() any { return newReflect(wrappersOne436) }

type One436In struct {
	M []*One436 `protobuf:"bytes,3,rep,name=m"`
}
type One438 struct {
	P  chan int   `protobuf:"varint,1,opt,name=p"`
	O0 isOne438_0 `protobuf_oneof:"o0"`
}
type isOne438_0 interface{ isOne438_0() }
type One438_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One438_W0) isOne438_0() {}

type One438_W1 struct {
	V bool `protobuf:"varint,4,opt,name=v,proto3,oneof"`
}

func (*One438_W1) isOne438_0() {}

var wrappersOne438 = []any{(*One438_W0)(nil), (*One438_W1)(nil)}

func (*One438) ProtoReflect() any { return newReflect(wrappersOne438) }

type One438In struct {
	M []*One438 `protobuf:"bytes,3,rep,name=m"`
}
type One440 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne440_0 `protobuf_oneof:"o0"`
}
type isOne440_0 interface{ isOne440_0() }
type One440_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One440_W0) isOne440_0() {}

type One440_W1 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One440_W1) isOne440_0() {}

var wrappersOne440 = []any{(*One440_W0)(nil), (*One440_W1)(nil)}

func (*One440) ProtoReflect() any { return newReflect(wrappersOne440) }

type One440In struct {
	M map[int32]*One440 `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type One442 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne442_0 `protobuf_oneof:"o0"`
}
type isOne442_0 interface{ isOne442_0() }
type One442_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One442_W0) isOne442_0() {}

type One442_W1 struct{}

func (*One442_W1) isOne442_0() {}

var wrappersOne442 = []any{(*One442_W0)(nil), (*One442_W1)(nil)}

func (*One442) ProtoReflect() any { return newReflect(wrappersOne442) }

type One442In struct {
	M map[int32]*One442 `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type One444 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne444_0 `protobuf_oneof:"o0"`
}
type isOne444_0 interface{ isOne444_0() }
type One444_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One444_W0) isOne444_0() {}

type One444_W1 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
	X int32
}

func (*One444_W1) isOne444_0() {}

var wrappersOne444 = []any{(*One444_W0)(nil), (*One444_W1)(nil)}

func (*One444) ProtoReflect() any { return newReflect(wrappersOne444) }

type One444In struct {
	M map[int32]*One444 `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type One446 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne446_0 `protobuf_oneof:"o0"`
}
type isOne446_0 interface{ isOne446_0() }
type One446_W0 struct {
	X int32
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One446_W0) isOne446_0() {}

var wrappersOne446 = []any{(*One446_W0)(nil)}

func (*One446) ProtoReflect() any { return newReflect(wrappersOne446) }

type One446In struct {
	M map[int32]*One446 `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type One448 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne448_0 `protobuf_oneof:"o0"`
}
type isOne448_0 interface{ isOne448_0() }
type One448_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
	W int64  `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One448_W0) isOne448_0() {}

var wrappersOne448 = []any{(*One448_W0)(nil)}

func (*One448) ProtoReflect() any { return newReflect(wrappersOne448) }

type One448In struct {
	M map[int32]*One448 `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type One450 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne450_0 `protobuf_oneof:"o0"`
}
type isOne450_0 interface{ isOne450_0() }
type One450_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One450_W0) isOne450_0() {}

type One450_W1 struct{ V int32 }

func (*One450_W1) isOne450_0() {}

var wrappersOne450 = []any{(*One450_W0)(nil), (*One450_W1)(nil)}

func (*One450) ProtoReflect() any { return newReflect(wrappersOne450) }

type One450In struct {
	M map[int32]*One450 `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type One452 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne452_0 `protobuf_oneof:"o0"`
}
type isOne452_0 interface{ isOne452_0() }
type One452_W0 struct {
	V int32 `json:"v"`
}

func (*One452_W0) isOne452_0() {}

type One452_W1 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One452_W1) isOne452_0() {}

var wrappersOne452 = []any{(*One452_W0)(nil), (*One452_W1)(nil)}

func (*One452) ProtoReflect() any { return newReflect(wrappersOne452) }

type One452In struct {
	M map[int32]*One452 `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type One454 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne454_0 `protobuf_oneof:"o0"`
}
type isOne454_0 interface{ isOne454_0() }
type One454_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One454_W0) isOne454_0() {}

type One454_W1 struct {
	V int32 `protobuf:"varint,1,opt,name=v,oneof"`
}

func (*One454_W1) isOne454_0() {}

var wrappersOne454 = []any{(*One454_W0)(nil), (*One454_W1)(nil)}

func (*One454) ProtoReflect() any { return newReflect(wrappersOne454) }

type One454In struct {
	M map[int32]*One454 `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type One456 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne456_0 `protobuf_oneof:"o0"`
}
type isOne456_0 interface{ isOne456_0() }
type One456_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One456_W0) isOne456_0() {}

type One456_W1 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One456_W1) isOne456_0() {}

type One456_W2 struct {
	V bool `protobuf:"varint,2,opt,name=v,oneof"`
}

func (*One456_W2) isOne456_0() {}

var wrappersOne456 = []any{(*One456_W0)(nil), (*One456_W1)(nil), (*One456_W2)(nil)}

func (*One456) ProtoReflect() any { return newReflect(wrappersOne456) }

type One456In struct {
	M map[int32]*One456 `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type One458 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne458_0 `protobuf_oneof:"o0"`
	O1 isOne458_1 `protobuf_oneof:"o1"`
}
type isOne458_0 interface{ isOne458_0() }
type isOne458_1 interface{ isOne458_1() }
type One458_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One458_W0) isOne458_0() {}

type One458_W1 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One458_W1) isOne458_1() {}

type One458_W2 struct {
	V bool `protobuf:"varint,2,opt,name=v,oneof"`
}

func (*One458_W2) isOne458_0() {}

var wrappersOne458 = []any{(*One458_W0)(nil), (*One458_W1)(nil), (*One458_W2)(nil)}

func (*One458) ProtoReflect() any { return newReflect(wrappersOne458) }

type One458In struct {
	M map[int32]*One458 `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type One460 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne460_0 `protobuf_oneof:"o0"`
	O1 isOne460_1 `protobuf_oneof:"o1"`
}
type isOne460_0 interface{ isOne460_0() }
type isOne460_1 interface{ isOne460_1() }
type One460_W0 struct {
	V string `protobuf:"bytes,2,opt,name=v,oneof"`
}

func (*One460_W0) isOne460_0() {}

type One460_W1 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One460_W1) isOne460_1() {}

type One460_W2 struct {
	V bool `protobuf:"varint,4,opt,name=v,oneof"`
}

func (*One460_W2) isOne460_0() {}

var wrappersOne460 = []any{(*One460_W0)(nil), (*One460_W1)(nil), (*One460_W2)(nil)}

func (*One460) ProtoReflect() any { return newReflect(wrappersOne460) }

type One460In struct {
	M map[int32]*One460 `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type One462 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne462_0 `protobuf_oneof:"o0"`
}
type isOne462_0 interface{ isOne462_0() }
type One462_W0 struct {
	V string `protobuf:"bytes,70000,opt,name=v,oneof"`
}

func (*One462_W0) isOne462_0() {}

type One462_W1 struct {
	V bool `protobuf:"varint,70000,opt,name=v,oneof"`
}

func (*One462_W1) isOne462_0() {}

var wrappersOne462 = []any{(*One462_W0)(nil), (*One462_W1)(nil)}

func (*One462) ProtoReflect() any { return newReflect(wrappersOne462) }

type One462In struct {
	M map[int32]*One462 `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type One464 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne464_0 `protobuf_oneof:"o0"`
}
type isOne464_0 interface{ isOne464_0() }
type One464_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One464_W0) isOne464_0() {}

type One464_W1 struct {
	V bool `protobuf:"varint,0,opt,name=v,oneof"`
}

func (*One464_W1) isOne464_0() {}

var wrappersOne464 = []any{(*One464_W0)(nil), (*One464_W1)(nil)}

func (*One464) ProtoReflect() any { return newReflect(wrappersOne464) }

type One464In struct {
	M map[int32]*One464 `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type One466 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne466_0 `protobuf_oneof:"o0"`
}
type isOne466_0 interface{ isOne466_0() }
type One466_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One466_W0) isOne466_0() {}

type One466_W1 struct {
	V bool `protobuf:"varint,,opt,name=v,oneof"`
}

func (*One466_W1) isOne466_0() {}

var wrappersOne466 = []any{(*One466_W0)(nil), (*One466_W1)(nil)}

func (*One466) ProtoReflect() any { return newReflect(wrappersOne466) }

type One466In struct {
	M map[int32]*One466 `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type One468 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne468_0 `protobuf_oneof:"o0"`
}
type isOne468_0 interface{ isOne468_0() }
type One468_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One468_W0) isOne468_0() {}

type One468_W1 struct {
	V bool `protobuf:"varint,536870911,opt,name=v,oneof"`
}

func (*One468_W1) isOne468_0() {}

var wrappersOne468 = []any{(*One468_W0)(nil), (*One468_W1)(nil)}

func (*One468) ProtoReflect() any { return newReflect(wrappersOne468) }

type One468In struct {
	M map[int32]*One468 `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type One470 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne470_0 `protobuf_oneof:"o0"`
}
type isOne470_0 interface{ isOne470_0() }
type One470_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One470_W0) isOne470_0() {}

type One470_W1 struct {
	V bool `protobuf:"varint,536870912,opt,name=v,oneof"`
}

func (*One470_W1) isOne470_0() {}

var wrappersOne470 = []any{(*One470_W0)(nil), (*One470_W1)(nil)}

func (*One470) ProtoReflect() any { return newReflect(wrappersOne470) }

type One470In struct {
	M map[int32]*One470 `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type One472 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne472_0 `protobuf_oneof:"o0"`
}
type isOne472_0 interface{ isOne472_0() }
type One472_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One472_W0) isOne472_0() {}

type One472_W1 struct {
	V bool `protobuf:"varint,4294967298,opt,name=v,oneof"`
}

func (*One472_W1) isOne472_0() {}

var wrappersOne472 = []any{(*One472_W0)(nil), (*One472_W1)(nil)}

func (*One472) ProtoReflect() any { return newReflect(wrappersOne472) }

type One472In struct {
	M map[int32]*One472 `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type One474 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne474_0 `protobuf_oneof:"o0"`
}
type isOne474_0 interface{ isOne474_0() }
type One474_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One474_W0) isOne474_0() {}

type One474_W1 struct {
	V bool `protobuf:"varint,-1,opt,name=v,oneof"`
}

func (*One474_W1) isOne474_0() {}

var wrappersOne474 = []any{(*One474_W0)(nil), (*One474_W1)(nil)}

func (*One474) ProtoReflect() any { return newReflect(wrappersOne474) }

type One474In struct {
	M map[int32]*One474 `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type One476 struct {
	P  int32      `protobuf:"varint,1,opt,name=p"`
	O0 isOne476_0 `protobuf_oneof:"o0"`
}
type isOne476_0 interface{ isOne476_0() }
type One476_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One476_W0) isOne476_0() {}

type One476_W1 struct {
	V bool `protobuf:"varint,4,opt,name=v,packed,oneof"`
}

func (*One476_W1) isOne476_0() {}

var wrappersOne476 = []any{(*One476_W0)(nil), (*One476_W1)(nil)}

func (*One476) ProtoReflect() any { return newReflect(wrappersOne476) }

type One476In struct {
	M map[int32]*One476 `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type One478 struct {
	P  chan int   `protobuf:"varint,1,opt,name=p"`
	O0 isOne478_0 `protobuf_oneof:"o0"`
}
type isOne478_0 interface{ isOne478_0() }
type One478_W0 struct {
	V int64 `protobuf:"zigzag64,3,opt,name=v,oneof"`
}

func (*One478_W0) isOne478_0() {}

type One478_W1 struct {
	V bool `protobuf:"varint,4,opt,name=v,proto3,oneof"`
}

func (*One478_W1) isOne478_0() {}

var wrappersOne478 = []any{(*One478_W0)(nil), (*One478_W1)(nil)}

func (*One478) ProtoReflect() any { return newReflect(wrappersOne478) }

type One478In struct {
	M map[int32]*One478 `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

// Oneofs lists the types.
var Oneofs = []reflect.Type{
	reflect.TypeOf(One0{}),
	reflect.TypeOf(One1{}),
	reflect.TypeOf(One2{}),
	reflect.TypeOf(One3{}),
	reflect.TypeOf(One4{}),
	reflect.TypeOf(One5{}),
	reflect.TypeOf(One6{}),
	reflect.TypeOf(One7{}),
	reflect.TypeOf(One8{}),
	reflect.TypeOf(One9{}),
	reflect.TypeOf(One10{}),
	reflect.TypeOf(One11{}),
	reflect.TypeOf(One12{}),
	reflect.TypeOf(One13{}),
	reflect.TypeOf(One14{}),
	reflect.TypeOf(One15{}),
	reflect.TypeOf(One16{}),
	reflect.TypeOf(One17{}),
	reflect.TypeOf(One18{}),
	reflect.TypeOf(One19{}),
	reflect.TypeOf(One20{}),
	reflect.TypeOf(One21{}),
	reflect.TypeOf(One22{}),
	reflect.TypeOf(One23{}),
	reflect.TypeOf(One24{}),
	reflect.TypeOf(One25{}),
	reflect.TypeOf(One26{}),
	reflect.TypeOf(One27{}),
	reflect.TypeOf(One28{}),
	reflect.TypeOf(One29{}),
	reflect.TypeOf(One30{}),
	reflect.TypeOf(One31{}),
	reflect.TypeOf(One32{}),
	reflect.TypeOf(One33{}),
	reflect.TypeOf(One34{}),
	reflect.TypeOf(One35{}),
	reflect.TypeOf(One36{}),
	reflect.TypeOf(One37{}),
	reflect.TypeOf(One38{}),
	reflect.TypeOf(One39{}),
	reflect.TypeOf(One40{}),
	reflect.TypeOf(One41{}),
	reflect.TypeOf(One42{}),
	reflect.TypeOf(One43{}),
	reflect.TypeOf(One44{}),
	reflect.TypeOf(One45{}),
	reflect.TypeOf(One46{}),
	reflect.TypeOf(One47{}),
	reflect.TypeOf(One48{}),
	reflect.TypeOf(One49{}),
	reflect.TypeOf(One50{}),
	reflect.TypeOf(One51{}),
	reflect.TypeOf(One52{}),
	reflect.TypeOf(One53{}),
	reflect.TypeOf(One54{}),
	reflect.TypeOf(One55{}),
	reflect.TypeOf(One56{}),
	reflect.TypeOf(One57{}),
	reflect.TypeOf(One58{}),
	reflect.TypeOf(One59{}),
	reflect.TypeOf(One60{}),
	reflect.TypeOf(One61{}),
	reflect.TypeOf(One62{}),
	reflect.TypeOf(One63{}),
	reflect.TypeOf(One64{}),
	reflect.TypeOf(One65{}),
	reflect.TypeOf(One66{}),
	reflect.TypeOf(One67{}),
	reflect.TypeOf(One68{}),
	reflect.TypeOf(One69{}),
	reflect.TypeOf(One70{}),
	reflect.TypeOf(One71{}),
	reflect.TypeOf(One72{}),
	reflect.TypeOf(One73{}),
	reflect.TypeOf(One74{}),
	reflect.TypeOf(One75{}),
	reflect.TypeOf(One76{}),
	reflect.TypeOf(One77{}),
	reflect.TypeOf(One78{}),
	reflect.TypeOf(One79{}),
	reflect.TypeOf(One80{}),
	reflect.TypeOf(One81{}),
	reflect.TypeOf(One82{}),
	reflect.TypeOf(One83{}),
	reflect.TypeOf(One84{}),
	reflect.TypeOf(One85{}),
	reflect.TypeOf(One86{}),
	reflect.TypeOf(One87{}),
	reflect.TypeOf(One88{}),
	reflect.TypeOf(One89{}),
	reflect.TypeOf(One90{}),
	reflect.TypeOf(One91{}),
	reflect.TypeOf(One92{}),
	reflect.TypeOf(One93{}),
	reflect.TypeOf(One94{}),
	reflect.TypeOf(One95{}),
	reflect.TypeOf(One96{}),
	reflect.TypeOf(One97{}),
	reflect.TypeOf(One98{}),
	reflect.TypeOf(One99{}),
	reflect.TypeOf(One100{}),
	reflect.TypeOf(One101{}),
	reflect.TypeOf(One102{}),
	reflect.TypeOf(One103{}),
	reflect.TypeOf(One104{}),
	reflect.TypeOf(One105{}),
	reflect.TypeOf(One106{}),
	reflect.TypeOf(One107{}),
	reflect.TypeOf(One108{}),
	reflect.TypeOf(One109{}),
	reflect.TypeOf(One110{}),
	reflect.TypeOf(One111{}),
	reflect.TypeOf(One112{}),
	reflect.TypeOf(One113{}),
	reflect.TypeOf(One114{}),
	reflect.TypeOf(One115{}),
	reflect.TypeOf(One116{}),
	reflect.TypeOf(One117{}),
	reflect.TypeOf(One118{}),
	reflect.TypeOf(One119{}),
	reflect.TypeOf(One120{}),
	reflect.TypeOf(One121{}),
	reflect.TypeOf(One122{}),
	reflect.TypeOf(One123{}),
	reflect.TypeOf(One124{}),
	reflect.TypeOf(One125{}),
	reflect.TypeOf(One126{}),
	reflect.TypeOf(One127{}),
	reflect.TypeOf(One128{}),
	reflect.TypeOf(One129{}),
	reflect.TypeOf(One130{}),
	reflect.TypeOf(One131{}),
	reflect.TypeOf(One132{}),
	reflect.TypeOf(One133{}),
	reflect.TypeOf(One134{}),
	reflect.TypeOf(One135{}),
	reflect.TypeOf(One136{}),
	reflect.TypeOf(One137{}),
	reflect.TypeOf(One138{}),
	reflect.TypeOf(One139{}),
	reflect.TypeOf(One140{}),
	reflect.TypeOf(One141{}),
	reflect.TypeOf(One142{}),
	reflect.TypeOf(One143{}),
	reflect.TypeOf(One144{}),
	reflect.TypeOf(One145{}),
	reflect.TypeOf(One146{}),
	reflect.TypeOf(One147{}),
	reflect.TypeOf(One148{}),
	reflect.TypeOf(One149{}),
	reflect.TypeOf(One150{}),
	reflect.TypeOf(One151{}),
	reflect.TypeOf(One152{}),
	reflect.TypeOf(One153{}),
	reflect.TypeOf(One154{}),
	reflect.TypeOf(One155{}),
	reflect.TypeOf(One156{}),
	reflect.TypeOf(One157{}),
	reflect.TypeOf(One158{}),
	reflect.TypeOf(One159{}),
	reflect.TypeOf(One160{}),
	reflect.TypeOf(One161{}),
	reflect.TypeOf(One162{}),
	reflect.TypeOf(One163{}),
	reflect.TypeOf(One164{}),
	reflect.TypeOf(One165{}),
	reflect.TypeOf(One166{}),
	reflect.TypeOf(One167{}),
	reflect.TypeOf(One168{}),
	reflect.TypeOf(One169{}),
	reflect.TypeOf(One170{}),
	reflect.TypeOf(One171{}),
	reflect.TypeOf(One172{}),
	reflect.TypeOf(One173{}),
	reflect.TypeOf(One174{}),
	reflect.TypeOf(One175{}),
	reflect.TypeOf(One176{}),
	reflect.TypeOf(One177{}),
	reflect.TypeOf(One178{}),
	reflect.TypeOf(One179{}),
	reflect.TypeOf(One180{}),
	reflect.TypeOf(One181{}),
	reflect.TypeOf(One182{}),
	reflect.TypeOf(One183{}),
	reflect.TypeOf(One184{}),
	reflect.TypeOf(One185{}),
	reflect.TypeOf(One186{}),
	reflect.TypeOf(One187{}),
	reflect.TypeOf(One188{}),
	reflect.TypeOf(One189{}),
	reflect.TypeOf(One190{}),
	reflect.TypeOf(One191{}),
	reflect.TypeOf(One192{}),
	reflect.TypeOf(One193{}),
	reflect.TypeOf(One194{}),
	reflect.TypeOf(One195{}),
	reflect.TypeOf(One196{}),
	reflect.TypeOf(One197{}),
	reflect.TypeOf(One198{}),
	reflect.TypeOf(One199{}),
	reflect.TypeOf(One200{}),
	reflect.TypeOf(One201{}),
	reflect.TypeOf(One202{}),
	reflect.TypeOf(One203{}),
	reflect.TypeOf(One204{}),
	reflect.TypeOf(One205{}),
	reflect.TypeOf(One206{}),
	reflect.TypeOf(One207{}),
	reflect.TypeOf(One208{}),
	reflect.TypeOf(One209{}),
	reflect.TypeOf(One210{}),
	reflect.TypeOf(One211{}),
	reflect.TypeOf(One212{}),
	reflect.TypeOf(One213{}),
	reflect.TypeOf(One214{}),
	reflect.TypeOf(One215{}),
	reflect.TypeOf(One216{}),
	reflect.TypeOf(One217{}),
	reflect.TypeOf(One218{}),
	reflect.TypeOf(One219{}),
	reflect.TypeOf(One220{}),
	reflect.TypeOf(One221{}),
	reflect.TypeOf(One222{}),
	reflect.TypeOf(One223{}),
	reflect.TypeOf(One224{}),
	reflect.TypeOf(One225{}),
	reflect.TypeOf(One226{}),
	reflect.TypeOf(One227{}),
	reflect.TypeOf(One228{}),
	reflect.TypeOf(One229{}),
	reflect.TypeOf(One230{}),
	reflect.TypeOf(One231{}),
	reflect.TypeOf(One232{}),
	reflect.TypeOf(One233{}),
	reflect.TypeOf(One234{}),
	reflect.TypeOf(One235{}),
	reflect.TypeOf(One236{}),
	reflect.TypeOf(One237{}),
	reflect.TypeOf(One238{}),
	reflect.TypeOf(One239{}),
	reflect.TypeOf(One240{}),
	reflect.TypeOf(One241{}),
	reflect.TypeOf(One242{}),
	reflect.TypeOf(One243{}),
	reflect.TypeOf(One244{}),
	reflect.TypeOf(One245{}),
	reflect.TypeOf(One246{}),
	reflect.TypeOf(One247{}),
	reflect.TypeOf(One248{}),
	reflect.TypeOf(One249{}),
	reflect.TypeOf(One250{}),
	reflect.TypeOf(One251{}),
	reflect.TypeOf(One252{}),
	reflect.TypeOf(One253{}),
	reflect.TypeOf(One254{}),
	reflect.TypeOf(One255{}),
	reflect.TypeOf(One256{}),
	reflect.TypeOf(One257{}),
	reflect.TypeOf(One258{}),
	reflect.TypeOf(One259{}),
	reflect.TypeOf(One260{}),
	reflect.TypeOf(One261{}),
	reflect.TypeOf(One262{}),
	reflect.TypeOf(One263{}),
	reflect.TypeOf(One264{}),
	reflect.TypeOf(One265{}),
	reflect.TypeOf(One266{}),
	reflect.TypeOf(One267{}),
	reflect.TypeOf(One268{}),
	reflect.TypeOf(One269{}),
	reflect.TypeOf(One270{}),
	reflect.TypeOf(One271{}),
	reflect.TypeOf(One272{}),
	reflect.TypeOf(One273{}),
	reflect.TypeOf(One274{}),
	reflect.TypeOf(One275{}),
	reflect.TypeOf(One276{}),
	reflect.TypeOf(One277{}),
	reflect.TypeOf(One278{}),
	reflect.TypeOf(One279{}),
	reflect.TypeOf(One280{}),
	reflect.TypeOf(One281{}),
	reflect.TypeOf(One282{}),
	reflect.TypeOf(One283{}),
	reflect.TypeOf(One284{}),
	reflect.TypeOf(One285{}),
	reflect.TypeOf(One286{}),
	reflect.TypeOf(One287{}),
	reflect.TypeOf(One288{}),
	reflect.TypeOf(One289{}),
	reflect.TypeOf(One290{}),
	reflect.TypeOf(One291{}),
	reflect.TypeOf(One292{}),
	reflect.TypeOf(One293{}),
	reflect.TypeOf(One294{}),
	reflect.TypeOf(One295{}),
	reflect.TypeOf(One296{}),
	reflect.TypeOf(One297{}),
	reflect.TypeOf(One298{}),
	reflect.TypeOf(One299{}),
	reflect.TypeOf(One300{}),
	reflect.TypeOf(One300In{}),
	reflect.TypeOf(One302{}),
	reflect.TypeOf(One302In{}),
	reflect.TypeOf(One304{}),
	reflect.TypeOf(One304In{}),
	reflect.TypeOf(One306{}),
	reflect.TypeOf(One306In{}),
	reflect.TypeOf(One308{}),
	reflect.TypeOf(One308In{}),
	reflect.TypeOf(One310{}),
	reflect.TypeOf(One310In{}),
	reflect.TypeOf(One312{}),
	reflect.TypeOf(One312In{}),
	reflect.TypeOf(One314{}),
	reflect.TypeOf(One314In{}),
	reflect.TypeOf(One316{}),
	reflect.TypeOf(One316In{}),
	reflect.TypeOf(One318{}),
	reflect.TypeOf(One318In{}),
	reflect.TypeOf(One320{}),
	reflect.TypeOf(One320In{}),
	reflect.TypeOf(One322{}),
	reflect.TypeOf(One322In{}),
	reflect.TypeOf(One324{}),
	reflect.TypeOf(One324In{}),
	reflect.TypeOf(One326{}),
	reflect.TypeOf(One326In{}),
	reflect.TypeOf(One328{}),
	reflect.TypeOf(One328In{}),
	reflect.TypeOf(One330{}),
	reflect.TypeOf(One330In{}),
	reflect.TypeOf(One332{}),
	reflect.TypeOf(One332In{}),
	reflect.TypeOf(One334{}),
	reflect.TypeOf(One334In{}),
	reflect.TypeOf(One336{}),
	reflect.TypeOf(One336In{}),
	reflect.TypeOf(One338{}),
	reflect.TypeOf(One338In{}),
	reflect.TypeOf(One340{}),
	reflect.TypeOf(One340In{}),
	reflect.TypeOf(One342{}),
	reflect.TypeOf(One342In{}),
	reflect.TypeOf(One344{}),
	reflect.TypeOf(One344In{}),
	reflect.TypeOf(One346{}),
	reflect.TypeOf(One346In{}),
	reflect.TypeOf(One348{}),
	reflect.TypeOf(One348In{}),
	reflect.TypeOf(One350{}),
	reflect.TypeOf(One350In{}),
	reflect.TypeOf(One352{}),
	reflect.TypeOf(One352In{}),
	reflect.TypeOf(One354{}),
	reflect.TypeOf(One354In{}),
	reflect.TypeOf(One356{}),
	reflect.TypeOf(One356In{}),
	reflect.TypeOf(One358{}),
	reflect.TypeOf(One358In{}),
	reflect.TypeOf(One360{}),
	reflect.TypeOf(One360In{}),
	reflect.TypeOf(One362{}),
	reflect.TypeOf(One362In{}),
	reflect.TypeOf(One364{}),
	reflect.TypeOf(One364In{}),
	reflect.TypeOf(One366{}),
	reflect.TypeOf(One366In{}),
	reflect.TypeOf(One368{}),
	reflect.TypeOf(One368In{}),
	reflect.TypeOf(One370{}),
	reflect.TypeOf(One370In{}),
	reflect.TypeOf(One372{}),
	reflect.TypeOf(One372In{}),
	reflect.TypeOf(One374{}),
	reflect.TypeOf(One374In{}),
	reflect.TypeOf(One376{}),
	reflect.TypeOf(One376In{}),
	reflect.TypeOf(One378{}),
	reflect.TypeOf(One378In{}),
	reflect.TypeOf(One380{}),
	reflect.TypeOf(One381{}),
	reflect.TypeOf(One382{}),
	reflect.TypeOf(One383{}),
	reflect.TypeOf(One384{}),
	reflect.TypeOf(One385{}),
	reflect.TypeOf(One386{}),
	reflect.TypeOf(One387{}),
	reflect.TypeOf(One388{}),
	reflect.TypeOf(One389{}),
	reflect.TypeOf(One390{}),
	reflect.TypeOf(One391{}),
	reflect.TypeOf(One392{}),
	reflect.TypeOf(One393{}),
	reflect.TypeOf(One394{}),
	reflect.TypeOf(One395{}),
	reflect.TypeOf(One396{}),
	reflect.TypeOf(One397{}),
	reflect.TypeOf(One398{}),
	reflect.TypeOf(One399{}),
	reflect.TypeOf(One400{}),
	reflect.TypeOf(One400In{}),
	reflect.TypeOf(One402{}),
	reflect.TypeOf(One402In{}),
	reflect.TypeOf(One404{}),
	reflect.TypeOf(One404In{}),
	reflect.TypeOf(One406{}),
	reflect.TypeOf(One406In{}),
	reflect.TypeOf(One408{}),
	reflect.TypeOf(One408In{}),
	reflect.TypeOf(One410{}),
	reflect.TypeOf(One410In{}),
	reflect.TypeOf(One412{}),
	reflect.TypeOf(One412In{}),
	reflect.TypeOf(One414{}),
	reflect.TypeOf(One414In{}),
	reflect.TypeOf(One416{}),
	reflect.TypeOf(One416In{}),
	reflect.TypeOf(One418{}),
	reflect.TypeOf(One418In{}),
	reflect.TypeOf(One420{}),
	reflect.TypeOf(One420In{}),
	reflect.TypeOf(One422{}),
	reflect.TypeOf(One422In{}),
	reflect.TypeOf(One424{}),
	reflect.TypeOf(One424In{}),
	reflect.TypeOf(One426{}),
	reflect.TypeOf(One426In{}),
	reflect.TypeOf(One428{}),
	reflect.TypeOf(One428In{}),
	reflect.TypeOf(One430{}),
	reflect.TypeOf(One430In{}),
	reflect.TypeOf(One432{}),
	reflect.TypeOf(One432In{}),
	reflect.TypeOf(One434{}),
	reflect.TypeOf(One434In{}),
	reflect.TypeOf(One436{}),
	reflect.TypeOf(One436In{}),
	reflect.TypeOf(One438{}),
	reflect.TypeOf(One438In{}),
	reflect.TypeOf(One440{}),
	reflect.TypeOf(One440In{}),
	reflect.TypeOf(One442{}),
	reflect.TypeOf(One442In{}),
	reflect.TypeOf(One444{}),
	reflect.TypeOf(One444In{}),
	reflect.TypeOf(One446{}),
	reflect.TypeOf(One446In{}),
	reflect.TypeOf(One448{}),
	reflect.TypeOf(One448In{}),
	reflect.TypeOf(One450{}),
	reflect.TypeOf(One450In{}),
	reflect.TypeOf(One452{}),
	reflect.TypeOf(One452In{}),
	reflect.TypeOf(One454{}),
	reflect.TypeOf(One454In{}),
	reflect.TypeOf(One456{}),
	reflect.TypeOf(One456In{}),
	reflect.TypeOf(One458{}),
	reflect.TypeOf(One458In{}),
	reflect.TypeOf(One460{}),
	reflect.TypeOf(One460In{}),
	reflect.TypeOf(One462{}),
	reflect.TypeOf(One462In{}),
	reflect.TypeOf(One464{}),
	reflect.TypeOf(One464In{}),
	reflect.TypeOf(One466{}),
	reflect.TypeOf(One466In{}),
	reflect.TypeOf(One468{}),
	reflect.TypeOf(One468In{}),
	reflect.TypeOf(One470{}),
	reflect.TypeOf(One470In{}),
	reflect.TypeOf(One472{}),
	reflect.TypeOf(One472In{}),
	reflect.TypeOf(One474{}),
	reflect.TypeOf(One474In{}),
	reflect.TypeOf(One476{}),
	reflect.TypeOf(One476In{}),
	reflect.TypeOf(One478{}),
	reflect.TypeOf(One478In{}),
}

func init() {
	abs.OneofWrappers[reflect.TypeOf(One0{})] = wrappersOne0
	abs.OneofWrappers[reflect.TypeOf(One1{})] = wrappersOne1
	abs.OneofWrappers[reflect.TypeOf(One2{})] = wrappersOne2
	abs.OneofWrappers[reflect.TypeOf(One3{})] = wrappersOne3
	abs.OneofWrappers[reflect.TypeOf(One4{})] = wrappersOne4
	abs.OneofWrappers[reflect.TypeOf(One5{})] = wrappersOne5
	abs.OneofWrappers[reflect.TypeOf(One6{})] = wrappersOne6
	abs.OneofWrappers[reflect.TypeOf(One7{})] = wrappersOne7
	abs.OneofWrappers[reflect.TypeOf(One8{})] = wrappersOne8
	abs.OneofWrappers[reflect.TypeOf(One9{})] = wrappersOne9
	abs.OneofWrappers[reflect.TypeOf(One10{})] = wrappersOne10
	abs.OneofWrappers[reflect.TypeOf(One11{})] = wrappersOne11
	abs.OneofWrappers[reflect.TypeOf(One12{})] = wrappersOne12
	abs.OneofWrappers[reflect.TypeOf(One13{})] = wrappersOne13
	abs.OneofWrappers[reflect.TypeOf(One14{})] = wrappersOne14
	abs.OneofWrappers[reflect.TypeOf(One15{})] = wrappersOne15
	abs.OneofWrappers[reflect.TypeOf(One16{})] = wrappersOne16
	abs.OneofWrappers[reflect.TypeOf(One17{})] = wrappersOne17
	abs.OneofWrappers[reflect.TypeOf(One18{})] = wrappersOne18
	abs.OneofWrappers[reflect.TypeOf(One19{})] = wrappersOne19
	abs.OneofWrappers[reflect.TypeOf(One20{})] = wrappersOne20
	abs.OneofWrappers[reflect.TypeOf(One21{})] = wrappersOne21
	abs.OneofWrappers[reflect.TypeOf(One22{})] = wrappersOne22
	abs.OneofWrappers[reflect.TypeOf(One23{})] = wrappersOne23
	abs.OneofWrappers[reflect.TypeOf(One24{})] = wrappersOne24
	abs.OneofWrappers[reflect.TypeOf(One25{})] = wrappersOne25
	abs.OneofWrappers[reflect.TypeOf(One26{})] = wrappersOne26
	abs.OneofWrappers[reflect.TypeOf(One27{})] = wrappersOne27
	abs.OneofWrappers[reflect.TypeOf(One28{})] = wrappersOne28
	abs.OneofWrappers[reflect.TypeOf(One29{})] = wrappersOne29
	abs.OneofWrappers[reflect.TypeOf(One30{})] = wrappersOne30
	abs.OneofWrappers[reflect.TypeOf(One31{})] = wrappersOne31
	abs.OneofWrappers[reflect.TypeOf(One32{})] = wrappersOne32
	abs.OneofWrappers[reflect.TypeOf(One33{})] = wrappersOne33
	abs.OneofWrappers[reflect.TypeOf(One34{})] = wrappersOne34
	abs.OneofWrappers[reflect.TypeOf(One35{})] = wrappersOne35
	abs.OneofWrappers[reflect.TypeOf(One36{})] = wrappersOne36
	abs.OneofWrappers[reflect.TypeOf(One37{})] = wrappersOne37
	abs.OneofWrappers[reflect.TypeOf(One38{})] = wrappersOne38
	abs.OneofWrappers[reflect.TypeOf(One39{})] = wrappersOne39
	abs.OneofWrappers[reflect.TypeOf(One40{})] = wrappersOne40
	abs.OneofWrappers[reflect.TypeOf(One41{})] = wrappersOne41
	abs.OneofWrappers[reflect.TypeOf(One42{})] = wrappersOne42
	abs.OneofWrappers[reflect.TypeOf(One43{})] = wrappersOne43
	abs.OneofWrappers[reflect.TypeOf(One44{})] = wrappersOne44
	abs.OneofWrappers[reflect.TypeOf(One45{})] = wrappersOne45
	abs.OneofWrappers[reflect.TypeOf(One46{})] = wrappersOne46
	abs.OneofWrappers[reflect.TypeOf(One47{})] = wrappersOne47
	abs.OneofWrappers[reflect.TypeOf(One48{})] = wrappersOne48
	abs.OneofWrappers[reflect.TypeOf(One49{})] = wrappersOne49
	abs.OneofWrappers[reflect.TypeOf(One50{})] = wrappersOne50
	abs.OneofWrappers[reflect.TypeOf(One51{})] = wrappersOne51
	abs.OneofWrappers[reflect.TypeOf(One52{})] = wrappersOne52
	abs.OneofWrappers[reflect.TypeOf(One53{})] = wrappersOne53
	abs.OneofWrappers[reflect.TypeOf(One54{})] = wrappersOne54
	abs.OneofWrappers[reflect.TypeOf(One55{})] = wrappersOne55
	abs.OneofWrappers[reflect.TypeOf(One56{})] = wrappersOne56
	abs.OneofWrappers[reflect.TypeOf(One57{})] = wrappersOne57
	abs.OneofWrappers[reflect.TypeOf(One58{})] = wrappersOne58
	abs.OneofWrappers[reflect.TypeOf(One59{})] = wrappersOne59
	abs.OneofWrappers[reflect.TypeOf(One60{})] = wrappersOne60
	abs.OneofWrappers[reflect.TypeOf(One61{})] = wrappersOne61
	abs.OneofWrappers[reflect.TypeOf(One62{})] = wrappersOne62
	abs.OneofWrappers[reflect.TypeOf(One63{})] = wrappersOne63
	abs.OneofWrappers[reflect.TypeOf(One64{})] = wrappersOne64
	abs.OneofWrappers[reflect.TypeOf(One65{})] = wrappersOne65
	abs.OneofWrappers[reflect.TypeOf(One66{})] = wrappersOne66
	abs.OneofWrappers[reflect.TypeOf(One67{})] = wrappersOne67
	abs.OneofWrappers[reflect.TypeOf(One68{})] = wrappersOne68
	abs.OneofWrappers[reflect.TypeOf(One69{})] = wrappersOne69
	abs.OneofWrappers[reflect.TypeOf(One70{})] = wrappersOne70
	abs.OneofWrappers[reflect.TypeOf(One71{})] = wrappersOne71
	abs.OneofWrappers[reflect.TypeOf(One72{})] = wrappersOne72
	abs.OneofWrappers[reflect.TypeOf(One73{})] = wrappersOne73
	abs.OneofWrappers[reflect.TypeOf(One74{})] = wrappersOne74
	abs.OneofWrappers[reflect.TypeOf(One75{})] = wrappersOne75
	abs.OneofWrappers[reflect.TypeOf(One76{})] = wrappersOne76
	abs.OneofWrappers[reflect.TypeOf(One77{})] = wrappersOne77
	abs.OneofWrappers[reflect.TypeOf(One78{})] = wrappersOne78
	abs.OneofWrappers[reflect.TypeOf(One79{})] = wrappersOne79
	abs.OneofWrappers[reflect.TypeOf(One80{})] = wrappersOne80
	abs.OneofWrappers[reflect.TypeOf(One81{})] = wrappersOne81
	abs.OneofWrappers[reflect.TypeOf(One82{})] = wrappersOne82
	abs.OneofWrappers[reflect.TypeOf(One83{})] = wrappersOne83
	abs.OneofWrappers[reflect.TypeOf(One84{})] = wrappersOne84
	abs.OneofWrappers[reflect.TypeOf(One85{})] = wrappersOne85
	abs.OneofWrappers[reflect.TypeOf(One86{})] = wrappersOne86
	abs.OneofWrappers[reflect.TypeOf(One87{})] = wrappersOne87
	abs.OneofWrappers[reflect.TypeOf(One88{})] = wrappersOne88
	abs.OneofWrappers[reflect.TypeOf(One89{})] = wrappersOne89
	abs.OneofWrappers[reflect.TypeOf(One90{})] = wrappersOne90
	abs.OneofWrappers[reflect.TypeOf(One91{})] = wrappersOne91
	abs.OneofWrappers[reflect.TypeOf(One92{})] = wrappersOne92
	abs.OneofWrappers[reflect.TypeOf(One93{})] = wrappersOne93
	abs.OneofWrappers[reflect.TypeOf(One94{})] = wrappersOne94
	abs.OneofWrappers[reflect.TypeOf(One95{})] = wrappersOne95
	abs.OneofWrappers[reflect.TypeOf(One96{})] = wrappersOne96
	abs.OneofWrappers[reflect.TypeOf(One97{})] = wrappersOne97
	abs.OneofWrappers[reflect.TypeOf(One98{})] = wrappersOne98
	abs.OneofWrappers[reflect.TypeOf(One99{})] = wrappersOne99
	abs.OneofWrappers[reflect.TypeOf(One100{})] = wrappersOne100
	abs.OneofWrappers[reflect.TypeOf(One101{})] = wrappersOne101
	abs.OneofWrappers[reflect.TypeOf(One102{})] = wrappersOne102
	abs.OneofWrappers[reflect.TypeOf(One103{})] = wrappersOne103
	abs.OneofWrappers[reflect.TypeOf(One104{})] = wrappersOne104
	abs.OneofWrappers[reflect.TypeOf(One105{})] = wrappersOne105
	abs.OneofWrappers[reflect.TypeOf(One106{})] = wrappersOne106
	abs.OneofWrappers[reflect.TypeOf(One107{})] = wrappersOne107
	abs.OneofWrappers[reflect.TypeOf(One108{})] = wrappersOne108
	abs.OneofWrappers[reflect.TypeOf(One109{})] = wrappersOne109
	abs.OneofWrappers[reflect.TypeOf(One110{})] = wrappersOne110
	abs.OneofWrappers[reflect.TypeOf(One111{})] = wrappersOne111
	abs.OneofWrappers[reflect.TypeOf(One112{})] = wrappersOne112
	abs.OneofWrappers[reflect.TypeOf(One113{})] = wrappersOne113
	abs.OneofWrappers[reflect.TypeOf(One114{})] = wrappersOne114
	abs.OneofWrappers[reflect.TypeOf(One115{})] = wrappersOne115
	abs.OneofWrappers[reflect.TypeOf(One116{})] = wrappersOne116
	abs.OneofWrappers[reflect.TypeOf(One117{})] = wrappersOne117
	abs.OneofWrappers[reflect.TypeOf(One118{})] = wrappersOne118
	abs.OneofWrappers[reflect.TypeOf(One119{})] = wrappersOne119
	abs.OneofWrappers[reflect.TypeOf(One120{})] = wrappersOne120
	abs.OneofWrappers[reflect.TypeOf(One121{})] = wrappersOne121
	abs.OneofWrappers[reflect.TypeOf(One122{})] = wrappersOne122
	abs.OneofWrappers[reflect.TypeOf(One123{})] = wrappersOne123
	abs.OneofWrappers[reflect.TypeOf(One124{})] = wrappersOne124
	abs.OneofWrappers[reflect.TypeOf(One125{})] = wrappersOne125
	abs.OneofWrappers[reflect.TypeOf(One126{})] = wrappersOne126
	abs.OneofWrappers[reflect.TypeOf(One127{})] = wrappersOne127
	abs.OneofWrappers[reflect.TypeOf(One128{})] = wrappersOne128
	abs.OneofWrappers[reflect.TypeOf(One129{})] = wrappersOne129
	abs.OneofWrappers[reflect.TypeOf(One130{})] = wrappersOne130
	abs.OneofWrappers[reflect.TypeOf(One131{})] = wrappersOne131
	abs.OneofWrappers[reflect.TypeOf(One132{})] = wrappersOne132
	abs.OneofWrappers[reflect.TypeOf(One133{})] = wrappersOne133
	abs.OneofWrappers[reflect.TypeOf(One134{})] = wrappersOne134
	abs.OneofWrappers[reflect.TypeOf(One135{})] = wrappersOne135
	abs.OneofWrappers[reflect.TypeOf(One136{})] = wrappersOne136
	abs.OneofWrappers[reflect.TypeOf(One137{})] = wrappersOne137
	abs.OneofWrappers[reflect.TypeOf(One138{})] = wrappersOne138
	abs.OneofWrappers[reflect.TypeOf(One139{})] = wrappersOne139
	abs.OneofWrappers[reflect.TypeOf(One140{})] = wrappersOne140
	abs.OneofWrappers[reflect.TypeOf(One141{})] = wrappersOne141
	abs.OneofWrappers[reflect.TypeOf(One142{})] = wrappersOne142
	abs.OneofWrappers[reflect.TypeOf(One143{})] = wrappersOne143
	abs.OneofWrappers[reflect.TypeOf(One144{})] = wrappersOne144
	abs.OneofWrappers[reflect.TypeOf(One145{})] = wrappersOne145
	abs.OneofWrappers[reflect.TypeOf(One146{})] = wrappersOne146
	abs.OneofWrappers[reflect.TypeOf(One147{})] = wrappersOne147
	abs.OneofWrappers[reflect.TypeOf(One148{})] = wrappersOne148
	abs.OneofWrappers[reflect.TypeOf(One149{})] = wrappersOne149
	abs.OneofWrappers[reflect.TypeOf(One150{})] = wrappersOne150
	abs.OneofWrappers[reflect.TypeOf(One151{})] = wrappersOne151
	abs.OneofWrappers[reflect.TypeOf(One152{})] = wrappersOne152
	abs.OneofWrappers[reflect.TypeOf(One153{})] = wrappersOne153
	abs.OneofWrappers[reflect.TypeOf(One154{})] = wrappersOne154
	abs.OneofWrappers[reflect.TypeOf(One155{})] = wrappersOne155
	abs.OneofWrappers[reflect.TypeOf(One156{})] = wrappersOne156
	abs.OneofWrappers[reflect.TypeOf(One157{})] = wrappersOne157
	abs.OneofWrappers[reflect.TypeOf(One158{})] = wrappersOne158
	abs.OneofWrappers[reflect.TypeOf(One159{})] = wrappersOne159
	abs.OneofWrappers[reflect.TypeOf(One160{})] = wrappersOne160
	abs.OneofWrappers[reflect.TypeOf(One161{})] = wrappersOne161
	abs.OneofWrappers[reflect.TypeOf(One162{})] = wrappersOne162
	abs.OneofWrappers[reflect.TypeOf(One163{})] = wrappersOne163
	abs.OneofWrappers[reflect.TypeOf(One164{})] = wrappersOne164
	abs.OneofWrappers[reflect.TypeOf(One165{})] = wrappersOne165
	abs.OneofWrappers[reflect.TypeOf(One166{})] = wrappersOne166
	abs.OneofWrappers[reflect.TypeOf(One167{})] = wrappersOne167
	abs.OneofWrappers[reflect.TypeOf(One168{})] = wrappersOne168
	abs.OneofWrappers[reflect.TypeOf(One169{})] = wrappersOne169
	abs.OneofWrappers[reflect.TypeOf(One170{})] = wrappersOne170
	abs.OneofWrappers[reflect.TypeOf(One171{})] = wrappersOne171
	abs.OneofWrappers[reflect.TypeOf(One172{})] = wrappersOne172
	abs.OneofWrappers[reflect.TypeOf(One173{})] = wrappersOne173
	abs.OneofWrappers[reflect.TypeOf(One174{})] = wrappersOne174
	abs.OneofWrappers[reflect.TypeOf(One175{})] = wrappersOne175
	abs.OneofWrappers[reflect.TypeOf(One176{})] = wrappersOne176
	abs.OneofWrappers[reflect.TypeOf(One177{})] = wrappersOne177
	abs.OneofWrappers[reflect.TypeOf(One178{})] = wrappersOne178
	abs.OneofWrappers[reflect.TypeOf(One179{})] = wrappersOne179
	abs.OneofWrappers[reflect.TypeOf(One180{})] = wrappersOne180
	abs.OneofWrappers[reflect.TypeOf(One181{})] = wrappersOne181
	abs.OneofWrappers[reflect.TypeOf(One182{})] = wrappersOne182
	abs.OneofWrappers[reflect.TypeOf(One183{})] = wrappersOne183
	abs.OneofWrappers[reflect.TypeOf(One184{})] = wrappersOne184
	abs.OneofWrappers[reflect.TypeOf(One185{})] = wrappersOne185
	abs.OneofWrappers[reflect.TypeOf(One186{})] = wrappersOne186
	abs.OneofWrappers[reflect.TypeOf(One187{})] = wrappersOne187
	abs.OneofWrappers[reflect.TypeOf(One188{})] = wrappersOne188
	abs.OneofWrappers[reflect.TypeOf(One189{})] = wrappersOne189
	abs.OneofWrappers[reflect.TypeOf(One190{})] = wrappersOne190
	abs.OneofWrappers[reflect.TypeOf(One191{})] = wrappersOne191
	abs.OneofWrappers[reflect.TypeOf(One192{})] = wrappersOne192
	abs.OneofWrappers[reflect.TypeOf(One193{})] = wrappersOne193
	abs.OneofWrappers[reflect.TypeOf(One194{})] = wrappersOne194
	abs.OneofWrappers[reflect.TypeOf(One195{})] = wrappersOne195
	abs.OneofWrappers[reflect.TypeOf(One196{})] = wrappersOne196
	abs.OneofWrappers[reflect.TypeOf(One197{})] = wrappersOne197
	abs.OneofWrappers[reflect.TypeOf(One198{})] = wrappersOne198
	abs.OneofWrappers[reflect.TypeOf(One199{})] = wrappersOne199
	abs.OneofWrappers[reflect.TypeOf(One200{})] = wrappersOne200
	abs.OneofWrappers[reflect.TypeOf(One201{})] = wrappersOne201
	abs.OneofWrappers[reflect.TypeOf(One202{})] = wrappersOne202
	abs.OneofWrappers[reflect.TypeOf(One203{})] = wrappersOne203
	abs.OneofWrappers[reflect.TypeOf(One204{})] = wrappersOne204
	abs.OneofWrappers[reflect.TypeOf(One205{})] = wrappersOne205
	abs.OneofWrappers[reflect.TypeOf(One206{})] = wrappersOne206
	abs.OneofWrappers[reflect.TypeOf(One207{})] = wrappersOne207
	abs.OneofWrappers[reflect.TypeOf(One208{})] = wrappersOne208
	abs.OneofWrappers[reflect.TypeOf(One209{})] = wrappersOne209
	abs.OneofWrappers[reflect.TypeOf(One210{})] = wrappersOne210
	abs.OneofWrappers[reflect.TypeOf(One211{})] = wrappersOne211
	abs.OneofWrappers[reflect.TypeOf(One212{})] = wrappersOne212
	abs.OneofWrappers[reflect.TypeOf(One213{})] = wrappersOne213
	abs.OneofWrappers[reflect.TypeOf(One214{})] = wrappersOne214
	abs.OneofWrappers[reflect.TypeOf(One215{})] = wrappersOne215
	abs.OneofWrappers[reflect.TypeOf(One216{})] = wrappersOne216
	abs.OneofWrappers[reflect.TypeOf(One217{})] = wrappersOne217
	abs.OneofWrappers[reflect.TypeOf(One218{})] = wrappersOne218
	abs.OneofWrappers[reflect.TypeOf(One219{})] = wrappersOne219
	abs.OneofWrappers[reflect.TypeOf(One220{})] = wrappersOne220
	abs.OneofWrappers[reflect.TypeOf(One221{})] = wrappersOne221
	abs.OneofWrappers[reflect.TypeOf(One222{})] = wrappersOne222
	abs.OneofWrappers[reflect.TypeOf(One223{})] = wrappersOne223
	abs.OneofWrappers[reflect.TypeOf(One224{})] = wrappersOne224
	abs.OneofWrappers[reflect.TypeOf(One225{})] = wrappersOne225
	abs.OneofWrappers[reflect.TypeOf(One226{})] = wrappersOne226
	abs.OneofWrappers[reflect.TypeOf(One227{})] = wrappersOne227
	abs.OneofWrappers[reflect.TypeOf(One228{})] = wrappersOne228
	abs.OneofWrappers[reflect.TypeOf(One229{})] = wrappersOne229
	abs.OneofWrappers[reflect.TypeOf(One230{})] = wrappersOne230
	abs.OneofWrappers[reflect.TypeOf(One231{})] = wrappersOne231
	abs.OneofWrappers[reflect.TypeOf(One232{})] = wrappersOne232
	abs.OneofWrappers[reflect.TypeOf(One233{})] = wrappersOne233
	abs.OneofWrappers[reflect.TypeOf(One234{})] = wrappersOne234
	abs.OneofWrappers[reflect.TypeOf(One235{})] = wrappersOne235
	abs.OneofWrappers[reflect.TypeOf(One236{})] = wrappersOne236
	abs.OneofWrappers[reflect.TypeOf(One237{})] = wrappersOne237
	abs.OneofWrappers[reflect.TypeOf(One238{})] = wrappersOne238
	abs.OneofWrappers[reflect.TypeOf(One239{})] = wrappersOne239
	abs.OneofWrappers[reflect.TypeOf(One240{})] = wrappersOne240
	abs.OneofWrappers[reflect.TypeOf(One241{})] = wrappersOne241
	abs.OneofWrappers[reflect.TypeOf(One242{})] = wrappersOne242
	abs.OneofWrappers[reflect.TypeOf(One243{})] = wrappersOne243
	abs.OneofWrappers[reflect.TypeOf(One244{})] = wrappersOne244
	abs.OneofWrappers[reflect.TypeOf(One245{})] = wrappersOne245
	abs.OneofWrappers[reflect.TypeOf(One246{})] = wrappersOne246
	abs.OneofWrappers[reflect.TypeOf(One247{})] = wrappersOne247
	abs.OneofWrappers[reflect.TypeOf(One248{})] = wrappersOne248
	abs.OneofWrappers[reflect.TypeOf(One249{})] = wrappersOne249
	abs.OneofWrappers[reflect.TypeOf(One250{})] = wrappersOne250
	abs.OneofWrappers[reflect.TypeOf(One251{})] = wrappersOne251
	abs.OneofWrappers[reflect.TypeOf(One252{})] = wrappersOne252
	abs.OneofWrappers[reflect.TypeOf(One253{})] = wrappersOne253
	abs.OneofWrappers[reflect.TypeOf(One254{})] = wrappersOne254
	abs.OneofWrappers[reflect.TypeOf(One255{})] = wrappersOne255
	abs.OneofWrappers[reflect.TypeOf(One256{})] = wrappersOne256
	abs.OneofWrappers[reflect.TypeOf(One257{})] = wrappersOne257
	abs.OneofWrappers[reflect.TypeOf(One258{})] = wrappersOne258
	abs.OneofWrappers[reflect.TypeOf(One259{})] = wrappersOne259
	abs.OneofWrappers[reflect.TypeOf(One260{})] = wrappersOne260
	abs.OneofWrappers[reflect.TypeOf(One261{})] = wrappersOne261
	abs.OneofWrappers[reflect.TypeOf(One262{})] = wrappersOne262
	abs.OneofWrappers[reflect.TypeOf(One263{})] = wrappersOne263
	abs.OneofWrappers[reflect.TypeOf(One264{})] = wrappersOne264
	abs.OneofWrappers[reflect.TypeOf(One265{})] = wrappersOne265
	abs.OneofWrappers[reflect.TypeOf(One266{})] = wrappersOne266
	abs.OneofWrappers[reflect.TypeOf(One267{})] = wrappersOne267
	abs.OneofWrappers[reflect.TypeOf(One268{})] = wrappersOne268
	abs.OneofWrappers[reflect.TypeOf(One269{})] = wrappersOne269
	abs.OneofWrappers[reflect.TypeOf(One270{})] = wrappersOne270
	abs.OneofWrappers[reflect.TypeOf(One271{})] = wrappersOne271
	abs.OneofWrappers[reflect.TypeOf(One272{})] = wrappersOne272
	abs.OneofWrappers[reflect.TypeOf(One273{})] = wrappersOne273
	abs.OneofWrappers[reflect.TypeOf(One274{})] = wrappersOne274
	abs.OneofWrappers[reflect.TypeOf(One275{})] = wrappersOne275
	abs.OneofWrappers[reflect.TypeOf(One276{})] = wrappersOne276
	abs.OneofWrappers[reflect.TypeOf(One277{})] = wrappersOne277
	abs.OneofWrappers[reflect.TypeOf(One278{})] = wrappersOne278
	abs.OneofWrappers[reflect.TypeOf(One279{})] = wrappersOne279
	abs.OneofWrappers[reflect.TypeOf(One280{})] = wrappersOne280
	abs.OneofWrappers[reflect.TypeOf(One281{})] = wrappersOne281
	abs.OneofWrappers[reflect.TypeOf(One282{})] = wrappersOne282
	abs.OneofWrappers[reflect.TypeOf(One283{})] = wrappersOne283
	abs.OneofWrappers[reflect.TypeOf(One284{})] = wrappersOne284
	abs.OneofWrappers[reflect.TypeOf(One285{})] = wrappersOne285
	abs.OneofWrappers[reflect.TypeOf(One286{})] = wrappersOne286
	abs.OneofWrappers[reflect.TypeOf(One287{})] = wrappersOne287
	abs.OneofWrappers[reflect.TypeOf(One288{})] = wrappersOne288
	abs.OneofWrappers[reflect.TypeOf(One289{})] = wrappersOne289
	abs.OneofWrappers[reflect.TypeOf(One290{})] = wrappersOne290
	abs.OneofWrappers[reflect.TypeOf(One291{})] = wrappersOne291
	abs.OneofWrappers[reflect.TypeOf(One292{})] = wrappersOne292
	abs.OneofWrappers[reflect.TypeOf(One293{})] = wrappersOne293
	abs.OneofWrappers[reflect.TypeOf(One294{})] = wrappersOne294
	abs.OneofWrappers[reflect.TypeOf(One295{})] = wrappersOne295
	abs.OneofWrappers[reflect.TypeOf(One296{})] = wrappersOne296
	abs.OneofWrappers[reflect.TypeOf(One297{})] = wrappersOne297
	abs.OneofWrappers[reflect.TypeOf(One298{})] = wrappersOne298
	abs.OneofWrappers[reflect.TypeOf(One299{})] = wrappersOne299
	abs.OneofWrappers[reflect.TypeOf(One300{})] = wrappersOne300
	abs.OneofWrappers[reflect.TypeOf(One302{})] = wrappersOne302
	abs.OneofWrappers[reflect.TypeOf(One304{})] = wrappersOne304
	abs.OneofWrappers[reflect.TypeOf(One306{})] = wrappersOne306
	abs.OneofWrappers[reflect.TypeOf(One308{})] = wrappersOne308
	abs.OneofWrappers[reflect.TypeOf(One310{})] = wrappersOne310
	abs.OneofWrappers[reflect.TypeOf(One312{})] = wrappersOne312
	abs.OneofWrappers[reflect.TypeOf(One314{})] = wrappersOne314
	abs.OneofWrappers[reflect.TypeOf(One316{})] = wrappersOne316
	abs.OneofWrappers[reflect.TypeOf(One318{})] = wrappersOne318
	abs.OneofWrappers[reflect.TypeOf(One320{})] = wrappersOne320
	abs.OneofWrappers[reflect.TypeOf(One322{})] = wrappersOne322
	abs.OneofWrappers[reflect.TypeOf(One324{})] = wrappersOne324
	abs.OneofWrappers[reflect.TypeOf(One326{})] = wrappersOne326
	abs.OneofWrappers[reflect.TypeOf(One328{})] = wrappersOne328
	abs.OneofWrappers[reflect.TypeOf(One330{})] = wrappersOne330
	abs.OneofWrappers[reflect.TypeOf(One332{})] = wrappersOne332
	abs.OneofWrappers[reflect.TypeOf(One334{})] = wrappersOne334
	abs.OneofWrappers[reflect.TypeOf(One336{})] = wrappersOne336
	abs.OneofWrappers[reflect.TypeOf(One338{})] = wrappersOne338
	abs.OneofWrappers[reflect.TypeOf(One340{})] = wrappersOne340
	abs.OneofWrappers[reflect.TypeOf(One342{})] = wrappersOne342
	abs.OneofWrappers[reflect.TypeOf(One344{})] = wrappersOne344
	abs.OneofWrappers[reflect.TypeOf(One346{})] = wrappersOne346
	abs.OneofWrappers[reflect.TypeOf(One348{})] = wrappersOne348
	abs.OneofWrappers[reflect.TypeOf(One350{})] = wrappersOne350
	abs.OneofWrappers[reflect.TypeOf(One352{})] = wrappersOne352
	abs.OneofWrappers[reflect.TypeOf(One354{})] = wrappersOne354
	abs.OneofWrappers[reflect.TypeOf(One356{})] = wrappersOne356
	abs.OneofWrappers[reflect.TypeOf(One358{})] = wrappersOne358
	abs.OneofWrappers[reflect.TypeOf(One360{})] = wrappersOne360
	abs.OneofWrappers[reflect.TypeOf(One362{})] = wrappersOne362
	abs.OneofWrappers[reflect.TypeOf(One364{})] = wrappersOne364
	abs.OneofWrappers[reflect.TypeOf(One366{})] = wrappersOne366
	abs.OneofWrappers[reflect.TypeOf(One368{})] = wrappersOne368
	abs.OneofWrappers[reflect.TypeOf(One370{})] = wrappersOne370
	abs.OneofWrappers[reflect.TypeOf(One372{})] = wrappersOne372
	abs.OneofWrappers[reflect.TypeOf(One374{})] = wrappersOne374
	abs.OneofWrappers[reflect.TypeOf(One376{})] = wrappersOne376
	abs.OneofWrappers[reflect.TypeOf(One378{})] = wrappersOne378
	abs.OneofWrappers[reflect.TypeOf(One380{})] = wrappersOne380
	abs.OneofWrappers[reflect.TypeOf(One381{})] = wrappersOne381
	abs.OneofWrappers[reflect.TypeOf(One382{})] = wrappersOne382
	abs.OneofWrappers[reflect.TypeOf(One383{})] = wrappersOne383
	abs.OneofWrappers[reflect.TypeOf(One384{})] = wrappersOne384
	abs.OneofWrappers[reflect.TypeOf(One385{})] = wrappersOne385
	abs.OneofWrappers[reflect.TypeOf(One386{})] = wrappersOne386
	abs.OneofWrappers[reflect.TypeOf(One387{})] = wrappersOne387
	abs.OneofWrappers[reflect.TypeOf(One388{})] = wrappersOne388
	abs.OneofWrappers[reflect.TypeOf(One389{})] = wrappersOne389
	abs.OneofWrappers[reflect.TypeOf(One390{})] = wrappersOne390
	abs.OneofWrappers[reflect.TypeOf(One391{})] = wrappersOne391
	abs.OneofWrappers[reflect.TypeOf(One392{})] = wrappersOne392
	abs.OneofWrappers[reflect.TypeOf(One393{})] = wrappersOne393
	abs.OneofWrappers[reflect.TypeOf(One394{})] = wrappersOne394
	abs.OneofWrappers[reflect.TypeOf(One395{})] = wrappersOne395
	abs.OneofWrappers[reflect.TypeOf(One396{})] = wrappersOne396
	abs.OneofWrappers[reflect.TypeOf(One397{})] = wrappersOne397
	abs.OneofWrappers[reflect.TypeOf(One398{})] = wrappersOne398
	abs.OneofWrappers[reflect.TypeOf(One399{})] = wrappersOne399
	abs.OneofWrappers[reflect.TypeOf(One400{})] = wrappersOne400
	abs.OneofWrappers[reflect.TypeOf(One402{})] = wrappersOne402
	abs.OneofWrappers[reflect.TypeOf(One404{})] = wrappersOne404
	abs.OneofWrappers[reflect.TypeOf(One406{})] = wrappersOne406
	abs.OneofWrappers[reflect.TypeOf(One408{})] = wrappersOne408
	abs.OneofWrappers[reflect.TypeOf(One410{})] = wrappersOne410
	abs.OneofWrappers[reflect.TypeOf(One412{})] = wrappersOne412
	abs.OneofWrappers[reflect.TypeOf(One414{})] = wrappersOne414
	abs.OneofWrappers[reflect.TypeOf(One416{})] = wrappersOne416
	abs.OneofWrappers[reflect.TypeOf(One418{})] = wrappersOne418
	abs.OneofWrappers[reflect.TypeOf(One420{})] = wrappersOne420
	abs.OneofWrappers[reflect.TypeOf(One422{})] = wrappersOne422
	abs.OneofWrappers[reflect.TypeOf(One424{})] = wrappersOne424
	abs.OneofWrappers[reflect.TypeOf(One426{})] = wrappersOne426
	abs.OneofWrappers[reflect.TypeOf(One428{})] = wrappersOne428
	abs.OneofWrappers[reflect.TypeOf(One430{})] = wrappersOne430
	abs.OneofWrappers[reflect.TypeOf(One432{})] = wrappersOne432
	abs.OneofWrappers[reflect.TypeOf(One434{})] = wrappersOne434
	abs.OneofWrappers[reflect.TypeOf(One436{})] = wrappersOne436
	abs.OneofWrappers[reflect.TypeOf(One438{})] = wrappersOne438
	abs.OneofWrappers[reflect.TypeOf(One440{})] = wrappersOne440
	abs.OneofWrappers[reflect.TypeOf(One442{})] = wrappersOne442
	abs.OneofWrappers[reflect.TypeOf(One444{})] = wrappersOne444
	abs.OneofWrappers[reflect.TypeOf(One446{})] = wrappersOne446
	abs.OneofWrappers[reflect.TypeOf(One448{})] = wrappersOne448
	abs.OneofWrappers[reflect.TypeOf(One450{})] = wrappersOne450
	abs.OneofWrappers[reflect.TypeOf(One452{})] = wrappersOne452
	abs.OneofWrappers[reflect.TypeOf(One454{})] = wrappersOne454
	abs.OneofWrappers[reflect.TypeOf(One456{})] = wrappersOne456
	abs.OneofWrappers[reflect.TypeOf(One458{})] = wrappersOne458
	abs.OneofWrappers[reflect.TypeOf(One460{})] = wrappersOne460
	abs.OneofWrappers[reflect.TypeOf(One462{})] = wrappersOne462
	abs.OneofWrappers[reflect.TypeOf(One464{})] = wrappersOne464
	abs.OneofWrappers[reflect.TypeOf(One466{})] = wrappersOne466
	abs.OneofWrappers[reflect.TypeOf(One468{})] = wrappersOne468
	abs.OneofWrappers[reflect.TypeOf(One470{})] = wrappersOne470
	abs.OneofWrappers[reflect.TypeOf(One472{})] = wrappersOne472
	abs.OneofWrappers[reflect.TypeOf(One474{})] = wrappersOne474
	abs.OneofWrappers[reflect.TypeOf(One476{})] = wrappersOne476
	abs.OneofWrappers[reflect.TypeOf(One478{})] = wrappersOne478
}
