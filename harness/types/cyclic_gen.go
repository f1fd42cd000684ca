// Code generated by gencyc.py. DO NOT EDIT.
package types

import "reflect"

type Cyc0A struct {
	F0 map[string]Cyc0A `protobuf:"bytes,3,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F1 []Cyc0A          `protobuf:"bytes,2,rep,name=x"`
	F2 *string          `protobuf:"bytes,4,opt,name=x,def=a,rep,7"`
	F3 *Cyc0A           `protobuf:"bytes,1,opt,name=x"`
}
type Cyc0B struct {
	F0 map[string]Cyc0A `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F1 map[string]bool  `protobuf:"bytes,3,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	F2 []*Cyc0A         `protobuf:"bytes,1,rep,name=x"`
}
type Cyc0C struct {
	F0 map[string]Cyc0A `protobuf:"bytes,1,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F1 []byte           `protobuf:"bytes,2,opt,name=x"`
}
type Cyc0D struct {
	F0 *Cyc0B `protobuf:"bytes,1,opt,name=x"`
	F1 string `protobuf:"varint,3,opt,name=x"`
	F2 []byte `protobuf:"bytes,2,opt,name=x"`
}
type Cyc1A struct {
	F0 map[string]Cyc1A `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F1 []float64        `protobuf:"fixed64,4,rep,packed,name=x"`
	F2 []*Cyc1C         `protobuf:"bytes,3,rep,name=x"`
	F3 []*Cyc1C         `protobuf:"bytes,1,rep,name=x"`
	F4 int              `protobuf:"varint,5,opt,name=x"`
}
type Cyc1B struct {
	F0 []int32          `protobuf:"varint,5,opt,name=x"`
	F1 map[int32]*Cyc1A `protobuf:"bytes,1,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F2 map[string]Cyc1C `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F3 []Cyc1B          `protobuf:"bytes,3,rep,name=x"`
	F4 map[string]bool  `protobuf:"bytes,4,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
}
type Cyc1C struct {
	F0 []*Cyc1C `protobuf:"bytes,1,rep,name=x"`
	F1 int32    `protobuf:"varint,2,opt,name=x"`
}
type Cyc2A struct {
	F0 map[string]bool  `protobuf:"bytes,3,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	F1 map[string]Cyc2A `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F2 *Cyc2E           `protobuf:"bytes,1,opt,name=x"`
}
type Cyc2B struct {
	F0 int32            `protobuf:"varint,2,opt,name=x"`
	F1 map[int32]*Cyc2D `protobuf:"bytes,1,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type Cyc2C struct {
	F0 []Cyc2C          `protobuf:"bytes,2,rep,name=x"`
	F1 map[int32]*Cyc2E `protobuf:"bytes,3,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F2 []Cyc2E          `protobuf:"bytes,1,rep,name=x"`
	F3 []byte           `protobuf:"bytes,4,opt,name=x"`
}
type Cyc2D struct {
	F0 *Cyc2D           `protobuf:"bytes,1,opt,name=x"`
	F1 []byte           `protobuf:"bytes,3,opt,name=x"`
	F2 []Cyc2A          `protobuf:"bytes,2,rep,name=x"`
	F3 map[int32]string `protobuf:"bytes,4,opt,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type Cyc2E struct {
	F0 []Cyc2D          `protobuf:"bytes,2,rep,name=x"`
	F1 map[string]Cyc2B `protobuf:"bytes,3,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F2 *Cyc2C           `protobuf:"bytes,1,opt,name=x"`
	F3 int32            `protobuf:"varint,4,opt,name=x"`
}
type Cyc3A struct {
	F0 map[int32]*Cyc3D `protobuf:"bytes,1,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 map[string]bool  `protobuf:"bytes,3,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	F2 []*Cyc3A         `protobuf:"bytes,2,rep,name=x"`
}
type Cyc3B struct {
	F0 map[string]Cyc3D `protobuf:"bytes,1,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F1 map[string]int32 `protobuf:"bytes,3,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	F2 []float64        `protobuf:"fixed64,2,rep,packed,name=x"`
}
type Cyc3C struct {
	F0 *string `protobuf:"bytes,2,opt,name=x,def=a,rep,7"`
	F1 *Cyc3B  `protobuf:"bytes,1,opt,name=x"`
}
type Cyc3D struct {
	F0 map[string]bool `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	F1 *Cyc3B          `protobuf:"bytes,1,opt,name=x"`
}
type Cyc4A struct {
	F0 map[string]Cyc4D `protobuf:"bytes,1,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F1 []float64        `protobuf:"fixed64,2,rep,packed,name=x"`
	F2 []int32          `protobuf:"varint,3,opt,name=x"`
}
type Cyc4B struct {
	F0 map[int32]*Cyc4A `protobuf:"bytes,1,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 []byte           `protobuf:"bytes,2,opt,name=x"`
}
type Cyc4C struct {
	F0 map[int32]*Cyc4A `protobuf:"bytes,2,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 map[string]bool  `protobuf:"bytes,3,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	F2 map[int32]*Cyc4D `protobuf:"bytes,1,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type Cyc4D struct {
	F0 *string          `protobuf:"bytes,2,opt,name=x,def=a,rep,7"`
	F1 map[int32]*Cyc4B `protobuf:"bytes,1,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type Cyc5A struct {
	F0 int32            `protobuf:"varint,2,opt,name=x"`
	F1 map[string]Cyc5B `protobuf:"bytes,1,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F2 [][]int32        `protobuf:"varint,3,rep,name=x"`
}
type Cyc5B struct {
	F0 map[string]bool  `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	F1 map[string]Cyc5B `protobuf:"bytes,1,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
}
type Cyc5C struct {
	F0 []Cyc5C          `protobuf:"bytes,1,rep,name=x"`
	F1 *Cyc5A           `protobuf:"bytes,3,opt,name=x"`
	F2 map[int32]*Cyc5C `protobuf:"bytes,2,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F3 map[string]bool  `protobuf:"bytes,4,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
}
type Cyc5D struct {
	F0 int32     `protobuf:"varint,1,opt,name=x"`
	F1 []*Cyc5A  `protobuf:"bytes,1,rep,name=x"`
	F2 []float64 `protobuf:"fixed64,3,rep,packed,name=x"`
	F3 []Cyc5A   `protobuf:"bytes,2,rep,name=x"`
}
type Cyc6A struct {
	F0 **int32   `protobuf:"varint,5,opt,name=x"`
	F1 *Cyc6C    `protobuf:"bytes,1,opt,name=x"`
	F2 []float64 `protobuf:"fixed64,4,rep,packed,name=x"`
	F3 []Cyc6C   `protobuf:"bytes,2,rep,name=x"`
	F4 *Cyc6C    `protobuf:"bytes,3,opt,name=x"`
}
type Cyc6B struct {
	F0 map[string]Cyc6C `protobuf:"bytes,1,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F1 *string          `protobuf:"bytes,4,opt,name=x,def=a,rep,7"`
	F2 []*Cyc6C         `protobuf:"bytes,3,rep,name=x"`
	F3 map[string]int32 `protobuf:"bytes,5,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	F4 []*Cyc6B         `protobuf:"bytes,2,rep,name=x"`
}
type Cyc6C struct {
	F0 map[string]bool `protobuf:"bytes,3,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	F1 *Cyc6C          `protobuf:"bytes,1,opt,name=x"`
	F2 []Cyc6A         `protobuf:"bytes,2,rep,name=x"`
}
type Cyc7A struct {
	F0 map[string]bool `protobuf:"bytes,3,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	F1 []*Cyc7A        `protobuf:"bytes,2,rep,name=x"`
	F2 []*Cyc7A        `protobuf:"bytes,1,rep,name=x"`
}
type Cyc7B struct {
	F0 []byte           `protobuf:"bytes,2,opt,name=x"`
	F1 map[string]Cyc7D `protobuf:"bytes,1,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
}
type Cyc7C struct {
	F0 *Cyc7C           `protobuf:"bytes,1,opt,name=x"`
	F1 *string          `protobuf:"bytes,3,opt,name=x,def=a,rep,7"`
	F2 int32            `protobuf:"varint,1,opt,name=x"`
	F3 map[int32]*Cyc7A `protobuf:"bytes,2,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type Cyc7D struct {
	F0 map[string]bool  `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	F1 map[int32]*Cyc7D `protobuf:"bytes,1,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type Cyc8A struct {
	F0 map[int32]string `protobuf:"bytes,3,opt,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 map[string]bool  `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	F2 map[string]Cyc8A `protobuf:"bytes,1,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
}
type Cyc8B struct {
	F0 map[string]Cyc8C `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F1 int32            `protobuf:"varint,4,opt,name=x"`
	F2 *Cyc8A           `protobuf:"bytes,3,opt,name=x"`
	F3 []*Cyc8B         `protobuf:"bytes,1,rep,name=x"`
}
type Cyc8C struct {
	F0 *string  `protobuf:"bytes,3,opt,name=x,def=a,rep,7"`
	F1 []*Cyc8A `protobuf:"bytes,1,rep,name=x"`
	F2 []Cyc8A  `protobuf:"bytes,2,rep,name=x"`
}
type Cyc9A struct {
	F0 []Cyc9A         `protobuf:"bytes,1,rep,name=x"`
	F1 map[string]bool `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
}
type Cyc9B struct {
	F0 map[string]Cyc9B `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F1 map[int32]*Cyc9A `protobuf:"bytes,3,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F2 *string          `protobuf:"bytes,4,opt,name=x,def=a,rep,7"`
	F3 map[string]Cyc9B `protobuf:"bytes,1,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
}
type Cyc9C struct {
	F0 int32            `protobuf:"varint,2,opt,name=x"`
	F1 map[string]Cyc9D `protobuf:"bytes,1,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
}
type Cyc9D struct {
	F0 *string  `protobuf:"bytes,3,opt,name=x,def=a,rep,7"`
	F1 []*Cyc9A `protobuf:"bytes,2,rep,name=x"`
	F2 int32    `protobuf:"group,4,opt,name=x"`
	F3 *Cyc9D   `protobuf:"bytes,1,opt,name=x"`
}
type Cyc10A struct {
	F0 map[string]Cyc10B `protobuf:"bytes,1,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F1 []Cyc10A          `protobuf:"bytes,2,rep,name=x"`
	F2 map[string]bool   `protobuf:"bytes,3,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
}
type Cyc10B struct {
	F0 map[int32]*Cyc10A `protobuf:"bytes,3,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 map[string]Cyc10B `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F2 map[string]Cyc10A `protobuf:"bytes,1,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F3 *string           `protobuf:"bytes,4,opt,name=x,def=a,rep,7"`
}
type Cyc11A struct {
	F0 map[int32]string  `protobuf:"bytes,5,opt,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 map[int32]*Cyc11B `protobuf:"bytes,1,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F2 *string           `protobuf:"bytes,4,opt,name=x,def=a,rep,7"`
	F3 []*Cyc11A         `protobuf:"bytes,2,rep,name=x"`
	F4 *Cyc11C           `protobuf:"bytes,3,opt,name=x"`
}
type Cyc11B struct {
	F0 map[int32]*Cyc11D `protobuf:"bytes,2,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 *Cyc11B           `protobuf:"bytes,1,opt,name=x"`
	F2 *string           `protobuf:"bytes,3,opt,name=x,def=a,rep,7"`
}
type Cyc11C struct {
	F0 map[string]Cyc11D `protobuf:"bytes,1,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F1 map[string]bool   `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
}
type Cyc11D struct {
	F0 []float64 `protobuf:"fixed64,3,rep,packed,name=x"`
	F1 *Cyc11C   `protobuf:"bytes,2,opt,name=x"`
	F2 []Cyc11B  `protobuf:"bytes,1,rep,name=x"`
}
type Cyc11E struct {
	F0 map[int32]*Cyc11A `protobuf:"bytes,2,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 map[int32]*Cyc11D `protobuf:"bytes,1,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F2 []byte            `protobuf:"bytes,4,opt,name=x"`
	F3 map[string]Cyc11C `protobuf:"bytes,3,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
}
type Cyc12A struct {
	F0 string   `protobuf:"varint,3,opt,name=x"`
	F1 []Cyc12B `protobuf:"bytes,1,rep,name=x"`
	F2 int32    `protobuf:"varint,2,opt,name=x"`
}
type Cyc12B struct {
	F0 map[int32]*Cyc12B `protobuf:"bytes,1,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 map[string]Cyc12A `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F2 []byte            `protobuf:"bytes,3,opt,name=x"`
}
type Cyc13A struct {
	F0 *Cyc13D   `protobuf:"bytes,2,opt,name=x"`
	F1 []float64 `protobuf:"fixed64,3,rep,packed,name=x"`
	F2 []*Cyc13A `protobuf:"bytes,1,rep,name=x"`
}
type Cyc13B struct {
	F0 []float64         `protobuf:"fixed64,3,rep,packed,name=x"`
	F1 *Cyc13B           `protobuf:"bytes,2,opt,name=x"`
	F2 map[string]Cyc13A `protobuf:"bytes,1,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
}
type Cyc13C struct {
	F0 map[string]Cyc13C `protobuf:"bytes,1,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F1 map[string]bool   `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
}
type Cyc13D struct {
	F0 []Cyc13B `protobuf:"bytes,3,rep,name=x"`
	F1 int32    `protobuf:"varint,4,opt,name=x"`
	F2 *Cyc13B  `protobuf:"bytes,1,opt,name=x"`
	F3 *Cyc13B  `protobuf:"bytes,2,opt,name=x"`
}
type Cyc14A struct {
	F0 *Cyc14C   `protobuf:"bytes,2,opt,name=x"`
	F1 []float64 `protobuf:"fixed64,3,rep,packed,name=x"`
	F2 []Cyc14B  `protobuf:"bytes,1,rep,name=x"`
}
type Cyc14B struct {
	F0 []*int32          `protobuf:"varint,3,rep,name=x"`
	F1 map[string]Cyc14B `protobuf:"bytes,1,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F2 map[string]bool   `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
}
type Cyc14C struct {
	F0 map[string]Cyc14D `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F1 *string           `protobuf:"bytes,4,opt,name=x,def=a,rep,7"`
	F2 map[int32]*Cyc14D `protobuf:"bytes,1,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F3 []*Cyc14C         `protobuf:"bytes,3,rep,name=x"`
}
type Cyc14D struct {
	F0 map[int32]string `protobuf:"bytes,4,opt,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 *Cyc14C          `protobuf:"bytes,1,opt,name=x"`
	F2 *Cyc14B          `protobuf:"bytes,2,opt,name=x"`
	F3 int32            `protobuf:"varint,3,opt,name=x"`
}
type Cyc15A struct {
	F0 map[string]Cyc15B `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F1 []Cyc15A          `protobuf:"bytes,3,rep,name=x"`
	F2 map[string]Cyc15B `protobuf:"bytes,1,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F3 int32             `protobuf:"varint,4,opt,name=x"`
}
type Cyc15B struct {
	F0 *Cyc15B   `protobuf:"bytes,1,opt,name=x"`
	F1 []Cyc15B  `protobuf:"bytes,2,rep,name=x"`
	F2 []float64 `protobuf:"fixed64,3,rep,packed,name=x"`
}
type Cyc16A struct {
	F0 []float64 `protobuf:"fixed64,3,rep,packed,name=x"`
	F1 []Cyc16A  `protobuf:"bytes,1,rep,name=x"`
	F2 *Cyc16A   `protobuf:"bytes,2,opt,name=x"`
}
type Cyc16B struct {
	F0 []*Cyc16C         `protobuf:"bytes,2,rep,name=x"`
	F1 map[string]Cyc16B `protobuf:"bytes,1,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F2 *string           `protobuf:"bytes,3,opt,name=x,def=a,rep,7"`
}
type Cyc16C struct {
	F0 *Cyc16B `protobuf:"bytes,1,opt,name=x"`
	F1 *string `protobuf:"bytes,2,opt,name=x,def=a,rep,7"`
}
type Cyc17A struct {
	F0 []*Cyc17B         `protobuf:"bytes,1,rep,name=x"`
	F1 []byte            `protobuf:"bytes,3,opt,name=x"`
	F2 map[string]Cyc17A `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F3 string            `protobuf:"varint,4,opt,name=x"`
}
type Cyc17B struct {
	F0 *string           `protobuf:"bytes,2,opt,name=x,def=a,rep,7"`
	F1 map[string]Cyc17B `protobuf:"bytes,1,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
}
type Cyc18A struct {
	F0 *Cyc18A   `protobuf:"bytes,2,opt,name=x"`
	F1 []*Cyc18E `protobuf:"bytes,1,rep,name=x"`
	F2 []*Cyc18A `protobuf:"bytes,3,rep,name=x"`
	F3 int       `protobuf:"varint,5,opt,name=x"`
	F4 []float64 `protobuf:"fixed64,4,rep,packed,name=x"`
}
type Cyc18B struct {
	F0 map[int32]*Cyc18B `protobuf:"bytes,2,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 map[string]bool   `protobuf:"bytes,4,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	F2 *Cyc18C           `protobuf:"bytes,3,opt,name=x"`
	F3 map[string]Cyc18A `protobuf:"bytes,1,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F4 int               `protobuf:"varint,5,opt,name=x"`
}
type Cyc18C struct {
	F0 []Cyc18D  `protobuf:"bytes,1,rep,name=x"`
	F1 []*Cyc18B `protobuf:"bytes,3,rep,name=x"`
	F2 []Cyc18A  `protobuf:"bytes,2,rep,name=x"`
	F3 *string   `protobuf:"bytes,4,opt,name=x,def=a,rep,7"`
}
type Cyc18D struct {
	F0 int32    `protobuf:"varint,2,opt,name=x"`
	F1 []Cyc18D `protobuf:"bytes,1,rep,name=x"`
}
type Cyc18E struct {
	F0 []*Cyc18E `protobuf:"bytes,1,rep,name=x"`
	F1 []float64 `protobuf:"fixed64,2,rep,packed,name=x"`
}
type Cyc19A struct {
	F0 map[int32]*Cyc19A `protobuf:"bytes,1,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 *string           `protobuf:"bytes,3,opt,name=x,def=a,rep,7"`
	F2 *Cyc19C           `protobuf:"bytes,2,opt,name=x"`
	F3 map[int32]string  `protobuf:"bytes,4,opt,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type Cyc19B struct {
	F0 *string           `protobuf:"bytes,3,opt,name=x,def=a,rep,7"`
	F1 int32             `protobuf:"group,4,opt,name=x"`
	F2 map[string]Cyc19A `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F3 map[int32]*Cyc19D `protobuf:"bytes,1,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type Cyc19C struct {
	F0 []Cyc19D        `protobuf:"bytes,2,rep,name=x"`
	F1 map[string]bool `protobuf:"bytes,3,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	F2 *Cyc19D         `protobuf:"bytes,1,opt,name=x"`
}
type Cyc19D struct {
	F0 []*Cyc19A `protobuf:"bytes,1,rep,name=x"`
	F1 []byte    `protobuf:"bytes,2,opt,name=x"`
}
type Cyc20A struct {
	F0 []*Cyc20C       `protobuf:"bytes,1,rep,name=x"`
	F1 map[string]bool `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
}
type Cyc20B struct {
	F0 []*Cyc20A         `protobuf:"bytes,1,rep,name=x"`
	F1 map[string]bool   `protobuf:"bytes,3,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	F2 map[int32]*Cyc20A `protobuf:"bytes,2,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type Cyc20C struct {
	F0 []float64         `protobuf:"fixed64,4,rep,packed,name=x"`
	F1 map[int32]*Cyc20B `protobuf:"bytes,1,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F2 map[int32]*Cyc20C `protobuf:"bytes,2,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F3 chan int          `protobuf:"varint,5,opt,name=x"`
	F4 *Cyc20C           `protobuf:"bytes,3,opt,name=x"`
}
type Cyc20D struct {
	F0 []Cyc20A  `protobuf:"bytes,1,rep,name=x"`
	F1 []float64 `protobuf:"fixed64,2,rep,packed,name=x"`
}
type Cyc21A struct {
	F0 int32    `protobuf:"varint,4,opt,name=x"`
	F1 []Cyc21B `protobuf:"bytes,2,rep,name=x"`
	F2 []Cyc21A `protobuf:"bytes,3,rep,name=x"`
	F3 []Cyc21A `protobuf:"bytes,1,rep,name=x"`
}
type Cyc21B struct {
	F0 map[int32]*Cyc21B `protobuf:"bytes,2,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 map[string]int32  `protobuf:"bytes,5,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	F2 []*Cyc21B         `protobuf:"bytes,3,rep,name=x"`
	F3 []float64         `protobuf:"fixed64,4,rep,packed,name=x"`
	F4 []*Cyc21A         `protobuf:"bytes,1,rep,name=x"`
}
type Cyc22A struct {
	F0 *Cyc22B           `protobuf:"bytes,3,opt,name=x"`
	F1 []byte            `protobuf:"bytes,4,opt,name=x"`
	F2 map[int32]*Cyc22B `protobuf:"bytes,1,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F3 []Cyc22A          `protobuf:"bytes,2,rep,name=x"`
}
type Cyc22B struct {
	F0 []float64 `protobuf:"fixed64,3,rep,packed,name=x"`
	F1 []Cyc22B  `protobuf:"bytes,1,rep,name=x"`
	F2 []Cyc22B  `protobuf:"bytes,2,rep,name=x"`
}
type Cyc23A struct {
	F0 int32     `protobuf:"varint,2,opt,name=x"`
	F1 []*Cyc23B `protobuf:"bytes,1,rep,name=x"`
}
type Cyc23B struct {
	F0 map[string]bool   `protobuf:"bytes,4,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	F1 map[string]Cyc23D `protobuf:"bytes,1,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F2 map[int32]*Cyc23C `protobuf:"bytes,3,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F3 map[int32]*Cyc23B `protobuf:"bytes,2,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type Cyc23C struct {
	F0 []float64 `protobuf:"fixed64,2,rep,packed,name=x"`
	F1 []*Cyc23A `protobuf:"bytes,1,rep,name=x"`
}
type Cyc23D struct {
	F0 []Cyc23B          `protobuf:"bytes,1,rep,name=x"`
	F1 *string           `protobuf:"bytes,3,opt,name=x,def=a,rep,7"`
	F2 map[string]Cyc23C `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F3 chan int          `protobuf:"varint,4,opt,name=x"`
}
type Cyc24A struct {
	F0 map[string]Cyc24B `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F1 []float64         `protobuf:"fixed64,3,rep,packed,name=x"`
	F2 map[int32]*Cyc24A `protobuf:"bytes,1,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type Cyc24B struct {
	F0 []*Cyc24B        `protobuf:"bytes,1,rep,name=x"`
	F1 map[string]bool  `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	F2 map[string]int32 `protobuf:"bytes,3,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
}
type Cyc24C struct {
	F0 *Cyc24B         `protobuf:"bytes,1,opt,name=x"`
	F1 *Cyc24A         `protobuf:"bytes,2,opt,name=x"`
	F2 map[string]bool `protobuf:"bytes,3,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
}
type Cyc25A struct {
	F0 map[string]Cyc25D `protobuf:"bytes,1,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F1 map[string]bool   `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
}
type Cyc25B struct {
	F0 *string   `protobuf:"bytes,2,opt,name=x,def=a,rep,7"`
	F1 []*Cyc25A `protobuf:"bytes,1,rep,name=x"`
}
type Cyc25C struct {
	F0 *string           `protobuf:"bytes,4,opt,name=x,def=a,rep,7"`
	F1 map[int32]*Cyc25A `protobuf:"bytes,1,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F2 *Cyc25A           `protobuf:"bytes,3,opt,name=x"`
	F3 map[string]Cyc25A `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
}
type Cyc25D struct {
	F0 *Cyc25D           `protobuf:"bytes,3,opt,name=x"`
	F1 int32             `protobuf:"varint,4,opt,name=x"`
	F2 map[string]Cyc25C `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F3 []*Cyc25C         `protobuf:"bytes,1,rep,name=x"`
}
type Cyc25E struct {
	F0 []*Cyc25C `protobuf:"bytes,1,rep,name=x"`
	F1 *Cyc25E   `protobuf:"bytes,2,opt,name=x"`
	F2 int32     `protobuf:"varint,3,opt,name=x"`
}
type Cyc26A struct {
	F0 map[int32]*Cyc26B `protobuf:"bytes,1,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 []*Cyc26E         `protobuf:"bytes,2,rep,name=x"`
	F2 []*Cyc26E         `protobuf:"bytes,3,rep,name=x"`
	F3 int32             `protobuf:"varint,4,opt,name=x"`
}
type Cyc26B struct {
	F0 []*Cyc26A       `protobuf:"bytes,1,rep,name=x"`
	F1 map[string]bool `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
}
type Cyc26C struct {
	F0 [][]int32       `protobuf:"varint,3,rep,name=x"`
	F1 map[string]bool `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	F2 []*Cyc26C       `protobuf:"bytes,1,rep,name=x"`
}
type Cyc26D struct {
	F0 map[int32]*Cyc26C `protobuf:"bytes,1,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 []float64         `protobuf:"fixed64,2,rep,packed,name=x"`
}
type Cyc26E struct {
	F0 []byte   `protobuf:"bytes,2,opt,name=x"`
	F1 []Cyc26A `protobuf:"bytes,1,rep,name=x"`
}
type Cyc27A struct {
	F0 int32     `protobuf:"group,4,opt,name=x"`
	F1 []*Cyc27B `protobuf:"bytes,2,rep,name=x"`
	F2 []float64 `protobuf:"fixed64,3,rep,packed,name=x"`
	F3 []*Cyc27A `protobuf:"bytes,1,rep,name=x"`
}
type Cyc27B struct {
	F0 *Cyc27C           `protobuf:"bytes,3,opt,name=x"`
	F1 []*Cyc27A         `protobuf:"bytes,1,rep,name=x"`
	F2 []byte            `protobuf:"bytes,4,opt,name=x"`
	F3 map[int32]*Cyc27B `protobuf:"bytes,2,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type Cyc27C struct {
	F0 map[string]Cyc27A `protobuf:"bytes,1,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F1 *string           `protobuf:"bytes,2,opt,name=x,def=a,rep,7"`
}
type Cyc28A struct {
	F0 []float64         `protobuf:"fixed64,2,rep,packed,name=x"`
	F1 map[int32]*Cyc28B `protobuf:"bytes,1,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type Cyc28B struct {
	F0 *string  `protobuf:"bytes,2,opt,name=x,def=a,rep,7"`
	F1 []Cyc28A `protobuf:"bytes,1,rep,name=x"`
}
type Cyc29A struct {
	F0 map[int32]*Cyc29C `protobuf:"bytes,2,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 *string           `protobuf:"bytes,3,opt,name=x,def=a,rep,7"`
	F2 []Cyc29D          `protobuf:"bytes,1,rep,name=x"`
}
type Cyc29B struct {
	F0 *Cyc29C   `protobuf:"bytes,1,opt,name=x"`
	F1 []float64 `protobuf:"fixed64,2,rep,packed,name=x"`
}
type Cyc29C struct {
	F0 []*Cyc29E       `protobuf:"bytes,1,rep,name=x"`
	F1 map[string]bool `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
}
type Cyc29D struct {
	F0 *Cyc29D           `protobuf:"bytes,1,opt,name=x"`
	F1 *string           `protobuf:"bytes,3,opt,name=x,def=a,rep,7"`
	F2 map[int32]*Cyc29A `protobuf:"bytes,2,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type Cyc29E struct {
	F0 map[string]bool `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	F1 []Cyc29C        `protobuf:"bytes,1,rep,name=x"`
}
type Cyc30A struct {
	F0 map[string]bool `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	F1 *Cyc30D         `protobuf:"bytes,1,opt,name=x"`
}
type Cyc30B struct {
	F0 []*Cyc30C `protobuf:"bytes,1,rep,name=x"`
	F1 int32     `protobuf:"varint,2,opt,name=x"`
}
type Cyc30C struct {
	F0 []Cyc30C  `protobuf:"bytes,1,rep,name=x"`
	F1 *Cyc30E   `protobuf:"bytes,2,opt,name=x"`
	F2 []float64 `protobuf:"fixed64,3,rep,packed,name=x"`
}
type Cyc30D struct {
	F0 []*int32 `protobuf:"varint,4,rep,name=x"`
	F1 int32    `protobuf:"varint,3,opt,name=x"`
	F2 *Cyc30E  `protobuf:"bytes,2,opt,name=x"`
	F3 *Cyc30C  `protobuf:"bytes,1,opt,name=x"`
}
type Cyc30E struct {
	F0 []*Cyc30D         `protobuf:"bytes,2,rep,name=x"`
	F1 map[string]bool   `protobuf:"bytes,3,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	F2 map[int32]*Cyc30C `protobuf:"bytes,1,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type Cyc31A struct {
	F0 map[string]Cyc31C `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F1 map[int32]*Cyc31C `protobuf:"bytes,1,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F2 int32             `protobuf:"varint,3,opt,name=x"`
}
type Cyc31B struct {
	F0 int32     `protobuf:"varint,1,opt,name=x"`
	F1 *Cyc31D   `protobuf:"bytes,2,opt,name=x"`
	F2 []*Cyc31B `protobuf:"bytes,1,rep,name=x"`
	F3 int32     `protobuf:"varint,3,opt,name=x"`
}
type Cyc31C struct {
	F0 []byte   `protobuf:"bytes,2,opt,name=x"`
	F1 []Cyc31A `protobuf:"bytes,1,rep,name=x"`
}
type Cyc31D struct {
	F0 map[int32]*Cyc31A `protobuf:"bytes,1,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 map[string]bool   `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
}
type Cyc32A struct {
	F0 map[int32]string  `protobuf:"bytes,4,opt,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 []byte            `protobuf:"bytes,3,opt,name=x"`
	F2 []*Cyc32C         `protobuf:"bytes,2,rep,name=x"`
	F3 map[string]Cyc32B `protobuf:"bytes,1,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
}
type Cyc32B struct {
	F0 []float64 `protobuf:"fixed64,3,rep,packed,name=x"`
	F1 []Cyc32B  `protobuf:"bytes,2,rep,name=x"`
	F2 []Cyc32C  `protobuf:"bytes,1,rep,name=x"`
}
type Cyc32C struct {
	F0 *string   `protobuf:"bytes,2,opt,name=x,def=a,rep,7"`
	F1 []*Cyc32A `protobuf:"bytes,1,rep,name=x"`
}
type Cyc33A struct {
	F0 *string  `protobuf:"bytes,2,opt,name=x,def=a,rep,7"`
	F1 []Cyc33D `protobuf:"bytes,1,rep,name=x"`
}
type Cyc33B struct {
	F0 int32             `protobuf:"varint,1,opt,name=x"`
	F1 *string           `protobuf:"bytes,4,opt,name=x,def=a,rep,7"`
	F2 *Cyc33A           `protobuf:"bytes,2,opt,name=x"`
	F3 map[int32]*Cyc33A `protobuf:"bytes,1,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F4 map[int32]*Cyc33A `protobuf:"bytes,3,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type Cyc33C struct {
	F0 []byte    `protobuf:"bytes,2,opt,name=x"`
	F1 []*Cyc33A `protobuf:"bytes,1,rep,name=x"`
}
type Cyc33D struct {
	F0 map[string]Cyc33C `protobuf:"bytes,1,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F1 *string           `protobuf:"bytes,2,opt,name=x,def=a,rep,7"`
	F2 int32             `protobuf:"varint,1,opt,name=x"`
}
type Cyc34A struct {
	F0 []*Cyc34B `protobuf:"bytes,3,rep,name=x"`
	F1 []*Cyc34B `protobuf:"bytes,1,rep,name=x"`
	F2 int32     `protobuf:"varint,4,opt,name=x"`
	F3 []Cyc34A  `protobuf:"bytes,2,rep,name=x"`
}
type Cyc34B struct {
	F0 map[int32]*Cyc34B `protobuf:"bytes,2,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 []byte            `protobuf:"bytes,4,opt,name=x"`
	F2 *Cyc34A           `protobuf:"bytes,1,opt,name=x"`
	F3 []*Cyc34B         `protobuf:"bytes,3,rep,name=x"`
}
type Cyc35A struct {
	F0 map[string]bool `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	F1 *Cyc35B         `protobuf:"bytes,1,opt,name=x"`
}
type Cyc35B struct {
	F0 map[string]int32 `protobuf:"bytes,5,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	F1 []Cyc35B         `protobuf:"bytes,2,rep,name=x"`
	F2 []float64        `protobuf:"fixed64,4,rep,packed,name=x"`
	F3 []Cyc35B         `protobuf:"bytes,3,rep,name=x"`
	F4 []*Cyc35A        `protobuf:"bytes,1,rep,name=x"`
}
type Cyc36A struct {
	F0 int32             `protobuf:"varint,3,opt,name=x"`
	F1 map[int32]*Cyc36B `protobuf:"bytes,1,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F2 map[string]int32  `protobuf:"bytes,4,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	F3 []*Cyc36D         `protobuf:"bytes,2,rep,name=x"`
}
type Cyc36B struct {
	F0 map[string]Cyc36D `protobuf:"bytes,1,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F1 []float64         `protobuf:"fixed64,2,rep,packed,name=x"`
}
type Cyc36C struct {
	F0 int32   `protobuf:"varint,2,opt,name=x"`
	F1 *Cyc36B `protobuf:"bytes,1,opt,name=x"`
}
type Cyc36D struct {
	F0 *Cyc36D           `protobuf:"bytes,1,opt,name=x"`
	F1 map[string]Cyc36C `protobuf:"bytes,3,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F2 *string           `protobuf:"bytes,4,opt,name=x,def=a,rep,7"`
	F3 map[string]Cyc36E `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
}
type Cyc36E struct {
	F0 int32     `protobuf:"varint,2,opt,name=x"`
	F1 []*Cyc36E `protobuf:"bytes,1,rep,name=x"`
}
type Cyc37A struct {
	F0 *Cyc37B  `protobuf:"bytes,1,opt,name=x"`
	F1 []Cyc37D `protobuf:"bytes,2,rep,name=x"`
	F2 int32    `protobuf:"varint,3,opt,name=x"`
}
type Cyc37B struct {
	F0 []int32   `protobuf:"varint,3,opt,name=x"`
	F1 []*Cyc37E `protobuf:"bytes,1,rep,name=x"`
	F2 *string   `protobuf:"bytes,2,opt,name=x,def=a,rep,7"`
}
type Cyc37C struct {
	F0 *Cyc37B           `protobuf:"bytes,2,opt,name=x"`
	F1 map[string]Cyc37B `protobuf:"bytes,1,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F2 map[string]bool   `protobuf:"bytes,3,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
}
type Cyc37D struct {
	F0 []*Cyc37B `protobuf:"bytes,2,rep,name=x"`
	F1 *string   `protobuf:"bytes,3,opt,name=x,def=a,rep,7"`
	F2 *Cyc37C   `protobuf:"bytes,1,opt,name=x"`
}
type Cyc37E struct {
	F0 map[string]Cyc37D `protobuf:"bytes,3,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F1 *Cyc37C           `protobuf:"bytes,1,opt,name=x"`
	F2 map[string]Cyc37D `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F3 []float64         `protobuf:"fixed64,4,rep,packed,name=x"`
}
type Cyc38A struct {
	F0 map[int32]*Cyc38E `protobuf:"bytes,1,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 *Cyc38B           `protobuf:"bytes,2,opt,name=x"`
	F2 int32             `protobuf:"varint,3,opt,name=x"`
}
type Cyc38B struct {
	F0 map[int32]*Cyc38B `protobuf:"bytes,1,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 *string           `protobuf:"bytes,3,opt,name=x,def=a,rep,7"`
	F2 map[int32]*Cyc38E `protobuf:"bytes,2,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type Cyc38C struct {
	F0 map[string]int32 `protobuf:"bytes,3,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	F1 []*Cyc38A        `protobuf:"bytes,1,rep,name=x"`
	F2 []float64        `protobuf:"fixed64,2,rep,packed,name=x"`
}
type Cyc38D struct {
	F0 *string           `protobuf:"bytes,3,opt,name=x,def=a,rep,7"`
	F1 *Cyc38A           `protobuf:"bytes,2,opt,name=x"`
	F2 map[string]Cyc38E `protobuf:"bytes,1,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
}
type Cyc38E struct {
	F0 map[string]Cyc38A `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F1 int32             `protobuf:"varint,4,opt,name=x"`
	F2 []*Cyc38D         `protobuf:"bytes,3,rep,name=x"`
	F3 *Cyc38E           `protobuf:"bytes,1,opt,name=x"`
}
type Cyc39A struct {
	F0 []byte    `protobuf:"bytes,3,opt,name=x"`
	F1 []*Cyc39A `protobuf:"bytes,1,rep,name=x"`
	F2 []Cyc39A  `protobuf:"bytes,2,rep,name=x"`
}
type Cyc39B struct {
	F0 []float64 `protobuf:"fixed64,3,rep,packed,name=x"`
	F1 []*Cyc39B `protobuf:"bytes,2,rep,name=x"`
	F2 []Cyc39C  `protobuf:"bytes,1,rep,name=x"`
	F3 **int32   `protobuf:"varint,4,opt,name=x"`
}
type Cyc39C struct {
	F0 []*Cyc39A `protobuf:"bytes,3,rep,name=x"`
	F1 []Cyc39B  `protobuf:"bytes,2,rep,name=x"`
	F2 []*Cyc39C `protobuf:"bytes,1,rep,name=x"`
	F3 *string   `protobuf:"bytes,4,opt,name=x,def=a,rep,7"`
}
type Cyc40A struct {
	F0 []Cyc40A          `protobuf:"bytes,2,rep,name=x"`
	F1 map[string]Cyc40A `protobuf:"bytes,1,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F2 map[string]bool   `protobuf:"bytes,3,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
}
type Cyc40B struct {
	F0 []Cyc40D          `protobuf:"bytes,1,rep,name=x"`
	F1 []float64         `protobuf:"fixed64,3,rep,packed,name=x"`
	F2 []int32           `protobuf:"varint,4,opt,name=x"`
	F3 map[int32]*Cyc40C `protobuf:"bytes,2,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type Cyc40C struct {
	F0 *string   `protobuf:"bytes,2,opt,name=x,def=a,rep,7"`
	F1 []*Cyc40D `protobuf:"bytes,1,rep,name=x"`
}
type Cyc40D struct {
	F0 *Cyc40C  `protobuf:"bytes,2,opt,name=x"`
	F1 int32    `protobuf:"varint,3,opt,name=x"`
	F2 []Cyc40C `protobuf:"bytes,1,rep,name=x"`
}
type Cyc41A struct {
	F0 map[int32]*Cyc41B `protobuf:"bytes,2,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 map[string]Cyc41B `protobuf:"bytes,3,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F2 int32             `protobuf:"varint,4,opt,name=x"`
	F3 *Cyc41C           `protobuf:"bytes,1,opt,name=x"`
}
type Cyc41B struct {
	F0 map[string]Cyc41A `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F1 []Cyc41C          `protobuf:"bytes,1,rep,name=x"`
	F2 *string           `protobuf:"bytes,4,opt,name=x,def=a,rep,7"`
	F3 map[string]Cyc41C `protobuf:"bytes,3,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F4 map[string]int32  `protobuf:"bytes,5,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
}
type Cyc41C struct {
	F0 map[string]bool   `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	F1 map[string]Cyc41C `protobuf:"bytes,1,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
}
type Cyc41D struct {
	F0 *string   `protobuf:"bytes,2,opt,name=x,def=a,rep,7"`
	F1 int32     `protobuf:"varint,1,opt,name=x"`
	F2 []*Cyc41A `protobuf:"bytes,1,rep,name=x"`
}
type Cyc42A struct {
	F0 *Cyc42A           `protobuf:"bytes,1,opt,name=x"`
	F1 map[string]Cyc42C `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F2 []float64         `protobuf:"fixed64,3,rep,packed,name=x"`
}
type Cyc42B struct {
	F0 []*Cyc42A         `protobuf:"bytes,2,rep,name=x"`
	F1 *Cyc42A           `protobuf:"bytes,3,opt,name=x"`
	F2 **int32           `protobuf:"varint,5,opt,name=x"`
	F3 int32             `protobuf:"varint,4,opt,name=x"`
	F4 map[int32]*Cyc42C `protobuf:"bytes,1,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type Cyc42C struct {
	F0 int32   `protobuf:"varint,2,opt,name=x"`
	F1 *Cyc42A `protobuf:"bytes,1,opt,name=x"`
}
type Cyc43A struct {
	F0 map[int32]*Cyc43C `protobuf:"bytes,2,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 int32             `protobuf:"group,5,opt,name=x"`
	F2 []byte            `protobuf:"bytes,4,opt,name=x"`
	F3 []*Cyc43C         `protobuf:"bytes,3,rep,name=x"`
	F4 map[string]Cyc43C `protobuf:"bytes,1,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
}
type Cyc43B struct {
	F0 map[int32]*Cyc43A `protobuf:"bytes,2,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 map[int32]*Cyc43B `protobuf:"bytes,3,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F2 map[string]Cyc43B `protobuf:"bytes,1,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F3 int32             `protobuf:"varint,4,opt,name=x"`
}
type Cyc43C struct {
	F0 int32     `protobuf:"varint,2,opt,name=x"`
	F1 []*Cyc43B `protobuf:"bytes,1,rep,name=x"`
}
type Cyc44A struct {
	F0 *string           `protobuf:"bytes,3,opt,name=x,def=a,rep,7"`
	F1 []Cyc44C          `protobuf:"bytes,2,rep,name=x"`
	F2 int               `protobuf:"varint,4,opt,name=x"`
	F3 map[string]Cyc44D `protobuf:"bytes,1,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
}
type Cyc44B struct {
	F0 []float64 `protobuf:"fixed64,2,rep,packed,name=x"`
	F1 []*Cyc44B `protobuf:"bytes,1,rep,name=x"`
}
type Cyc44C struct {
	F0 map[string]Cyc44C `protobuf:"bytes,1,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F1 []byte            `protobuf:"bytes,3,opt,name=x"`
	F2 map[int32]*Cyc44B `protobuf:"bytes,2,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type Cyc44D struct {
	F0 []*Cyc44D       `protobuf:"bytes,2,rep,name=x"`
	F1 map[string]bool `protobuf:"bytes,4,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	F2 []*Cyc44C       `protobuf:"bytes,3,rep,name=x"`
	F3 *Cyc44A         `protobuf:"bytes,1,opt,name=x"`
}
type Cyc45A struct {
	F0 []byte  `protobuf:"bytes,2,opt,name=x"`
	F1 *Cyc45A `protobuf:"bytes,1,opt,name=x"`
}
type Cyc45B struct {
	F0 *Cyc45A `protobuf:"bytes,2,opt,name=x"`
	F1 *Cyc45A `protobuf:"bytes,1,opt,name=x"`
	F2 *string `protobuf:"bytes,3,opt,name=x,def=a,rep,7"`
}
type Cyc45C struct {
	F0 []byte            `protobuf:"bytes,4,opt,name=x"`
	F1 map[string]Cyc45A `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F2 []*Cyc45B         `protobuf:"bytes,3,rep,name=x"`
	F3 *Cyc45A           `protobuf:"bytes,1,opt,name=x"`
}
type Cyc46A struct {
	F0 map[int32]string `protobuf:"bytes,3,opt,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 int32            `protobuf:"varint,2,opt,name=x"`
	F2 *Cyc46A          `protobuf:"bytes,1,opt,name=x"`
}
type Cyc46B struct {
	F0 []*Cyc46A `protobuf:"bytes,1,rep,name=x"`
	F1 []float64 `protobuf:"fixed64,3,rep,packed,name=x"`
	F2 []*Cyc46A `protobuf:"bytes,2,rep,name=x"`
}
type Cyc47A struct {
	F0 []float64 `protobuf:"fixed64,3,rep,packed,name=x"`
	F1 []Cyc47C  `protobuf:"bytes,1,rep,name=x"`
	F2 []Cyc47A  `protobuf:"bytes,2,rep,name=x"`
	F3 []int32   `protobuf:"varint,4,opt,name=x"`
}
type Cyc47B struct {
	F0 []float64         `protobuf:"fixed64,3,rep,packed,name=x"`
	F1 map[int32]*Cyc47A `protobuf:"bytes,1,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F2 *Cyc47E           `protobuf:"bytes,2,opt,name=x"`
}
type Cyc47C struct {
	F0 map[string]Cyc47A `protobuf:"bytes,2,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F1 map[string]bool   `protobuf:"bytes,4,rep,name=x" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	F2 []*Cyc47C         `protobuf:"bytes,3,rep,name=x"`
	F3 []*Cyc47E         `protobuf:"bytes,1,rep,name=x"`
}
type Cyc47D struct {
	F0 int32             `protobuf:"varint,3,opt,name=x"`
	F1 *Cyc47A           `protobuf:"bytes,1,opt,name=x"`
	F2 map[int32]*Cyc47C `protobuf:"bytes,2,rep,name=x" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type Cyc47E struct {
	F0 []byte   `protobuf:"bytes,3,opt,name=x"`
	F1 []Cyc47E `protobuf:"bytes,2,rep,name=x"`
	F2 []Cyc47E `protobuf:"bytes,1,rep,name=x"`
}

// Cyclic lists the groups.
var Cyclic = [][]reflect.Type{
	{reflect.TypeOf(Cyc0A{}), reflect.TypeOf(Cyc0B{}), reflect.TypeOf(Cyc0C{}), reflect.TypeOf(Cyc0D{})},
	{reflect.TypeOf(Cyc1A{}), reflect.TypeOf(Cyc1B{}), reflect.TypeOf(Cyc1C{})},
	{reflect.TypeOf(Cyc2A{}), reflect.TypeOf(Cyc2B{}), reflect.TypeOf(Cyc2C{}), reflect.TypeOf(Cyc2D{}), reflect.TypeOf(Cyc2E{})},
	{reflect.TypeOf(Cyc3A{}), reflect.TypeOf(Cyc3B{}), reflect.TypeOf(Cyc3C{}), reflect.TypeOf(Cyc3D{})},
	{reflect.TypeOf(Cyc4A{}), reflect.TypeOf(Cyc4B{}), reflect.TypeOf(Cyc4C{}), reflect.TypeOf(Cyc4D{})},
	{reflect.TypeOf(Cyc5A{}), reflect.TypeOf(Cyc5B{}), reflect.TypeOf(Cyc5C{}), reflect.TypeOf(Cyc5D{})},
	{reflect.TypeOf(Cyc6A{}), reflect.TypeOf(Cyc6B{}), reflect.TypeOf(Cyc6C{})},
	{reflect.TypeOf(Cyc7A{}), reflect.TypeOf(Cyc7B{}), reflect.TypeOf(Cyc7C{}), reflect.TypeOf(Cyc7D{})},
	{reflect.TypeOf(Cyc8A{}), reflect.TypeOf(Cyc8B{}), reflect.TypeOf(Cyc8C{})},
	{reflect.TypeOf(Cyc9A{}), reflect.TypeOf(Cyc9B{}), reflect.TypeOf(Cyc9C{}), reflect.TypeOf(Cyc9D{})},
	{reflect.TypeOf(Cyc10A{}), reflect.TypeOf(Cyc10B{})},
	{reflect.TypeOf(Cyc11A{}), reflect.TypeOf(Cyc11B{}), reflect.TypeOf(Cyc11C{}), reflect.TypeOf(Cyc11D{}), reflect.TypeOf(Cyc11E{})},
	{reflect.TypeOf(Cyc12A{}), reflect.TypeOf(Cyc12B{})},
	{reflect.TypeOf(Cyc13A{}), reflect.TypeOf(Cyc13B{}), reflect.TypeOf(Cyc13C{}), reflect.TypeOf(Cyc13D{})},
	{reflect.TypeOf(Cyc14A{}), reflect.TypeOf(Cyc14B{}), reflect.TypeOf(Cyc14C{}), reflect.TypeOf(Cyc14D{})},
	{reflect.TypeOf(Cyc15A{}), reflect.TypeOf(Cyc15B{})},
	{reflect.TypeOf(Cyc16A{}), reflect.TypeOf(Cyc16B{}), reflect.TypeOf(Cyc16C{})},
	{reflect.TypeOf(Cyc17A{}), reflect.TypeOf(Cyc17B{})},
	{reflect.TypeOf(Cyc18A{}), reflect.TypeOf(Cyc18B{}), reflect.TypeOf(Cyc18C{}), reflect.TypeOf(Cyc18D{}), reflect.TypeOf(Cyc18E{})},
	{reflect.TypeOf(Cyc19A{}), reflect.TypeOf(Cyc19B{}), reflect.TypeOf(Cyc19C{}), reflect.TypeOf(Cyc19D{})},
	{reflect.TypeOf(Cyc20A{}), reflect.TypeOf(Cyc20B{}), reflect.TypeOf(Cyc20C{}), reflect.TypeOf(Cyc20D{})},
	{reflect.TypeOf(Cyc21A{}), reflect.TypeOf(Cyc21B{})},
	{reflect.TypeOf(Cyc22A{}), reflect.TypeOf(Cyc22B{})},
	{reflect.TypeOf(Cyc23A{}), reflect.TypeOf(Cyc23B{}), reflect.TypeOf(Cyc23C{}), reflect.TypeOf(Cyc23D{})},
	{reflect.TypeOf(Cyc24A{}), reflect.TypeOf(Cyc24B{}), reflect.TypeOf(Cyc24C{})},
	{reflect.TypeOf(Cyc25A{}), reflect.TypeOf(Cyc25B{}), reflect.TypeOf(Cyc25C{}), reflect.TypeOf(Cyc25D{}), reflect.TypeOf(Cyc25E{})},
	{reflect.TypeOf(Cyc26A{}), reflect.TypeOf(Cyc26B{}), reflect.TypeOf(Cyc26C{}), reflect.TypeOf(Cyc26D{}), reflect.TypeOf(Cyc26E{})},
	{reflect.TypeOf(Cyc27A{}), reflect.TypeOf(Cyc27B{}), reflect.TypeOf(Cyc27C{})},
	{reflect.TypeOf(Cyc28A{}), reflect.TypeOf(Cyc28B{})},
	{reflect.TypeOf(Cyc29A{}), reflect.TypeOf(Cyc29B{}), reflect.TypeOf(Cyc29C{}), reflect.TypeOf(Cyc29D{}), reflect.TypeOf(Cyc29E{})},
	{reflect.TypeOf(Cyc30A{}), reflect.TypeOf(Cyc30B{}), reflect.TypeOf(Cyc30C{}), reflect.TypeOf(Cyc30D{}), reflect.TypeOf(Cyc30E{})},
	{reflect.TypeOf(Cyc31A{}), reflect.TypeOf(Cyc31B{}), reflect.TypeOf(Cyc31C{}), reflect.TypeOf(Cyc31D{})},
	{reflect.TypeOf(Cyc32A{}), reflect.TypeOf(Cyc32B{}), reflect.TypeOf(Cyc32C{})},
	{reflect.TypeOf(Cyc33A{}), reflect.TypeOf(Cyc33B{}), reflect.TypeOf(Cyc33C{}), reflect.TypeOf(Cyc33D{})},
	{reflect.TypeOf(Cyc34A{}), reflect.TypeOf(Cyc34B{})},
	{reflect.TypeOf(Cyc35A{}), reflect.TypeOf(Cyc35B{})},
	{reflect.TypeOf(Cyc36A{}), reflect.TypeOf(Cyc36B{}), reflect.TypeOf(Cyc36C{}), reflect.TypeOf(Cyc36D{}), reflect.TypeOf(Cyc36E{})},
	{reflect.TypeOf(Cyc37A{}), reflect.TypeOf(Cyc37B{}), reflect.TypeOf(Cyc37C{}), reflect.TypeOf(Cyc37D{}), reflect.TypeOf(Cyc37E{})},
	{reflect.TypeOf(Cyc38A{}), reflect.TypeOf(Cyc38B{}), reflect.TypeOf(Cyc38C{}), reflect.TypeOf(Cyc38D{}), reflect.TypeOf(Cyc38E{})},
	{reflect.TypeOf(Cyc39A{}), reflect.TypeOf(Cyc39B{}), reflect.TypeOf(Cyc39C{})},
	{reflect.TypeOf(Cyc40A{}), reflect.TypeOf(Cyc40B{}), reflect.TypeOf(Cyc40C{}), reflect.TypeOf(Cyc40D{})},
	{reflect.TypeOf(Cyc41A{}), reflect.TypeOf(Cyc41B{}), reflect.TypeOf(Cyc41C{}), reflect.TypeOf(Cyc41D{})},
	{reflect.TypeOf(Cyc42A{}), reflect.TypeOf(Cyc42B{}), reflect.TypeOf(Cyc42C{})},
	{reflect.TypeOf(Cyc43A{}), reflect.TypeOf(Cyc43B{}), reflect.TypeOf(Cyc43C{})},
	{reflect.TypeOf(Cyc44A{}), reflect.TypeOf(Cyc44B{}), reflect.TypeOf(Cyc44C{}), reflect.TypeOf(Cyc44D{})},
	{reflect.TypeOf(Cyc45A{}), reflect.TypeOf(Cyc45B{}), reflect.TypeOf(Cyc45C{})},
	{reflect.TypeOf(Cyc46A{}), reflect.TypeOf(Cyc46B{})},
	{reflect.TypeOf(Cyc47A{}), reflect.TypeOf(Cyc47B{}), reflect.TypeOf(Cyc47C{}), reflect.TypeOf(Cyc47D{}), reflect.TypeOf(Cyc47E{})},
}
