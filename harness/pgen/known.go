package pgen

import "strings"

// The well-known files that come with prutalgen, without descriptor.proto and api.proto.

type kfield struct {
	n   string
	num int
	lab string // also "map:key" and "one:name"
	t   string // scalar name or .full.name
}

func kmsg(n string, fs ...kfield) *Def {
	d := &Def{K: "msg", N: N(n), Dirs: []string{}, Res: [][2]int{}, ResN: []Name{}, F: []*Field{}, O: []Name{}, V: []*Val{}, M: []*Rpc{}}
	for _, k := range fs {
		x := &Field{N: N(k.n), Num: k.num, Lab: k.lab, Dirs: []string{}}
		if a, b, ok := strings.Cut(k.lab, ":"); ok && a == "map" {
			x.Lab, x.Key = "map", b
		} else if ok {
			x.Lab = ""
			if len(d.O) == 0 || string(d.O[len(d.O)-1]) != b {
				d.O = append(d.O, N(b))
			}
			x.O = len(d.O)
		}
		if k.t[0] >= 'a' && k.t[0] <= 'z' {
			x.T = Ref{S: k.t, R: []Name{}}
		} else {
			x.T = Ref{R: Path(k.t, ".")}
		}
		d.F = append(d.F, x)
	}
	return d
}

func kenum(up int, n string, vs ...string) *Def {
	d := &Def{K: "enum", N: N(n), Up: up, Dirs: []string{}, Res: [][2]int{}, ResN: []Name{}, F: []*Field{}, O: []Name{}, V: []*Val{}, M: []*Rpc{}}
	for i, v := range vs {
		d.V = append(d.V, &Val{N: N(v), V: i, Dirs: []string{}})
	}
	return d
}

var knownImports = map[string][]string{"type": {"any", "source_context"}}

func knownFile(n string) *File {
	f := &File{Path: "google/protobuf/" + n + ".proto", Syn: "proto3", Pkg: Path("google.protobuf", "."), Imps: []Imp{}, MImp: []Name{}, Dirs: []string{}, Known: true,
		GoImp: Path("google.golang.org/protobuf/types/known/"+strings.ReplaceAll(n, "_", "")+"pb", "/")}
	switch n {
	case "any":
		f.D = []*Def{kmsg("Any", kfield{"type_url", 1, "", "string"}, kfield{"value", 2, "", "bytes"})}
	case "duration", "timestamp":
		f.D = []*Def{kmsg(strings.ToUpper(n[:1])+n[1:], kfield{"seconds", 1, "", "int64"}, kfield{"nanos", 2, "", "int32"})}
	case "empty":
		f.D = []*Def{kmsg("Empty")}
	case "field_mask":
		f.D = []*Def{kmsg("FieldMask", kfield{"paths", 1, "repeated", "string"})}
	case "source_context":
		f.D = []*Def{kmsg("SourceContext", kfield{"file_name", 1, "", "string"})}
	case "wrappers":
		for _, t := range []string{"Double", "Float", "Int64", "UInt64", "Int32", "UInt32", "Bool", "String", "Bytes"} {
			f.D = append(f.D, kmsg(t+"Value", kfield{"value", 1, "", strings.ToLower(t)}))
		}
	case "struct":
		f.D = []*Def{
			kmsg("Struct", kfield{"fields", 1, "map:string", "Value"}),
			kmsg("Value", kfield{"null_value", 1, "one:kind", "NullValue"}, kfield{"number_value", 2, "one:kind", "double"},
				kfield{"string_value", 3, "one:kind", "string"}, kfield{"bool_value", 4, "one:kind", "bool"},
				kfield{"struct_value", 5, "one:kind", "Struct"}, kfield{"list_value", 6, "one:kind", "ListValue"}),
			kenum(0, "NullValue", "NULL_VALUE"),
			kmsg("ListValue", kfield{"values", 1, "repeated", "Value"}),
		}
	case "type":
		f.D = []*Def{
			kmsg("Type", kfield{"name", 1, "", "string"}, kfield{"fields", 2, "repeated", "Field"}, kfield{"oneofs", 3, "repeated", "string"},
				kfield{"options", 4, "repeated", "Option"}, kfield{"source_context", 5, "", "SourceContext"},
				kfield{"syntax", 6, "", "Syntax"}, kfield{"edition", 7, "", "string"}),
			kmsg("Field", kfield{"kind", 1, "", "Kind"}, kfield{"cardinality", 2, "", "Cardinality"}, kfield{"number", 3, "", "int32"},
				kfield{"name", 4, "", "string"}, kfield{"type_url", 6, "", "string"}, kfield{"oneof_index", 7, "", "int32"},
				kfield{"packed", 8, "", "bool"}, kfield{"options", 9, "repeated", "Option"}, kfield{"json_name", 10, "", "string"},
				kfield{"default_value", 11, "", "string"}),
			kenum(2, "Kind", "TYPE_UNKNOWN", "TYPE_DOUBLE", "TYPE_FLOAT", "TYPE_INT64", "TYPE_UINT64", "TYPE_INT32", "TYPE_FIXED64", "TYPE_FIXED32", "TYPE_BOOL",
				"TYPE_STRING", "TYPE_GROUP", "TYPE_MESSAGE", "TYPE_BYTES", "TYPE_UINT32", "TYPE_ENUM", "TYPE_SFIXED32", "TYPE_SFIXED64", "TYPE_SINT32", "TYPE_SINT64"),
			kenum(2, "Cardinality", "CARDINALITY_UNKNOWN", "CARDINALITY_OPTIONAL", "CARDINALITY_REQUIRED", "CARDINALITY_REPEATED"),
			kmsg("Enum", kfield{"name", 1, "", "string"}, kfield{"enumvalue", 2, "repeated", "EnumValue"}, kfield{"options", 3, "repeated", "Option"},
				kfield{"source_context", 4, "", "SourceContext"}, kfield{"syntax", 5, "", "Syntax"}, kfield{"edition", 6, "", "string"}),
			kmsg("EnumValue", kfield{"name", 1, "", "string"}, kfield{"number", 2, "", "int32"}, kfield{"options", 3, "repeated", "Option"}),
			kmsg("Option", kfield{"name", 1, "", "string"}, kfield{"value", 2, "", "Any"}),
			kenum(0, "Syntax", "SYNTAX_PROTO2", "SYNTAX_PROTO3", "SYNTAX_EDITIONS"),
		}
	}
	return f
}

var knownNames = []string{"any", "duration", "timestamp", "empty", "field_mask", "source_context", "wrappers", "struct", "type"}
