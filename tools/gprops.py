G = "prutalgen/pkg/prutalgen/"
GEN = ["programs", "inputs"]

prop("G01", "Names in .proto files resolve by protobuf's scoping rules, to one definition",
     """Every type name in a field, map value or rpc resolves to the definition protobuf's rules choose: innermost enclosing scope first, then outwards through messages and packages, a leading dot meaning fully qualified,
     over the file's own definitions, its imports and what those import publicly, and nothing else; what resolves to nothing is refused.
     The generated Go types name exactly that definition's Go type in its Go package.""",
     GEN, "every set of files: packages that are prefixes of each other, nested and shadowed names, partially and fully qualified references, public and plain imports",
     "The tests resolve a handful of names in two or three files; which definition wins depends on the combination of scopes, packages and imports, where a wrong choice still compiles.",
     [G + "proto.go", G + "message.go", G + "type.go", G + "service.go", G + "field.go"],
     [("scope walk", G + "message.go"), ("visibility through public imports", G + "proto.go"), ("Go type names", G + "type.go")],
     ["generated struct fields and rpc types", "prutalgen.Loader.LoadProto"])

prop("G02", "Generated struct fields say what the .proto field means under its syntax",
     """Each message becomes one struct with one Go field per proto field or oneof, in order, whose Go type (pointer, slice, map, base) and struct tags (kind, number, label, packed, name, map key and value) say exactly what the declaration means:
     proto2, proto3 and edition 2023 presence, required, packed defaults and overrides by file and field features and options; bytes are never pointers, oneof members are wrapped one by one.""",
     GEN, "every field: syntax x file features x field label, features and options x type, in messages at any nesting level",
     "Whether a field is a pointer or packed is decided by a chain of conditions over syntax, features and options; the tests look at a few lines of generated text.",
     [G + "field.go", G + "code.go", G + "option.go", G + "type.go", G + "oneof.go"],
     [("presence and pointer rules", G + "field.go"), ("packed rules", G + "field.go"), ("struct tags", G + "code.go:FieldStructTag")],
     ["generated struct fields and tags"])

prop("G03", "Valid .proto files are accepted and invalid ones refused",
     """A set of files that is valid by protobuf's rules (in the grammar prutalgen documents) is accepted; one that has a syntax error, an unknown syntax or edition, a duplicate, reserved, out-of-range or implementation-range number, a reserved name, duplicate enum values without allow_alias,
     a required label outside proto2, an unknown feature or packed value, an rpc over something that is no message, a missing import, an import cycle, no Go package, or an unresolvable name is refused as a whole.""",
     GEN, "every set of files; numbers and ranges at and around their limits; one mistake anywhere in otherwise valid files, also in imported ones",
     "Each rule is a comparison with boundaries, applied to messages, enums and files at every nesting level and import distance; the tests try one or two values each.",
     [G + "reserved.go", G + "field.go", G + "enum.go", G + "message.go", G + "proto.go", G + "prutalgen.go", G + "option.go", G + "service.go"],
     [("number and reserved checks", G + "reserved.go"), ("verification walk", G + "proto.go"), ("syntax and edition", G + "proto.go:ExitEdition")],
     ["prutalgen.Loader.LoadProto", "prutalgen command"])

prop("G04", "Each imported file is loaded once, in order, and code goes to its place",
     """Loading a file loads it and everything it imports, transitively, each file once however often and through whatever paths it is imported, found in the first include directory that has it, with every file ahead of what it imports and the requested one first; cycles and missing files are refused; a used loader behaves like a new one.
     The Go import path and package name come from the M option if given, else from go_package; the command writes the code of exactly the files it was asked for, to the path that import path (or, for source-relative output, the source) gives.""",
     ["programs", "configurations"], "every import graph (all graphs of three files, random larger ones), include order, M options, output modes",
     "The tests load one or two files; order, duplicates, cycles and include precedence are properties of whole graphs and search paths.",
     [G + "prutalgen.go", G + "utils.go", G + "proto.go", G + "code.go", "prutalgen/main.go", "prutalgen/pkg/utils/args/go_opts.go", G + "embed.go"],
     [("recursive loading", G + "prutalgen.go:loadProto"), ("topological order", G + "utils.go"), ("Go package settings", G + "proto.go:setGoPackage"), ("output path", G + "code.go:SourcePath")],
     ["prutalgen.Loader.LoadProto", "prutalgen command"],
     [{"name": "loader", "meaning": "files loaded so far and the stack of files being loaded", "where": G + "prutalgen.go"}])

prop("G05", "Generated code compiles and uses protoc-gen-go's names",
     """For every valid set of files, the generated packages compile together, and messages, fields, oneofs, wrappers, enums, constants and methods have the Go names that protoc-gen-go gives them (camel-casing, nesting, and suffixes where names clash with each other or with methods);
     files that share a Go package, and packages whose names clash or are no identifiers, included.
     (Excepted: protobuf names that protoc-gen-go cannot tell apart either, messages made to contain themselves by value, and Go packages that import each other.)""",
     GEN, "every valid set of files, with getters, marshalers and without",
     "Whether code compiles depends on combinations of names, packages and options; the tests compile one example.",
     [G + "code.go", G + "codewriter.go", G + "message.go", G + "field.go", G + "oneof.go", G + "enum.go", G + "type.go", "prutalgen/internal/protobuf/strs/strings.go"],
     [("field name conflicts", G + "message.go"), ("imports and aliases", G + "codewriter.go"), ("camel case", "prutalgen/internal/protobuf/strs/strings.go")],
     ["generated Go code"])

prop("G07", "Generated enums carry exactly the declared values and names",
     """Each enum, wherever nested, becomes an int32 type with one constant per value, in order, with its number and its Go name, and two maps: from each number to the first name declared for it, and from each name (aliases too) to its number; String follows the first map.
     The prefix and mapping options and directives change just the names, or leave just the maps and String out.""",
     GEN, "every enum: negative, extreme and aliased numbers, hexadecimal and octal literals, nesting, options",
     "The tests cover one small enum; aliases, nesting and number formats interact.",
     [G + "enum.go", G + "code.go"],
     [("values", G + "enum.go"), ("constants, maps, String", G + "code.go:EnumGen")],
     ["generated constants, maps and String methods"])

prop("G09", "Directives and gogoproto options take effect exactly where they are written",
     """The directives unknown_fields, no_unknown_fields, no_pointer, no_enum_prefix and no_enum_mapping and the gogoproto options for nullable, unrecognized and enum prefix change the generated code of the file, message, enum, value or field they are written on, in the documented way (the nearer setting wins, a directive over an option), and nothing else;
     other or misspelt directives and ordinary comments change nothing.""",
     GEN, "every combination of directives and options at file, message, enum, value and field level (a systematic sweep and random sets)",
     "Each combination of levels is its own case, and comments are attached to declarations by position; the tests try single directives.",
     [G + "directive.go", G + "option.go", G + "message.go", G + "field.go", G + "enum.go", G + "comment.go"],
     [("directive parsing", G + "directive.go"), ("comment attachment", G + "comment.go"), ("precedence", G + "message.go:genUnknownFields")],
     ["generated Go code"])

prop("G10", "Layout and comments of .proto files do not change the generated declarations",
     """Two texts of the same definitions (other white space, line ends, comments, order of statements that do not depend on order, quoting, escapes and number formats) give the same Go declarations, whatever the comments say.""",
     GEN, "pairs of random layouts of random sets of files",
     "Comments are copied into the code and directives are recognised by position, so a comment in an unexpected place can break or change the code; the tests have a few fixed layouts.",
     [G + "comment.go", G + "code.go", G + "codewriter.go", "prutalgen/internal/protobuf/text/decode.go", G + "option.go"],
     [("comment attachment", G + "comment.go"), ("string literals", "prutalgen/internal/protobuf/text"), ("code writer", G + "codewriter.go")],
     ["generated Go code"])

prop("G06", "Generated types have the wire format that the .proto files prescribe",
     """For every valid set of files, messages of the generated types, marshalled and unmarshalled by prutal (or by their generated Marshal and Unmarshal methods), have exactly the wire format the definitions prescribe: field numbers, encodings (zigzag, fixed, packed), labels, maps, oneofs, nested and recursive messages, presence as declared, and unknown fields kept where the struct has room for them.
     The generator and the codec have to agree, across files and packages, not just be right on their own. (Bytes fields have no presence: empty and absent are the same.)""",
     GEN, "every valid set of files x every message of the generated types x every input",
     "The generator's tests compare text and the codec's tests use hand-written structs; nothing else runs one on the output of the other.",
     [G + "code.go", G + "field.go", G + "type.go", G + "message.go", G + "oneof.go", "prutal.go", "internal/desc/desc.go", "internal/desc/tag.go"],
     [("struct tags", G + "code.go:FieldStructTag"), ("tag parsing", "internal/desc/tag.go"), ("oneof wrappers", G + "code.go:MessageGen"), ("Marshal and Unmarshal methods", G + "code.go:MessageGen")],
     ["generated structs with prutal.Marshal, prutal.Unmarshal"])

prop("G08", "Getters, Reset and String of generated code return what they should",
     """For every message of a generated type, a getter returns the value of its field, and the protobuf default when the field is not set or the message is nil: zero, empty, nil for messages, lists and maps, the first declared value for enums; the getter of a oneof returns the wrapper of the member that is set, or nil. None of them panics or changes the message.
     Reset leaves an empty message; String of an enum gives the first name declared for the value, or the number in decimal when there is none. (Declared defaults are not supported; fields made non-pointers by no_pointer are always set.)""",
     GEN, "every valid set of files x every message of the generated types, nil ones included",
     "Each kind of field (pointer, plain, oneof, external enum, by value) has its own getter text; the tests only compare a few texts.",
     [G + "code.go", G + "field.go", G + "oneof.go", G + "enum.go"],
     [("getters", G + "code.go:MessageGen"), ("default values", G + "field.go:GoZero"), ("String", G + "code.go:EnumGen")],
     ["getters, Reset and String of generated code"])

prop("G11", "Comments, directives and options stay with the definition they are written on",
     """The comments that lead up to a message, enum, enum value, field, oneof member, service or rpc without an empty line between are its head comment, the first comment behind it on its line is its inline comment, and every other comment belongs to nobody. The loaded definitions have exactly these comments, in order, and the directives in them; the generated code repeats those of messages, enums, values and fields above and behind their Go declarations, each once, unchanged, and no others.
     Options are those of the file, message, enum, value, field, oneof, service or rpc they are written in, in order, their string values unescaped as the language prescribes.""",
     GEN, "every layout of comments, line ends and statements around every kind of definition, to a bounded length, and random files beyond it",
     "What a comment belongs to depends on everything between it and the next definition; the tests have a few fixed layouts, mostly of one kind of definition.",
     [G + "comment.go", G + "message.go", G + "field.go", G + "enum.go", G + "oneof.go", G + "service.go", G + "option.go", G + "directive.go", G + "utils.go"],
     [("comment attachment", G + "comment.go"), ("options", G + "option.go"), ("string values", "prutalgen/internal/protobuf/text"), ("directives of a definition", G + "directive.go")],
     ["loaded definitions (HeadComment, InlineComment, Directives, Options)", "generated Go code"])

prop("G12", "Any text is read as the .proto file it is or refused: no skipping, no crash",
     """Any text given to prutalgen, as the file named or anywhere among its imports, is either a file of the .proto language or not. What is not - a character no token starts with, an unterminated string or comment, a bad escape, a token too many, missing or out of place, a file cut short - is refused with a message, wherever in the text it is; nothing is skipped over or guessed.
     What is in the language, however its numbers, strings, names and spaces are written (hexadecimal and octal numbers, every float and escape form, adjacent strings, keywords as names, comments between any tokens, a byte order mark), is never refused for its syntax (constructs that protoc reads and prutalgen's grammar does not have, such as groups, may be). Either way prutalgen ends without a panic or hang; the code of an accepted file is well-formed Go; and the command, when it refuses a file or cannot write its code, exits with a non-zero status and writes no code for it.""",
     GEN, "every text: every token in every configuration of the grammar (to a nesting depth), and random damage to tokens and characters of valid files",
     "The language is infinite and the errors are most of the space; the tests parse a few well-formed files and a few broken ones, and an error that is printed but not counted looks like success to them.",
     [G + "prutalgen.go", "prutalgen/internal/Protobuf.g4", "prutalgen/internal/protobuf/text", G + "option.go", "prutalgen/main.go"],
     [("errors of lexer and parser", G + "prutalgen.go:errorListener"), ("loading", G + "prutalgen.go:parseInput"), ("string escapes", "prutalgen/internal/protobuf/text"), ("exit status and output", "prutalgen/main.go")],
     ["prutalgen.Loader.LoadProto", "prutalgen command"])

prop("G13", "The loaded definitions answer questions as the files declare",
     """A program that uses the loader as a library gets, for every loaded file, message, enum, value, field and oneof, the answers the .proto files prescribe: the Go type, zero value (for enums the first declared value, in whatever package), pointerness and encoding of a field, the names of oneof interfaces and wrappers, which numbers are reserved (19000 to 19999 as well for messages, not for enums), the value of each option (none when it is not set) and directive (set, unset by its no_ form, or absent), and the links between definitions, their parents, files, fields and members.
     The answers are those for the definition itself, for nested definitions, public imports, files sharing a package and the files that come with prutalgen alike.""",
     GEN, "random sets of files and systematic sweeps over field kinds and option and directive combinations; every query of every definition",
     "The answers depend on the combination of syntax, features, options, directives, oneofs and the package the type comes from; the tests ask single questions of single definitions.",
     [G + "field.go", G + "type.go", G + "option.go", G + "directive.go", G + "reserved.go", G + "message.go", G + "enum.go", G + "oneof.go"],
     [("Go type and zero value", G + "field.go:GoTypeName, GoZero, IsPointer"), ("reserved numbers", G + "reserved.go"), ("options and directives", G + "option.go, directive.go")],
     ["prutalgen.Loader.LoadProto", "prutalgen.Message, Enum, Field, Oneof, Type, Options, Directives"])

prop("G14", "Generated code depends on nothing but its files and options",
     """The code of a file, byte for byte, is a function of the contents of the file and of what it imports, and of the options: the same when it is generated again, by the command or the library, alone or with other files and in any order, as the file asked for or as an import of another, with a used loader, generator or code writer or a new one, after other files were edited or could not be loaded, or while other loaders are at work. What a loader returned stays as it was when files change or the loader is used again; a loader sees the files as they are now.
     Generating writes the code of the files asked for and changes no other file; nothing of an older file remains; the code is formatted as gofmt has it unless formatting is off. A command that fails leaves all but the code of its valid files alone. A code writer gives its header, package clause, one import of each package used (grouped and sorted, an alias only where it says something), and what was written, in order.""",
     GEN, "every behaviour of a few steps of edits, loads, generations and commands on two files, and random longer ones on up to four files; random sequences of calls of a code writer",
     "Each run of a test has one fresh loader, one generator and one command; what one use leaves behind for the next shows only in histories.",
     [G + "prutalgen.go", G + "proto.go", G + "code.go", G + "codewriter.go", "prutalgen/main.go"],
     [("loader state", G + "prutalgen.go:LoadProto, reset"), ("writing of code", G + "code.go:Gen"), ("code writer", G + "codewriter.go"), ("import names", G + "proto.go:importAliases")],
     ["prutalgen.Loader", "prutalgen.GoCodeGen", "prutalgen.CodeWriter", "prutalgen command"])
