import json
P=[]
def p(id,title,st,over,q,why,files,mech,obs=None,hook=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if obs: d["anchors"]["observe_at"]=obs
    if hook: d["anchors"]["hook_needed"]=hook
    P.append(d)
M="crates/mabo/src/"
# ---- wire format
p("W01","Variable-length integers round-trip and report their exact size",
 "Encoding any 16- to 128-bit signed or unsigned integer and decoding the bytes returns the same integer and consumes exactly the bytes that were written, whatever follows them. The size function returns exactly that number of bytes for every value.",
 ["inputs"],"every value of u16, u32, u64, u128, i16, i32, i64 and i128, and every trailing byte",
 "The unit tests try MIN, -1, 0, 1 and MAX; a fault at one length boundary or one bit position is invisible to them.",
 [M+"varint.rs",M+"buf/encode.rs",M+"buf/decode.rs",M+"buf/size.rs"],[("LEB128 loop, zig-zag mapping, leading-zeros size formula",M+"varint.rs")],["varint::encode_*/decode_*/size_*","buf::encode_*/decode_*/size_*"])
p("W02","Integers on the wire are canonical LEB128 with zig-zag, as documented",
 "An encoded integer is the shortest base-128 little-endian group sequence of its value (signed values zig-zag mapped first), with the continuation bit set on every byte but the last. Decoding arbitrary bytes never panics, fails exactly when no terminating byte occurs within the maximum length of the type (or the input), and otherwise returns the number the groups denote whenever that number fits the type, together with the number of bytes up to the terminator.",
 ["inputs"],"every integer value, and every byte string up to one byte longer than the longest encoding of each width",
 "Round-trip tests cannot see a format that changes on both sides at once, and no test decodes bytes the encoder did not write.",
 [M+"varint.rs"],[("encode/decode loops",M+"varint.rs")],["varint::encode_*/decode_*"])
p("W03","Every runtime value round-trips through encode and decode",
 "Decoding the encoding of any supported value - bool, integers, floats (bit for bit), strings, byte strings, vectors, maps, sets, options, arrays, non-zero and boxed values, and their nestings - yields an equal value and consumes exactly the encoded bytes, leaving what follows untouched.",
 ["inputs"],"every value of each type within the element and length bounds stated in the evidence, with arbitrary bytes following",
 "There are no round-trip tests of containers at all; sampled ones would meet a few lengths and element sizes only.",
 [M+"buf/encode.rs",M+"buf/decode.rs",M+"lib.rs"],[("length-prefixed containers limited by a take-adapter",M+"buf/decode.rs")],["Encode::encode / Decode::decode"])
p("W04","The computed size of a value equals the number of bytes it encodes to",
 "For every value of every supported type the size calculation returns exactly the number of bytes that encoding the value writes. This covers containers whose payload needs a longer length prefix than their element count.",
 ["inputs"],"every value within the bounds, including containers whose byte length crosses 127 while the element count does not",
 "Length prefixes of enclosing containers are computed from it, so a mismatch corrupts nested data only for particular element sizes; no test compares the two.",
 [M+"buf/size.rs",M+"buf/encode.rs"],[("size_* functions mirrored on encode_*",M+"buf/size.rs")],["Size::size vs Encode::encode"])
p("W05","Decoding arbitrary bytes is total: no panic, no hang, bounded memory",
 "Decoding any byte string as any supported type terminates with a value or an error: it never panics, reads outside the input, loops without consuming input, or allocates memory out of proportion to the input length, whatever lengths the bytes claim.",
 ["inputs"],"every byte string up to the length bound, for each runtime decoder",
 "Tests decode only well-formed bytes; hostile length prefixes and truncated elements are never tried.",
 [M+"buf/decode.rs",M+"varint.rs"],[("size checks before every read",M+"buf/decode.rs")],["Decode::decode","buf::decode_*"])
p("W06","A truncated encoding is rejected",
 "Decoding any strict prefix of the encoding of a value returns an error; it never returns a value assembled from partial data.",
 ["inputs","fault_sequences"],"every value within the bounds and every cut point strictly inside its encoding",
 "No test truncates anything; cut points multiply with values.",
 [M+"buf/decode.rs"],[("remaining-bytes checks",M+"buf/decode.rs")],["Decode::decode"])
p("W07","Field keys are lossless and skipping consumes exactly one field value",
 "A field number up to 2^29-1 and an encoding marker combine to a key that splits back into the same pair, with the documented bit layout, never collides with the end marker for numbers above zero, and unknown markers are rejected. Skipping a value by its marker consumes exactly the bytes that value was encoded to, or fails if they are not all there.",
 ["inputs"],"every field number below 2^29, every 32-bit key, every value of every field type with a marker, and arbitrary bytes to skip",
 "No test covers field keys or skipping beyond the snapshot schemas; a wrong marker or shift shows for some ids only.",
 [M+"lib.rs",M+"buf/decode.rs",M+"buf/encode.rs",M+"buf/size.rs"],[("key packing",M+"lib.rs"),("decode_skip",M+"buf/decode.rs")],["FieldId","decode_id/encode_id","decode_skip"])
p("W08","Non-zero values are never zero or empty, and never rejected wrongly",
 "A non-zero integer, string, byte string or collection can be constructed or decoded exactly when the underlying value is non-zero or non-empty; otherwise construction yields nothing and decoding the zero-error. Decoding agrees with the plain decoder on everything else.",
 ["inputs"],"every byte string up to the bound for every non-zero decoder, and every value for every constructor",
 "Tests try one empty and one non-empty value per type.",
 [M+"lib.rs",M+"buf/decode.rs"],[("NonZero constructors",M+"lib.rs"),("ensure_not_empty",M+"buf/decode.rs")],["NonZero::new","decode_non_zero_*"])
p("W09","The result of decoding does not depend on how the input buffer is split",
 "Decoding from a buffer made of several chunks gives the same value, the same error and the same number of consumed bytes as decoding the same bytes from one contiguous buffer.",
 ["inputs","configurations"],"every byte string within the bound, every split into two chunks, every runtime decoder",
 "All tests use contiguous slices; a chunk boundary inside a multi-byte integer never occurs.",
 [M+"buf/decode.rs"],[("Buf::chunk / advance use",M+"buf/decode.rs")],["decode_* over Buf::chain"])
p("W10","Scalars, strings and containers are laid out on the wire as documented",
 "bool and 8-bit integers take one byte, floats their big-endian IEEE bytes, strings and byte strings a varint byte length followed by the data, vectors, maps, sets and arrays a varint byte length followed by the encoded elements in order, and options a one-byte flag followed by the value if present. Different representations of the same schema type (owned, boxed, shared, borrowed) produce the same bytes.",
 ["inputs"],"every value within the bounds, compared with an independent encoder written from the format description",
 "No test fixes wire bytes; an incompatible format change that both sides share passes every round-trip.",
 [M+"buf/encode.rs"],[("encode_*",M+"buf/encode.rs")],["Encode::encode","buf::encode_*"])
# ---- generated code
G=["crates/mabo-build/src/encode.rs","crates/mabo-build/src/decode.rs","crates/mabo-build/src/size.rs","crates/mabo-build/src/definition.rs"]
p("G01","Generated Rust types round-trip",
 "For every type generated from a schema, decoding the encoding of any value returns an equal value and consumes exactly the encoded bytes, including optional, nested, generic, tuple, array, non-zero and external-type fields.",
 ["programs","inputs"],"every value (within element bounds) of the types generated from a corpus of schemas covering each field kind, struct and enum shape",
 "The generator's tests compare generated source text with snapshots and check that it compiles; the generated code is never run.",
 G,[("generated encode/decode",G[0])],["generated Encode/Decode impls"])
p("G02","Generated encoders emit exactly the documented struct and enum layout",
 "A generated struct encodes as its present fields, each a key made of the schema's field number and the marker of its type followed by the value, ended by a zero byte; absent optional fields take no bytes; an enum is its variant number followed by the variant's fields in the same way; a unit struct takes no bytes. The computed size equals the number of bytes written.",
 ["programs","inputs"],"every value of the corpus types, compared with an independent encoder written from the format description",
 "Snapshot tests pin the text of one schema each; bytes are never looked at.",
 G+[M+"buf/encode.rs",M+"buf/size.rs"],[("field and variant encoding",G[0]),("size generation",G[2])],["generated Encode/Size impls"])
p("G03","Readers and writers with different schema versions stay compatible",
 "Data written with a newer schema that adds fields decodes with the older schema to the shared fields, and data written with an older schema decodes with the newer one if the added fields are optional, which are then absent. Field order on the wire and unknown fields of every encodable kind never disturb the known fields.",
 ["programs","inputs","histories"],"every value of a corpus of schema version pairs, in both directions, with unknown fields of every field kind",
 "No test decodes with a different schema than the one that encoded.",
 G+[M+"buf/decode.rs"],[("unknown-field skipping loop",G[1])],["generated Decode impls"])
p("G04","Generated decoders enforce required fields and known variants",
 "Decoding fails with the missing-field error naming the absent required field (lowest declaration first) exactly when a required field is absent, and with the unknown-variant error carrying the number exactly when the variant number is not in the schema; a present optional field is never dropped.",
 ["programs","inputs"],"every subset of fields present and every 32-bit variant number for the corpus types",
 "No test decodes incomplete data.",
 [G[1]],[("per-field Option accumulators and missing-field errors",G[1])],["generated Decode impls"])
p("G05","Generated decoders are total on arbitrary bytes",
 "Decoding any byte string as any generated type terminates with a value or an error, without panic, hang, out-of-bounds read or memory use out of proportion to the input.",
 ["programs","inputs"],"every byte string up to the bound for the corpus types",
 "Generated code is never executed by the tests.",
 [G[1],M+"buf/decode.rs"],[("generated decode loop",G[1])],["generated Decode impls"])
p("G06","Generated code is produced for every accepted schema and carries its numbers",
 "Generating Rust or Go code for any schema that parses and validates succeeds without panicking, and the output names every field and variant with the number the schema assigns, consistently in the encoding, decoding and size code, and every constant with its value.",
 ["programs"],"schemas with symbolic type choices, identifiers, field and variant numbers within the bounds, for the Rust and the Go generator",
 "Snapshot tests cover a fixed list of schemas, each with small consecutive ids.",
 G+["crates/mabo-go/src/"+x for x in ("definition.rs","encode.rs","decode.rs","size.rs")],[("token generation per data type",G[3])],["mabo_build::compile_schema","mabo_go::render_schema"])
# ---- parser
S="crates/mabo-parser/src/"
p("S01","Parsing any text is total",
 "Parsing any UTF-8 text terminates with a schema or an error, without panicking and without running out of bounded memory, and accepted schemas can be printed and inspected without panicking.",
 ["inputs"],"every text of a few free characters on its own and in every kind of syntactic context (definitions, fields, types, ids, attributes, comments, literals, paths)",
 "Tests parse some dozen fixed files.",
 [S+"parser.rs",S+"parser/",S+"lib.rs"],[("winnow parsers",S+"parser/")],["Schema::parse"])
p("S02","Parse errors point into the source text",
 "Every location carried by a parse error lies within the source text, starts no later than it ends, does not split a character, and lies at or after the start of the construct that is being rejected; rendering the error never panics.",
 ["inputs"],"the same texts as for totality that are rejected, including multi-byte characters around the error",
 "Snapshot tests pin a few ASCII error cases.",
 [S+"error.rs",S+"parser.rs",S+"parser/"],[("location helpers",S+"parser.rs"),("at/offset fields",S+"error.rs")],["ParseSchemaError labels"])
p("S03","Source spans recorded in the syntax tree are exact",
 "In an accepted schema the recorded span of every name, keyword, number, type, comment line and punctuation mark lies inside the text and covers exactly that token (spans of whole fields and variants may include the white space around them), and spans of consecutive tokens never overlap.",
 ["inputs"],"every accepted text with free characters and free white space in the contexts explored",
 "No test looks at spans.",
 [S+"parser/",S+"token.rs",S+"lib.rs"],[("with_span",S+"parser/")],["Spanned::span"])
p("S04","Formatting a schema preserves it",
 "Printing a parsed schema gives text that parses again to a schema with the same definitions, names, types, numbers, literals, comments and attributes, and printing that one again gives the same text.",
 ["inputs","programs"],"every accepted text in the contexts explored, with free names, numbers, literal contents and type choices",
 "The formatter overwrites the user's file; the snapshot tests check fixed files, mostly already in canonical form, and never re-parse the output.",
 [S+"lib.rs",S+"punctuated.rs",S+"token.rs"],[("Display/Print impls",S+"lib.rs")],["Schema Display -> Schema::parse"])
p("S05","Numbers and literals in a schema mean what is written",
 "Field and variant numbers, array sizes and integer literals have the value of their decimal digits (with digit separators and sign where allowed), values out of range are rejected rather than wrapped, and booleans, strings and byte strings decode to exactly the characters, escapes and bytes written.",
 ["inputs"],"every digit string within the length bound (including around 2^32 and 2^127), and every string and byte literal of a few free characters",
 "Tests use small fixed literals.",
 [S+"parser/literals.rs",S+"parser/ids.rs",S+"parser/types.rs",S+"parser/consts.rs"],[("literal parsers",S+"parser/literals.rs")],["Literal, Id, Type::Array"])
p("S06","Names are accepted exactly when they follow the documented conventions",
 "A struct, enum, variant, alias or type-parameter name is accepted exactly when it is an upper-case ASCII letter followed by ASCII letters and digits; a module or field name exactly when it is a lower-case letter followed by lower-case letters, digits and underscores; a constant name exactly when it is an upper-case letter followed by upper-case letters, digits and underscores.",
 ["inputs"],"every name of a few free bytes at every naming position",
 "Tests include one bad name per position.",
 [S+"parser/structs.rs",S+"parser/enums.rs",S+"parser/fields.rs",S+"parser/consts.rs",S+"parser/modules.rs",S+"parser/aliases.rs",S+"parser/generics.rs"],[("parse_name functions",S+"parser/")],["Schema::parse accept/reject"])
# ---- compiler
C="crates/mabo-compiler/src/"
p("C01","Field and variant numbers are derived as documented and are unique",
 "Each omitted number is one more than the preceding one in declaration order (starting at 1), explicit numbers are kept, and a schema is accepted exactly when the resulting numbers are distinct within every struct, variant field list and enum; numbers the wire format cannot carry (fields: outside 1 to 2^29-1; variants: above 2^32-1) are not accepted. The error names the two definitions that collide.",
 ["inputs","programs"],"every combination of explicit and omitted numbers over a few fields and variants, numbers being arbitrary 32-bit values",
 "Tests cover one duplicate per kind; derived/explicit interplay and boundary values are open.",
 [C+"validate/ids.rs",C+"lib.rs",C+"simplify.rs"],[("IdGenerator and duplicate map",C+"validate/ids.rs")],["validate_schema","simplify_schema"])
p("C02","Duplicate names are rejected, distinct ones accepted",
 "A schema is rejected exactly when two fields of one struct or variant, two variants of one enum, or two definitions in the same module have the same name; equal names in different scopes are fine, and the error points at both definitions.",
 ["inputs","programs"],"every choice of (short) names over a few fields, variants and definitions in nested modules",
 "One example per kind is tested.",
 [C+"validate/names.rs"],[("name maps",C+"validate/names.rs")],["validate_schema"])
p("C03","Type parameters must be distinct and used",
 "A struct or enum is accepted exactly when its type parameters have distinct names and each occurs in the type of some field, at any depth of containers, tuples, arrays and generic arguments.",
 ["inputs","programs"],"every choice of parameter names and of the field type shape around the parameter",
 "Two fixed examples are tested.",
 [C+"validate/generics.rs"],[("type visitor",C+"validate/generics.rs")],["validate_schema"])
p("C04","Tuples have between 2 and 12 elements wherever they occur",
 "A schema is rejected exactly when it contains a tuple of fewer than 2 or more than 12 elements, wherever a type can be written, at any nesting depth.",
 ["programs"],"every tuple size up to 13 and every one-level wrapping, in struct fields, enum fields and aliases",
 "One example is tested.",
 [C+"validate/tuples.rs"],[("type visitor",C+"validate/tuples.rs")],["validate_schema"])
p("C05","References resolve exactly to the types that exist",
 "Resolution succeeds exactly when every non-builtin type reference names a type parameter in scope, or a struct or enum declared in the referenced module (or imported at the top of the schema), with the number of type arguments that type declares; aliases, constants and modules are not types. The error tells what is missing, and each location it carries shows the name it is about in the schema it is attached to.",
 ["inputs","programs"],"every choice of names, module paths and argument counts over a small module tree, including imports from a second schema",
 "Tests cover one case per error variant.",
 [C+"resolve/mod.rs"],[("module tree lookup",C+"resolve/mod.rs")],["resolve_schemas"])
p("C06","The simplified schema says the same as the source",
 "For every accepted schema the simplified form used by all back ends has the same definitions, names, comments, field and variant order, numbers and types as the source, with each type mapped to its documented meaning.",
 ["programs"],"every accepted schema in the contexts explored, with symbolic types, names and numbers",
 "Only seen indirectly through generator snapshots.",
 [C+"simplify.rs"],[("simplify_*",C+"simplify.rs")],["simplify_schema"])
p("C07","Checking, resolving and simplifying are total",
 "Validating, resolving and simplifying any parsed schema terminates with a result or an error and never panics, whatever numbers, names, nesting and references it contains; rendering the error does not panic either.",
 ["inputs","programs"],"the parsed schemas of all contexts explored, with arbitrary 32-bit numbers",
 "Tests feed a few fixed schemas.",
 [C+"validate/mod.rs",C+"resolve/mod.rs",C+"simplify.rs"],[("visitors",C+"validate/mod.rs")],["validate_schema","resolve_schemas","simplify_schema"])
p("C08","Types stand only where they have a meaning",
 "Validation accepts non_zero only around integers, strings, byte strings and collections (of anything), and constants only of the types that have literals (bool, integers, floats, string, bytes); with the other rules kept, every other combination of types is accepted. The error's location is the offending type.",
 ["inputs","programs"],"every type of up to three levels in every place a type can be written",
 "A fixed example or two per rule is tested.",
 [C+"validate/non_zero.rs",C+"validate/mod.rs"],[("type visitor",C+"validate/mod.rs")],["validate_schema"])
# ---- meta, lsp, docs
p("M01","Suggested next numbers are free",
 "The suggested next field or variant number is not used by any existing field or variant and is larger than all of them or, where the largest possible number is taken, the lowest free one; unit shapes have no next field number.",
 ["inputs"],"every combination of 32-bit numbers over a few fields and variants",
 "Untested.",
 ["crates/mabo-meta/src/lib.rs"],[("max + 1","crates/mabo-meta/src/lib.rs")],["next_variant_id","next_field_id"])
p("M02","Reported wire sizes bound the real encoding",
 "The reported minimum and maximum wire size of a type contain the encoded size of every value of that type, wherever a bound is reported.",
 ["inputs","programs"],"every value within the bounds of a list of types covering each type constructor, nested one level",
 "Untested.",
 ["crates/mabo-meta/src/lib.rs",M+"buf/encode.rs"],[("wire_size","crates/mabo-meta/src/lib.rs")],["WireSize printed bounds vs encoded length"])
L="crates/mabo-lsp/src/handlers/"
p("L01","Editor positions and byte offsets convert consistently",
 "For every document and negotiated encoding (UTF-8, UTF-16, UTF-32) converting a character-boundary byte offset to an editor position and back gives the same offset, the position counts exactly the code units before it on its line, a position in a line that does not exist yields an error and one behind the end of its line stands for the end of that line, as the protocol defines it, never a panic.",
 ["inputs","configurations"],"every document of a few free characters (including multi-byte ones and line breaks), every offset and position, all three encodings",
 "The language server has no tests.",
 [L+"index.rs"],[("line index and wide-encoding conversion",L+"index.rs")],["Index::get_range","Index::get_offset"])
p("L02","Incremental edits leave the server with the editor's text",
 "After any sequence of incremental changes in one or more notifications the server's copy of the document equals the text obtained by applying the changes one after the other, each relative to the result of the previous one; a change without range replaces the whole text, and invalid ranges (inverted, or in a line that does not exist) are ignored without panic.",
 ["inputs","histories"],"every document and every one- or two-step sequence of edits within the bounds",
 "The language server has no tests.",
 [L+"mod.rs"],[("did_change rope update",L+"mod.rs")],["document text after did_change"])
p("L03","Semantic tokens are ordered and decode to the tokens of the document",
 "For every valid document the delta-encoded token list decodes to increasing, non-overlapping ranges that each lie inside the document on one line and cover exactly a token of the source, with a kind and modifiers from the advertised legend; producing them never panics.",
 ["inputs","programs"],"every accepted document in the contexts explored, all three encodings",
 "The language server has no tests.",
 [L+"semantic_tokens.rs"],[("delta encoding",L+"semantic_tokens.rs")],["semantic tokens response"])
p("L04","Diagnostics, symbols and hover are total and in range",
 "For every document text opening it yields either a diagnostic whose range lies inside the document or none if the document is valid, and document symbols and hover requests on valid documents answer without panicking, with symbol selection ranges contained in the symbol ranges and hover text for the item under the cursor.",
 ["inputs"],"every document in the contexts explored, accepted or rejected, every cursor position",
 "The language server has no tests.",
 [L+"compile.rs",L+"document_symbols.rs",L+"hover.rs"],[("get_range",L+"compile.rs")],["diagnostics, documentSymbol and hover responses"])
p("D01","Documentation is rendered for every accepted schema",
 "Rendering documentation for any accepted schema succeeds without panicking and gives one page per definition, with distinct file names inside each module. Overviews link to the page of each definition and every page to its parents. Each page shows the definition so that it can be parsed back to the same names, types, numbers and values, and lists the fields and variants with them.",
 ["programs"],"every accepted schema in the contexts explored, with symbolic type choices, names and numbers",
 "Snapshot tests cover fixed schemas.",
 ["crates/mabo-doc/src/lib.rs","crates/mabo-doc/src/templates.rs"],[("askama templates","crates/mabo-doc/src/templates.rs")],["render_schema"])
p("P01","Project loading finds exactly the schema files the patterns select",
 "Loading a project returns exactly the files with the schema extension below the project directory that match one of its glob patterns, and reports unreadable or invalid project files as errors.",
 ["configurations"],"every directory tree and pattern list",
 "No tests; the outcome depends on the file system.",
 ["crates/mabo-project/src/lib.rs"],[("glob set over a directory walk","crates/mabo-project/src/lib.rs")],["load","discover"])
p("P02","Command-line formatting and checking leave files safe",
 "Formatting rewrites a file only with the printed form of the schema parsed from it and leaves files that do not parse untouched; checking never writes.",
 ["inputs","configurations"],"every set of files",
 "Only the argument definition is tested.",
 ["crates/mabo-cli/src/main.rs"],[("format","crates/mabo-cli/src/main.rs")],["files after mabo fmt / check"])
p("P03","Generated Go code interoperates with generated Rust code",
 "Values encoded by generated Go code decode in generated Rust code to the same values, and the other way round.",
 ["programs","inputs"],"every value of every schema",
 "Go output is only compared with snapshots.",
 ["crates/mabo-go/src/encode.rs","crates/mabo-go/src/decode.rs"],[("Go code generation","crates/mabo-go/src/")],["generated Go Encode/Decode"])
p("B01","The reference varint codecs used for comparison are correct",
 "The alternative variable-integer codecs kept for benchmarking (postcard, bincode and vu128) return, for every value of every width, what was encoded, whatever the buffer held before and whatever follows the encoded bytes.",
 ["inputs"],"every value of each width each codec supports",
 "Boundary values only.",
 ["crates/mabo-benches/src/varint.rs"],[("codec modules","crates/mabo-benches/src/varint.rs")],["encode/decode pairs"])
with open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
for d in P:
    assert len(d["title"])<=80,(d["id"],len(d["title"]))
