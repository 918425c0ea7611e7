#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the long lines stay editable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=list(state), mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=hook)))

p("C01", "Derived structs have std140 layout",
  "For every struct of named fields whose field types have a std140 form, the derived std140 form places each field, in declaration order, at the smallest offset at or after the end of the previous field that is a multiple of that field's std140 alignment. The form's alignment is the largest of 16 and its fields' alignments, and its size is the end of the last field rounded up to that alignment, so nested structs and whatever follows them land where GLSL puts them.",
  ["programs"], "all structs of named fields: any number, order and nesting of field types with a std140 form",
  "The tests fix about a dozen structs with at most four fields; the rule must hold for every field sequence, including long ones, mixed alignments above 16 and nesting.",
  ["crevice-derive/src/layout.rs", "crevice-derive/src/lib.rs", "src/internal.rs"],
  [("generated padding functions", "crevice-derive/src/layout.rs emit(): offset_after_field, pad_fn_impls"),
   ("struct alignment", "crevice-derive/src/layout.rs emit(): struct_alignment, min_struct_alignment from crevice-derive/src/lib.rs"),
   ("align_offset, max_arr", "src/internal.rs")],
  observe=["size_of / offset_of / Std140::ALIGNMENT of <T as AsStd140>::Output", "as_bytes()"])

p("C02", "Derived structs have std430 layout",
  "For every struct of named fields whose field types have a std430 form, the derived std430 form places each field, in declaration order, at the smallest offset at or after the end of the previous field that is a multiple of that field's std430 alignment. The form's alignment is the largest of its fields' alignments, with no rounding up to 16, and is always a power of two; its size is the end of the last field rounded up to that alignment.",
  ["programs"], "all structs of named fields: any number, order and nesting of field types with a std430 form",
  "Only three structs have their std430 layout asserted by the tests; the rule must hold for every field sequence.",
  ["crevice-derive/src/layout.rs", "crevice-derive/src/lib.rs", "src/internal.rs"],
  [("generated padding functions", "crevice-derive/src/layout.rs emit(): offset_after_field, pad_fn_impls"),
   ("struct alignment", "crevice-derive/src/layout.rs emit(): struct_alignment, min_struct_alignment from crevice-derive/src/lib.rs"),
   ("align_offset, max_arr", "src/internal.rs")],
  observe=["size_of / offset_of / Std430::ALIGNMENT of <T as AsStd430>::Output", "as_bytes()"])

p("C03", "Built-in scalar, vector and matrix forms match the GLSL layout rules",
  "In both std140 and std430, every built-in form (float, double, int, uint, bool, their 2-, 3- and 4-component vectors, and the square float and double matrices) has exactly the size, the alignment and the component or column offsets that the GLSL layout rules give that type. A matrix is laid out as an array of column vectors, with the column stride rounded up to 16 in std140 only.",
  ["inputs", "configurations"], "every built-in form times both layouts, and every component and column of each",
  "The tests look at three bare matrices and no bare vector or scalar, and at most types in only one of the two layouts; integer, bool and double vectors and double matrices are hardly covered.",
  ["src/std140/primitives.rs", "src/std430/primitives.rs", "src/bool.rs"],
  [("vectors! / matrices! tables", "src/std140/primitives.rs, src/std430/primitives.rs")],
  observe=["size_of, ALIGNMENT and field offsets of the types exported by crevice::std140 and crevice::std430"])

p("C04", "Encoded bytes are complete, initialised and zero-padded",
  "For every value of every supported type, the byte view of its encoded form has exactly the form's size and every byte of it is initialised. Every byte that does not belong to a component of the value (padding inside matrices, between struct fields and at the end of structs) is zero, so that values with equal components always give equal bytes and no stale memory leaks into the buffer.",
  ["inputs", "programs"], "all values of all supported types and derived structs, both layouts",
  "Tests compare layouts and decoded values, never the padding bytes; a leak shows only for particular types and memory contents.",
  ["crevice-derive/src/layout.rs", "src/std140/traits.rs", "src/std430/traits.rs", "src/std140/primitives.rs", "src/std430/primitives.rs", "src/util.rs"],
  [("explicit padding fields initialised from Zeroable::zeroed()", "crevice-derive/src/layout.rs, src/util.rs easy_impl!"),
   ("as_bytes", "src/std140/traits.rs, src/std430/traits.rs, and the inherent method emitted by crevice-derive/src/layout.rs")],
  observe=["as_bytes() of <T as AsStd140>::Output / <T as AsStd430>::Output"])

p("C05", "Encoding then decoding returns the original value bit for bit",
  "For every value of every supported type (scalars, bool, the vector, point and matrix types of mint, cgmath, glam and nalgebra, and derived structs, nested ones included), converting it to its std140 or std430 form and back gives a value whose components all have the same bits as the original. This includes NaN payloads, infinities, subnormals and signed zeros.",
  ["inputs", "programs"], "all bit patterns of all components of all supported types, both layouts",
  "One test round-trips one struct with small integers in std140; the std430 direction, the other math libraries and special float values are never decoded.",
  ["src/util.rs", "src/imp/imp_mint.rs", "src/imp/imp_cgmath.rs", "src/imp/imp_glam.rs", "src/imp/imp_nalgebra.rs", "src/bool.rs", "crevice-derive/src/layout.rs"],
  [("easy_impl!, minty_impl!", "src/util.rs"), ("as_/from_ methods of derived structs", "crevice-derive/src/layout.rs")],
  observe=["AsStd140::{as_std140, from_std140}, AsStd430::{as_std430, from_std430}"])

p("C06", "Components are encoded at their GLSL position, the same for every math library",
  "For every value of every supported vector, point or matrix type, component i of a vector and row r of column c of a matrix appear, in native byte order, at exactly the byte offset where GLSL reads that component of the corresponding type in that layout. Hence the same mathematical value gives identical bytes whether it comes from mint, cgmath, glam or nalgebra, alone or as a struct field.",
  ["inputs", "configurations"], "all component values of every vector, point and matrix type of the four math libraries, both layouts",
  "No test ever encodes a value of cgmath, glam or nalgebra; the GPU round trip covers a few mint types with small values, and would not see a transposition that is undone on the way back.",
  ["src/util.rs", "src/imp/imp_mint.rs", "src/imp/imp_cgmath.rs", "src/imp/imp_glam.rs", "src/imp/imp_nalgebra.rs", "src/std140/primitives.rs", "src/std430/primitives.rs"],
  [("easy_impl!, minty_impl!", "src/util.rs"), ("type tables", "src/imp/*.rs")],
  observe=["as_bytes() of the encoded form"])

p("C07", "Booleans are 32-bit GLSL booleans",
  "A bool, alone or in a bool vector or struct, is encoded as a 4-byte word that is 1 for true and 0 for false in both layouts. Decoding a 4-byte word gives false exactly when the word is 0 and true for every other bit pattern, because a buffer written by a shader may hold any nonzero word for true.",
  ["inputs"], "both booleans, and all 2^32 words read back from a buffer",
  "The tests check only the offsets of bool fields, and no test decodes a word other than 0 or 1.",
  ["src/bool.rs", "src/std140/primitives.rs", "src/std430/primitives.rs"],
  [("From<bool> for Bool, From<Bool> for bool", "src/bool.rs"), ("AsStd140/AsStd430 for bool", "src/std140/primitives.rs, src/std430/primitives.rs")],
  observe=["as_bytes() of the encoded form, from_std140 / from_std430 of a form cast from bytes"])

p("C08", "A writer puts each value at the next aligned offset and accounts for every byte",
  "After any history of successful writes, writing one value (std140 or std430) sends to the sink exactly the zero bytes needed to reach the next multiple of the value's alignment, followed by the value's bytes, and nothing else. The call returns the offset at which the value's bytes start, and the reported length always equals the number of bytes the sink has received, even when the sink accepts only part of a buffer at a time.",
  ["histories", "inputs"], "all histories of writes of values of any size and alignment, to any sink",
  "The doc examples and one test write two or three values to a growable vector and check a length; offsets, padding contents, large alignments and partial writes are not observed.",
  ["src/std140/writer.rs", "src/std430/writer.rs", "src/std140/traits.rs", "src/std430/traits.rs", "src/internal.rs"],
  [("Writer::write, Writer::write_std140 / write_std430", "src/std140/writer.rs, src/std430/writer.rs"), ("align_offset", "src/internal.rs")],
  state=[dict(name="offset", meaning="bytes written so far", where="Writer")],
  observe=["bytes received by the sink", "returned offset", "Writer::len()"])

p("C09", "Slices and iterators are written as their elements, once each and in order",
  "Writing a slice or an iterator of values to a writer has the same effect on the sink and on the length as writing each element individually, every element exactly once and in order. The call returns the offset at which the first element starts; for an empty sequence it writes nothing and returns the current length.",
  ["histories", "inputs"], "all element types, lengths (including zero and one) and starting offsets, both layouts",
  "The doc examples write one two-element vector; an earlier release wrote the first element twice in one layout (CHANGELOG 0.10.0) without any test noticing.",
  ["src/std140/traits.rs", "src/std430/traits.rs", "src/std140/writer.rs", "src/std430/writer.rs"],
  [("impl WriteStd140 / WriteStd430 for [T]", "src/std140/traits.rs, src/std430/traits.rs"), ("Writer::write_iter, Writer::write_slice", "src/std140/writer.rs, src/std430/writer.rs")],
  observe=["bytes received by the sink", "returned offset", "Writer::len()"])

p("C10", "Predicted sizes and offsets agree with what a writer produces",
  "For every sequence of types, a sizer returns for each of them the offset at which a writer of the same layout would put a value of that type after the same sequence, and reports the same total length. The size that a type reports statically, and the size that a value or slice reports, equal the number of bytes a fresh writer sends for it.",
  ["histories", "inputs"], "all sequences of types added to a sizer, and all values and slices",
  "One doc example sizes two types; no test compares a sizer or a size query with a writer.",
  ["src/std140/sizer.rs", "src/std430/sizer.rs", "src/std140/traits.rs", "src/std430/traits.rs", "src/internal.rs"],
  [("Sizer::add, Sizer::len", "src/std140/sizer.rs, src/std430/sizer.rs"), ("std140_size_static, std140_size, std430_size_static, std430_size", "src/std140/traits.rs, src/std430/traits.rs")],
  state=[dict(name="offset", meaning="bytes needed so far", where="Sizer")],
  observe=["Sizer::add, Sizer::len", "std140_size_static, std140_size, std430_size_static, std430_size"])

p("C11", "A failing sink is reported and never over-counted",
  "When the sink fails at any point of a write, during padding, a value or any element of a sequence, the write returns that error and never success or a panic. Until then the sink has received only a prefix of the bytes the successful write would have sent, and the writer's reported length never exceeds the number of bytes the sink has received.",
  ["fault_sequences", "histories"], "all points at which a sink can start failing, all sinks that accept buffers piecewise",
  "No test uses a sink that fails or accepts only part of a buffer.",
  ["src/std140/writer.rs", "src/std430/writer.rs", "src/std140/traits.rs", "src/std430/traits.rs"],
  [("error propagation in Writer::write_std140 / write_std430 / write_iter", "src/std140/writer.rs, src/std430/writer.rs"), ("error propagation in the slice implementations", "src/std140/traits.rs, src/std430/traits.rs")],
  observe=["io::Result returned by the write", "bytes received by the sink", "Writer::len()"])

p("C12", "Dynamic uniform wrapping changes only the alignment",
  "Wrapping a value in the dynamic-uniform wrapper gives a std140 form with the same size and the same bytes as the inner value, that decodes to the inner value, and whose alignment is the larger of 256 and the inner alignment. Hence every wrapped value written by a writer starts at a multiple of 256.",
  ["inputs", "histories"], "all inner types and values, including inner alignments above 256, and all writer histories",
  "The two tests wrap one f32 and check a size and a length.",
  ["src/std140/dynamic_uniform.rs", "src/internal.rs"],
  [("DynamicUniformStd140::ALIGNMENT", "src/std140/dynamic_uniform.rs"), ("max", "src/internal.rs")],
  observe=["size_of, ALIGNMENT, as_bytes() of DynamicUniformStd140", "offsets returned by Writer::write and Sizer::add"])

p("C13", "Generated GLSL names every field and type as the encoded form expects",
  "For every struct deriving the GLSL trait, the generated definition is 'struct NAME {', one line 'TYPE FIELD;' per field in declaration order, and '};', where NAME and FIELD are the plain identifiers and TYPE is the GLSL type of the field. Every supported Rust type reports the name of exactly the GLSL type whose layout its encoded form has.",
  ["programs"], "all structs with GLSL-typed fields, nested structs and raw identifiers included; every type with a GLSL name",
  "One snapshot test covers one struct with two fields; most type names and the names of all cgmath, glam and nalgebra types are never looked at.",
  ["src/glsl.rs", "crevice-derive/src/glsl.rs", "src/std140/primitives.rs", "src/std430/primitives.rs", "src/util.rs", "src/imp/imp_mint.rs"],
  [("GlslStruct::glsl_definition", "src/glsl.rs"), ("derive(GlslStruct)", "crevice-derive/src/glsl.rs"), ("Glsl::NAME", "src/glsl.rs, src/std140/primitives.rs, src/std430/primitives.rs, src/util.rs")],
  observe=["GlslStruct::glsl_definition()", "GlslStruct::FIELDS", "Glsl::NAME"])

p("C14", "Elements of a written slice have the GLSL array stride",
  "Consecutive elements of a slice written with a std140 or std430 writer are exactly one GLSL array stride apart: the element's size rounded up to its alignment and, in std140, to a multiple of 16. A shader that declares the data as an array of the corresponding type therefore reads every element where it was written.",
  ["inputs"], "all built-in element types and derived structs, all slice lengths, both layouts",
  "The doc examples use one struct element type; no test writes a slice of a scalar or vector type.",
  ["src/std140/traits.rs", "src/std430/traits.rs", "src/std140/writer.rs", "src/std430/writer.rs", "src/std140/primitives.rs", "src/std430/primitives.rs"],
  [("impl WriteStd140 / WriteStd430 for [T]", "src/std140/traits.rs, src/std430/traits.rs"), ("element alignment", "src/std140/primitives.rs, src/std430/primitives.rs, crevice-derive/src/layout.rs")],
  observe=["position of each element's bytes in the sink"])

p("C15", "The derives refuse what they cannot lay out",
  "Deriving a layout or GLSL trait for a tuple struct, a unit struct, an enum or a union, or for a struct with a field type that has no form in that layout, is rejected at compile time. No such program compiles into a form with a silently wrong layout.",
  ["programs"], "all type definitions outside the supported shape",
  "No compile-fail test exists.",
  ["crevice-derive/src/layout.rs", "crevice-derive/src/glsl.rs"],
  [("shape checks at the start of emit()", "crevice-derive/src/layout.rs, crevice-derive/src/glsl.rs")],
  observe=["outcome of compiling the program"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
