#!/usr/bin/env python3
# Source of /verif/properties.jsonl (one place to edit; the jsonl is what counts).
import json, os
Z='crates/zserio/src/'; T=Z+'ztype/'; G='crates/zserio-rs-build/src/internal/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Variable-length integers use exactly the zserio format and round-trip",
 "For every value in the range of varint16/32/64/varint, varuint16/32/64/varuint and varsize, and at every bit position of the stream, writing emits exactly the byte sequence the zserio format prescribes (sign bit, has-next flags, payload groups, shortest form; the minimum varint is the single byte 0x80). Reading those bits back returns the same value and consumes exactly the bits that were written.",
 ["inputs"],"all values of all nine variable-length types, all starting bit positions, all following data",
 "The unit tests decode a handful of varint32/varuint32 byte strings; the encoders, the other seven types, unaligned positions and the extreme values are never tried, and the domain is 2^64 values per type.",
 [T+"varint_encode.rs",T+"varint_decode.rs",T+"varuint_encode.rs",T+"varuint_decode.rs",T+"varint_bitsize.rs",T+"varuint_bitsize.rs"],
 [("write_varint_type / write_varuint_type byte loops",T+"varint_encode.rs, varuint_encode.rs"),("read_sized_int / read_sized_uint",T+"varint_decode.rs, varuint_decode.rs")],
 ["bits appended to the writer","value returned and reader position after the read"])
p("C02","Out-of-range variable-length values are refused with an error",
 "Writing a value that a variable-length integer type cannot represent, or asking for its encoded size, returns an error instead of panicking, and appends nothing to the stream; this includes array, string and byte lengths above the varsize maximum of 2^31-1. Reading a varsize whose encoding denotes more than 2^31-1 returns an error and never a truncated length, and the published minimum/maximum constants are exactly the first values accepted.",
 ["inputs"],"all 2^16..2^64 argument values of every writer and size function; all 5-byte varsize encodings",
 "No test passes an out-of-range value to any writer, and the boundary between accepted and refused values can only be pinned down by covering the whole domain.",
 [T+"varint_encode.rs",T+"varuint_encode.rs",T+"varint_bitsize.rs",T+"varuint_bitsize.rs",T+"varuint_decode.rs",T+"limits.rs"],
 [("range check in signed_bitsize / unsigned_bitsize",T+"varint_bitsize.rs, varuint_bitsize.rs"),("varsize limit",T+"varuint_encode.rs")],
 ["Result of the write/size/read call","writer bit count after a refused write","MIN_*/MAX_* constants"])
p("C03","Fixed-width integers and bit fields round-trip at any bit position",
 "Writing a value that fits into an n-bit field (unsigned, or two's complement signed; n from 1 to 64, and the intN/uintN/bool types) appends exactly n bits, most significant bit first, without disturbing the bits before it. Reading n bits at that position returns the value unchanged, with sign extension for signed fields, and advances by exactly n bits.",
 ["inputs"],"all widths 1..64, all values of the width, all bit positions, all neighbouring data",
 "Tests use byte-multiple widths at mostly aligned positions; width x offset x value is beyond enumeration.",
 [T+"bits_encode.rs",T+"bits_decode.rs"],
 [("width-dispatching read/write of signed and unsigned fields",T+"bits_encode.rs, bits_decode.rs")],
 ["bits appended to the writer","value returned and reader position"])
p("C04","Floating point values are stored as big-endian IEEE 754 and round-trip",
 "For every 64- and 32-bit pattern the writer emits the IEEE 754 bytes in big-endian order at any bit position and the reader returns the same bit pattern. float16 fields store the half-precision value nearest to the given value, and every half-precision value read and written again keeps its bits.",
 ["inputs"],"all bit patterns including NaN payloads, infinities, signed zeros and subnormals; all bit positions",
 "Reference tests write two or three ordinary numbers.",
 [T+"float_encode.rs",T+"float_decode.rs",T+"writer.rs",T+"reader.rs"],
 [("to_be_bytes/from_be_bytes with the byte writer/reader",T+"float_encode.rs, float_decode.rs")],
 ["bits appended to the writer","bit pattern of the value returned"])
p("C05","Strings, byte buffers and extern bit buffers round-trip",
 "A string is written as the varsize count of its UTF-8 bytes followed by the bytes, a bytes field as a varsize byte count followed by the bytes, and an extern field as a varsize bit count followed by exactly that many bits, at any bit position. Reading returns an equal value and consumes exactly what was written; text that is not UTF-8 is refused with an error.",
 ["inputs"],"all contents and lengths (including empty, multi-byte length prefixes and bit counts not divisible by 8) at all bit positions",
 "A few ASCII/emoji strings are decoded at position 0; encoders, unaligned positions and non-byte extern sizes are covered by one sample each at most.",
 [T+"string_encode.rs",T+"string_decode.rs",T+"bytes_type.rs",T+"extern_type.rs",T+"reader.rs",T+"writer.rs"],
 [("length prefix plus byte loop",T+"string_encode.rs, bytes_type.rs, extern_type.rs")],
 ["bits appended to the writer","value returned and reader position"])
p("C06","Predicted bit size equals the number of bits written (runtime types)",
 "For every primitive type, every kind of array element and every array (packed or not, fixed or auto length, with or without element alignment), the size reported for a value starting at a given bit position equals the number of bits that writing it at that position appends.",
 ["inputs"],"all values, element kinds, array lengths, packing modes and start positions",
 "No runtime test compares a predicted size to a written size; generated code uses the prediction to fill offset fields, so an error silently corrupts data.",
 [T+"varint_bitsize.rs",T+"varuint_bitsize.rs",T+"string_encode.rs",T+"bytes_type.rs",T+"extern_type.rs",T+"array.rs",T+"array_traits/"],
 [("*_bitsize functions and ArrayTrait::bitsize_of",T),("Array::zserio_bitsize",T+"array.rs"),("DeltaContext::bitsize_of",T+"array_traits/delta_context.rs")],
 ["size returned versus writer bit count difference"])
p("C07","Runtime decoders survive arbitrary input",
 "For every byte string and every reader position, each runtime decoder (all integer kinds, floats, strings, bytes, externs, packed and unpacked arrays of every element kind) terminates with a value or an error: it never panics, never reads past the end of the input, and reports truncated input as an error.",
 ["inputs"],"all byte strings of any length, including truncated and maliciously crafted ones",
 "Only oversize string and array lengths are tested; the space of malformed inputs cannot be sampled meaningfully.",
 [T+"string_decode.rs",T+"extern_type.rs",T+"bytes_type.rs",T+"array.rs",T+"array_traits/delta_context.rs",T+"varuint_decode.rs",T+"varint_decode.rs"],
 [("remaining-data checks and error propagation",T+"reader.rs, string_decode.rs"),("delta descriptor and delta reads",T+"array_traits/delta_context.rs")],
 ["panic or Result of each decoder","reader position not beyond the input"])
p("C08","Packed arrays of primitive values round-trip",
 "For every packable element type and every sequence of element values, writing the array packed and reading it back returns exactly the same sequence and consumes exactly the bits written, whether or not delta packing was chosen, and without arithmetic overflow.",
 ["inputs"],"all sequences of any length over the full value range of every element type, including sequences whose differences overflow 64-bit arithmetic",
 "Round-trip tests use short ascending uint32 sequences.",
 [T+"array.rs",T+"array_traits/delta_context.rs",T+"array_traits/"],
 [("DeltaContext init/write/read state machine",T+"array_traits/delta_context.rs")],
 ["decoded sequence","reader position","panics"],
 [("DeltaContext","previous element, delta width and packing flag that encoder and decoder must keep in step",T+"array_traits/delta_context.rs")])
p("C09","Packing decision and packed layout follow the zserio delta algorithm",
 "A packed array starts with the packing flag; when it is set a 6-bit delta width and the first element follow, and every later element is stored as the signed difference in width+1 bits (nothing when all elements are equal), otherwise all elements are stored plainly. Delta packing is chosen only if the deltas fit the 62-bit limit and it is strictly smaller, and the delta width is the minimal one for the sequence.",
 ["inputs"],"all sequences of any length of every packable element type",
 "Reference-data tests compare one packed array.",
 [T+"array_traits/delta_context.rs"],
 [("DeltaContext::init / finish_init / write",T+"array_traits/delta_context.rs")],
 ["bits appended by writing a packed array"],
 [("DeltaContext","maximum delta width and accumulated sizes",T+"array_traits/delta_context.rs")])
p("C10","Alignment reaches exactly the next boundary",
 "For every alignment a of at least 1 bit and every position p, aligning a writer or reader moves it to the smallest multiple of a that is not below p, writing only zero bits, and the reported padding is exactly that distance; rounding helpers return the smallest multiple not below their argument. Aligning a reader past the end of the input is an error.",
 ["inputs"],"all positions and alignments (powers of two or not)",
 "Tests use three positions with 8- or 32-bit alignment.",
 [T+"alignment.rs",T+"bit_alignment.rs"],
 [("align_writer / align_reader / align_bitsize / align_to",T+"alignment.rs, bit_alignment.rs")],
 ["positions after alignment","bits written","returned distance"])
p("C11","Declared lengths in the input never cause unbounded allocation",
 "When a decoder meets a length prefix in the input, the memory it reserves before having read the elements is bounded by the configured array pre-allocation limit for arrays and by the remaining input size for strings and byte buffers, whatever length the input claims; a claimed length that exceeds the input ends in an error (for arrays: when the elements occupy at least one bit each).",
 ["inputs","configurations"],"all claimed lengths up to the maximum, all input sizes, all configured limits",
 "Two oversized lengths are tested for arrays and one for strings.",
 [T+"array.rs",T+"reader.rs",T+"string_decode.rs",T+"bytes_type.rs",T+"extern_type.rs"],
 [("reserve(min(length, chunk))",T+"array.rs"),("remaining() check before allocation",T+"reader.rs, string_decode.rs")],
 ["capacity of the vector after a failed read","Result of the read"])
p("C12","numbits and bit length are exact for all integers",
 "For every non-negative integer of every width, the bit length is the smallest n with value < 2^n (0 for 0), and numbits(k) is the number of bits needed to tell k different values apart (numbits(0)=0, numbits(1)=1, otherwise the bit length of k-1).",
 ["inputs"],"all non-negative values of all integer types",
 "About fifteen sample values are tested.",
 [Z+"numbits.rs"],[("table driven bit length",Z+"numbits.rs")],["returned value"])
p("C13","Unpacked arrays keep length, order and element alignment",
 "An auto-length array is written as its varsize element count followed by the elements in order, a fixed-size array as the elements only, and when index offsets are used every element starts on a byte boundary. Reading returns the same sequence for every element kind and replaces any previous content of the destination.",
 ["inputs"],"all sequences, element kinds, fixed/auto length, start positions, with and without element alignment",
 "A single auto-length uint8 array is round-tripped.",
 [T+"array.rs",T+"array_traits/"],
 [("Array::zserio_write / zserio_read / read_one_element",T+"array.rs"),("per-kind ArrayTrait read/write",T+"array_traits/")],
 ["bits appended","decoded sequence and reader position"])
p("C14","Byte-level API is consistent with the bit stream",
 "Serializing an object to bytes yields exactly the bits the object writes, padded with zero bits to the next byte, and serializing to an output stream writes the same bytes or returns the object's or the stream's error. Deserializing from bytes, a stream or a file returns the same object for the same bytes, ignores trailing bytes, and passes on read errors and decoding errors.",
 ["inputs","fault_sequences"],"all objects and bit lengths, all byte strings, all I/O error positions",
 "Doc tests only check that a call succeeds for one object.",
 [Z+"lib.rs",Z+"error.rs"],[("to_bytes/to_writer/from_bytes/from_reader/from_file",Z+"lib.rs")],["returned bytes, objects and errors"])
GEN=[G+"generator/encode.rs",G+"generator/decode.rs",G+"generator/bitsize.rs",G+"generator/zstruct.rs",G+"generator/zchoice.rs",G+"generator/zunion.rs",G+"generator/zenum.rs",G+"generator/zbitmask.rs",G+"generator/array.rs",G+"generator/packed_contexts.rs"]
p("C20","Code generated from a schema round-trips every valid object",
 "For a schema using structs, choices, unions, enums, bitmasks, optional and conditional fields, arrays, parameterized and template types, every object that satisfies the schema (fields that are absent under their condition hold their default) is written without error by the generated code, and reading the result with the same parameters gives an equal object and consumes exactly the bits written.",
 ["inputs","programs"],"all valid objects of the generated types; all schemas built from the supported constructs",
 "The round-trip programs write one hand-made object per reference schema.",
 GEN,[("generated zserio_write / zserio_read",G+"generator/encode.rs, decode.rs")],["decoded object equals the written one","reader position"])
p("C21","Generated size prediction equals the bits generated code writes",
 "For every valid object of a generated type and every start position, the predicted bit size equals the number of bits written there, including alignment padding, length prefixes, optional flags, dynamic-width bit fields and nested and packed arrays with their delta widths.",
 ["inputs","programs"],"all valid objects and start positions; all schemas built from the supported constructs",
 "The size functions of generated code are not called by most tests.",
 GEN,[("generated zserio_bitsize / zserio_bitsize_packed",G+"generator/bitsize.rs")],["predicted size versus writer position"])
p("C22","Generated decoders survive arbitrary input",
 "For every byte string, reading a generated type ends with an object or an error and never panics (two exceptions are recorded as known findings: arithmetic in a schema expression that overflows or divides by zero, and unlimited nesting of recursive types); enum values, union tags and other discriminators that the schema does not define are reported as errors.",
 ["inputs","programs"],"all byte strings; all schemas built from the supported constructs",
 "No test feeds malformed data to generated code other than oversized array lengths.",
 GEN,[("generated zserio_read and try_from",G+"generator/decode.rs, zenum.rs, zunion.rs")],["panic or Result of reading"])
p("C23","Generated code lays out data as the zserio format prescribes",
 "For every valid object the generated writer emits the fields in schema order with the schema's types and widths: a presence bit before optional fields, nothing for conditional fields whose condition is false, varsize length prefixes for auto arrays, the tag before a union value, the selected case only for choices, the underlying integer for enums and bitmasks, and zero padding for alignments (of an optional field: before its presence bit).",
 ["inputs","programs"],"all valid objects; all schemas built from the supported constructs",
 "Reader and writer are generated from the same templates, so a symmetric layout error passes every round-trip test; the reference comparison covers two objects.",
 GEN,[("generated zserio_write",G+"generator/encode.rs")],["bits appended by the generated writer"])
p("C24","Packed arrays of compound types round-trip",
 "For every sequence of structs, choices, unions, enums and bitmasks stored in a packed array, the generated code writes it without error and reads back an equal sequence, and the predicted size equals the bits written, whatever cases, optional fields and nested values the elements contain.",
 ["inputs","programs"],"all sequences of valid elements, all combinations of selected cases and present fields",
 "One packed array of identical-shape structs is tested.",
 [G+"generator/packed_contexts.rs",G+"generator/encode.rs",G+"generator/decode.rs",T+"array_traits/object_array_trait.rs",T+"array_traits/delta_context.rs"],
 [("generated packing context creation, initialisation and use",G+"generator/packed_contexts.rs")],["decoded sequence","bits written versus predicted"],
 [("packing context tree","per-field delta contexts shared by all elements","crates/zserio/src/ztype/array_traits/packing_context_node.rs")])
p("C25","Schema expressions keep their meaning in generated code",
 "Functions, conditions, array lengths, bit widths and type parameters written in a schema evaluate in the generated code to the value the zserio expression semantics give: operator precedence and associativity, arithmetic, comparison, logical, bitwise and shift operators, the ternary operator, numbits, length-of, value-of, is-set (of a single-bit value), field and constant references. This covers expressions whose intermediate values stay within the promoted integer type and that do not divide by zero.",
 ["inputs","programs"],"all field values in range; all expressions up to the depth and operators enumerated in the corpus",
 "Only a few fixed expressions with one input each are executed by tests.",
 [G+"generator/expression.rs",G+"ast/expression.rs"],[("expression to Rust translation",G+"generator/expression.rs")],["return values of generated functions","presence of conditional fields"])
p("C26","Constants, enum values and bitmask values are computed as the schema says",
 "Every constant expression in a schema yields in the generated code the mathematical value of the expression in the declared type; enum items without a value get their predecessor's value plus one (0 at the start) and bitmask items without a value get the next unused bit, all distinct and representable in the underlying type.",
 ["programs","inputs"],"all constant expressions, enum and bitmask declarations",
 "Tests check a few declared values.",
 [G+"ast/expression.rs",G+"ast/zenum.rs",G+"ast/zbitmask.rs",G+"ast/evaluate_mixing_native_types.rs",G+"generator/zconst.rs",G+"generator/zenum.rs",G+"generator/zbitmask.rs"],
 [("compile-time expression evaluation",G+"ast/expression.rs"),("automatic enum/bitmask values",G+"ast/zenum.rs, zbitmask.rs")],["values of generated constants and items"])
p("C27","Identifiers keep their identity in generated code",
 "Two different schema names of the same kind in the same scope never end up as the same Rust identifier or as a Rust keyword, and the same schema name is always translated to the same identifier.",
 ["programs"],"all pairs of schema identifiers","Unit tests convert a few names each.",
 [G+"generator/types.rs"],[("name conversion functions",G+"generator/types.rs")],["generated identifiers"])
p("C28","Code generation is a function of the schema alone",
 "Generating code twice from the same schema files gives byte-identical output, independent of hash seeds, file enumeration order and previous output.",
 ["configurations","histories"],"all hash seeds, directory orders and output-directory states","Each test run generates the code once.",
 [G+"generator/",G+"compiler/"],[("iteration order over symbol tables",G+"compiler/symbol_scope.rs")],["generated files"])
p("C29","Every valid schema is accepted and yields code that compiles",
 "For every schema that is valid zserio, parsing, resolution and generation succeed and the generated crate compiles.",
 ["programs"],"all valid schemas","Only the reference schemas are compiled.",
 ["crates/zserio-rs-build/src/"],[("parser, resolver and generator","crates/zserio-rs-build/src/")],["generator exit status and rustc result"])
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
