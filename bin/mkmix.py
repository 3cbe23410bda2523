#!/usr/bin/env python3
"""Writes corpus/zv/mixing.zs: expressions over every pair of integer types, and every alignment."""
import os
T = [("uint8", "u8", 0), ("uint16", "u16", 0), ("uint32", "u32", 0), ("uint64", "u64", 0), ("int8", "s8", 1), ("int16", "s16", 1), ("int32", "s32", 1), ("int64", "s64", 1),
     ("varint16", "v16", 1), ("varint32", "v32", 1), ("varint64", "v64", 1), ("varint", "vi", 1), ("varuint16", "w16", 0), ("varuint32", "w32", 0), ("varuint64", "w64", 0), ("varuint", "wi", 0),
     ("varsize", "sz", 0), ("bit:7", "b7", 0), ("bit:33", "b33", 0), ("int:9", "i9", 1), ("int:40", "i40", 1)]
F = "".join(f"    {t} {n};\n" for t, n, _ in T)
o = "// written by bin/mkmix.py\npackage zv.mixing;\n\n"
for name, ops in [("MixSum", ["+"]), ("MixOps", ["-", "*", "/", "%"]), ("MixBits", ["&", "|", "^"]), ("MixCompare", ["<", "==", ">=", "!="])]:
    o += f"struct {name}\n{{\n{F}\n"
    k = 0
    for t, a, s in T:
        for u, b, r in T:
            op = ops[(k + k // len(T)) % len(ops)]
            k += 1
            ret = "bool" if name == "MixCompare" else "uint64" if not (s and r) and op != "-" else "int64"
            # both orders for the sum, one operator per pair for the others
            o += f"    function {ret} f{a}x{b}() {{ return {a} {op} {b}; }}\n"
    o += "};\n\n"
o += f"struct MixUnary\n{{\n{F}\n    bool flag;\n"
for i, (t, a, s) in enumerate(T):
    b, r = T[(i * 5 + 3) % len(T)][1:]
    o += f"    function uint8 n{a}() {{ return numbits({a}); }}\n" if not s else f"    function uint8 n{a}() {{ return numbits({a} % 100 + 100); }}\n"
    o += f"    function int64 m{a}() {{ return -{a}; }}\n"
    if s:
        o += f"    function int64 c{a}() {{ return ~{a}; }}\n"
    o += f"    function {'int64' if s and r else 'uint64'} t{a}() {{ return flag ? {a} : {b}; }}\n"
    o += f"    function {'int64' if s else 'uint64'} l{a}() {{ return {a} << 3; }}\n"
    o += f"    function {'int64' if s else 'uint64'} r{a}() {{ return {a} >> 2; }}\n"
o += "};\n\n"
o += """subtype uint16 Small;
subtype Small Smaller;

enum Smaller OverSubEnum
{
    FIRST = 1,
    SECOND = 300,
};

bitmask Small OverSubMask
{
    LOW,
    MIDDLE,
    HIGH = 256,
};

const Smaller EXTRA = 2;

struct OverSubtypes
{
    OverSubEnum item;
    OverSubMask mask;
    Small small;
    Smaller smaller;
    uint8 plain;
    uint8 condA if valueof(item) + plain > 4;
    uint8 condB if valueof(mask) * plain + smaller > 30;
    bit<small % 9 + 1> bits;
    uint8 list[smaller % 3 + EXTRA];

    function uint32 sum() { return valueof(item) + plain + small + smaller + EXTRA; }
    function int32 difference() { return valueof(mask) - valueof(item) - small; }
    function uint8 needed() { return numbits(valueof(mask)); }
};

struct Long
{
    bit:1 values[];
    function uint32 count() { return lengthof(values); }
    function bool many() { return lengthof(values) > 65535; }
    function uint64 twice() { return lengthof(values) * 2; }
};

"""
for opt in (0, 1):
    o += f"struct {'AlignedAnyOptional' if opt else 'AlignedAny'}\n{{\n    bit:1 start;\n"
    for i, a in enumerate([2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 24, 32, 33, 64, 100, 128, 255]):
        t = ["bit:3", "uint8", "bool", "varuint16", "bit:5", "string"][i % 6]
        o += f"align({a}):\n    {'optional ' if opt else ''}{t} at{a};\n"
    o += "};\n\n"
o += """struct AlignedParts
{
    bit:1 start;
align(2):
    bit:3 list[];
align(16):
    uint8 conditional if start == 1;
align(4):
    packed uint8 deltas[];
    bit:1 rest;
};

struct AlignedElements
{
    AlignedParts parts[];
    packed AlignedParts packedParts[];
    packed AlignedAnyOptional packedOptionals[];
};
"""
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../corpus/zv/mixing.zs"), "w").write(o)
