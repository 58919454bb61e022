#!/usr/bin/env python3
"""Extracts golden/ucd.bin from the tables of the pinned commit (run once; its output is committed).

For each version in order: u32le number of runs, then per run: LEB128 length, u8 category index
(index = rank of the full category name, 0 Close_Punctuation .. 29 Uppercase_Letter).
The runs partition 0..=0x10FFFF. The data was cross-checked against independent Unicode databases by
tools/crosscheck_golden.py.
"""
import os, re, struct, sys
SRC = sys.argv[1] if len(sys.argv) > 1 else "/repo/crates/unicode-intervals/src/tables"
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "golden", "ucd.bin")
VERSIONS = ["9_0_0", "10_0_0", "11_0_0", "12_0_0", "12_1_0", "13_0_0", "14_0_0", "15_0_0", "15_1_0", "16_0_0", "17_0_0"]
NAMES = """CLOSE_PUNCTUATION CONNECTOR_PUNCTUATION CONTROL CURRENCY_SYMBOL DASH_PUNCTUATION DECIMAL_NUMBER ENCLOSING_MARK
FINAL_PUNCTUATION FORMAT INITIAL_PUNCTUATION LETTER_NUMBER LINE_SEPARATOR LOWERCASE_LETTER MATH_SYMBOL MODIFIER_LETTER
MODIFIER_SYMBOL NONSPACING_MARK OPEN_PUNCTUATION OTHER_LETTER OTHER_NUMBER OTHER_PUNCTUATION OTHER_SYMBOL
PARAGRAPH_SEPARATOR PRIVATE_USE SPACE_SEPARATOR SPACING_MARK SURROGATE TITLECASE_LETTER UNASSIGNED UPPERCASE_LETTER""".split()


def leb(n):
    out = bytearray()
    while True:
        b = n & 127
        n >>= 7
        if n:
            out.append(b | 128)
        else:
            out.append(b)
            return bytes(out)


blob = b""
for v in VERSIONS:
    text = open(f"{SRC}/v{v}.rs").read()
    by = re.search(r"BY_NAME.*?= &\[(.*?)\];", text, re.S).group(1)
    assert re.findall(r"\w+", by) == NAMES, v
    runs = []
    for idx, name in enumerate(NAMES):
        body = re.search(r"pub const %s: &'static \[\(u32, u32\)\] =\s*&\[(.*?)\];" % name, text, re.S).group(1)
        for a, b in re.findall(r"\((\d+), (\d+)\)", body):
            runs.append((int(a), int(b), idx))
    runs.sort()
    pos, last = 0, None
    for a, b, c in runs:
        assert a == pos and b >= a and c != last, (v, a, b, c)
        pos, last = b + 1, c
    assert pos == 0x110000
    blob += struct.pack("<I", len(runs)) + b"".join(leb(b - a + 1) + bytes([c]) for a, b, c in runs)
open(OUT, "wb").write(blob)
print(len(blob), "bytes")
