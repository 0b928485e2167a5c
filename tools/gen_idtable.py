#!/usr/bin/env python3
"""Writes harness/src/idtable.rs: the identifier characters according to Python's Unicode tables."""
import os, unicodedata

# Became XID_Continue after Unicode 15.0.
NEW = {0x30FB, 0xFF65, 0x200C, 0x200D}

def cls(i):
    c = chr(i)
    if 0xD800 <= i <= 0xDFFF or unicodedata.category(c) == "Cn" or i in NEW:
        return 3  # unknown
    if c == "_" or c.isidentifier():
        return 2  # start and continue
    if ("a" + c).isidentifier() or c == "-":
        return 1  # continue
    return 0

runs = []
for i in range(0x110000):
    k = cls(i)
    if not runs or runs[-1][1] != k:
        runs.append((i, k))
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src", "idtable.rs")
with open(out, "w") as f:
    f.write("//! Generated by tools/gen_idtable.py (Unicode %s).\n\n" % unicodedata.unidata_version)
    f.write("/// First character of each run and its class: 0 no identifier character, 1 continues an identifier,\n/// 2 starts one, too, 3 unknown to the table.\n")
    f.write("pub const RUNS: [(u32, u8); %d] = [\n" % len(runs))
    for j in range(0, len(runs), 8):
        f.write("    " + " ".join("(0x%X, %d)," % r for r in runs[j:j+8]) + "\n")
    f.write("];\n")
print(len(runs))
