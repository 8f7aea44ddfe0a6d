#!/usr/bin/env python3
"""tools/fixed.py PROP COMMIT 'what failed'  -> appends a fixed entry to KNOWN_FINDINGS.txt"""
import sys, pathlib
p = pathlib.Path(__file__).resolve().parent.parent / "KNOWN_FINDINGS.txt"
line = f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}\n"
if line not in p.read_text(): p.write_text(p.read_text() + line)
