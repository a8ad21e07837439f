#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md, between the two marker lines."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST_MISSED = {  # planted bug: what was added to the check that missed it
    "c16-rust2-repeated-enum-u8": "schema with enums of more than 256 constants",
    "c16-rust1-error-nested": "errors spliced in place of nested items",
    "c18-rust2-rustfmt-edition": "a schema whose output is long enough to fill a pipe",
    "c17-rust2-enum-clamp": "enum numbers just past the last constant",
    "c18-camel-cache": "library use from many goroutines under the race detector",
    "c16-rust-map-enum-byte": "wide enums as map values",
    "c22-go1-templates-once": "hooked generators made before and after the one asked for",
    "c22-go2-hook-memo": "other hooks used before or during, in the same process",
    "c18-go1-main-limit": "requests of several megabytes (comments)",
    "c18-rust1-privacy-global": "parameterised requests between others",
    "c18-rust2-privacy-global": "parameterised requests between others",
    "c06-go2-dest-claimed": "measured decodes into small destinations",
    "c09-go1-string-large-view": "values of up to 2 MiB among those held",
    "c19-go2-unwrap-root": "errors that wrap ones without a message",
    "c18-rust1-skip-imported": "files without declarations, with and without imports",
    "c18-rust2-snake-digits": "a schema of names that differ only in case",
    "c12-go2-additive-growth": "reallocations counted per doubling, and runs to 512 MiB",
    "c19-rust-source": "errors with sources, causes and text of their own",
    "c19-ts-cause": "errors with sources, causes and text of their own",
    "c11-go2-locked-scratch": "storms: eight threads encode their own values of one kind in tight loops",
    "c20-ts-utf16-length": "long text with characters of two to four bytes",
    "c15-go2-camel-digit": "field names that differ by an underscore before a digit",
}
rows = []
for d in ("seeded", "seeded_other"):
    for i in sorted(os.listdir(os.path.join(H, d))):
        p = os.path.join(H, d, i)
        if not os.path.exists(os.path.join(p, "meta.json")):
            continue
        m = json.load(open(os.path.join(p, "meta.json")))
        fs = [l[6:].strip() for l in open(os.path.join(p, "patch.diff")) if l.startswith("+++ ")]
        rows.append((m["property"], i, ", ".join(fs), d == "seeded", FIRST_MISSED.get(i, "")))
rows.sort()
t = ["", "| caught by | planted bug | in | counts | first missed; what the check gained |", "|---|---|---|---|---|"]
for c, i, f, k, x in rows:
    t.append(f"| {c} | {i} | {f} | {'yes' if k else 'no'} | {x} |")
t.append("")
p = os.path.join(H, "DESIGN.md")
s = open(p).read()
a, b = "<!-- planted bugs -->\n", "<!-- end of planted bugs -->"
s = s[:s.index(a) + len(a)] + "\n".join(t) + s[s.index(b):]
open(p, "w").write(s)
print(len(rows), "planted bugs")
