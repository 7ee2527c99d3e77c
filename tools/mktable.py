"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.
(Not part of any check.)"""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    "c20-seq-early-end": "sequences with lying length hints were added",
    "c23-usize-bound": None,
    "c07-rem-same": "the same object on both sides was added",
    "c16-visit-bytes-len": "text that arrives as bytes may no longer be refused",
    "c13-writer-error": "writers that refuse one piece were added",
    "c16-binary-format": "formats that are not human readable were added",
    "c18-any": "formats that do not describe themselves were added",
}
rows = ["| bug | property | needs |", "|---|---|---|"]
for d in sorted(os.listdir(f"{root}/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    n = NOTES.get(d)
    rows.append(f"| {d} | {m['property']} | {m['needs']}{f' *(missed at first; {n})*' if n else ''} |")
p = f"{root}/DESIGN.md"
lines = open(p).read().split("\n")
i = lines.index(rows[0])
j = i
while lines[j].startswith("|"):
    j += 1
open(p, "w").write("\n".join(lines[:i] + rows + lines[j:]))
