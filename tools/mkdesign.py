#!/usr/bin/env python3
"""Regenerates the table of planted bugs in DESIGN.md (between the two marks) from seeded/."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
# what was added when the check of the property missed the bug at first
FIRST_MISS = {
 "big-entries-checksum": "worlds with more than 1024 entries",
 "clone-error-swap": "every header error compared before and after a clone",
 "entry-name-37": "entry sizes up to 1 MiB in direct calls",
 "guid-dropped-on-grow": "replacement tables of more than 1000 entries",
 "header-block-tail": "devices filled with a pattern under 4096-byte blocks",
 "header-size-checked": "headers with other revision and size fields",
 "last-slot-never-used": "full tables of 256 entries",
 "name-trimmed": "names with white space at the ends",
 "name-trimmed-on-read": "names with white space at the ends",
 "unused-by-type-value": "the unused type with an operating system",
 "zero-checksum-accepted": "pairs and runs of words of one copy",
 "used-by-range": "entries with a zero last sector; moved from C01 to C05, which is what it breaks",
 "limits-of-the-backup": "copies that disagree about the usable range",
 "checksum-byte-order": "checksums wrong in each of the ways in which checksums are wrong",
 "removal-needs-a-span": "inverted entries in C05",
 "system-name-case": "all names of systems, all letter cases",
 "take-forgets-unused": "unused entries in replacement tables",
 "free-space-remembered": "write worlds in C01-C05, exploration without merging with looks in between; the harness also had to accept disks that are not Sync",
 "next-number-remembered": "exploration without merging",
 "message-of-replaced-entry": "unused entries with impossible ranges; listeners that format and fail",
}
rows = []
for i in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", i, "meta.json")))
    rows.append((m["property"], i, m["needs"], FIRST_MISS.get(i, "")))
rows.sort()
out = "| property | planted bug | needs | missed at first; added |\n|---|---|---|---|\n"
out += "".join(f"| {p} | {i} | {n} | {f} |\n" for p, i, n, f in rows)
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
a, b = "<!-- planted -->\n", "<!-- /planted -->"
if a not in s: raise SystemExit("no mark")
s = s[: s.index(a) + len(a)] + out + s[s.index(b):]
open(p, "w").write(s)
print(len(rows), "planted bugs,", sum(1 for r in rows if r[3]), "missed at first")
