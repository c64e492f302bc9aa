#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: python3 tools/design.py"""
import json, os, re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(here, "tools", "claims.py")).read())
rule = {}
for f in glob.glob(os.path.join(here, "analyzer", "*.go")):
    for m in re.finditer(r'register\("(\w+)", "((?:[^"\\]|\\.)*)"', open(f).read()):
        rule[m.group(1)] = (m.group(2), os.path.basename(f))
out = [open(os.path.join(here, "tools", "design_head.md")).read(), "\n## The properties and how each is decided\n"]
groups = [("D", "Decoding arbitrary bytes"), ("W", "Reading back what was written"), ("E", "Objects, encodings and copies"), ("O", "Order, equality and hashing"), ("M", "Collections"), ("T", "The trie"), ("S", "Keys, secrets and the key tool"), ("P", "Shared state, effects and secrets"), ("R", "Ending"), ("X", "Failures")]
why = {
 "D": "Against the language's own panics and the length of the input; the input is a slice of unknown length and content, so that every truncation and every lying length field is included. Decoders of components are replaced by what their own property decides.",
 "W": "Writer and reader are composed: what the writer leaves in its buffer, followed by arbitrary bytes, is given to the reader, and what the reader returns is compared with the original, field by field, for every value.",
 "E": "Each method is run on an arbitrary object in every encoding state; fields, accessors and reachable memory are compared before and after.",
 "O": "The oracle is the lexicographic order, evaluated over the case split by where the longest common prefix ends; the loops in between are summarised.",
 "M": "The oracle is the sequence (or set) of entries a structure stands for. By induction over operations: one operation is run on an arbitrary well-formed structure.",
 "T": "As for the collections, along the path of a key of any length.",
 "S": "Against the contracts of the cryptographic library, whose primitives are uninterpreted, and of the file system, every call of which may fail.",
 "R": "Over every loop and call of the repository, by the form of the loop and the effects of what it calls; a violation is a way round, or a bound, that can be named.",
 "P": "Over every function, path and call site of the libraries (and, for secrets, the key tool), by flows over the whole call graph, without regard to which paths are feasible.",
 "X": "Over every call in the repository that returns an error, without regard to which paths are feasible.",
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
for g, t in groups:
    out.append("### %s (%s)\n\n%s\n" % (t, g, why[g]))
    for p in props:
        i = p["id"]
        if i[0] != g or i not in CLAIMS: continue
        tech, note = CLAIMS[i]
        note = note.replace(TRUST, "").strip()
        out.append("* **%s %s.** Rule (`%s`): %s. %s\n" % (i, p["title"], rule[i][1], rule[i][0].replace(AI, "abstract interpretation"), note))
out.append("\n" + open(os.path.join(here, "tools", "design_tail.md")).read())
sr = os.path.join(here, "tools", "seed_results.json")
if os.path.exists(sr):
    res = json.load(open(sr))
    out.append("## Planted bugs\n\nEach is in `seeded/`, made from the text of a property and the code, and confirmed against the tests and by its demonstration. Checks that report it:\n\n| planted bug | property | reported by | needs |\n|---|---|---|---|\n")
    for i in sorted(res):
        m = json.load(open(os.path.join(here, "seeded", i, "meta.json")))
        out.append("| %s | %s | %s | %s |\n" % (i, m["property"], ", ".join(res[i]) or "none", m["needs"].replace("|", "/")))
open(os.path.join(here, "DESIGN.md"), "w").write("".join(o if o.startswith("|") else o + ("" if o.endswith("\n") else "\n") for o in out))
