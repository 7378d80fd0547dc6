#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design.md with the per-property section filled in
from properties.jsonl, tools/notes.json and the harness's own rules."""
import json, os, re, glob
here = os.path.dirname(os.path.abspath(__file__)); top = os.path.join(here, "..")
rules = {}
for f in sorted(glob.glob(os.path.join(top, "harness/src/props/*.rs"))):
    s = open(f).read()
    for m in re.finditer(r'impl Prop for (P\d+).*?fn rule\(&self\) -> &\'static str \{\s*"(.*?)"\s*\}.*?Quick => ([\d_]+).*?Thorough => ([\d_]+)', s, re.S):
        rules[m[1]] = (os.path.basename(f), re.sub(r'\\\n\s*', '', m[2]), m[3].replace("_", " "), m[4].replace("_", " "))
notes = json.load(open(os.path.join(here, "notes.json")))
why = json.load(open(os.path.join(here, "reach.json")))
out = []
for l in open(os.path.join(top, "properties.jsonl")):
    d = json.loads(l); i = d["id"]; f, rule, q, t = rules[i]; n = notes[i]
    out.append(f"### {i} {d['title']}\n\n*Specified:* {d['statement']}\n\n*Decided by:* {n['technique'].replace('runtime monitoring: ', '')} (`harness/src/props/{f}`).\n\n"
               f"*Workload and oracle:* {rule}.\n\n*Bounds and cost:* {q} generated cases quick, {t} thorough, besides the fixed ones. {n['note']}\n\n"
               f"*Why it reaches what the tests do not:* {d['why_tests_cant']}" + (f" {why[i]}" if i in why else "") + "\n")
seeds = []
for m in sorted(glob.glob(os.path.join(top, "seeded/*/meta.json"))):
    d = json.load(open(m)); name = m.split("/")[-2]
    seeds.append(f"| {name} | {d['property']} | {d['needs']} | {d.get('caught_by', d['property'])} |")
s = open(os.path.join(here, "design.md")).read()
s = s.replace("@PROPERTIES@", "\n".join(out)).replace("@SEEDS@", "\n".join(seeds))
open(os.path.join(top, "DESIGN.md"), "w").write(s)
