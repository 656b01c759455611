#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run from anywhere)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        p=dict(id=id, title=title, statement=statement,
               quantifier=dict(over=over, text=text), why_tests_cant=why,
               anchors=dict(files=files,
                            mechanism=[dict(name=n, where=w) for n, w in mech],
                            observe_at=observe or [], hook_needed=None)),
        m=dict(property=id, quick_cmd=f"VERIF_TIER=quick ./check.sh {id}",
               thorough_cmd=f"VERIF_TIER=thorough ./check.sh {id}",
               technique=technique, level="exploration", level_note=note)))

MODEL = ("Generated-input search against an independent exact big-integer model that was "
         "cross-validated against CPython's decimal. Assurance is statistical: it covers what was generated.")
FIXED = ("The shipped tests replay fixed vector files (dectest, pytables), whose operands are short, never "
         "aliased and never written into a used receiver.")

exec(open(os.path.join(ROOT, "tools", "props_table.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x["p"], ensure_ascii=False) + "\n")
na = []
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="./setup.sh", checks=[x["m"] for x in P],
                   not_applicable=na,
                   notes="No hooks: every check drives the public API. See DESIGN.md."), f, indent=1, ensure_ascii=False)
    f.write("\n")
