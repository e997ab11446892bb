"""Writes DESIGN.md from the hand-written texts below and the check modules' own RULE/BOUNDS/ASSUMPTIONS."""

import glob
import importlib.util
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ELLI_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(REPO, "src"), HERE]

T = {}
exec(open(os.path.join(HERE, "tools", "design_text.py"), encoding="utf-8").read(), T)


def load(f):
    name = "d_" + os.path.basename(f)[:3]
    spec = importlib.util.spec_from_file_location(name, f)
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    spec.loader.exec_module(m)
    return m


props = {}
for line in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8"):
    d = json.loads(line)
    props[d["id"]] = d
out = [T["HEAD"].strip(), ""]
out.append("## 3. The properties, one by one\n")
for f in sorted(glob.glob(os.path.join(HERE, "checks", "c[0-9]*_*.py"))):
    m = load(f)
    p = props[m.ID]
    out.append(f"### {m.ID}: {p['title']}\n")
    out.append(f"Anchored in {', '.join('`' + x + '`' for x in p['anchors']['files'])}. Check: `checks/{os.path.basename(f)}`, level `{m.LEVEL}`.\n")
    out.append(T["PROP"][m.ID].strip() + "\n")
    out.append(f"- *Space and rule*: {m.RULE}.")
    b = m.BOUNDS
    if isinstance(b, dict):
        out.append(f"- *Quick bounds*: {b['quick']}.")
        out.append(f"- *Thorough bounds*: {b['thorough']}.")
    else:
        out.append(f"- *Bounds*: {b}.")
    out.append("- *Assumptions*: " + "; ".join(m.ASSUMPTIONS) + ".")
    q, t = T["COST"].get(m.ID, ("?", "?"))
    out.append(f"- *Cost on 8 cores*: quick {q}, thorough {t}.\n")
out.append(T["TAIL"].strip() + "\n")
out.append("## 8. Planted bugs\n")
out.append(T["SEEDTEXT"].strip() + "\n")
out.append("| planted bug | property | needs | caught by |\n|---|---|---|---|")
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(d))
    meta = json.load(open(d, encoding="utf-8"))
    out.append(f"| {i} | {meta['property']} | {meta['needs'].replace('|', '/')} | {T['CAUGHT'].get(i, meta['property'])} |")
open(os.path.join(HERE, "DESIGN.md"), "w", encoding="utf-8").write("\n".join(out) + "\n")
