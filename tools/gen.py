#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import importlib, json, os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOKS = ["73e28bc"]

def line(id, p):
    assert len(p["title"]) <= 80, (id, len(p["title"]))
    a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
    if p.get("state"):
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
    if p.get("observe"):
        a["observe_at"] = p["observe"]
        a["hook_needed"] = p.get("hook")
    return dict(id=id, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"], anchors=a)

rows = [line(i, p) for i, p in sorted(PROPS.items())] + [line(p["id"], p) for p in NOT_APPLICABLE]
with open(f"{V}/properties.jsonl", "w") as f:
    for r in rows:
        f.write(json.dumps(r) + "\n")
h = []
for c in HOOKS:
    h.append(subprocess.run(["git", "-C", "/repo", "rev-parse", c], capture_output=True, text=True).stdout.strip() or c)
m = dict(version=1, setup_cmd="bash tools/setup.sh",
         hooks=dict(guard="rinex_verif", enable='RUSTFLAGS="--cfg rinex_verif" (set by check.py; the checks fall back to a build without it)', source_commits=h),
         checks=[dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
                      evidence_file=f"evidence/{i}.json", technique=p["technique"], level=p["level"], level_note=p["note"]) for i, p in sorted(PROPS.items())],
         not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in NOT_APPLICABLE],
         notes="See DESIGN.md. check.py <ID> runs Verus, Kani and the native evaluation of the contracts of one property over /repo's working tree; check.py <ID> --replay FILE re-executes a reported input.")
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)

# -- the generated part of DESIGN.md
sys.path.insert(0, f"{V}/verus")
out = []
for i, p in sorted(PROPS.items()):
    src = open(f"{V}/contracts/src/{i.lower()}.rs").read()
    native = re.findall(r"^    fn (p\d+_\w+)\(\)", src[src.index("search! {"):], re.M)
    proofs = re.findall(r"^\s*fn (p\d+_\w+)", src[src.index("harness! {"):src.index("search! {")], re.M)
    units = p.get("verus", [])
    out.append(f"### {i} {p['title']}\n")
    out.append(f"* Decided by: {p['technique']} (level: {p['level']}).")
    if units:
        out.append("* Verus units: " + "; ".join(f"`verus/{u}.py` ({', '.join('`' + c + '`' for c in importlib.import_module(u).CONTRACTS)})" for u in units) + ".")
    if proofs:
        out.append("* Kani harnesses (also run natively): " + ", ".join(f"`{h}`" for h in proofs) + ".")
    if native:
        out.append("* Native, bounded: " + ", ".join(f"`{h}`" for h in native) + f" ({p['quant']}).")
    out.append(f"* Scope: {p['note']}")
    out.append(f"* Out of the tests' reach: {p['why']}.\n")
for p in NOT_APPLICABLE:
    out.append(f"### {p['id']} {p['title']} (not applicable)\n\n{p['reason']}\n")
out.append("### What each Verus extraction drops and trusts\n")
seen = {}
for u in sorted({u for p in PROPS.values() for u in p.get("verus", [])}):
    m = importlib.import_module(u)
    def ref(t):
        if t not in seen:
            seen[t] = len(seen) + 1
        return f"[{seen[t]}]"
    out.append(f"* `{u}` ({getattr(m, 'FILE', 'several files')}): drops {' '.join(ref(t) for t in m.DROPS)}; trusts {' '.join(ref(t) for t in m.TRUSTED)}")
out.append("")
out += [f"{n}. {t}" for t, n in seen.items()]
BEGIN, END = "<!-- generated by tools/gen.py -->", "<!-- end of the generated part -->"
d = open(f"{V}/DESIGN.md").read()
a, b = d.index(BEGIN) + len(BEGIN), d.index(END)
open(f"{V}/DESIGN.md", "w").write(d[:a] + "\n\n" + "\n".join(out) + "\n\n" + d[b:])
