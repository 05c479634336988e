#!/opt/venv/bin/python
"""Writes properties.jsonl, MANIFEST.json and DESIGN.md from tools/props.py, tools/design_*.md and the harnesses."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, ROOT)
from props import PROPS, NOT_APPLICABLE  # noqa: E402
from engine import harness as H  # noqa: E402

TECH = ("symbolic execution of the real Python code (numpy on symbolic real terms), SMT (z3) decides the "
        "assertions over all values within the stated bounds; counterexamples are replayed on the real code")


def instances(h, tier):
    n = [H.pname(p) for p in h.params(tier)]
    return n


def sections():
    out = []
    for p in PROPS:
        m = importlib.import_module("checks." + p["id"].lower())
        out.append("### %s %s\n\n%s\n" % (p["id"], p["title"], p["statement"]))
        out.append("*Code*: " + "; ".join("%s (`%s`)" % (a, b.split("/", 2)[2]) for a, b in p["mech"]) +
                   (". *Observed at*: " + ", ".join(p["observe"]) if p["observe"] else "") + ".")
        out.append("*Why tests cannot*: %s. *Quantified over*: %s. *Bounds*: %s." % (p["why"], p["quant"], p["note"]))
        if getattr(m, "OUTSIDE", ""):
            out.append("*Outside the claim*: %s." % m.OUTSIDE.rstrip("."))
        out.append("")
        for h in m.HARNESSES:
            q, t = len(instances(h, "quick")), len(instances(h, "thorough"))
            out.append("* `%s` (%d instance%s%s): %s" % (h.name, q, "" if q == 1 else "s",
                                                        ", %d thorough" % t if t != q else "", " ".join((h.desc or "").split())))
        out.append("")
    return "\n".join(out)


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["quant"]),
                     why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                                  observe_at=p.get("observe", []), hook_needed=None))
            f.write(json.dumps(d) + "\n")
    checks = [dict(property=p["id"],
                   quick_cmd="./run.py %s --tier quick" % p["id"],
                   thorough_cmd="./run.py %s --tier thorough" % p["id"],
                   technique=TECH, level="model_checking", level_note=p["note"])
              for p in PROPS if p["id"] not in dict(NOT_APPLICABLE)]
    m = dict(version=1,
             setup_cmd="/opt/venv/bin/python -c \"import sys; sys.path.insert(0,'.'); sys.dont_write_bytecode=True; import engine.harness\"",
             checks=checks,
             not_applicable=[dict(property=a, reason=b) for a, b in NOT_APPLICABLE],
             notes="No hooks in /repo: the sources are loaded from /repo's working tree on every run and executed on symbolic values. "
                   "See DESIGN.md. KNOWN_FINDINGS.txt lists repaired and recorded defects.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    rd = lambda n: open(os.path.join(HERE, n)).read().rstrip() + "\n"
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
        f.write(rd("design_head.md") + "\n## Properties and checks\n\n" + sections() + "\n" + rd("design_tail.md"))


main()
