#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec.py (statements) and jobs.py (symbolic jobs)."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from spec import SPEC, NOT_APPLICABLE
from jobs import PROPS
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for s in SPEC:
        a = {"files": s["files"], "mechanism": [{"name": n, "where": w} for n, w in s["mech"]]}
        if s.get("observe"):
            a["observe_at"] = s["observe"]
        f.write(json.dumps({"id": s["id"], "title": s["title"], "statement": s["statement"],
                            "quantifier": {"over": s["over"], "text": s["q"]}, "why_tests_cant": s["why"], "anchors": a}) + "\n")
        assert len(s["title"]) <= 80, s["id"]
checks = []
for s in SPEC:
    if s["id"] not in PROPS:
        assert any(n["property"] == s["id"] for n in NOT_APPLICABLE), s["id"]
        continue
    p = PROPS[s["id"]]
    b = p["bounds"]["quick"] if isinstance(p["bounds"], dict) else p["bounds"]
    bt = (p["bounds"].get("thorough") or b) if isinstance(p["bounds"], dict) else b
    checks.append({
        "property": s["id"],
        "quick_cmd": "python3 check.py %s quick" % s["id"],
        "thorough_cmd": "python3 check.py %s thorough" % s["id"],
        "evidence_file": "evidence/%s.json" % s["id"],
        "technique": "symbolic execution of the compiled crate (LLVM IR) with an SMT solver (Z3)",
        "level": "model_checking",
        "level_note": "Bounded: every value within the bounds, none beyond them. Quick: %s. Thorough: %s. Not covered: %s. Trusts rustc/LLVM, the engine's IR semantics (checked each run by native replay of sampled paths) and Z3; malloc does not fail, hash keys and clock are fixed." % (b, bt, p.get("outside") or "see DESIGN.md"),
    })
m = {"version": 1, "setup_cmd": "python3 setup.py", "hooks": {"guard": "none", "enable": "no hooks: the checks use the public API only", "source_commits": []},
     "checks": checks, "not_applicable": NOT_APPLICABLE,
     "notes": "check.py compiles /repo with the harnesses in props/ to LLVM bitcode and executes them symbolically with the engine in engine/ (see DESIGN.md)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")

# sections of DESIGN.md
from design_notes import NOTES
def section(t, key, lines):
    b, e = "<!-- BEGIN %s -->\n" % key, "<!-- END %s -->" % key
    i, j = t.index(b) + len(b), t.index(e)
    return t[:i] + "\n".join(lines) + "\n" + t[j:]
d = open(os.path.join(V, "DESIGN.md")).read()
pl = []
for s in SPEC:
    p = PROPS.get(s["id"])
    if not p:
        continue
    bd = p["bounds"] if isinstance(p["bounds"], dict) else {"quick": p["bounds"]}
    pl += ["### %s %s" % (s["id"], s["title"]), "", NOTES[s["id"]], "", "* Bounds (quick): %s." % bd["quick"]]
    if bd.get("thorough"):
        pl.append("* Bounds (thorough): %s." % bd["thorough"])
    pl += ["* Outside: %s." % (p.get("outside") or "nothing further"), "* Why not tests: %s" % s["why"], ""]
pl += ["### %s: not applicable\n\n%s\n" % (n["property"], n["reason"]) for n in NOT_APPLICABLE]
d = section(d, "props", pl)
kf = json.load(open(os.path.join(V, "known_findings.json")))
d = section(d, "findings", ["* %s: `%s` %s." % (f["property"], f.get("commit", f["status"]), f["what"]) for f in kf])
sd = []
for n in sorted(os.listdir(os.path.join(V, "seeded"))):
    mp = os.path.join(V, "seeded", n, "meta.json")
    if os.path.exists(mp):
        x = json.load(open(mp))
        sd.append("| %s | %s | %s | %s | %s |" % (n, x["property"], x["what_it_breaks"].replace("|", "/"), x["needs"].replace("|", "/"), x.get("caught_by", "not yet run")))
d = section(d, "seeded", ["| bug | property | breaks | needs | caught by |", "|---|---|---|---|---|"] + sd)
open(os.path.join(V, "DESIGN.md"), "w").write(d)
