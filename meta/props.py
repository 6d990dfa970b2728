#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one description."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
TARGETS = ["generator/target/c/c.go", "generator/target/cpp/cpp.go", "generator/target/golang/golang.go", "generator/target/java/java.go",
           "generator/target/csharp/csharp.go", "generator/target/python/python.go", "generator/target/esm/esm.go", "generator/target/esm/esm_encode.go", "generator/target/esm/esm_decode.go", "generator/target/commonjs/commonjs.go", "generator/target/kotlin/kotlin.go"]
def m(*ps): return [{"name": n, "where": w} for n, w in ps]
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), tech=None, note=None, na=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, observe=observe, tech=tech, note=note, na=na, hook=hook))

CODEC_NOTE = ("Seeded search over simulated runs of the generated codecs (real compilers and runtimes); quick tier about a minute, thorough about 12 minutes. "
  "Assurance is that of sampling: schemas, options, values, schedules and faults not drawn are not covered. Trusts the reference layout model in sim/codec.go, the toolchains that compile the generated code and, for C and C++, AddressSanitizer. Kotlin has no compiler in the sandbox: its generated code runs in an interpreter of the part of Kotlin it uses (sim/kt_*.go), so that errors only a full Kotlin compiler would report are seen in part.")
SIM = "deterministic simulation with fault injection: "

exec(open(os.path.join(HERE, "codec_props.py")).read())
if os.path.exists(os.path.join(HERE, "tool_props.py")):
    exec(open(os.path.join(HERE, "tool_props.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
          "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
          "anchors": {"files": p["files"], "mechanism": p["mech"], "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                      "observe_at": list(p["observe"]), "hook_needed": p["hook"]}}, ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "./check.sh setup",
  "hooks": {"guard": "none: the simulator reaches the compiler through go build -overlay on the standard library and package main; /repo carries no hooks", "enable": "nothing to enable; the checks build /repo's working tree as it is", "source_commits": []},
  "checks": [{"property": p["id"], "quick_cmd": f"./check.sh check -property {p['id']} -tier quick", "thorough_cmd": f"./check.sh check -property {p['id']} -tier thorough",
     "technique": SIM + p["tech"], "level": "exploration", "level_note": p["note"]} for p in P if not p["na"]],
  "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
  "notes": "DESIGN.md describes the simulators, oracles, bounds, known findings and which planted changes each check catches. Replay a violation with ./check.sh replay FILE."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1); f.write("\n")
