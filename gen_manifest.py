"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
gen = ("abstract interpretation of the generator and of the code it emits, compared with the reference meaning of each schema shape",
  "Decided on a fixed family of schema shapes (every member kind, length form, union form, context form and pairs of them) with arbitrary names and arbitrary input bytes; other shapes are covered only in so far as the generator treats members compositionally. No code is executed.")
T = {}
for i in range(1, 10):
    T["C%02d" % i] = gen
exec(open("manifest_table.py").read())
NA = {}
props = [json.loads(l) for l in open("properties.jsonl")]
m = {"version": 1,
 "setup_cmd": "mkdir -p bin evidence && cd tool && GOFLAGS=-mod=vendor GOTOOLCHAIN=local GOPROXY=off go build -o ../bin/vtool .",
 "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in T:
        m["checks"].append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
            "evidence_file": "evidence/%s.json" % i, "technique": T[i][0], "level": "other", "level_note": T[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no static check has been built for it yet")})
m["notes"] = "All checks are static: one analyser (tool/) loads /repo's working tree, type-checks it and interprets or inspects it; nothing from /repo is executed."
json.dump(m, open("MANIFEST.json", "w"), indent=1)
