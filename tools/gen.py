#!/usr/bin/env python3
"""Regenerate MANIFEST.json and rules.json:  python3 tools/gen.py"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = {f: open(f).read() for f in glob.glob(f"{V}/src/h_*.cpp")}
exec(open(f"{V}/tools/rules.py").read())   # RULES: id -> dict(technique, rule, note[, level])
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if any(re.search(r"\bPROP\(%s," % i, t) for t in src.values()) and i in RULES:
        r = RULES[i]
        checks.append({"property": i, "quick_cmd": f"./check {i} --tier quick", "thorough_cmd": f"./check {i} --tier thorough",
                       "technique": r["technique"], "level": r.get("level", "exploration"), "level_note": r["note"]})
    else: na.append({"property": i, "reason": "its check is not built yet"})
m = {"version": 1, "setup_cmd": "./check all-build", "checks": checks, "not_applicable": na,
     "notes": "One runner (./check) rebuilds the library from /repo with ASan/UBSan and coverage counters, and searches generated cases per property; known_findings.json lists repaired and recorded defects. No hooks in /repo."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1); open(f"{V}/MANIFEST.json", "a").write("\n")
json.dump({i: {"rule": r["rule"], "level": r.get("level", "exploration"), "assumptions": r.get("assumptions", ["clang 18 ASan/UBSan instrumentation and the system OpenSSL 3 libcrypto are trusted", "libscrypt and bcrypt come from shims over libcrypto and libcrypt, as the repository's own submodules are not available offline"])} for i, r in RULES.items()}, open(f"{V}/rules.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
