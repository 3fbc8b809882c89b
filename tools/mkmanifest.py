import json, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import plan
props = [json.loads(l) for l in open(os.path.join(plan.HERE, "properties.jsonl"))]
checks = []; na = []
for q in props:
    i = q["id"]
    if i in plan.PLAN:
        P = plan.PLAN[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
            "technique": P.get("technique", "property-based testing (rapidcheck choice sequences, structured generators, shrinking; libFuzzer in thorough) against an independent oracle"),
            "level": "exploration", "level_note": P.get("note", "Randomised search over generated inputs with an explicit oracle under AddressSanitizer/UBSan; no exhaustive guarantee. Cases with features below the library's own 1e-5 tolerance are not generated.")})
    else: na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: all checks use the public interface of the library, compiled from /repo's working tree by /verif/build.py. Repairs of genuine defects are the fix: commits in /repo, listed in known_findings.txt."}
json.dump(m, open(os.path.join(plan.HERE, "MANIFEST.json"), "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json"))); print(len(checks), "checks", len(na), "not yet")
