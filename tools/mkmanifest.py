import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here + "/lib")
import registry as R
ids = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
na = json.load(open(here + "/tools/not_applicable.json")) if os.path.exists(here + "/tools/not_applicable.json") else {}
checks = []
for i in ids:
    if i in R.PROPS:
        p = R.PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 lib/run.py " + i, "thorough_cmd": "env VERIF_TIER=thorough python3 lib/run.py " + i,
                       "technique": p["technique"], "level": p["level"], "level_note": p["level_note"]})
missing = [{"property": i, "reason": na.get(i, "check not built yet")} for i in ids if i not in R.PROPS]
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, 'lib'); import build, registry\"",
     "checks": checks, "not_applicable": missing,
     "notes": "Each check builds the library sources of /repo's working tree with its harness into /verif/build (ignored by git). No hooks are needed in /repo."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(missing), "not claimed")
