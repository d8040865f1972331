"""Write MANIFEST.json: one check per module in vf/props."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
have = {os.path.basename(f)[:-3].upper() for f in glob.glob(V + "/vf/props/c[0-9]*.py")}
checks = []
for p in props:
    i = p["id"]
    if i not in have:
        continue
    checks.append({
        "property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "symbolic execution of the program's LLVM IR over symbolic source text, z3 decides the property on every path",
        "level": "model_checking",
        "level_note": "exhaustive within the bounds listed in the evidence file (all values of the symbolic characters, all paths of the whole program); the C library is modelled; counterexamples are replayed on the native build",
    })
m = {"version": 1, "setup_cmd": "symx/build.sh build", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": "no check yet"} for p in props if p["id"] not in have]}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
