"""Regenerates MANIFEST.json from the check modules present."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/lib", V + "/checks"]
m = json.load(open(V + "/MANIFEST.json"))
checks = []
for f in sorted(os.listdir(V + "/checks")):
    if f.endswith(".py") and f[0] == "c" and f[1:3].isdigit():
        pid = f[:-3].upper()
        mod = importlib.import_module(f[:-3])
        checks.append({"property": pid, "quick_cmd": "python3 check.py %s" % pid, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % pid,
                       "technique": mod.SPEC["technique"], "level": mod.SPEC["level"], "level_note": mod.SPEC["note"]})
m["checks"] = checks
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
