"""writes MANIFEST.json from the check modules and tools/not_applicable.json"""
import glob
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
na = json.load(open(os.path.join(HERE, "tools", "not_applicable.json")))
checks = []
for f in sorted(glob.glob(os.path.join(HERE, "checks", "c[0-9]*.py"))):
    n = os.path.basename(f)[:-3]
    m = importlib.import_module("checks." + n)
    cmd = "/opt/venv/bin/python -W ignore run.py " + n
    checks.append({"property": m.PROPERTY, "quick_cmd": cmd, "thorough_cmd": cmd + " --tier thorough",
                   "technique": m.TECHNIQUE, "level": getattr(m, "LEVEL", "other"),
                   "level_note": getattr(m, "LEVEL_NOTE", m.EXPLANATION + " Bounds: " + m.BOUNDS + ". Not covered: " + "; ".join(m.ASSUMPTIONS))})
done = {c["property"] for c in checks}
nal = [{"property": p, "reason": na.get(p, "no check has been built for this property yet")}
       for p in props if p not in done]
json.dump({"version": 1,
           "setup_cmd": "/opt/venv/bin/python -W ignore run.py --setup",
           "checks": checks, "not_applicable": nal},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(nal), "not:", [x["property"] for x in nal])
