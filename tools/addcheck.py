"""python3 tools/addcheck.py ID TECHNIQUE NOTE"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks.json")
T = json.load(open(p))
T["checks"][sys.argv[1]] = dict(technique=sys.argv[2], note=sys.argv[3])
json.dump(T, open(p, "w"), indent=1)
