"""python3 tools/claim.py ID "level note"   (records a claim and regenerates)"""
import json, os, subprocess, sys
f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "claims.json")
d = json.load(open(f))
d["claims"][sys.argv[1]] = sys.argv[2]
json.dump(d, open(f, "w"), indent=1)
subprocess.check_call([sys.executable, os.path.join(os.path.dirname(f), "props.py")])
