#!/usr/bin/env python3
"""lvl.py ID TECHNIQUE NOTE: records the technique and note of a check and rewrites MANIFEST.json."""
import json, os, subprocess, sys
R = os.path.dirname(os.path.abspath(__file__))
d = json.load(open(f"{R}/levels.json"))
d[sys.argv[1]] = {"technique": sys.argv[2], "note": sys.argv[3]}
json.dump(dict(sorted(d.items())), open(f"{R}/levels.json", "w"), indent=1)
subprocess.check_call([sys.executable, f"{R}/gen_manifest.py"])
