#!/opt/venv/bin/python
"""setup: nothing to build; shows that the interpreter, the code under test and the simulator load"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import re

ids = re.findall(r'^    "([A-Z]\d\d)"', open(os.path.join(HERE, "dst", "registry.py")).read(), re.M)
man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
claimed = [c["property"] for c in man["checks"]]
assert set(claimed) <= set(ids), (claimed, ids)
env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
p = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), "--property", claimed[0], "--one", "0"],
                   capture_output=True, text=True, env=env, timeout=300)
if p.returncode:
    sys.stderr.write(p.stdout[-2000:] + p.stderr[-4000:])
    sys.exit(1)
print("ok:", len(claimed), "checks")
