#!/usr/bin/env python3
"""replay.py <replay file>: rebuilds the workload from /repo and runs the one case verbosely."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild, check
d = json.load(open(sys.argv[1]))
exe = vbuild.build([(d["binary"], d["flavor"])])[(d["binary"], d["flavor"])]
c = d["case"] or 0
sys.exit(subprocess.run([exe, "--workload", d["workload"], "--seed", str(d["seed"]), "--from", str(c), "--to", str(c + 1), "--verbose", "1", "--leak-every", "1"] + d.get("args", []), env=check.ENV).returncode)
