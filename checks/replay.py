#!/usr/bin/env python3
"""Re-runs a recorded failing input against the code in /repo: replay.py FILE"""
import json
import os
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
d = json.load(open(sys.argv[1]))
if "case" not in d:
    print(json.dumps(d, indent=1)[:6000])
    sys.exit(1)
bt = build.Built(need_replay=())
sys.exit(subprocess.run([bt.replay(d.get("features", "default")), "run", os.path.abspath(sys.argv[1])]).returncode)
