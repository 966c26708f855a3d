#!/usr/bin/env python3
"""replay.py FILE: rebuilds from /repo and replays one recorded violation; exit 1 when it is reproduced."""
import os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
exes = B.build()
v = re.search(r'^variant (\w)', open(sys.argv[1]).read(), re.M).group(1)
sys.exit(subprocess.run([exes[v], 'replay', '-v', sys.argv[1]], env=dict(os.environ, SIM_VARIANT=v)).returncode)
