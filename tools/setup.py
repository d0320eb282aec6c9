#!/usr/bin/env python3
"""setup: builds the replay engine once (every check rebuilds what changed)"""
import os, subprocess, sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
os.makedirs(os.path.join(ROOT, "build"), exist_ok=True)
os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(ROOT, "engine"))
sys.exit(subprocess.run(["verus", "--version"], stdout=subprocess.DEVNULL).returncode if r.returncode == 0 else r.returncode)
