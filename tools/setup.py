#!/usr/bin/env python3
"""Are the tools that the checks need here?  Builds nothing: each check builds from /repo's current tree."""
import glob
import os
import subprocess
import sys

kani = sorted(glob.glob(os.path.expanduser("~/.kani/kani-*")))
if not kani:
    sys.exit("Kani is not installed")
for t in ("cbmc", "goto-cc", "goto-instrument"):
    subprocess.run([kani[-1] + "/bin/" + t, "--version"], check=True, stdout=subprocess.DEVNULL)
subprocess.run(["cargo", "kani", "--version"], check=True)
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
