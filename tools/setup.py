#!/usr/bin/env python3
"""Nothing is downloaded or installed: verify that the tools the checks use are present."""
import os
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
for d in (vlib.OUT, vlib.CACHE, os.path.join(vlib.OUT, "tmp")):
    os.makedirs(d, exist_ok=True)
for cmd in (["g++", "--version"], ["java", "-version"]):
    subprocess.run(cmd, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
for j in vlib.JAR.split(":"):
    assert os.path.exists(j), j
print("setup ok")
