"""Checks that the toolchain answers; every check builds its own drivers from /repo's working tree."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
for d in (lib.BUILD, os.path.join(lib.VERIF, "evidence")):
    os.makedirs(d, exist_ok=True)
subprocess.run(["g++", "--version"], check=True, stdout=subprocess.DEVNULL)
subprocess.run(["java", "-version"], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
print("ok")
