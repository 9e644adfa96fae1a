#!/usr/bin/env python3
"""setup_cmd: verifies that the toolchain is present and that every specification parses."""
import glob, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
cp = ":".join(sorted(glob.glob("/opt/veriftools/tla/*.jar")))
mods = sorted(os.path.basename(f) for f in glob.glob(os.path.join(here, "spec", "*.tla")))
r = subprocess.run(["java", "-cp", cp, "tla2sany.SANY"] + mods, cwd=os.path.join(here, "spec"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if r.returncode:
    print(r.stdout[-3000:]); sys.exit(1)
subprocess.run(["g++", "--version"], check=True, stdout=subprocess.DEVNULL)
print("setup: %d specification modules parse" % len(mods))
