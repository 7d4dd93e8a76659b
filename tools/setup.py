#!/usr/bin/env python3
"""Parses every specification with SANY and checks that the tools the checks need are there."""
import glob, os, shutil, subprocess, sys, tempfile
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
J = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
d = tempfile.mkdtemp()
bad = 0
for f in glob.glob(os.path.join(V, "spec", "*.tla")):
    shutil.copy(f, d)
for f in sorted(os.listdir(d)):
    p = subprocess.run(["java", "-cp", J, "tla2sany.SANY", f], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode or b"rror" in p.stdout:
        bad += 1
        sys.stdout.buffer.write(p.stdout)
print("%d modules, %d with problems" % (len(os.listdir(d)), bad))
shutil.rmtree(d)
sys.exit(1 if bad else 0)
