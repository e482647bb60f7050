#!/usr/bin/env python3
"""Builds the repository's own test programs (which need rapidjson) against the shim and runs them under ASan+UBSan."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import build as B
rc = 0
for t in ("test", "template_test", "key_test", "reflect_test"):
    exe = B.build("up_" + t, [os.path.join(B.REPO, "src", t + ".cpp")] + B.LIB, "asan")
    p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd="/tmp")
    print(t, p.returncode)
    if p.returncode: rc = 1; print(p.stdout.decode(errors="replace")[-3000:])
sys.exit(rc)
