#!/usr/bin/env python3
"""replay.py FILE: re-runs the operations recorded in a replay file and prints their outcomes."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib.build import build
from lib.plan import show
from lib.run import run_scripts
d = json.load(open(sys.argv[1]))
print(d["property"], d["key"]); print(d["what"])
r = d["replay"] or {}
if "ops" in r:
    res, _, _ = run_scripts(build(r.get("program", "vh")), [r["ops"]])
    for l, x in zip(r["ops"], res[0]): print(show(l, 2000), "->", x.msg if x.crash else x)
elif "fuzz" in r:
    import subprocess, tempfile
    from checks import fuzz
    with tempfile.NamedTemporaryFile() as f:
        f.write(bytes.fromhex(r["input"])); f.flush()
        subprocess.run([fuzz.build(r["fuzz"]), f.name])
elif "run" in r:
    import subprocess
    from lib.native import binary
    subprocess.run([binary(r["run"][0])] + r["run"][1:])
elif "mt" in r or "program" in r:
    import subprocess, tempfile
    from lib import build as B
    from lib.run import ENV
    with tempfile.TemporaryDirectory() as d:
        if "mt" in r:
            with open(d + "/ops", "w") as f: f.write("\n".join(r["mt"]) + "\n")
            a = [build("mt"), d + "/ops", d + "/log", str(r["seed"])]
        else:
            with open(d + "/p.cpp", "w") as f: f.write(r["program"])
            a = [B.build("replayed", [d + "/p.cpp"] + B.LIB, "asan0"), *r["args"][:-1], d + "/log"]
        print("exit", subprocess.run(a, env=ENV).returncode)
        for l in open(d + "/log", "rb") if os.path.exists(d + "/log") else []:
            l = l[:2000].decode(errors="replace").rstrip("\n")
            if l.startswith("V "): print(*(bytes.fromhex(x).decode(errors="replace") for x in l.split(" ")[1:]))
            elif "mt" in r and not l.endswith("\t="): print(l)
            elif l.startswith("H "): break
else:
    print("replay:", r)
