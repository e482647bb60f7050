"""Runs in-process workloads (harness/nat_*.cpp) as several differently seeded processes and merges what their monitors observed."""
import concurrent.futures, glob, os, shutil, subprocess, tempfile
from . import build as B
from .plan import crash_key
from .run import ENV

PROGRAMS = {}


def binary(name, config="asan"):
    own = sorted(glob.glob(os.path.join(B.H, "nat_%s.cpp" % name)) + glob.glob(os.path.join(B.H, "nat_%s_?.cpp" % name)))
    return B.build("nat_" + name, own + (B.LIB if config != "tsan" else B.LIB), config)


def merge(c, rc, text, out, rep):
    if rc == 2: raise RuntimeError("harness: " + text[-1000:])
    if rc != 0 or not os.path.exists(out):
        i = max(text.find("runtime error"), text.find("ERROR: "), text.find("WARNING: "), text.find("terminate called"), 0)
        c.violate("crash:" + crash_key(text), "the workload was ended:\n" + text[max(0, i - 200):i + 3000], rep)
        return
    with open(out, "rb") as f:
        for l in f:
            t = l.decode().rstrip("\n").split(" ")
            if t[0] == "C":
                if t[2] == "evaluations": c.evals += int(t[1])
                else: c.note(" ".join(t[2:]), int(t[1]))
            elif t[0] == "S": c.sample(bytes.fromhex(t[1]).decode(errors="replace"))
            elif t[0] == "V": c.violate(bytes.fromhex(t[1]).decode(errors="replace"), bytes.fromhex(t[2]).decode(errors="replace"), rep)
            elif t[0] == "H":
                h = f.read(8 * int(t[1]))
                c.distinct.update(h[i:i + 8] for i in range(0, len(h), 8))
                break


def run(c, name, cases, procs=8, config="asan", timeout=None):
    timeout = timeout or (1500 if c.thorough else 420)
    exe = binary(name, config)
    d = tempfile.mkdtemp(prefix="nat")

    def one(k):
        seed, out = c.seed * 1000 + k, os.path.join(d, "out%d" % k)
        a = [exe, str(seed), str(cases), c.tier, out]
        try: p = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, timeout=timeout, cwd=d)
        except subprocess.TimeoutExpired: return k, seed, None, "did not return"
        return k, seed, p.returncode, p.stdout.decode(errors="replace")

    try:
        with concurrent.futures.ThreadPoolExecutor(procs) as ex:
            for k, seed, rc, text in ex.map(one, range(procs)):
                rep = {"run": [name, str(seed), str(cases), c.tier, "/dev/null"]}
                out = os.path.join(d, "out%d" % k)
                merge(c, rc, text, out, rep)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_many(c, programs, cases, config="asan0", per=2):
    """generated programs [(name, source file)]: compiled side by side, each run with differently seeded values"""
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        exes = list(ex.map(lambda p: B.build("gen_" + p[0], [p[1]] + B.LIB, config), programs))
    d = tempfile.mkdtemp(prefix="nat")

    def one(j):
        i, k = j
        seed, out = c.seed * 1000 + k, os.path.join(d, "out%d_%d" % j)
        try: p = subprocess.run([exes[i], str(seed), str(cases), c.tier, out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, timeout=600, cwd=d)
        except subprocess.TimeoutExpired: return i, seed, out, None, "did not return"
        return i, seed, out, p.returncode, p.stdout.decode(errors="replace")

    try:
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for i, seed, out, rc, text in ex.map(one, [(i, k) for i in range(len(exes)) for k in range(per)]):
                with open(programs[i][1]) as f: source = f.read()
                merge(c, rc, text, out, {"program": source, "args": [str(seed), str(cases), c.tier, "/dev/null"]})
    finally:
        shutil.rmtree(d, ignore_errors=True)
