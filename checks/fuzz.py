"""Coverage-guided workloads (libFuzzer) for the checks: fixed numbers of runs from generated seeds."""
import os, re, shutil, struct, subprocess, tempfile, hashlib
from lib import build as B
from lib.plan import crash_key
from ref import abi as R
from . import dyn

TARGETS = {"capi": ["fuzz_capi.cpp"]}


def build(target):
    return B.build("fuzz_" + target, [os.path.join(B.H, f) for f in TARGETS[target]] + B.LIB, "fuzz")


def seeds_capi(r, n):
    src = open(os.path.join(B.H, "fuzz_capi.cpp")).read()
    import json
    a = R.Abi(json.loads(src[src.index('R"(') + 3:src.index(')";')]))
    names = re.findall(r'"([^"]+)"', src[src.index("types[] = {"):src.index("constexpr int")])
    def rec(op, ty, b):
        b = (b.encode() if isinstance(b, str) else b)[:4000]
        return bytes([op, ty]) + struct.pack("<H", len(b)) + b
    out = []
    for i in range(n):
        o = b""
        for _ in range(r.choice([1, 1, 2, 3])):
            ty = r.randrange(len(names) - 3)
            t = a.canon(names[ty])
            v = a.gen(t, r)
            k = r.randrange(8)
            if k < 2: o += rec(k, ty, R.jwrite(a.spell(t, v, r)))
            elif k == 2: o += rec(2, ty, a.enc(t, v))
            elif k == 3: o += rec(3, ty, a.enc(t, v).hex())
            elif k == 4:
                g = R.gen_abi(r, size=1)
                n, t = r.choice(R.usable_types(g))
                o += r.choice([rec(4, 0, g.json()), rec(5, 0, g.bin()), rec(6, 0, g.bin().hex())]) + rec(r.choice([10, 11]), 0, n.encode() + b"\0" + R.jwrite(g.spell(t, g.gen(t, r), r)).encode())
            else: o += rec(k, ty, r.randbytes(8))
        out.append(o)
    return out


def run(c, target, runs, timeout=None):
    """runs: executions per worker, with one worker per core"""
    timeout = timeout or c.n(400, 3600)
    exe = build(target)
    d = tempfile.mkdtemp(prefix="fz")
    try:
        procs = []
        for w in range(8):
            sd, co, ar = (os.path.join(d, x + str(w)) for x in ("seed", "corp", "art"))
            for x in (sd, co, ar): os.mkdir(x)
            for i, b in enumerate(globals()["seeds_" + target](c.rng, 120)):
                with open(os.path.join(sd, "%04d" % i), "wb") as f: f.write(b)
            env = dict(os.environ, ASAN_OPTIONS="exitcode=77:allocator_may_return_null=0", UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1", LC_ALL="C")
            log = open(os.path.join(d, "log%d" % w), "wb")
            procs.append((w, ar, subprocess.Popen([exe, "-runs=%d" % runs, "-seed=%d" % (c.seed * 8 + w + 1), "-max_len=2500", "-len_control=0", "-timeout=60", "-rss_limit_mb=3500",
                                                   "-malloc_limit_mb=2000", "-artifact_prefix=" + ar + "/", "-print_final_stats=1", co, sd], stdout=log, stderr=log, env=env, cwd=d)))
            log.close()
        for w, ar, p in procs:
            try: p.wait(timeout)
            except subprocess.TimeoutExpired:
                p.kill(); p.wait()
                c.note("fuzz_workers_stopped_by_time")
                continue
            t = open(os.path.join(d, "log%d" % w), errors="replace").read()
            m = re.findall(r"cov: (\d+) ft: (\d+) corp: (\d+)", t)
            if m:
                c.extra["fuzz_coverage_edges_max"] = max(c.extra.get("fuzz_coverage_edges_max", 0), int(m[-1][0]))
                c.extra["fuzz_features_max"] = max(c.extra.get("fuzz_features_max", 0), int(m[-1][1]))
                c.note("fuzz_corpus_units", int(m[-1][2]))
            m = re.search(r"number_of_executed_units: (\d+)", t)
            if m: c.note("fuzz_executions", int(m.group(1)))
            if p.returncode:
                arts = os.listdir(ar)
                if not arts and "out-of-memory" not in t and "MONITOR" not in t and "Sanitizer" not in t:
                    raise RuntimeError("fuzzer exit %s: %s" % (p.returncode, t[-1500:]))
                b = open(os.path.join(ar, arts[0]), "rb").read() if arts else b""
                mon = re.search(r"MONITOR: ([^\n]*)", t)
                i = max(t.find("ERROR:"), 0) if not mon else t.find("MONITOR")
                j = t.find("runtime error")
                if j >= 0: i = max(0, j - 200)
                c.violate("fuzz:" + (mon.group(1) if mon else crash_key(t)), "%s\n%s" % (t[i:i + 2500], b.hex()[:600]), {"fuzz": target, "input": b.hex()})
            else: c.count(("fuzz", w), None)
    finally:
        shutil.rmtree(d, ignore_errors=True)
