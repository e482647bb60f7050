"""Threads with their own contexts, and threads reading shared loaded ABIs and values, under the race detector and against running alone."""
import concurrent.futures, os, re, shutil, subprocess, tempfile
from lib.build import build
from lib.check import Check
from lib.plan import crash_key
from lib.run import ENV, op
from ref import abi as R, algos as A, ship
from . import dyn
from .c01 import hostile_json, hostile_bin


def script(r, shared, values):
    """one thread's operations: its own contexts, compiled types, helpers, and what is shared"""
    o = []
    a = R.gen_abi(r, size=r.choice([1, 2, 3]))
    ts = [x for x in R.usable_types(a) if dyn.dense(a, x[1])]
    loaded = False
    pool = []
    for n, t in r.sample(ts, min(len(ts), 5)) + [(n, dyn.builtin_t(n)) for n in r.sample(R.BUILTINS, 4)]:
        v = a.gen(t, r, depth=4)
        pool.append((n, t, R.jwrite(a.out(t, v)), a.enc(t, v)))
    acts = {
        "create": lambda: [op("ctx", r.randrange(3))],
        "load": lambda: [op(*r.choice([("abi", 0, 1, a.json()), ("abib", 0, 1, a.bin()), ("abih", 0, 1, a.bin().hex())]))],
        "bad load": lambda: [op("abi", 0, 2, hostile_json(r, a.json()))],
        "lookup": lambda: [op(r.choice(["act", "tab"]), 0, 1, str(A.name_json(x["name"].encode()))) for x in a.d["actions"][:1] + a.d["tables"][:1]],
        "names": lambda: [op("s2n", 0, r.choice(["eosio.token", "abc", "zzzzzzzzzzzzj", "a" * 30])), op("n2s", 0, str(r.getrandbits(64))), op("name", "alice"), op("murmur", r.randbytes(9))],
        "error": lambda: [op("err", 0), op("size", 0), op("hex", 0), op("data", 0)],
        "destroy": lambda: [op("del", 2), op("ctx", 2), op("abi", 2, 1, a.json())],
        "helpers": lambda: [op(*r.choice([("ripe", r.randbytes(r.randrange(90))), ("b58e", r.randbytes(30)), ("hexe", r.randbytes(9)), ("symparse", "4,EOS"), ("assetparse", "1.0000 EOS"), ("assettext", str(r.getrandbits(62)), str(A.code_value("EOS") << 8 | 4)),
                                          ("timetext", str(r.getrandbits(50))), ("timeparse", "2020-01-01T00:00:00.000"), ("jstr", r.randbytes(20))]))],
    }

    def conv():
        n, t, j, b = r.choice(pool)
        k = r.random()
        if k < .35: return [op(r.choice(["j2b", "j2r"]), 0, 1, n, j)]
        if k < .7: return [op("b2j", 0, 1, n, b)]
        if k < .85: return [op(r.choice(["j2b", "j2r"]), 0, 1, n, hostile_json(r, j)), op("err", 0)]
        return [op("b2j", 0, 1, n, hostile_bin(r, b)), op("err", 0)]

    def natv():
        n, t, j, b = r.choice([x for x in pool if x[0] in R.BUILTINS])
        return [op("nj", n, j) if r.random() < .5 else op("nb", n, b)]

    def shar():
        k = r.random()
        if k < .7:
            key, j, b = r.choice(shared)
            return [op(*r.choice([("sj2b", key, j), ("sj2r", key, j), ("sb2j", key, b), ("sb2j", key, b[:r.randrange(len(b) + 1)]), ("sj2b", key, j[:r.randrange(len(j) + 1)])]))]
        if k < .8: return [op(r.choice(["sload", "sexp"]), r.choice(["A", "B"]))]
        return [op("sval", r.choice(values))]
    # the first operations differ from thread to thread, so that anything prepared on first use is raced for
    first = [conv, natv, shar, acts["helpers"], acts["names"]]
    r.shuffle(first)
    o += [op("ctx", 0)]
    for f in first[:r.randrange(1, 4)]:
        if f is conv: o += acts["load"]()
        o += f()
    o += [op("ctx", 0)] if r.random() < .3 else []
    o += acts["load"]() + acts["destroy"]()
    for _ in range(r.randrange(25, 45)):
        k = r.random()
        o += conv() if k < .4 else natv() if k < .55 else shar() if k < .75 else acts[r.choice(list(acts))]()
    return o


def run():
    c = Check("C23", "a case is one operation performed by one of eight threads running at once, each with its own contexts or reading shared ABIs and values, compared with what it gives alone; "
              "a violation is a race reported by ThreadSanitizer or a different outcome; distinct by operation and by the position it took in the observed interleaving")
    r = c.rng
    exe = build("mt")
    rounds = c.n(48, 900)
    d = tempfile.mkdtemp(prefix="mt")
    jobs = []
    for k in range(rounds):
        pro, shared, values = [], [], []
        for key in "AB":
            a = R.gen_abi(r, size=r.choice([1, 3]))
            pro.append(op("shabi", key, a.json()))
            ts = [x for x in R.usable_types(a) if dyn.dense(a, x[1])]
            for i, (n, t) in enumerate(r.sample(ts, min(len(ts), 4)) + [(n, dyn.builtin_t(n)) for n in r.sample(R.BUILTINS, 4)]):
                pro.append(op("shtype", "%s%d" % (key, i), key, n))
                for _ in range(3):
                    v = a.gen(t, r, depth=4)
                    shared.append(("%s%d" % (key, i), R.jwrite(a.out(t, v)), a.enc(t, v)))
        for kind, t in (("asset", "asset"), ("name", "name"), ("key", "public_key"), ("sig", "signature"), ("time", "time_point"), ("float", "float64"), ("string", "string")):
            vs = [R.SCALARS[t].gen(r) for _ in range(3)]
            pro.append(op("shval", kind, kind, b"\3" + b"".join(R.SCALARS[t].enc(v) for v in vs)))
            values.append(kind)
        sa = ship.NATIVE
        t = sa.canon("transaction_trace")
        pro.append(op("shval", "trace", "trace", sa.enc(t, sa.gen(t, r, depth=4))))
        values.append("trace")
        base = r.random() < .3  # sometimes all threads do the same thing
        one = script(r, shared, values)
        scripts = [one if base else script(r, shared, values) for _ in range(8)]
        jobs.append((k, pro, scripts))

    def go(job):
        k, pro, scripts = job
        ops, log = os.path.join(d, "ops%d" % k), os.path.join(d, "log%d" % k)
        with open(ops, "w") as f: f.write("\n".join(pro + [l for s in scripts for l in ["T"] + s]) + "\n")
        try: p = subprocess.run([exe, ops, log, str(c.seed * 1000 + k)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, timeout=400)
        except subprocess.TimeoutExpired: return job, None, b"", []
        return job, p.returncode, p.stdout, open(log).read().split("\n") if os.path.exists(log) else []

    try:
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            for (k, pro, scripts), rc, text, lines in ex.map(go, jobs):
                rep = {"mt": pro + [l for s in scripts for l in ["T"] + s], "seed": c.seed * 1000 + k}
                text = text.decode(errors="replace")
                if rc == 2: raise RuntimeError("harness: " + text[-1000:])
                if rc is None:
                    c.violate("stuck", "eight threads did not finish", rep)
                    continue
                if rc != 0 or not lines or not lines[-2].startswith("END"):
                    i = max(text.find("WARNING: ThreadSanitizer"), 0)
                    m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", text)
                    f = re.search(r"/repo/([\w/.]+):\d+", text[i:])
                    c.violate("%s@%s" % (m.group(1).strip() if m else "ended-%s" % rc, f.group(1) if f else "?"), text[i:i + 4000], rep)
                    continue
                sched = sorted((int(l.split(" ", 3)[2]), int(l.split(" ", 1)[0])) for l in lines[:-2])
                sw = sum(1 for x, y in zip(sched, sched[1:]) if x[1] != y[1])
                c.note("switches between threads observed", sw)
                c.note("rounds")
                c.count(("interleaving", tuple(t for _, t in sched)), "interleavings")
                for l in lines[:-2]:
                    head, alone = l.split("\t")
                    t, i, w, name, res = head.split(" ", 4)
                    c.count((name, scripts[int(t)][int(i)], k), ("shared " if name[0] == "s" and name in ("sj2b", "sj2r", "sb2j", "sload", "sexp", "sval") else "own ") + ("completed" if res[0] == "K" else "refused"))
                    if alone != "=": c.violate("outcome:" + name, "thread %s operation %s: %s: gives %s among other threads, %s alone" % (t, i, scripts[int(t)][int(i)][:300], res[:500], alone[:500]), rep)
                if k == 0: c.sample({"thread 0": scripts[0][:4], "order of threads": "".join(str(t) for _, t in sched)[:300]})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return c.finish(5000)
