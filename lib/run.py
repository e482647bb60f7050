"""Runs operation scripts through the event-log harness and collects the observed outcomes."""
import concurrent.futures, os, shutil, subprocess, tempfile

ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:max_allocation_size_mb=3000:"
                        "allocator_may_return_null=0:detect_stack_use_after_return=1:strict_string_checks=0",
           UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1:exitcode=98",
           TSAN_OPTIONS="halt_on_error=1:exitcode=97", LC_ALL="C")


def enc(a):
    """bytes/str/int/None -> argument token"""
    if a is None: return "~"
    if isinstance(a, int): return "#%d" % a
    if isinstance(a, str): a = a.encode()
    return a.hex() if a else "."


def op(name, *a):
    return name + "".join(" " + enc(x) for x in a)


class Res:
    """Outcome of one operation."""
    __slots__ = ("kind", "f", "total", "peak")

    def __init__(self, kind, f, total=0, peak=0):
        self.kind, self.f, self.total, self.peak = kind, f, total, peak

    @property
    def ok(self): return self.kind == "K"
    @property
    def err(self): return self.kind == "E"
    @property
    def crash(self): return self.kind == "CRASH"
    @property
    def a(self): return self.f[0] if self.f else None
    @property
    def msg(self): return (self.f[0] if self.f else b"").decode(errors="replace")
    def __repr__(self): return "%s(%s)" % (self.kind, ", ".join(repr(x)[:200] for x in self.f))


def parse(line):
    assert line.startswith("> ")
    t = line[2:].split(" ")
    total = peak = 0
    if t[-1].startswith("@"):
        total, peak = map(int, t.pop()[1:].split(":"))
    return Res(t[0], [b"" if x == "." else bytes.fromhex(x) for x in t[1:]], total, peak)


class Timeout(Exception):
    pass


def _run_proc(exe, lines, timeout, stats, leaks):
    d = tempfile.mkdtemp(prefix="vh")
    try:
        ops, log = os.path.join(d, "ops"), os.path.join(d, "log")
        with open(ops, "w") as f:
            f.write("\n".join(lines) + "\n")
        env = dict(ENV)
        if leaks: env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=1")
        to = False
        with open(os.path.join(d, "err"), "wb") as e:
            try:
                rc = subprocess.run([exe, ops, log] + (["--stats"] if stats else []), stdout=e, stderr=e,
                                    env=env, timeout=timeout, cwd=d).returncode
            except subprocess.TimeoutExpired:
                rc, to = -1, True
        err = open(os.path.join(d, "err"), "rb").read().decode(errors="replace")
        txt = open(log).read() if os.path.exists(log) else ""
        got = txt.split("\n")
        done = txt.endswith("END\n")
        res = [parse(x) for x in got[:-2]] if done else [parse(x) for x in got[:-1]]
        return rc, to, done, res, err
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_scripts(exe, scripts, jobs=8, timeout=600, stats=False, leaks=False, max_crashes=6):
    """scripts: list of lists of operation lines, each self-contained. Returns (results per script, crash reports, leak report).

    A crash makes that operation's result CRASH and the script's remaining results SKIP; later scripts still run."""
    n = len(scripts)
    results = [None] * n
    crashes, leak_reports = [], []
    jobs = min(jobs, max(1, n))
    # contiguous-by-stride batches balance the load
    batches = [list(range(k, n, jobs)) for k in range(jobs)]

    def work(idx):
        todo = idx
        ncrash = 0
        while todo:
            lines = [l for i in todo for l in scripts[i]]
            if not lines:
                for i in todo: results[i] = []
                return
            rc, to, done, res, err = _run_proc(exe, lines, timeout, stats, leaks)
            if "unknown op" in err or rc == 2:
                raise RuntimeError("harness error: " + err[-2000:])
            p = 0
            nxt = []
            for k, i in enumerate(todo):
                m = len(scripts[i])
                if p + m <= len(res):
                    results[i] = res[p:p + m]
                    p += m
                else:
                    part = res[p:]
                    if done: raise RuntimeError("harness log inconsistent")
                    if to:
                        # inconclusive so far: run this script alone, generously
                        rc2, to2, done2, res2, err2 = _run_proc(exe, scripts[i], timeout, stats, False)
                        if done2:
                            results[i] = res2
                            nxt = todo[k + 1:]
                            break
                        part, err = res2, "operation did not return (ran alone for %d s)" % timeout if to2 else err2
                    r = Res("CRASH", [err[-6000:].encode()])
                    results[i] = part + [r] + [Res("SKIP", [])] * (m - len(part) - 1)
                    crashes.append((i, len(part), err))
                    ncrash += 1
                    nxt = todo[k + 1:]
                    break
            else:
                if rc != 0 and leaks and "LeakSanitizer" in err and "fatal error" not in err:
                    leak_reports.append(err[-6000:])
                elif rc != 0 and not (leaks and "LeakSanitizer" in err):
                    raise RuntimeError("harness exit %s: %s" % (rc, err[-2000:]))
                nxt = []
            if ncrash >= max_crashes:
                for i in nxt: results[i] = [Res("SKIP", [])] * len(scripts[i])
                nxt = []
            todo = nxt

    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        list(ex.map(work, batches))
    return results, crashes, leak_reports
