"""A plan is a set of self-contained scripts of operations, each with a judge for its observed outcome."""
import re
from .run import op, run_scripts, Res


def crash_key(err):
    """A stable identifier of a sanitizer report: kind and first frame in the code under test."""
    k = re.search(r"(runtime error: [^\n]*|ERROR: (?:AddressSanitizer|LeakSanitizer|ThreadSanitizer): [\w-]+|terminate called[^\n]*|did not return)", err)
    kind = k.group(1) if k else "killed"
    kind = re.sub(r"0x[0-9a-f]+|-?\d+", "N", kind.replace("runtime error: ", "ub:").replace("ERROR: ", ""))[:80]
    f = re.search(r"(/repo/[\w/.]+:\d+)", err)
    where = re.sub(r":\d+$", "", f.group(1)).replace("/repo/", "") if f else "?"
    return ("%s@%s" % (kind, where)).replace(" ", "_")


class Script:
    def __init__(self): self.lines, self.judges, self.meta = [], [], []

    def add(self, judge, name, *a, meta=None):
        self.lines.append(op(name, *a))
        self.judges.append(judge)
        self.meta.append(meta)
        return len(self.lines) - 1


def expect_ok(res):
    return None if res.ok else "expected success, got %r" % res


class Plan:
    def __init__(self, check, exe, name="vh"): self.c, self.exe, self.name, self.scripts = check, exe, name, []

    def replay(self, ops): return {"ops": ops, "program": self.name} if self.name != "vh" else {"ops": ops}

    def script(self):
        s = Script()
        self.scripts.append(s)
        return s

    def run(self, timeout=500, stats=False, leaks=False, jobs=8):
        c = self.c
        results, crashes, leak_reports = run_scripts(self.exe, [s.lines for s in self.scripts], jobs=jobs, timeout=timeout, stats=stats, leaks=leaks)
        for s, rs in zip(self.scripts, results):
            for i, (l, j, r) in enumerate(zip(s.lines, s.judges, rs)):
                if r.kind == "SKIP":
                    c.note("skipped_after_crash")
                    continue
                if r.kind == "CRASH":
                    err = r.f[0].decode(errors="replace")
                    c.violate("crash:" + crash_key(err), "the operation ended the process: " + show(l) + "\n" + err[-2500:], self.replay(s.lines[:i + 1]))
                    continue
                if r.kind == "E" and r.f and r.f[0].startswith(b"HARNESS"):
                    c.violate("harness-monitor:" + op_name(l), "%s: %s" % (show(l), r), self.replay(s.lines[:i + 1]))
                    continue
                c.note("events")
                if j is None: continue
                v = j(r)
                if v:
                    if isinstance(v, str): v = (op_name(l), v)
                    c.violate(v[0], "%s\n   %s" % (show(l), v[1]), self.replay(s.lines[:i + 1]))
        for e in leak_reports:
            c.violate("leak:" + crash_key(e), e[:2500], None)
        self.scripts = []
        return results


def op_name(l): return l.split(" ", 1)[0]


def show(l, n=400):
    o = []
    for t in l.split(" "):
        if not o or t in ("~", ".") or t[0] == "#": o.append(t)
        else:
            b = bytes.fromhex(t)
            o.append(repr(b.decode()) if all(32 <= x < 127 for x in b) else "0x" + t)
    s = " ".join(o)
    return s if len(s) <= n else s[:n] + "..."
