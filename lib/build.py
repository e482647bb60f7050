"""Builds harness binaries from /repo's current working tree (sanitized), with a content-addressed object cache."""
import concurrent.futures, fcntl, hashlib, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
H = os.path.join(VERIF, "harness")

COMMON = ["-w", "-include", "cstdint", "-include", "limits", "-I" + os.path.join(VERIF, "shim"),
          "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + H]
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
CONFIGS = {
    # name: (c++ compiler, c compiler, flags, link flags)
    "asan": ("g++", "gcc", ["-O1", "-g1"] + ASAN, ASAN),
    "asan0": ("g++", "gcc", ["-O0", "-g1"] + ASAN, ASAN),
    "tsan": ("g++", "gcc", ["-O1", "-g1", "-fsanitize=thread"], ["-fsanitize=thread", "-pthread"]),
    "plain": ("g++", "gcc", ["-O1", "-g1"], []),
    "fuzz": ("clang++", "clang", ["-O1", "-g1", "-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize-recover=all",
                               "-fsanitize-ignorelist=" + os.path.join(H, "fuzz.ignore")],
             ["-fsanitize=fuzzer,address,undefined"]),
}
LIB = [os.path.join(REPO, "src", f) for f in ("abi.cpp", "crypto.cpp", "abieos.cpp")] + \
      [os.path.join(REPO, "include/eosio/fpconv.c")]
VH = [os.path.join(H, f) for f in ("vh_main.cpp", "vh_capi.cpp", "vh_native.cpp", "vh_ship.cpp")]
PROGRAMS = {  # name: (sources, config)
    "vh": (VH + LIB, "asan"),
    "vht": (VH[:1] + [os.path.join(H, "vh_types.cpp")] + LIB, "asan"),  # types of a loaded ABI
    "vhf": (VH[:1] + [os.path.join(H, "vh_fault.cpp")] + LIB, "asan"),  # allocation failures
    "vhn": (VH[:-1] + LIB, "asan", ("-DABIEOS_NO_INT128",)),  # the library's own 128-bit integers, for compilers without them
    "mt": ([os.path.join(H, "mt_main.cpp")] + VH[1:] + LIB, "tsan"),
}


class BuildError(Exception):
    pass


def _tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "include"), os.path.join(REPO, "src"), os.path.join(REPO, "tools"),
                 os.path.join(VERIF, "shim")):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".hpp", ".h", ".cpp", ".c")):
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    for f in sorted(os.listdir(H)):
        if f.endswith(".hpp"):
            with open(os.path.join(H, f), "rb") as fh:
                h.update(fh.read())
    return h.digest()


def _drop(path):
    """Another check may be using the objects of another tree: only old ones go."""
    if time.time() - os.stat(path).st_mtime > 3600:
        os.unlink(path)


def build(name, sources=None, config=None, defines=()):
    """Returns the path of an up-to-date binary."""
    if sources is None:
        sources, config, defines = (*PROGRAMS[name], ())[:3]
    cxx, cc, flags, link = CONFIGS[config]
    out = os.path.join(BUILD, config)
    os.makedirs(out, exist_ok=True)
    tree = _tree_hash()

    def compile_one(src):
        isc = src.endswith(".c")
        cmd = [cc if isc else cxx] + ([] if isc else ["-std=gnu++17"]) + flags + \
              (["-w", "-I" + os.path.join(REPO, "include")] if isc else COMMON) + list(defines)
        h = hashlib.sha256(tree)
        h.update(" ".join(cmd).encode())
        with open(src, "rb") as f:
            h.update(src.encode() + f.read())
        stem = os.path.basename(src).replace(".", "_") + ("-" + hashlib.md5(" ".join(defines).encode()).hexdigest()[:6] if defines else "")
        obj = os.path.join(out, stem + "-" + h.hexdigest()[:24] + ".o")
        with open(os.path.join(out, stem + ".lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(obj):
                for f in os.listdir(out):  # drop stale objects of the same source
                    if f.startswith(stem + "-") and f.endswith(".o") and len(f) == len(stem) + 27:
                        _drop(os.path.join(out, f))
                tmp = obj + ".tmp%d" % os.getpid()
                p = subprocess.run(cmd + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if p.returncode:
                    raise BuildError("compiling %s\n%s" % (src, "\n".join(
                        l for l in p.stdout.decode(errors="replace").splitlines() if "error" in l)[:4000]))
                os.rename(tmp, obj)
            else:
                os.utime(obj)
        return obj

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(compile_one, sources))
    h = hashlib.sha256("\n".join(objs + link).encode()).hexdigest()[:24]
    exe = os.path.join(out, name + "-" + h)
    with open(os.path.join(out, name + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            for f in os.listdir(out):
                if f.startswith(name + "-") and len(f) == len(name) + 25:
                    _drop(os.path.join(out, f))
            tmp = exe + ".tmp%d" % os.getpid()
            p = subprocess.run([cxx] + objs + link + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise BuildError("linking %s\n%s" % (name, p.stdout.decode(errors="replace")[:4000]))
            os.rename(tmp, exe)
        else:
            os.utime(exe)
    return exe


if __name__ == "__main__":
    for n in sys.argv[1:] or ("vh", "mt"):
        print(build(n))
