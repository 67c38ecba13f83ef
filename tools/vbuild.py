#!/usr/bin/env python3
"""Content-addressed build of /repo's sources plus the harness into /verif/.cache.

Nothing is decided by time stamps: every object is keyed by the hash of its source, of every
header of /repo and of the harness, and of the command line, so that a stale object can never
be linked.  Nothing is written into /repo.
"""
import hashlib, os, subprocess, sys, concurrent.futures, fcntl, glob, shutil, time
REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".cache")
CXX = "clang++"
COMMON = ["-std=c++17", "-g1", "-fno-omit-frame-pointer", "-DROTOR_STATIC_DEFINE",
          "-Wno-everything", "-pthread"]
FLAVORS = {
    # asserts on, address + undefined behaviour sanitizers
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=vptr,function", "-fno-sanitize-recover=undefined"],
    # release flavour of the library (NDEBUG: plain delivery, no asserts), still under ASan
    "rel": ["-O1", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize=vptr,function", "-fno-sanitize-recover=undefined"],
    # the same plus the checking STL (iterator validity, bounds)
    "dbg": ["-O1", "-D_GLIBCXX_DEBUG", "-fsanitize=address,undefined", "-fno-sanitize=vptr,function", "-fno-sanitize-recover=undefined"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "plain": ["-O1"],
    "gdb": ["-O0", "-g"],  # for people
}
BACKENDS = ("asio", "thread", "ev", "wx", "fltk")
_wx = None
def wxflags(kind):
    global _wx
    if _wx is None:
        _wx = {k: subprocess.run(["wx-config", k, "base"] if k == "--libs" else ["wx-config", k],
                                 capture_output=True, text=True).stdout.split() for k in ("--cxxflags", "--libs")}
        _wx["--cxxflags"] = [f for f in _wx["--cxxflags"] if f not in ("-pthread",)] + ["-DwxUSE_GUI=0"]
    return _wx[kind]
LIBS = {"asio": [], "thread": [], "ev": ["-lev"], "fltk": ["-lfltk", "-lX11"], "wx": None}

class BuildError(Exception): pass

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:32]
def rd(p):
    with open(p, "rb") as f: return f.read()
def tree_hash(roots, exts):
    h = hashlib.sha256()
    for root in roots:
        for d, dn, fn in sorted(os.walk(root)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(exts):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, root).encode()); h.update(b"\0"); h.update(rd(p)); h.update(b"\0")
    return h.hexdigest()

def gen_exports():
    root = os.path.join(CACHE, "gen")
    defs = {"rotor/export.h": "ROTOR_API"}
    for b in BACKENDS: defs[f"rotor/{b}/export.h"] = f"ROTOR_{b.upper()}_API"
    for p, m in defs.items():
        p = os.path.join(root, p)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        text = f"#pragma once\n#define {m}\n"
        if not os.path.exists(p) or open(p).read() != text:
            tmp = p + f".{os.getpid()}"
            open(tmp, "w").write(text); os.replace(tmp, p)
    return root

def core_sources():
    S = os.path.join(REPO, "src/rotor")
    return sorted(glob.glob(S + "/*.cpp") + glob.glob(S + "/detail/*.cpp") + glob.glob(S + "/misc/*.cpp") + glob.glob(S + "/plugin/*.cpp"))
def backend_sources(b): return sorted(glob.glob(os.path.join(REPO, "src/rotor", b, "*.cpp")))

_hh = None
def header_hash():
    global _hh
    if _hh is None:
        _hh = (tree_hash([os.path.join(REPO, "include"), os.path.join(REPO, "src")], (".h", ".hpp", ".ipp", ".inl")),
               tree_hash([os.path.join(VERIF, "harness")], (".h", ".hpp")))
    return _hh

def jobs_for(sources, flavor, extra=(), harness=False):
    gen = gen_exports()
    repo_h, harness_h = header_hash()
    out = []
    for s in sources:
        flags = COMMON + FLAVORS[flavor] + list(extra) + ["-I" + gen, "-I" + os.path.join(REPO, "include")]
        if harness: flags += ["-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(REPO, "src")]
        key = sha(CXX, " ".join(flags).replace(REPO, "@R").replace(VERIF, "@V"), rd(s), repo_h, harness_h if harness else "", os.path.basename(s))
        out.append((s, flags, os.path.join(CACHE, "obj", key + ".o")))
    return out

def compile_one(j):
    src, flags, obj = j
    if os.path.exists(obj):
        os.utime(obj); return None
    tmp = f"{obj}.{os.getpid()}.tmp"
    r = subprocess.run([CXX, *flags, "-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode != 0: return f"{src}:\n{r.stderr[-6000:]}"
    os.replace(tmp, obj); return None

TARGETS = {  # name -> (harness sources, backends, extra flags)
    "sim": (["sim_*.cpp"], [], []),
    "rt": (["rt_*.cpp"], ["asio", "thread", "ev", "wx", "fltk"], ["@wx"]),
}

def build(names):
    """names: iterable of (target, flavor); returns {(target,flavor): path}. Raises BuildError."""
    os.makedirs(os.path.join(CACHE, "obj"), exist_ok=True)
    os.makedirs(os.path.join(CACHE, "bin"), exist_ok=True)
    plan, alljobs = {}, {}
    for t, fl in names:
        hs, bs, extra = TARGETS[t]
        extra = [x for e in extra for x in (wxflags("--cxxflags") if e == "@wx" else [e])]
        js = jobs_for(core_sources(), fl)
        for b in bs: js += jobs_for(backend_sources(b), fl, wxflags("--cxxflags") if b == "wx" else ())
        hsrc = sorted(p for g in hs for p in glob.glob(os.path.join(VERIF, "harness", g)))
        js += jobs_for(hsrc, fl, extra, True)
        plan[(t, fl)] = (js, bs)
        # harness first: these are the slow ones
        for j in reversed(js): alljobs[j[2]] = j
    lock = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        errs = []
        with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
            for e in ex.map(compile_one, alljobs.values()):
                if e: errs.append(e)
        if errs: raise BuildError("\n".join(errs[:3]))
        out = {}
        for (t, fl), (js, bs) in plan.items():
            objs = [j[2] for j in js]
            libs = []
            for b in bs: libs += wxflags("--libs") if b == "wx" else LIBS[b]
            key = sha(*objs, " ".join(libs), " ".join(FLAVORS[fl]))
            exe = os.path.join(CACHE, "bin", f"{t}-{fl}-{key[:16]}")
            if not os.path.exists(exe):
                tmp = f"{exe}.{os.getpid()}.tmp"
                r = subprocess.run([CXX, *FLAVORS[fl], "-pthread", *objs, *libs, "-o", tmp], capture_output=True, text=True)
                if r.returncode != 0: raise BuildError(f"link {t}-{fl}: {r.stderr[-4000:]}")
                os.replace(tmp, exe)
            out[(t, fl)] = exe
        gc()
        return out
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)

def gc(limit=3 << 30):
    fs = []
    for d in ("obj", "bin"):
        for e in os.scandir(os.path.join(CACHE, d)):
            st = e.stat(); fs.append((st.st_mtime, st.st_size, e.path))
    total = sum(f[1] for f in fs)
    if total < limit: return
    for m, s, p in sorted(fs):
        if total < limit // 2 or time.time() - m < 3600: break
        os.unlink(p); total -= s

if __name__ == "__main__":
    want = [tuple(a.split(":")) for a in sys.argv[1:]]
    t0 = time.time()
    try:
        for k, v in build(want).items(): print(k, v)
    except BuildError as e:
        print(e, file=sys.stderr); sys.exit(2)
    print(f"{time.time()-t0:.1f}s", file=sys.stderr)
