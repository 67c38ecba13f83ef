#!/usr/bin/env python3
"""Mutation campaign (for people, not a check): small changes of the library which survive its own tests are given to the workloads.

    mutation.py DIR WORKER WORKERS LIST.json OUT.jsonl     runs the mutants i with i % WORKERS == WORKER
    mutation.py --list N SEED LIST.json [glob...]          draws N mutants

Everything happens in copies below DIR.
"""
import glob, json, os, random, re, subprocess, sys, time, hashlib
REPO = "/repo"; VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def mutants_of(path):
    src = open(os.path.join(REPO, path)).read().split("\n")
    out = []
    def put(i, new, op): out.append({"file": path, "line": i + 1, "op": op, "old": src[i], "new": new})
    for i, l in enumerate(src):
        s = l.strip()
        if not s or s.startswith(("//", "#", "*", "/*", "template", "using", "namespace", "static_assert", "assert", "public", "private", "protected")): continue
        code = l.split("//")[0]
        # a statement goes away
        if re.match(r"^\s{4,}[\w:>\-\.\(\)\*&\[\]]+.*;\s*$", code) and not re.match(r"^\s*(return|auto|const|using|break|continue|struct|class|friend|virtual|static|template|bool|int|size_t|std::\w+<.*> \w+;|\w+(_t|_ptr)?\s+&?\*?\w+\s*(=|;|\{))", code) and code.count("(") == code.count(")"):
            put(i, re.match(r"^\s*", l).group(0) + ";", "drop statement")
        if re.match(r"^\s*return\s*;\s*$", code) or re.match(r"^\s*(break|continue);\s*$", code): put(i, re.match(r"^\s*", l).group(0) + ";", "drop jump")
        m = re.match(r"^(\s*(?:\} else )?if \()(.+)(\) \{.*)$", code)
        if m and "auto" not in m.group(2) and ";" not in m.group(2):
            put(i, m.group(1) + "!(" + m.group(2) + ")" + m.group(3), "negate condition")
            put(i, m.group(1) + "true || (" + m.group(2) + ")" + m.group(3), "always true")
            put(i, m.group(1) + "false && (" + m.group(2) + ")" + m.group(3), "always false")
        for a, b in ((" && ", " || "), (" || ", " && "), (" == ", " != "), (" != ", " == "), (" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" + ", " - "), (" - ", " + "),
                     ("true", "false"), ("false", "true"), ("++", "--"), ("--", "++"), (" = true", " = false"), ("emplace_back", "emplace_front"), ("push_back", "push_front"), ("emplace_front", "emplace_back"), ("push_front", "push_back"),
                     ("front()", "back()"), (".begin()", ".end()"), ("std::move(", "("), ("erase(", "count("), ("|= ", "&= "), ("&= ~", "|= "), ("&= ", "|= ")):
            for m in re.finditer(re.escape(a), code):
                if a in ("true", "false") and (m.start() and (code[m.start() - 1].isalnum() or code[m.start() - 1] == "_")): continue
                if a in (" < ", " > ") and "template" in code: continue
                put(i, l[:m.start()] + b + l[m.end():], f"{a.strip()} -> {b.strip()}")
        for m in re.finditer(r"\b[01]\b", code):
            if "struct" in code or "version" in code: continue
            put(i, l[:m.start()] + ("1" if m.group(0) == "0" else "0") + l[m.end():], "0/1")
        # two statements change places
        if i + 1 < len(src):
            n = src[i + 1]
            st = r"^(\s{4,})[\w:>\-\.\(\)\*&\[\]]+.*;\s*$"
            a, b = re.match(st, l), re.match(st, n)
            if a and b and a.group(1) == b.group(1) and not s.startswith(("return", "break", "auto", "using")) and not n.strip().startswith(("return", "break", "auto", "using", "//")):
                out.append({"file": path, "line": i + 1, "op": "swap", "old": l + "\n" + n, "new": n + "\n" + l})
    return out

def listing(n, seed, out, globs):
    files = []
    for g in globs or ["src/rotor/*.cpp", "src/rotor/*/*.cpp"]: files += glob.glob(os.path.join(REPO, g))
    ms = [m for f in sorted(set(files)) for m in mutants_of(os.path.relpath(f, REPO))]
    random.Random(seed).shuffle(ms)
    # not more than one of a kind per line
    seen, keep = set(), []
    for m in ms:
        k = (m["file"], m["line"])
        if k in seen: continue
        seen.add(k); keep.append(m)
    json.dump(keep[:n], open(out, "w"), indent=0)
    print(len(ms), "possible,", len(keep), "lines,", min(n, len(keep)), "drawn")

def sh(cmd, timeout, **k):
    p = subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True, **k)
    try: o, _ = p.communicate(timeout=timeout); return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); o, _ = p.communicate(); return "timeout", o

SIM = ["deliv", "deliv-tag", "deliv-route", "req", "timer", "tree", "tree-init", "tree-down", "tree-marks", "spawn", "link", "reg", "res", "cfg", "text"]
RT = ["mesh-mix", "stop-mix", "mesh-wx", "mesh-fltk", "stop-wx", "stop-fltk", "mesh-thread", "mesh-asio", "mesh-ev", "clock-thread", "clock-asio", "clock-ev", "clock-wx", "clock-fltk", "stop-thread", "stop-asio", "stop-ev", "cfg-loops", "fwd"]
def detect(d, jobs):
    env = dict(os.environ, VERIF_REPO=f"{d}/repo", VERIF_JOBS=str(jobs), RT_STALL="8",
               ASAN_OPTIONS="detect_leaks=1:exitcode=99:detect_stack_use_after_return=1", UBSAN_OPTIONS="halt_on_error=1:exitcode=99")
    rc, o = sh(f"python3 {d}/verif/tools/vbuild.py sim:dbg rt:dbg", 1200, env=env)
    if rc != 0: return "build", o[-300:]
    exe = dict(l.split(") ") for l in o.split("\n") if l.startswith("('"))
    exe = {k.split("'")[1]: v for k, v in exe.items()}
    runs = [(exe["sim"], w, 400) for w in SIM] + [(exe["rt"], w, 30) for w in RT]
    for e, w, n in runs:
        rc, o = sh(f"{e} --workload {w} --seed 1 --from 0 --to {n}", 240, env=env)
        if rc == 0 or rc == 3: continue
        js = [l for l in o.split("\n") if l.startswith('{"cases"')]
        if js:
            v = json.loads(js[-1])["violations"]
            return "caught", f"{w}: " + "; ".join(sorted({x['prop'] for x in v})) + ": " + (v[0]["what"][:160] if v else "")
        m = re.search(r"(ERROR: \w+Sanitizer[^\n]*|runtime error[^\n]*|Assertion[^\n]*|Error: [^\n]*)", o)
        return "caught", f"{w}: rc {rc} " + (m.group(0)[:200] if m else "")
    return "SURVIVED", ""

def main():
    d0, k, n, lst, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], sys.argv[5]
    jobs = int(os.environ.get("JOBS", "2"))
    d = f"{d0}/{k}"
    os.makedirs(d, exist_ok=True)
    subprocess.run(f"rsync -a --delete --exclude _build --exclude .git /repo/ {d}/repo/ && rsync -a --delete --exclude .git --exclude seeded --exclude evidence /verif/ {d}/verif/", shell=True, check=True) if not subprocess.run("which rsync", shell=True, capture_output=True).returncode else \
        subprocess.run(f"rm -rf {d}/verif; mkdir -p {d}/repo; cd /repo && git archive HEAD | tar x -C {d}/repo && mkdir -p {d}/verif && cp -a /verif/tools /verif/harness {d}/verif/", shell=True, check=True)
    cfg = open("/opt/vp/build.sh").read().replace("cd /repo", f"cd {d}/repo")
    open(f"{d}/build.sh", "w").write(cfg)
    ms = json.load(open(lst))
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l); done.add((r["file"], r["line"], r["new"]))
    env = dict(os.environ, JOBS=str(jobs)); env.pop("DISPLAY", None)
    rc, o = sh(f"bash {d}/build.sh", 3600, env=env)
    if rc != 0: print(o[-2000:]); sys.exit(1)
    for i, m in enumerate(ms):
        if i % n != k or (m["file"], m["line"], m["new"]) in done: continue
        p = f"{d}/repo/{m['file']}"
        orig = open(p).read()
        ls = orig.split("\n"); j = m["line"] - 1
        old = m["old"].split("\n")
        if ls[j:j + len(old)] != old: continue
        ls[j:j + len(old)] = m["new"].split("\n")
        t0 = time.time()
        open(p, "w").write("\n".join(ls))
        try:
            rc, o = sh(f"bash {d}/build.sh", 1500, env=env)
            if rc != 0: res = ("nocompile", "")
            else:
                rc, o = sh(f"ctest --test-dir {d}/repo/_build -j3 --timeout 10 --stop-on-failure", 300, env=env)
                if rc != 0:  # once more, alone: many of the tests use timers of a few milliseconds
                    f = re.findall(r"^\s*\d+ - (\S+) \((?!Not Run)", o, re.M)
                    res = ("tests", " ".join(f[:2]))
                else: res = detect(d, jobs)
        finally: open(p, "w").write(orig)
        m.update(status=res[0], how=res[1], s=round(time.time() - t0))
        with open(out, "a") as f: f.write(json.dumps(m) + "\n")
if __name__ == "__main__":
    if sys.argv[1] == "--list": listing(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], sys.argv[5:])
    else: main()
