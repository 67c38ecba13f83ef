#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property on /repo's current tree.

Runs the workloads of tools/plan.py for the property (seeded, bounded by a number of cases), collects what
the monitors observed and reported, writes evidence/<property>.json.
Exit: 0 held on everything explored, 1 + VIOLATION line, 2 error of the check itself.
"""
import json, os, re, sys, subprocess, threading, time, queue, signal, tempfile, shutil, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild, plan
VERIF = vbuild.VERIF
ENV = dict(os.environ,
    ASAN_OPTIONS="detect_leaks=1:abort_on_error=0:exitcode=99:allocator_may_return_null=0:detect_stack_use_after_return=1:malloc_context_size=12",
    LSAN_OPTIONS="exitcode=98:suppressions=" + os.path.join(VERIF, "tools/lsan.supp") + ":print_suppressions=0",
    UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=99",
    TSAN_OPTIONS="halt_on_error=1:exitcode=99:second_deadlock_stack=1:history_size=4:suppressions=" + os.path.join(VERIF, "tools/tsan.supp"),
    ASAN_SYMBOLIZER_PATH=shutil.which("llvm-symbolizer-18") or shutil.which("llvm-symbolizer") or "",
    TSAN_SYMBOLIZER_PATH=shutil.which("llvm-symbolizer-18") or shutil.which("llvm-symbolizer") or "")
ENV.pop("DISPLAY", None)

def known_findings():
    """known-findings.jsonl: {"property","kind":"known","workload","what": regex,"finding": text}; lines 'fixed:' are a record only"""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: "): out.append(json.loads(l[len("known: "):]))
    return out

class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.lock = threading.Lock()
        self.viol, self.known, self.other, self.errors, self.inconclusive = [], {}, [], [], []
        self.cases, self.distinct, self.counters, self.per = 0, set(), {}, {}
        self.stop = False
        self.kf = [k for k in known_findings() if k["property"] == prop]

def crash_key(err):
    """call site of a crash: innermost frames of the library"""
    fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):(\d+)", err)
    lib = [f for f, p, l in fr if "/rotor/" in p and "/harness/" not in p]
    kind = re.search(r"(AddressSanitizer|ThreadSanitizer|LeakSanitizer|runtime error|Assertion|Error: attempt)[^\n]*", err)
    return (kind.group(0)[:200] if kind else "no report") + " @ " + " < ".join(x.split("(")[0] for x in lib[:4])

def report(run, e, what, case, err, viol_prop, extra=None):
    """one violation of run.prop in workload e"""
    for k in run.kf:
        if (not k.get("workload") or k["workload"] == e["workload"]) and re.search(k["what"], what):
            with run.lock: run.known.setdefault(k["finding"], 0); run.known[k["finding"]] += 1
            return
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(f"{e['workload']}{case}{what}".encode()).hexdigest()[:10]
    p = os.path.join(d, f"{run.prop}-{h}.json")
    with open(p, "w") as f:
        json.dump({"property": run.prop, "what": what, "binary": e["bin"], "flavor": e["flavor"], "workload": e["workload"],
                   "seed": run.seed, "case": case, "args": e.get("args", []),
                   "replay_cmd": f"python3 {VERIF}/tools/replay.py {p}", "output": err[-12000:]}, f, indent=1)
    with run.lock:
        run.viol.append((what, os.path.relpath(p, VERIF), e["workload"], case))
        run.stop = True

def worker(run, q, tmp, wid):
    while not run.stop:
        try: e, a, b = q.get_nowait()
        except queue.Empty: return
        try: do_range(run, e, a, b, tmp, wid)
        except Exception as x:
            with run.lock: run.errors.append(f"{e['workload']}: {x!r}")

def do_range(run, e, a, b, tmp, wid, retry=0):
    prog = os.path.join(tmp, f"p{wid}")
    if os.path.exists(prog): os.unlink(prog)
    cmd = [e["exe"], "--workload", e["workload"], "--seed", str(run.seed), "--from", str(a), "--to", str(b), "--progress", prog] + e.get("args", [])
    to = e.get("timeout", 240)
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=to, env=ENV, cwd=tmp)
        rc, out, err = r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as x:
        rc, out, err = "timeout", "", (x.stderr or b"").decode("utf8", "replace")
    line = out.strip().split("\n")[-1] if out.strip() else ""
    if rc in (0, 1) and line.startswith("{"):
        d = json.loads(line)
        with run.lock:
            run.cases += d["cases"]
            run.distinct.update((e["workload"], h) for h in d["distinct"])
            pw = run.per.setdefault(e["workload"], {"cases": 0, "distinct": 0, "counters": {}})
            pw["cases"] += d["cases"]
            for k, v in d["counters"].items(): pw["counters"][k] = pw["counters"].get(k, 0) + v
        mine = [v for v in d["violations"] if v["prop"] == run.prop]
        rest = [v for v in d["violations"] if v["prop"] != run.prop]
        with run.lock: run.other += [(v["prop"], v["what"], e["workload"], v["case"]) for v in rest][:20]
        seen = set()
        for v in mine:
            sig = re.sub(r"\d+", "#", v["what"])
            if sig in seen: continue
            seen.add(sig)
            report(run, e, v["what"], v["case"], err, v["prop"])
        return
    case = None
    try: case = int(open(prog).read().split()[0])
    except Exception: pass
    if rc == "timeout" or rc == 97:
        if not retry and case is not None:
            # a hang must repeat alone before it is believed
            do_hang(run, e, case, tmp, wid, err)
            if not run.stop and case + 1 < b: do_range(run, e, case + 1, b, tmp, wid)
            return
        with run.lock: run.inconclusive.append(f"{e['workload']} case {case}: no answer in {to} s")
        return
    if case is None or rc in (2, 3, 126, 127) or rc in (-9,):
        with run.lock: run.errors.append(f"{e['workload']}: rc={rc} {err[-1500:]}")
        return
    what = f"{e['workload']}: the process died (rc {rc}): {crash_key(err)}"
    report(run, e, what, case, err, run.prop)
    if not run.stop and case + 1 < b: do_range(run, e, case + 1, b, tmp, wid)   # a known one: go on behind it

def do_hang(run, e, case, tmp, wid, err0):
    cmd = [e["exe"], "--workload", e["workload"], "--seed", str(run.seed), "--from", str(case), "--to", str(case + 1)] + e.get("args", [])
    for i in range(2):
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=120, env=ENV, cwd=tmp)
            if r.returncode in (0, 1):
                with run.lock: run.inconclusive.append(f"{e['workload']} case {case}: hung once, not when repeated")
                return
            err = r.stderr
        except subprocess.TimeoutExpired as x:
            err = (x.stderr or b"").decode("utf8", "replace")
    report(run, e, f"{e['workload']}: does not terminate (repeated three times): {crash_key(err)}", case, err or err0, run.prop)

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    entries = plan.entries(prop, tier)
    try: built = vbuild.build(sorted({(e["bin"], e["flavor"]) for e in entries}))
    except vbuild.BuildError as x:
        print(f"ERROR: build failed\n{x}", file=sys.stderr); return 2
    run = Run(prop, tier, seed)
    q = queue.Queue()
    chunks = []
    for e in entries:
        e["exe"] = built[(e["bin"], e["flavor"])]
        n, step = e["cases"], e.get("chunk", 200)
        cs = [(e, a, min(n, a + step)) for a in range(0, n, step)]
        for i, c in enumerate(cs): chunks.append(((i + 0.5) / len(cs), len(chunks), c))   # interleave the workloads
    for _, _, c in sorted(chunks, key=lambda x: x[:2]): q.put(c)
    tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    jobs = min(plan.JOBS, int(os.environ.get("VERIF_JOBS", plan.JOBS)))
    if any(e.get("jobs") for e in entries): jobs = min([jobs] + [e["jobs"] for e in entries if e.get("jobs")])
    ts = [threading.Thread(target=worker, args=(run, q, tmp, i)) for i in range(jobs)]
    for t in ts: t.start()
    for t in ts: t.join()
    shutil.rmtree(tmp, ignore_errors=True)
    # a run which observed nothing decides nothing
    counters = {}
    for w, p in run.per.items():
        for k, v in p["counters"].items(): counters[k] = counters.get(k, 0) + v
    for e in entries:
        for k in e.get("need", []):
            if not run.stop and run.per.get(e["workload"], {}).get("counters", {}).get(k, 0) == 0:
                run.errors.append(f"{e['workload']}: nothing observed for '{k}'")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    for w in run.per: run.per[w]["distinct"] = sum(1 for x in run.distinct if x[0] == w)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": run.cases, "distinct_nontrivial": len(run.distinct),
                       "rule": plan.RULE.get(prop, plan.RULE_DEFAULT),
                       "samples": [{"workload": e["workload"], "binary": e["bin"], "flavor": e["flavor"], "seed": seed, "cases": f"0..{e['cases']-1}",
                                    "observed": run.per.get(e["workload"], {})} for e in entries],
                       "violations_of_other_properties": len(run.other), "inconclusive": run.inconclusive},
          "assumptions": plan.ASSUMPTIONS.get(prop, plan.ASSUMPTIONS_DEFAULT),
          "wall_s": round(time.time() - t0, 2), "violations": len(run.viol)}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for k, n in run.known.items(): print(f"KNOWN-FINDING: property={prop} {k} (seen {n}x)")
    listed = {k["finding"] for k in run.kf}
    for k in sorted(listed - set(run.known)): print(f"KNOWN-FINDING: property={prop} {k} (not met in this run)")
    for o in sorted(set((p, w) for p, _, w, _ in run.other)): print(f"note: workload {o[1]} also reported {o[0]}: " + next(x[1] for x in run.other if (x[0], x[2]) == o) + f" case {next(x[3] for x in run.other if (x[0], x[2]) == o)}", file=sys.stderr)
    if run.viol:
        seen = set()
        for what, path, w, c in run.viol:
            if len(seen) >= 5: break
            if what in seen: continue
            seen.add(what)
            print(f"  {w} case {c}: {what}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if run.errors:
        print("ERROR: " + "\n".join(run.errors[:5]), file=sys.stderr); return 2
    for i in run.inconclusive: print("inconclusive: " + i, file=sys.stderr)
    print(f"{prop}: held on {run.cases} executions ({len(run.distinct)} distinct), {ev['wall_s']} s")
    return 0
if __name__ == "__main__": sys.exit(main())
