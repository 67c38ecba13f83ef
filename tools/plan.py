"""Which workloads decide which property, and how much of them a tier runs."""
import os
JOBS = os.cpu_count() or 8
RULE_DEFAULT = ("one evaluation = one seeded random history executed on the real library by the harness; distinct = different event traces "
                "(hash of everything the monitors observed: hooks, deliveries, confirmations, timers)")
RULE = {}
ASSUMPTIONS_DEFAULT = ["the compiler, its sanitizers and the C++ runtime are correct",
                       "the simulated event loops offer what the real ones can do (per-sender FIFO inboxes, timers not early and in deadline order per loop)"]
ASSUMPTIONS = {}

def W(workload, quick, thorough, need=(), bin="sim", flavor="dbg", chunk=None, timeout=600, args=(), jobs=None):
    return dict(workload=workload, quick=quick, thorough=thorough, need=list(need), bin=bin, flavor=flavor, chunk=chunk, timeout=timeout, args=list(args), jobs=jobs)

DELIV = ["required deliveries checked", "unsubscriptions", "subscriptions confirmed", "required deliveries to actors which are shutting down"]
TREE = ["shutdowns explained", "supervisors initialized", "failed initializations"]
MESH = ["handlers called", "items received", "answers", "posts received", "routed messages", "probes", "outsiders"]
STOP = ["handlers called", "items received", "early shutdowns"]
CLOCK = ["timers fired", "timers cancelled", "timers started by blocking handlers", "lone timers", "request timeouts", "timers cancelled by shutdown"]
LOOPS = ["thread", "asio", "ev", "wx", "fltk"]
SIM = ["deliv", "deliv-tag", "deliv-route", "req", "timer", "tree", "tree-init", "tree-down", "tree-marks", "spawn", "link", "reg", "res", "cfg", "text"]
BULK = ["bulk-msg", "bulk-sub", "bulk-timer", "bulk-req", "bulk-res", "bulk-reg", "bulk-tree", "bulk-spawn", "bulk-link"]
FWD = ["timers completed", "reads completed", "writes completed", "posted completions", "completions with values which only move", "failures", "completions after the end of the actor", "completions of supervisors"]
GROW = ["actors", "supervisors created at run time", "actors created by running handlers", "spawned actors", "children killed", "completions", "completions of dead actors", "shut down while initializing", "failed initializations", "links"]
def G(quick, thorough, flavor="dbg"): return [W("grow", quick, thorough, GROW, bin="rt", flavor=flavor, timeout=900)]
def RT(kind, names, quick, thorough, need=(), flavor="dbg", jobs=None):
    return [W(f"{kind}-{n}", quick, thorough, need, bin="rt", flavor=flavor, timeout=900, jobs=jobs) for n in names]

PLAN = {
    "P01": [W("deliv", 6000, 60000, DELIV), W("deliv-tag", 800, 10000, DELIV), W("deliv-route", 800, 10000, DELIV), W("bulk-msg", 500, 15000, ["cases with more than 65536 messages"])] + RT("mesh", ["mix"], 60, 2000, MESH),
    "P02": [W("deliv", 6000, 60000, DELIV + ["responses"]), W("deliv-tag", 800, 10000, DELIV), W("deliv-route", 800, 10000, DELIV), W("bulk-msg", 300, 8000, ["cases with more than 65536 messages"])] + RT("mesh", ["mix"], 60, 2000, MESH),
    "P03": [W("deliv", 8000, 80000, DELIV + ["unsubscriptions of a method among others with the same signature"]), W("deliv-tag", 1000, 10000, DELIV), W("bulk-sub", 200, 6000, ["unsubscribed"])],
    "P04": [W("req", 6000, 60000, ["requests settled", "timeouts", "answers to unknown requests", "answers beaten by the expiry in the same poll"]), W("timer", 500, 10000), W("bulk-req", 300, 8000, ["timeouts", "answers"])] + RT("mesh", ["mix"], 40, 1000, MESH),
    "P05": [W("timer", 6000, 60000, ["timers fired", "timers cancelled"]), W("req", 1000, 20000), W("tree", 300, 5000), W("bulk-timer", 500, 15000, ["cases with more than 65536 timers"])],
    "P06": [W("tree", 3000, 30000, TREE), W("tree-down", 3000, 30000, TREE), W("tree-init", 800, 15000), W("bulk-tree", 200, 6000)] + G(400, 12000),
    "P07": [W("tree-init", 7000, 60000, TREE + ["failed initializations under strict supervisor", "failed initializations under tolerant supervisor", "synchronized starts"]), W("tree", 800, 15000), W("bulk-tree", 300, 10000, ["trees started"]), W("spawn", 2000, 20000, ["instances seen by the end of initialization"])] + G(400, 12000),
    "P08": [W("tree-down", 7000, 60000, TREE), W("tree", 800, 15000), W("tree-marks", 800, 15000), W("bulk-tree", 300, 8000, ["trees started"])] + G(400, 12000),
    "P09": [W("tree-marks", 7000, 60000, TREE + ["escalations", "autoshutdowns"]), W("tree", 800, 15000)],
    "P10": [W("spawn", 10000, 100000, ["instances made", "escalations", "factories threw", "restarts, always", "restarts, ask", "restarts, fail", "restarts, normal", "given up, never", "supervisors which are slow to go down"]), W("bulk-spawn", 200, 8000, ["instances made", "factories threw"])] + G(400, 12000),
    "P11": [W("link", 10000, 100000, ["links established", "servers outliving clients", "unlinked on request", "raw links", "double links refused", "links refused", "unlink postponed till own clients are gone"]), W("bulk-link", 300, 10000, ["links established", "servers shut down"])] + G(200, 6000),
    "P12": [W("reg", 10000, 100000, ["registrations accepted", "registrations refused", "discoveries by the framework", "deferred discoveries fulfilled", "deferred discoveries cancelled", "clients initialized", "clients failed", "answers checked", "withdrawals by the framework", "full scans"]), W("bulk-reg", 300, 10000, ["names"])],
    "P13": [W("res", 10000, 100000, ["gated initializations", "gated shutdowns", "queries compared", "last resource released by the start of shutdown", "plugins passed", "plugins postponed", "resources changed by a polled plugin", "resources changed by configuration of other plugins"]), W("link", 1000, 20000), W("deliv", 3000, 30000, ["several initial subscriptions", "initial subscriptions elsewhere"]), W("bulk-res", 600, 20000, ["counts beyond 65535"]), W("bulk-sub", 100, 3000)],
    "P14": [W("deliv-route", 8000, 80000, DELIV + ["messages routed", "messages redirected"]), W("deliv", 800, 10000, DELIV), W("bulk-msg", 300, 8000, ["messages routed"])] + RT("mesh", ["mix"], 60, 2000, MESH),
    "P15": [W(w, 400, 8000) for w in SIM] + [W(w, 80, 2000) for w in BULK] + RT("mesh", LOOPS + ["mix"], 20, 400) + RT("stop", LOOPS + ["mix"], 40, 800, STOP) + [W("fwd", 40, 800, bin="rt"), W("cfg-loops", 60, 1000, bin="rt")] + G(300, 8000),
    "P16": RT("mesh", LOOPS + ["mix"], 60, 1500, MESH, flavor="tsan") + RT("stop", LOOPS + ["mix"], 100, 2500, STOP, flavor="tsan") + RT("clock", LOOPS, 20, 400, CLOCK, flavor="tsan") + [W("fwd", 60, 1500, FWD, bin="rt", flavor="tsan")] + G(250, 6000, "tsan"),
    "P17": RT("mesh", LOOPS, 60, 1500, MESH) + RT("mesh", ["mix"], 100, 2500, MESH) + RT("stop", LOOPS + ["mix"], 100, 2500, STOP),
    "P18": RT("clock", LOOPS, 100, 2500, CLOCK),
    "P19": [W("text", 8000, 80000, ["error chains longer than two", "requests in texts of errors", "tables of codes", "texts of handler_call", "texts of discovery_future", "texts of user messages"]),
            W("deliv-tag", 400, 8000), W("reg", 600, 10000), W("link", 400, 8000), W("tree-down", 400, 8000)],
    "P20": [W("cfg", 12000, 120000, ["configured, root", "configured, supervisor", "configured, actor with own options", "misconfigured, root", "misconfigured, actor", "misconfigured, supervisor",
                                    "misconfigured, second root", "misconfigured, second root, incomplete", "two registries", "shutdown flags"]),
            W("cfg-loops", 300, 6000, [f"{c}, {k}" for c in ("configured", "misconfigured") for k in LOOPS + ["nested"]] + ["second roots tried", "shut down by flag", "owned ev loops", "foreign ev loops"], bin="rt")],
    "P21": [W("deliv-tag", 8000, 80000, DELIV + ["interceptions", "tags"]), W("deliv", 800, 10000, DELIV)],
    "P22": [W("fwd", 400, 10000, FWD, bin="rt"), W("fwd", 60, 1500, FWD, bin="rt", flavor="tsan")] + G(300, 10000),
}

def entries(prop, tier):
    out = []
    for e in PLAN[prop]:
        e = dict(e)
        e["cases"] = e["thorough"] if tier == "thorough" else e["quick"]
        if not e["cases"]: continue
        if not e["chunk"]: e["chunk"] = max(1, min(1000, e["cases"] // (2 * JOBS) or 1))
        out.append(e)
    return out

def targets():
    return sorted({(e["bin"], e["flavor"]) for p in PLAN.values() for e in p if e["quick"]})
TECHNIQUE_DEFAULT = "runtime monitors (online + at quiescence) over seeded stress histories on simulated event loops, under ASan/UBSan/debug STL"
TECHNIQUE = {}
NOTE_DEFAULT = ("Exploration: held on all the histories executed (their number and what was observed in them is in the evidence). "
                "Trusts the monitors, the sanitizers and that the simulated loops offer only what real loops can do.")
NOTE = {}
