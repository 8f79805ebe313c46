import json, os, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "bin"))
import vf

SHARDS = 6
# The known defects of states shared by threads.
TRANSIENT = "a read puts the default value in its place for a moment"
UNSYNCHRONIZED = "a value which was written in one thread is copied in another one without having been synchronized"


def run(cmd, cases, timeout, limit):
    parts = [cases[i::SHARDS] for i in range(SHARDS)]
    with ThreadPoolExecutor(SHARDS) as ex:
        rs = list(ex.map(lambda p: vf.Runner(cmd, timeout=timeout, limit=limit).run(p), parts))
    out = [None] * len(cases)
    for i, r in enumerate(rs):
        out[i::SHARDS] = r
    return out


HEAD = """import Test'State { State }

type boxed {
  number number
}

seen = \\(x any) number {
  if x = x as boxed {
    x.number
  } else if none {
    0
  } else if number {
    x
  } else {
    -1
  }
}
"""


def module(h, fails):
    """A module that lets its states live through a history, and what it shows."""
    lines, names, want, depth = [], [], [], 0
    for s in h:
        o = s["o"]
        pad = "  " * (depth + 1)
        if o["o"] == "new":
            depth += 1
            names.append("s%d" % len(names))
            lines.append(pad + "State'Run(\\(%s State) none | error {" % names[-1])
        elif o["o"] == "share":
            names.append("s%d" % len(names))
            lines.append(pad + "%s = %s" % (names[-1], names[o["h"] - 1]))
        elif o["o"] == "get":
            want.append(str(o["r"]))
            lines.append(pad + "debug(seen(State'Get(%s)))" % names[o["h"] - 1])
        elif o["o"] == "set":
            v = o["v"]
            lines.append(pad + "State'Set(%s, %s)" % (names[o["h"] - 1], "none" if v == 0 else "boxed{number: %d}" % v if v % 3 == 1 else "%d" % v))
    lines.append("  " * (depth + 1) + ('error("e")' if fails else "none"))
    lines += ["  " * d + "})" for d in range(depth, 0, -1)]
    return HEAD + "\nMain = \\() none | error {\n%s\n}\n" % "\n".join(lines), want


def compiled(check, histories):
    """Histories that begin with a state, through the module of the package."""
    pen = [os.path.join(vf.build("pen"), "harness-pen")]
    some = [h for h in histories if h[0]["o"]["o"] == "new" and not any(s["o"]["o"] == "freeze" for s in h) and sum(s["o"]["o"] == "get" for s in h) > 1]
    some = [(h, *module(h, n % 3 == 0), n % 3 == 0) for n, h in enumerate(some[:vf.tier(250, 2500)])]
    cases = [dict(texts={"main/M.pen": t}, roots=["main/M.pen"], calls=[dict(fn="Main", args=[])], budget=1000000) for _, t, _, _ in some]
    for (h, t, want, fails), r in zip(some, run(pen, cases, 60, 10)):
        check.count("modules")
        x = r.get("results", [{}])[0]
        if x.get("debug", []) != want or "v" not in x or (isinstance(x["v"], dict) and "e" in x["v"]) != fails or (not fails and x["v"] is not None):
            check.violation("module %s gives %s, which must show %s" % (t, r, want), dict(kind="module", text=t, want=want, got=r))


def body(check):
    cmd = [os.path.join(vf.build("state"), "harness-state")]
    with ThreadPoolExecutor(4) as ex:
        design = ex.submit(vf.tlc_behaviours, "StateImpl", vf.tier("StateImpl.cfg", "StateImplT.cfg"), workers=2)
        faulty = ex.submit(vf.tlc, "StateImpl", "StateImplF.cfg", workers=1, expect_ok=False)
        gen = ex.submit(vf.tlc_behaviours, "State", vf.tier("StateGen.cfg", "StateGenT.cfg"), workers=3)
        sim = ex.submit(vf.tlc_behaviours, "State", "StateSim.cfg", workers=1, simulate=vf.tier(1500, 20000), depth=15, seed=vf.SEED)
        if faulty.result().ok:
            raise vf.ToolError("the model which loses writes satisfies its invariants")
        for r in (design, gen, sim):
            check.add_tlc(r.result())
        programs, histories = design.result().behaviours, gen.result().behaviours + sim.result().behaviours

    # One thread: what every call gives, and which values live after it.
    def holds(v, x):
        return x["live"] == sorted([a, n] for a, n in v["live"] if a % 3 == 1) and ("r" not in v["o"] or x["v"] == v["o"]["r"])

    cases = [dict(ops=[s["o"] for s in h]) for h in histories]
    for h, case, r in zip(histories, cases, run(cmd, cases, 20, 20)):
        if "skipped" in r:
            continue
        check.count("histories")
        bad = "out" not in r or r["left"] != [] or not all(holds(v, x) for v, x in zip(h, r["out"]))
        if bad:
            steps = ["%s gives %s with %s alive" % (v["o"], x["v"], x["live"]) for v, x in zip(h, r.get("out", []))]
            check.violation("history %s: %s, left over: %s" % (case["ops"], steps or r, r.get("left")), dict(kind="history", case=case, want=h, got=r))
    check.sample(dict(history=histories[-1]))
    compiled(check, [h for h in sim.result().behaviours] + gen.result().behaviours[::7])

    # Several threads: every recorded execution is one of a cell.
    rng = check.rng

    def long(threads, ops):
        return dict(threads=[[dict(o="get") if rng.random() < 0.6 else dict(o="set", v=10 * t + j + 1) for j in range(ops)] for t in range(1, threads + 1)])

    stress = [long(3, 9) for _ in range(vf.tier(60, 600))] + [long(2, 9) for _ in range(vf.tier(60, 600))]
    cases = [dict(p, pause=True) for p in programs] + [c for c in stress + programs for _ in range(3)]
    traces, owner, seen = [], [], set()
    for case, r in zip(cases, run(cmd, cases, 20, 8)):
        if "skipped" in r:
            continue
        check.count("executions")
        if "events" not in r or r["left"] != []:
            check.violation("threads %s: %s" % (case, r), dict(kind="threads", case=case, got=r))
            continue
        if r["unsynchronized"]:
            check.violation("threads %s: values reach other threads unsynchronized: %s" % (case, r), dict(kind="threads", case=case, got=r), key=UNSYNCHRONIZED)
        k = json.dumps(r["events"])
        if k not in seen:
            seen.add(k)
            traces.append(r["events"])
            owner.append(case)
    rejected, states, transitions = vf.check_traces("StateTrace", "StateTrace.cfg", traces, workers=8)
    check.count("states", states)
    check.count("transitions", transitions)
    check.count("traces_validated_against_impl", len(traces))
    check.sample(dict(threads=owner[0], events=traces[0][:20]))
    # Executions which are none of an atomic cell are known if they are ones of the cell whose reads are not atomic.
    other, states, transitions = vf.check_traces("StateTraceK", "StateTraceK.cfg", [traces[i] for i in rejected], workers=8) if rejected else ([], 0, 0)
    check.count("states", states)
    check.count("transitions", transitions)
    for j, i in enumerate(rejected):
        check.violation("threads %s: recorded execution is none of a cell: %s" % (json.dumps(owner[i]), traces[i]), dict(kind="threads", case=owner[i], events=traces[i]), key=None if j in other else TRANSIENT)
    check.assumptions.append("schedules of threads are the ones that happen, and those in which another thread acts while a value is copied; what freezing changes is not specified")


vf.main("C22", "model_checking", body)
