import json, os, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "bin"))
import vf


def leaves(t, rt=False):
    if t["k"] == "leaf":
        yield t, rt
    for k in ("a", "b"):
        if isinstance(t.get(k), dict):
            yield from leaves(t[k], rt or t["k"] == "run")


def with_ticks(t, rt=False):
    """Replaces self-waking leaves polled in the runtime's context by timers of that runtime."""
    t = dict(t)
    if t["k"] == "leaf" and rt and t["kind"] == "y" and t["n"] == 2:
        t["kind"] = "tick"
    for k in ("a", "b"):
        if isinstance(t.get(k), dict):
            t[k] = with_ticks(t[k], rt or t["k"] == "run")
    return t


def body(check):
    bindir = vf.build("bridge", ["bridge"])
    with ThreadPoolExecutor(3) as ex:
        design = ex.submit(vf.tlc, "BridgeGen", "BridgeCheck.cfg", workers=3)
        gen = ex.submit(vf.tlc_behaviours, "BridgeGen", vf.tier("BridgeGen.cfg", "BridgeGenT.cfg"), workers=3)
        sim = ex.submit(vf.tlc_behaviours, "BridgeGen", "BridgeSim.cfg", workers=1, simulate=vf.tier(1500, 20000), depth=24, seed=vf.SEED)
        check.add_tlc(design.result())
        programs = gen.result().behaviours + sim.result().behaviours
    unique = {}
    for p in programs:
        t = with_ticks(p["term"])
        ls = list(leaves(t))
        ticks = any(l["kind"] == "tick" for l, _ in ls)
        unique[json.dumps([t, p["sched"]], sort_keys=True)] = dict(term=t, sched=p["sched"], ticks=ticks, evs=[l["id"] for l, _ in ls if l["kind"] == "ev"])
    programs = list(unique.values())
    # evs in both orders, all value types
    cases = []
    for i, p in enumerate(programs):
        for j, ty in enumerate(("number", "string", "rich")):
            if p["ticks"] and (i + j) % vf.tier(4, 2):
                continue
            cases.append(dict(p, type=ty, evs=p["evs"][::-1] if (i + j) % 2 else p["evs"]))
    shards = 8
    parts = [cases[i::shards] for i in range(shards)]
    with ThreadPoolExecutor(shards) as ex:
        results = list(ex.map(lambda p: vf.Runner([os.path.join(bindir, "bridge")], timeout=30).run(p), parts))
    traces, owner = [], []
    for part, res in zip(parts, results):
        for case, out in zip(part, res):
            if "events" in out:
                bad = [e for e in out["events"] if e["e"] in ("panic", "lost", "notick")]
                if bad:
                    check.violation("%s on %s with %s: %s" % (case["type"], json.dumps(case["term"]), case["sched"], bad[0]),
                                    dict(kind="bridge", case=case, events=out["events"]))
                else:
                    traces.append(dict(term=case["term"], events=out["events"]))
                    owner.append(case)
            elif "skipped" not in out:
                check.violation("%s with %s: %s" % (case["term"], case["sched"], out), dict(kind="bridge", case=case, outcome=out))
    rejected, states, transitions = vf.check_traces("BridgeTrace", "BridgeTrace.cfg", traces, workers=8)
    check.count("states", states)
    check.count("transitions", transitions)
    check.count("traces_validated_against_impl", len(traces))
    check.set(terms=len({json.dumps(p["term"]) for p in programs}), timers=sum(p["ticks"] for p in programs))
    check.sample(dict(term=traces[-1]["term"], events=traces[-1]["events"]))
    for i in rejected:
        check.violation("%s on %s with %s: recorded execution is no behaviour of bridged computations: %s" % (owner[i]["type"], json.dumps(owner[i]["term"]), owner[i]["sched"], traces[i]["events"]),
                        dict(kind="bridge", case=owner[i], events=traces[i]["events"]))


vf.main("C06", "model_checking", body)
