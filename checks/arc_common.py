import itertools, os, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "bin"))
import vf


def sequential(check, bindir, cfg, payloads, nomut, keep):
    """Behaviours of SharedValue.tla replayed on the real types, step by step."""
    r = vf.tlc_behaviours("SharedValue", cfg, workers=6)
    check.add_tlc(r)
    cases = [dict(payload=p, hist=h, nomut=nomut) for p in payloads for h in r.behaviours
             if keep(p, h)]
    check.count("behaviours_replayed", len(cases))
    shards = 6
    parts = [cases[i::shards] for i in range(shards)]
    with ThreadPoolExecutor(shards) as ex:
        results = list(ex.map(lambda part: vf.Runner([os.path.join(bindir, "arc_seq")]).run(part), parts))
    for part, res in zip(parts, results):
        for case, out in zip(part, res):
            if "skipped" in out:
                continue
            if out.get("problem", True) is not None:
                ops = " ".join("%s%s" % (s["op"], tuple(s["args"])) for s in case["hist"])
                check.violation("%s: history %s: %s" % (case["payload"], ops, out),
                                dict(kind="sequential", case=case, outcome=out))
    if cases:
        check.sample(dict(payload=cases[-1]["payload"], history=[[s["op"], s["args"], s["ok"]] for s in cases[-1]["hist"]]))
    return len(cases)


def programs(ops, n):
    out = []
    for k in range(n + 1):
        for p in itertools.product(ops, repeat=k):
            h = 1
            ok = True
            for o in p:
                if h == 0:
                    ok = False
                    break
                h += {"clone": 1, "drop": -1}.get(o, 0)
            if ok:
                out.append(list(p))
    return out


def concurrent(check, bindir, cases):
    shards = 8
    parts = [cases[i::shards] for i in range(shards)]
    with ThreadPoolExecutor(shards) as ex:
        results = list(ex.map(lambda part: vf.Runner([os.path.join(bindir, "arc_conc")], timeout=60).run(part), parts))
    traces, owner = [], []
    for part, res in zip(parts, results):
        for case, out in zip(part, res):
            if "traces" not in out:
                if "skipped" not in out:
                    check.violation("threads %s: %s" % (case["threads"], out), dict(kind="crash", case=case, outcome=out))
                continue
            check.count("schedules", out["runs"])
            for t in out["traces"]:
                traces.append(dict(threads=len(case["threads"]), events=t))
                owner.append(case)
    rejected, states, transitions = vf.check_traces("ArcTrace", "ArcTrace.cfg", traces, workers=8)
    check.count("states", states)
    check.count("transitions", transitions)
    check.count("traces_validated_against_impl", len(traces))
    if traces:
        check.sample(dict(threads=owner[0]["threads"], events=traces[0]["events"][:12]))
    for i in rejected:
        check.violation("threads %s: recorded execution is no behaviour of shared values: %s" % (owner[i]["threads"], traces[i]["events"]),
                        dict(kind="trace", case=owner[i], events=traces[i]["events"]))
