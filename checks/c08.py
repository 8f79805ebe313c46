import json, os, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "bin"))
import vf

EVENTS = {"start", "finish", "out", "open", "run", "complete", "await", "end"}


def body(check):
    bindir = vf.build("app")
    with ThreadPoolExecutor(3) as ex:
        design = ex.submit(vf.tlc, "RaceGen", "RaceCheck.cfg", workers=3)
        gen = ex.submit(vf.tlc_behaviours, "RaceGen", vf.tier("RaceGen.cfg", "RaceGenT.cfg"), workers=3)
        sim = ex.submit(vf.tlc_behaviours, "RaceGen", "RaceSim.cfg", workers=1, simulate=vf.tier(150, 2000), depth=4, seed=vf.SEED)
        check.add_tlc(design.result())
        programs = gen.result().behaviours + sim.result().behaviours
    programs = list({json.dumps(p, sort_keys=True): p for p in programs}.values())
    cases = []
    for i, p in enumerate(programs):
        for j, w in enumerate((0, 1, 2, 4)):
            if vf.THOROUGH or (i + j) % 2 == 0 or p["tasks"]:
                cases.append(dict(p, workers=w, yielding=(i + j) % 5 == 0))
    shards = 6
    parts = [cases[i::shards] for i in range(shards)]
    with ThreadPoolExecutor(shards) as ex:
        results = list(ex.map(lambda p: vf.Runner([os.path.join(bindir, "harness-app")], timeout=40, limit=3).run(p), parts))
    traces, owner = [], []
    for part, res in zip(parts, results):
        for case, out in zip(part, res):
            if "events" in out:
                bad = [e["e"] for e in out["events"] if e["e"] not in EVENTS]
                if bad:
                    check.violation("%s: %s" % (json.dumps(case), bad), dict(kind="concurrency", case=case, events=out["events"]))
                else:
                    traces.append(dict(prog=case, events=out["events"]))
                    owner.append(case)
            elif "skipped" not in out:
                check.violation("%s: %s" % (json.dumps(case), out), dict(kind="concurrency", case=case, outcome=out))
    rejected, states, transitions = vf.check_traces("RaceTrace", "RaceTrace.cfg", traces, workers=8)
    check.count("states", states)
    check.count("transitions", transitions)
    check.count("traces_validated_against_impl", len(traces))
    check.set(programs=len(programs))
    if traces:
        check.sample(dict(program=traces[-1]["prog"], events=traces[-1]["events"][:20]))
    for i in rejected:
        check.violation("%s: recorded execution is no behaviour of race and spawn: %s" % (json.dumps(owner[i]), traces[i]["events"]),
                        dict(kind="concurrency", case=owner[i], events=traces[i]["events"]))


vf.main("C08", "model_checking", body)
