from arc_common import *


def body(check):
    bindir = vf.build("ffi", ["cont_stack"])
    r = vf.tlc_behaviours("ContStack", vf.tier("ContStack.cfg", "ContStackT.cfg"), workers=6)
    s = vf.tlc_behaviours("ContStack", "ContStackSim.cfg", workers=1, simulate=vf.tier(1500, 20000), depth=62, seed=vf.SEED)
    check.add_tlc(r)
    check.add_tlc(s)
    check.set(growths_covered=max(b["grown"] for b in r.behaviours + s.behaviours))
    cases = r.behaviours + s.behaviours
    cases = cases + [dict(c, **{"async": True}) for c in s.behaviours]
    check.count("traces_validated_against_impl", len(cases))
    shards = 6
    parts = [cases[i::shards] for i in range(shards)]
    with ThreadPoolExecutor(shards) as ex:
        results = list(ex.map(lambda p: vf.Runner([os.path.join(bindir, "cont_stack")], timeout=10).run(p), parts))
    for part, res in zip(parts, results):
        for case, out in zip(part, res):
            if "skipped" not in out and out.get("problem", True) is not None:
                ops = " ".join("%s(%s)" % (x["op"], x["t"]) for x in case["hist"])
                check.violation("capacity %d: %s: %s" % (case["cap"], ops, out), dict(kind="stack", case=case, outcome=out))
    check.sample(dict(capacity=cases[0]["cap"], history=cases[0]["hist"]))


vf.main("C04", "model_checking", body)
