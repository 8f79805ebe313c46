from arc_common import *


def body(check):
    bindir = vf.build("ffi", ["async_stack"])
    r = vf.tlc_behaviours("AsyncStack", vf.tier("AsyncStack.cfg", "AsyncStackT.cfg"), workers=6)
    s = vf.tlc_behaviours("AsyncStack", "AsyncStackSim.cfg", workers=1, simulate=vf.tier(1500, 20000), depth=42, seed=vf.SEED)
    check.add_tlc(r)
    check.add_tlc(s)
    cases = [dict(b, cap=c) for b in r.behaviours + s.behaviours for c in (1, 64)]
    check.count("traces_validated_against_impl", len(cases))
    check.set(refusals=sum(1 for b in r.behaviours for x in b["hist"] if x.get("ok") is False))
    shards = 6
    parts = [cases[i::shards] for i in range(shards)]
    with ThreadPoolExecutor(shards) as ex:
        results = list(ex.map(lambda p: vf.Runner([os.path.join(bindir, "async_stack")], timeout=10).run(p), parts))
    for part, res in zip(parts, results):
        for case, out in zip(part, res):
            if "skipped" not in out and out.get("problem", True) is not None:
                check.violation("history %s: %s" % ([x["op"] for x in case["hist"]], out), dict(kind="async-stack", case=case, outcome=out))
    check.sample(cases[len(cases) // 2]["hist"])


vf.main("C05", "model_checking", body)
