from os_common import *


def case_of(rng, n, xs):
    """Exchanges in batches: those of one are under way at once."""
    ids, batches = list(range(1, len(xs) + 1)), []
    while ids:
        k = rng.choice([1, 2, 3, len(ids)])
        batches.append(ids[:k])
        ids = ids[k:]
    return dict(ip="127.%d.%d.%d" % (20 + n // 40000, n // 200 % 200, 2 + n % 200), exchanges=xs, batches=batches)


def body(check):
    r = vf.tlc_samples("HttpGen", "HttpGen.cfg", 4, vf.tier(600, 4000), depth=18)
    check.add_tlc(r)
    groups, rng = [], check.rng
    some = list(r.behaviours)
    while some:
        k = rng.choice([1, 2, 3])
        groups.append([x for b in some[:k] for x in b])
        some = some[k:]
    cases = [case_of(rng, n, xs) for n, xs in enumerate(groups)]
    check.sample(short(cases[0]))
    traces, done = [], []
    with Places() as places:
        for c, x in zip(cases, places.run("http", cases, shards=8, timeout=60)):
            if "skipped" in x:
                continue
            check.count("histories")
            check.count("exchanges", len(c["exchanges"]))
            if "events" not in x:
                check.violation("exchanges do not end: %s: %s" % (short(x), short(c)), dict(case=c, got=x))
                continue
            if x["early"] is not None or any(y != {"ok": False} for y in x["refused"]):
                check.violation("a server ends (%s), or serves where it cannot: %s" % (x["early"], x["refused"]), dict(case=c, got=x))
            traces.append(dict(exchanges=c["exchanges"], events=x["events"]))
            done.append(c)
    parts = [range(i, min(i + 60, len(traces))) for i in range(0, len(traces), 60)]
    with ThreadPoolExecutor(8) as ex:
        judged = list(ex.map(lambda p: vf.check_traces("HttpTrace", "HttpTrace.cfg", [traces[i] for i in p], workers=1), parts))
    for p, (rejected, states, transitions) in zip(parts, judged):
        check.count("states", states)
        check.count("transitions", transitions)
        check.count("traces_validated_against_impl", len(p))
        for i in rejected:
            check.violation("exchanges which are none: %s" % short(traces[p[i]]), dict(case=done[p[i]], trace=traces[p[i]]))
    check.assumptions.append("the loopback network delivers what is sent over it")


vf.main("C24", "model_checking", body)
