from os_common import *


def long_case(rng):
    """Some streams which are in use at once: the sizes written and the limits read."""
    streams = []
    for _ in range(rng.choice([1, 2, 4])):
        total, sizes = rng.choice([20000, 300000, vf.tier(1000000, 4000000)]), []
        top = rng.choice([50, 5000, 200000])
        top = max(top, total // 1000)
        while sum(sizes) < total:
            sizes.append(rng.randint(1, top))
        streams.append(dict(back=rng.random() < 0.5, sizes=sizes, limits=[max(rng.randint(1, rng.choice([100, 70000])), total // 2000) for _ in range(5)]))
    return streams


def slow_case(rng):
    """Writes of more than what is on its way at once."""
    return [dict(back=rng.random() < 0.5, sizes=[rng.randint(1, 1000), 8000000, rng.randint(1, 1000)], limits=[rng.randint(400000, 1000000) for _ in range(3)])]


def judge(check, package, what, module, cases, traces, key):
    rejected, states, transitions = vf.check_traces(module, module + ".cfg", traces)
    check.count("states", states)
    check.count("transitions", transitions)
    check.count("traces_validated_against_impl", len(traces))
    for i in rejected:
        check.violation("%s: %s: %s" % (package, what, short(traces[i])), dict(package=package, case=cases[i], trace=traces[i]), key and key(traces[i]))


def body(check):
    with ThreadPoolExecutor(2) as ex:
        rs = [x.result() for x in [ex.submit(vf.tlc_samples, "SocketsGen", "Sockets%s.cfg" % f, 3, vf.tier(450, 15000), depth=70) for f in ("Streams", "Datagrams")]]
    for r in rs:
        check.add_tlc(r)
    behaviours = [b for r in rs for b in r.behaviours]
    check.sample(dict(history=behaviours[0]))
    check.sample(dict(history=behaviours[-1]))
    longs = [long_case(check.rng) for _ in range(vf.tier(12, 100))] + [slow_case(check.rng) for _ in range(2)]
    with Places() as places:
        for package in PACKAGES:
            cases = net_cases(behaviours, package, False)
            traces, done = [], []
            for c, r in zip(cases, places.run(package, cases, shards=8)):
                if "skipped" in r:
                    continue
                check.count("histories")
                if "out" not in r:
                    check.violation("%s: %s does not end: %s" % (package, c["ops"], r), dict(package=package, case=c, got=r))
                    continue
                traces.append(r["out"])
                done.append(c)
            judge(check, package, "sockets do what they must not", "SocketsTrace", done, traces, None)
            cases = net_cases(longs, package, True)
            traces, done = [], []
            for c, r in zip(cases, places.run(package, cases, shards=2, timeout=60)):
                check.count("long_streams", len(c["streams"]))
                if r.get("wrong", True):
                    check.violation("%s: streams %s: %s" % (package, short(c["streams"]), short(r)), dict(package=package, case=c, got=r))
                    continue
                for t in r["traces"]:
                    traces.append(t)
                    done.append(c)
            judge(check, package, "a stream does not carry what was written", "StreamTrace", done, traces, None)
    check.assumptions.append("the loopback network delivers what is sent over it")


vf.main("C21", "model_checking", body)
