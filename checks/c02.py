from arc_common import *


def body(check):
    r = vf.tlc("ArcImpl", "ArcImpl.cfg", workers=8)
    check.add_tlc(r)
    bindir = vf.build("ffi", ["arc_seq", "arc_conc"])
    keep = lambda p, h: any(s["op"] == "mutate" for s in h)
    sequential(check, bindir, vf.tier("SharedValueGen.cfg", "SharedValueGenT.cfg"), ["rich", "u32"], False, keep)
    sequential(check, bindir, vf.tier("SharedValueCow.cfg", "SharedValueCowT.cfg"), ["buffer1", "buffer64"], False, keep)
    ps = [p for p in programs(["clone", "drop", "read", "mutate"], vf.tier(2, 3))]
    cases = [dict(threads=[a, b], bound=vf.tier(2, 3), limit=vf.tier(120, 3000)) for i, a in enumerate(ps) for b in ps[i:] if "mutate" in a + b]
    three = programs(["drop", "mutate"], 1)
    cases += [dict(threads=list(c), bound=vf.tier(1, 3), limit=vf.tier(150, 4000)) for c in itertools.combinations_with_replacement(three, 3) if any("mutate" in x for x in c)]
    concurrent(check, bindir, cases)


vf.main("C02", "model_checking", body)
