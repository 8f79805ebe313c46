from arc_common import *


def body(check):
    r = vf.tlc("ArcImpl", "ArcImpl.cfg", workers=8)   # the protocol itself, all interleavings and orderings
    check.add_tlc(r)
    bindir = vf.build("ffi", ["arc_seq", "arc_conc"])
    # histories without in-place changes belong to this property
    keep = lambda p, h: all(s["op"] != "mutate" for s in h)
    sequential(check, bindir, vf.tier("SharedValueGen.cfg", "SharedValueGenT.cfg"), ["rich", "u8", "f64", "buffer7", "text"], False, keep)
    ps = programs(["clone", "drop", "read"], vf.tier(2, 3))
    cases = [dict(threads=[a, b], bound=vf.tier(2, 4), limit=vf.tier(400, 4000)) for i, a in enumerate(ps) for b in ps[i:]]
    three = programs(["clone", "drop", "read"], 1)
    cases += [dict(threads=list(c), bound=vf.tier(1, 3), limit=vf.tier(300, 4000)) for c in itertools.combinations_with_replacement(three, 3)]
    concurrent(check, bindir, cases)
    check.assumptions += ["sequentially consistent interleavings of the recorded atomic operations; ordering violations are found by the happens-before relation computed in ArcTrace.tla"]


vf.main("C01", "model_checking", body)
