from arc_common import *

LAYOUTS = [dict(A="boxa", B="boxb", C="num"), dict(A="num", B="num2", C="small"), dict(A="text", B="pair", C="small"), dict(A="pair", B="boxa", C="text")]


def body(check):
    bindir = vf.build("ffi", ["arc_seq", "any_value"])
    r = vf.tlc_behaviours("AnyValue", vf.tier("AnyValue.cfg", "AnyValueT.cfg"), workers=6)
    check.add_tlc(r)
    cases = [dict(types=t, hist=h) for t in LAYOUTS for h in r.behaviours]
    check.count("traces_validated_against_impl", len(cases))
    shards = 6
    with ThreadPoolExecutor(shards) as ex:
        parts = [cases[i::shards] for i in range(shards)]
        results = list(ex.map(lambda p: vf.Runner([os.path.join(bindir, "any_value")]).run(p), parts))
    for part, res in zip(parts, results):
        for case, out in zip(part, res):
            if "skipped" not in out and out.get("problem", True) is not None:
                ops = " ".join("%s%s" % (s["op"], tuple(s["args"])) for s in case["hist"])
                check.violation("types %s: %s: %s" % (case["types"], ops, out), dict(kind="any", case=case, outcome=out))
    check.sample(dict(types=cases[0]["types"], history=[[s["op"], s["args"], s["ok"]] for s in cases[0]["hist"]]))
    n = sequential(check, bindir, "SharedValueClosure.cfg", ["closure_rich", "closure_f64", "opaque_rich", "opaque_u8"], False,
                   lambda p, h: all(s["op"] != "share" for s in h))
    check.count("traces_validated_against_impl", n)


vf.main("C03", "model_checking", body)
