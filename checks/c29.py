from pen_common import *
from fractions import Fraction
import math


def generate(check, kind, parts=1, part=0):
    text = open(os.path.join(vf.SPEC, "Literals.cfg")).read().replace('"few"', '"%s"' % kind)
    text = text.replace("Parts = 1", "Parts = %d" % parts).replace("Part = 0", "Part = %d" % part)
    path = "/tmp/literals-%d-%s.cfg" % (os.getpid(), kind)
    with open(path, "w") as f:
        f.write(text)
    try:
        r = vf.tlc_behaviours("Literals", path, workers=4, seed=vf.SEED)
    finally:
        os.unlink(path)
    check.add_tlc(r)
    return r.behaviours


def module(kind, items):
    """Each literal is an element of a list, the result of a function, or bound to a variable."""
    out = ["Main = \\() [%s] {\n  [%s\n%s\n  ]\n}" % (kind, kind, "\n".join("    %s," % ("c%d()" % n if n % 3 else t) for n, t in enumerate(items)))]
    for n, t in enumerate(items):
        if n % 3:
            out.append(("c%d = \\() %s {\n  %s\n}" if n % 3 == 2 else "c%d = \\() %s {\n  v = %s\n  v\n}") % (n, kind, t))
    return "\n\n".join(out) + "\n"


def body(check):
    cmd = binary()

    def compare(kind, items, ok):
        """items: (text, wanted)"""
        def evaluate(groups):
            return run(cmd, [dict(texts={"main/M.pen": module(kind, [t for t, _ in g])}, roots=["main/M.pen"], calls=[dict(fn="Main", args=[])], budget=3000000) for g in groups])

        def judge(group, r):
            v = r["results"][0].get("v") if "results" in r else None
            if not (isinstance(v, dict) and len(v.get("l", [])) == len(group)):
                return None
            return [x for x in zip(group, v["l"]) if not ok(x[0][1], x[1])]

        def report(group, r, again):
            bad = judge(group, r)
            if bad is None and len(group) > 1:
                again += [[x] for x in group]
            elif bad is None:
                bad = [(group[0], r)]
            for (t, want), got in bad or []:
                check.violation("%s denotes %s rather than %s" % (t, got, want), dict(text=t, want=want, got=got), key=t)

        groups = [items[n:n + 60] for n in range(0, len(items), 60)]
        check.count("literals", len(items))
        again = []
        for g, r in zip(groups, evaluate(groups)):
            report(g, r, again)
        for g, r in zip(again, evaluate(again) if again else []):
            report(g, r, [])

    kinds = [("few", 1, 0), ("many", 1, 0), ("random", 1, 0)] + vf.tier([], [("all", 1, 0)])
    strings = [c for k in kinds for c in generate(check, *k)]
    compare("string", [('"%s"' % written(c["t"]), c["b"]) for c in strings], lambda want, got: octets(got) == want)
    check.sample(dict(text=written(strings[-1]["t"]), denotes=strings[-1]["b"]))

    def decimal(want, got):
        f = float(Fraction(want["m"]) * Fraction(10) ** want["x"])
        g = number(got)
        return type(g) in (int, float) and g == f and (f != 0 or math.copysign(1, float(g)) == (-1 if want["neg"] else 1))

    ds = [d for d in generate(check, "decimals") if d["well"]]
    compare("number", [("".join(d["t"]), d) for d in ds], decimal)
    integers = generate(check, "binary") + generate(check, "hexadecimal") + generate(check, "long")
    compare("number", [("".join(d["t"]), d["v"]) for d in integers], lambda want, got: number(got) == float(sum(1 << b for b in want)))
    check.assumptions.append("the literals which the parser accepts are decided under C09 and C10; here only what the accepted ones denote")


vf.main("C29", "model_checking", body)
