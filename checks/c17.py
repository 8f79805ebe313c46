from pen_common import *
from fractions import Fraction
import math

MODULES = {"Number": "core/Number.pen", "Bit": "core/Bit.pen", "Character": "core/Character.pen"}
ROOTS = sorted(MODULES.values())


def fn(name, *args):
    m, f = name.split("'")
    return dict(fn=f, **{"in": MODULES[m]}, args=list(args))


def value(x):
    """A number of the specification."""
    if "e" in x:
        return x["e"] / 8
    if "inf" in x:
        return math.inf * x["inf"]
    return math.nan


def given(x):
    return {"l": [given(y) for y in x["l"]]} if "l" in x else arg(float(value(x)))


def is_number(want, got):
    g = number(got)
    return type(g) in (int, float) and (math.isnan(want) and math.isnan(g) or g == want)


def holds(want, got):
    if "v" not in got:
        return False
    g = got["v"]
    if "open" in want:
        return True
    if "b" in want:
        return g is want["b"]
    if "l" in want:
        return isinstance(g, dict) and "l" in g and len(g["l"]) == len(want["l"]) and all(is_number(value(w), x) for w, x in zip(want["l"], g["l"]))
    return is_number(value(want), g)


def integer(places):
    return sum(1 << b for b in places)


def bit_arg(places):
    return {"n": "%x" % integer(places)}


def result_bits(x):
    v = number(x)
    if isinstance(x, dict) and "n" in x:
        return int(x["n"], 16)
    return bits(float(v)) if type(v) in (int, float) else None


def generate(check, kind, parts=1, part=0):
    text = open(os.path.join(vf.SPEC, "Numbers.cfg")).read().replace('"values"', '"%s"' % kind)
    text = text.replace("Parts = 1", "Parts = %d" % parts).replace("Part = 0", "Part = %d" % part)
    path = "/tmp/numbers-%d-%s.cfg" % (os.getpid(), kind)
    with open(path, "w") as f:
        f.write(text)
    try:
        r = vf.tlc_behaviours("Numbers", path, workers=4)
    finally:
        os.unlink(path)
    check.add_tlc(r)
    return r.behaviours


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def body(check):
    cmd = binary()

    def compare(items, ok):
        """items: (call, wanted, description)"""
        groups = chunks(items, 400)
        for g, got in zip(groups, batches(cmd, ROOTS, [[c for c, _, _ in g] for g in groups])):
            for (c, want, what), r in zip(g, got or []):
                check.count("calls")
                if not ok(want, r):
                    check.violation("%s gives %s rather than %s" % (what, r, want), dict(call=c, want=want, got=r), key=what)

    items = []
    for c in generate(check, "values") + generate(check, "other"):
        for o in c:
            items.append((fn(o["f"], *map(given, o["a"])), o["v"], "%s(%s)" % (o["f"], ", ".join(json.dumps(x) if "l" in x else str(value(x)) for x in o["a"]))))
    compare(items, holds)
    check.sample(dict(call=items[0][2], gives=items[0][1]))

    # Texts: which are numbers, and which number.
    def parsed(want, r):
        if "v" not in r:
            return False
        v = r["v"]
        if "bad" in want:
            return isinstance(v, dict) and "e" in v
        try:
            f = float(Fraction(want["m"]) * Fraction(10) ** want["x"])
        except OverflowError:
            f = math.inf
        return is_number(f, v) and (want["m"] != 0 or math.copysign(1, float(number(v))) == (-1 if want["neg"] else 1))

    texts = generate(check, "texts", *vf.tier((3, vf.SEED % 3), (1, 0))) + generate(check, "composed")
    compare([(fn("Number'Parse", "".join(t["t"])), t["v"], "Parse(%r)" % "".join(t["t"])) for t in texts], parsed)

    # Canonical texts come back unchanged.
    canon = ["".join(c["t"]) for c in generate(check, "canonical")]
    groups = chunks(canon, 200)
    values = [r for g, got in zip(groups, batches(cmd, ROOTS, [[fn("Number'Parse", t) for t in g] for g in groups])) for r in got or [{}] * len(g)]
    def again(v):
        v = number(v.get("v"))
        return arg(float(v)) if type(v) in (int, float) else arg(math.nan)
    compare([(fn("Number'String", again(v)), t, "String(Parse(%s))" % t) for t, v in zip(canon, values)], lambda want, r: r.get("v") == want)

    # Numbers come back from their texts with all their bits.
    rng = check.rng
    some = [0, 1 << 63, 1, 2, 0x000fffffffffffff, 0x0010000000000000, 0x7fefffffffffffff, 0x3ff0000000000000, 0x3ff0000000000001, 0x3fefffffffffffff, 0x4340000000000000, 0x4340000000000001,
            0x433fffffffffffff, 0x7ff0000000000000, 0xfff0000000000000, bits(0.1), bits(1e21), bits(1e22), bits(1e23), bits(123456789.123456789), bits(5e-324), bits(2.0 ** 63), bits(2.0 ** 64), bits(2.0 ** 1023)]
    some += [rng.getrandbits(64) for _ in range(vf.tier(2000, 20000))] + [bits(rng.choice([-1, 1]) * rng.randrange(1 << 53) * 2.0 ** rng.randrange(-80, 40)) for _ in range(vf.tier(2000, 20000))]
    groups = chunks(some, 200)
    for g, got in zip(groups, batches(cmd, ROOTS, [[x for i, b in enumerate(g) for x in (fn("Number'String", {"n": "%x" % b}), fn("Number'Parse", {"u": 2 * i}))] for g in groups])):
        for b, t, r in zip(g, (got or [])[0::2], (got or [])[1::2]):
            check.count("numbers_round_trip")
            f = number({"n": "%x" % b})
            v = number(r.get("v"))
            if not (type(v) in (int, float) and (math.isnan(f) and math.isnan(v) or bits(float(v)) == b)):
                check.violation("the text of the number with bits %x is %s, which gives %s" % (b, t, r), dict(bits=b, text=t, got=r), key="bits %x" % b)

    # Integers of 64 bits.
    items = []
    for c in generate(check, "bits"):
        items += [(fn(o["f"], *map(bit_arg, o["a"])), o["v"], "%s(%s)" % (o["f"], ", ".join("%x" % integer(a) for a in o["a"]))) for o in c["ops"]]
        items += [(fn(o["f"], bit_arg(o["x"]), arg(float(o["n"]))), o["v"], "%s(%x, %d)" % (o["f"], integer(o["x"]), o["n"])) for o in c["shifts"]]
    convs = generate(check, "conversions")
    items += [(fn("Bit'ToInteger64", arg(math.ldexp(c["m"], c["x"]))), c["v"], "ToInteger64(%d)" % (c["m"] << c["x"])) for c in convs]
    compare(items, lambda want, r: "v" in r and result_bits(r["v"]) == integer(want))
    compare([(fn("Bit'FromInteger64", bit_arg(c["v"])), c["m"] << c["x"], "FromInteger64(%x)" % integer(c["v"])) for c in convs], lambda want, r: "v" in r and number(r["v"]) == want)
    strange = [arg(x) for x in (math.nan, math.inf, -math.inf, -1.0, -0.5, 0.5, 1e300, -1e300, 63.5, 2.0 ** 32, 2.0 ** 64)]
    compare([(fn(f, a, b), None, "%s of %s and %s" % (f, a, b)) for f in ("Bit'LeftShift", "Bit'RightShift", "Number'Remainder", "Number'Power") for a in strange for b in strange]
            + [(fn(f, a), None, "%s of %s" % (f, a)) for f in ("Bit'ToInteger64", "Bit'FromInteger64", "Number'String", "Number'SquareRoot", "Number'Exponential", "Character'FromCodePoint") for a in strange],
            lambda want, r: "v" in r)

    # Characters and code points.
    points = strings(check, "point")[0]["points"]
    items = [(fn("Character'FromCodePoint", arg(float(p["n"]))), p["v"], "FromCodePoint(%d)" % p["n"]) for p in points]
    items += [(fn("Character'FromCodePoint", arg(n)), [], "FromCodePoint(%s)" % n) for n in (math.nan, math.inf, -math.inf, 1e300, -1e300)]
    compare(items, lambda want, r: "v" in r and octets(r["v"]) == want)
    compare([(fn("Character'ToCodePoint", string(p["v"])), p["n"], "ToCodePoint(%r)" % p["v"]) for p in points if p["v"]], lambda want, r: r.get("v") == want)


vf.main("C17", "model_checking", body)
