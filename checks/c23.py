from pen_common import *
from fractions import Fraction
import math

DECODE, ENCODE = "json/Decode.pen", "json/Encode.pen"
NAME = "json/Value.pen:Value"


def generate(check, kind, parts=1, part=0):
    text = open(os.path.join(vf.SPEC, "JsonText.cfg")).read().replace('"values"', '"%s"' % kind)
    text = text.replace("Parts = 1", "Parts = %d" % parts).replace("Part = 0", "Part = %d" % part)
    path = "/tmp/json-%d-%s.cfg" % (os.getpid(), kind)
    with open(path, "w") as f:
        f.write(text)
    try:
        r = vf.tlc_behaviours("JsonText", path, workers=4, seed=vf.SEED)
    finally:
        os.unlink(path)
    check.add_tlc(r)
    return r.behaviours


def real(v):
    f = float(Fraction(v["m"]) * Fraction(10) ** v["x"])
    return -f if v["neg"] else f


def same(v, got):
    """Whether a result is a value of the specification."""
    if not (isinstance(got, dict) and got.get("r", [None])[0] == NAME):
        return False
    got = got["r"][1]
    k = v["k"]
    if k == "null":
        return got is None
    if k == "boolean":
        return got is v["b"]
    if k == "number":
        g = number(got)
        return type(g) in (int, float) and g == real(v) and (g != 0 or math.copysign(1, float(g)) == (-1 if v["neg"] else 1))
    if k == "string":
        return octets(got) == v["s"]
    if k == "array":
        return isinstance(got, dict) and "l" in got and len(got["l"]) == len(v["vs"]) and all(same(a, b) for a, b in zip(v["vs"], got["l"]))
    if not (isinstance(got, dict) and "m" in got and len(got["m"]) == len(v["ms"]) == got["size"]):
        return False
    m = {tuple(octets(n) or []): x for n, x in got["m"]}
    return len(m) == len(v["ms"]) and all(tuple(x["n"]) in m and same(x["v"], m[tuple(x["n"])]) for x in v["ms"])


def plain(v):
    """A short way to write a value of the specification."""
    k = v["k"]
    return {"null": lambda: None, "boolean": lambda: v["b"], "number": lambda: real(v), "string": lambda: bytes(v["s"]).decode(errors="backslashreplace"),
            "array": lambda: [plain(x) for x in v["vs"]], "object": lambda: [[bytes(x["n"]).decode(errors="backslashreplace"), plain(x["v"])] for x in v["ms"]]}.get(k, lambda: k)()


def literal(bs):
    return '"%s"' % "".join("\\x%02x" % b for b in bs)


def decimal(v):
    s = str(v["m"])
    if v["x"] < 0:
        s = s.rjust(1 - v["x"], "0")
        s = s[:v["x"]] + "." + s[v["x"]:]
    return ("-" if v["neg"] else "") + s + "0" * max(0, v["x"])


def pen(v):
    k = v["k"]
    if k == "null":
        raw = "none"
    elif k == "boolean":
        raw = "true" if v["b"] else "false"
    elif k == "number":
        raw = decimal(v)
    elif k == "string":
        raw = literal(v["s"])
    elif k == "array":
        raw = "[Value %s]" % ", ".join(map(pen, v["vs"])) if v["vs"] else "[Value]"
    else:
        raw = "{string: Value %s}" % ", ".join("%s: %s" % (literal(x["n"]), pen(x["v"])) for x in v["ms"]) if v["ms"] else "{string: Value}"
    return "Value'New(%s)" % raw


def body(check):
    cmd = binary()
    call = lambda t: dict(fn="Decode", **{"in": DECODE}, args=[string(t.encode())])

    # Which texts are values, and which.
    kinds = [("pieces", *vf.tier((3, vf.SEED % 3), (1, 0))), ("bodies", *vf.tier((2, vf.SEED % 2), (1, 0))), ("changes", 1, 0), ("numbers", 1, 0), ("values", 1, 0)] + vf.tier([], [("longer", 8, vf.SEED % 8)])
    texts = {}
    for k in kinds:
        for c in generate(check, *k):
            texts[written(c["t"])] = c["v"]
    # Every short text, whatever part of the others is looked at.
    items = sorted(texts.items())
    groups = [items[n:n + 400] for n in range(0, len(items), 400)]
    for g, got in zip(groups, batches(cmd, [DECODE], [[call(t) for t, _ in g] for g in groups], timeout=200)):
        for (t, v), r in zip(g, got or []):
            check.count("texts")
            x = r.get("v")
            if v["k"] == "open":
                ok = "v" in r
            elif v["k"] == "bad":
                check.count("ill_formed")
                ok = isinstance(x, dict) and "e" in x
            else:
                ok = "v" in r and same(v, x)
            if not ok:
                check.violation("the text %r %s, but is decoded as %s" % (t, "is ill-formed" if v["k"] == "bad" else "is %s" % json.dumps(plain(v)), r), dict(text=t, want=v, got=r), key=t)
    check.sample(dict(text=items[-1][0], value=items[-1][1]["k"]))

    # What is written of a value, the specification reads as the value.
    values = [c["v"] for c in generate(check, "encode")] + [c["v"] for c in generate(check, "values")[::3] if c["v"]["k"] not in ("bad", "open")]
    # Every control character, and what needs no escape.
    values += [dict(k="string", s=[97, b, 48]) for b in range(128)] + [dict(k="string", s=[b]) for b in range(32)] + [dict(k="object", ms=[dict(n=[b, 97], v=dict(k="null"))]) for b in range(36)]
    head = "import Json'Value { Value }\nimport Json'Encode { Encode }\nimport Json'Decode { Decode }\n\n"

    def module(vs):
        return head + "\n\n".join("v%d = \\() Value {\n  %s\n}" % (n, pen(v)) for n, v in enumerate(vs)) \
            + "\n\nTexts = \\() [string] {\n  [string %s]\n}\n\nBack = \\() [Value | error] {\n  [Value | error %s]\n}\n" % (
                ", ".join("Encode(v%d())" % n for n in range(len(vs))), ", ".join("Decode(Encode(v%d()))" % n for n in range(len(vs))))

    def evaluate(groups):
        return run(cmd, [dict(texts={"main/M.pen": module(g)}, roots=["main/M.pen"], calls=[dict(fn="Texts", args=[]), dict(fn="Back", args=[])], budget=30000000) for g in groups], timeout=120)

    def lists(g, r):
        rs = r.get("results", [{}, {}])
        ls = [x.get("v", {}).get("l") if isinstance(x.get("v"), dict) else None for x in rs]
        return ls if all(l is not None and len(l) == len(g) for l in ls) else None

    groups = [values[n:n + 30] for n in range(0, len(values), 30)]
    results, again = [], []
    for g, r in zip(groups, evaluate(groups)):
        if lists(g, r):
            results += zip(g, *lists(g, r))
        else:
            again += [[v] for v in g]
    for g, r in zip(again, evaluate(again) if again else []):
        if lists(g, r):
            results += zip(g, *lists(g, r))
        else:
            check.violation("encoding %s gives %s" % (json.dumps(plain(g[0])), r), dict(value=g[0], got=r), key=json.dumps(plain(g[0])))
    traces, owner = [], []
    for v, t, back in results:
        check.count("values_encoded")
        bs = bytes(octets(t) or [])
        if not same(v, back):
            check.violation("%s is encoded as %r, which is decoded as %s" % (json.dumps(plain(v)), bs, back), dict(value=v, text=t, back=back), key=json.dumps(plain(v)))
        try:
            text = bs.decode()
        except UnicodeDecodeError:
            check.violation("%s is encoded as %r" % (json.dumps(plain(v)), bs), dict(value=v, text=t), key=json.dumps(plain(v)))
            continue
        # characters which the specification does not name must come from the string itself and stand in the way of nothing
        chars = named(text)
        strange = [c for c in chars if c not in NAMED and not (" " <= c <= "~" or c in "\n\r\t\f")]
        if any(c < " " for c in text):
            check.violation("%s is encoded with a raw control character: %r" % (json.dumps(plain(v)), bs), dict(value=v, text=t), key=json.dumps(plain(v)))
        elif not strange and all(c in KNOWN or c in NAMED for c in chars):
            traces.append(dict(t=chars, v=v))
            owner.append(bs)
    path = "/tmp/json-%d-written.cfg" % os.getpid()
    with open(path, "w") as f:
        f.write(open(os.path.join(vf.SPEC, "JsonText.cfg")).read().replace('"values"', '"written"'))
    try:
        rejected, states, transitions = vf.check_traces("JsonText", path, traces, workers=8)
    finally:
        os.unlink(path)
    check.count("states", states)
    check.count("transitions", transitions)
    check.count("traces_validated_against_impl", len(traces))
    for n in rejected:
        check.violation("%s is encoded as %r" % (json.dumps(plain(traces[n]["v"])), owner[n]), dict(value=traces[n]["v"], text=traces[n]["t"]), key=json.dumps(plain(traces[n]["v"])))

    # Numbers come back with all their bits.
    rng = check.rng
    some = [bits(x) for x in (0.0, -0.0, 0.1, 1e21, 1e22, 5e-324, 1.7976931348623157e308, 2.0 ** 53, 123456789.123456789)]
    some += [rng.getrandbits(64) for _ in range(vf.tier(1000, 20000))] + [bits(rng.choice([-1, 1]) * rng.randrange(1 << 53) * 2.0 ** rng.randrange(-80, 40)) for _ in range(vf.tier(1000, 20000))]
    some = [b for b in some if b >> 52 & 2047 != 2047]
    calls = [[c for n, b in enumerate(g) for c in (dict(foreign="_pen_json_encode_number", args=[{"n": "%x" % b}]), dict(fn="Decode", **{"in": DECODE}, args=[{"u": 2 * n}]))] for g in (some[n:n + 200] for n in range(0, len(some), 200))]
    for n, got in enumerate(batches(cmd, [DECODE, ENCODE], calls)):
        for b, t, r in zip(some[200 * n:], (got or [])[0::2], (got or [])[1::2]):
            check.count("numbers_round_trip")
            x = r.get("v", {})
            x = number(x["r"][1]) if isinstance(x, dict) and "r" in x else None
            if not (type(x) in (int, float) and bits(float(x)) == b):
                check.violation("the number with bits %x is encoded as %s, which gives %s" % (b, t, r), dict(bits=b, text=t, got=r), key="bits %x" % b)
    check.assumptions.append("texts with the same name twice in an object, halves of surrogate pairs or raw control characters only must not end the program; strings that are no UTF-8 and numbers that are infinite or none are not encoded")


KNOWN = set("0123456789abcdefghijklmnopqrstuvwxyz !\"#$%&'()*+,-./\n\r\t\f\\:[]{}EADF<")
vf.main("C23", "model_checking", body)
