from pen_common import *

HEAD = """import Reflect'Any
import Test'Assert

type R {
  a any
  b number | none
}

type S {}

type W {
  x [number]
  yz S
  w any
}

type B {
  b boolean
}
"""
FIELDS = dict(R=["a", "b"], S=[], W=["x", "yz", "w"], B=["b"])
NUMBERS = ["0", "1", "-5", "0.5", "(0 / 0)", "12000"]


def generate(check, *kind):
    path = "/tmp/reflect-%d.cfg" % os.getpid()
    with open(path, "w") as f:
        f.write(open(os.path.join(vf.SPEC, "Reflect.cfg")).read().replace('"pairs"', '"%s"' % kind[0]).replace("Part = 0", "Part = %d" % kind[1]))
    try:
        r = vf.tlc_behaviours("Reflect", path, workers=4, seed=kind[2])
    finally:
        os.unlink(path)
    check.add_tlc(r)
    return r.behaviours


def type_of(t):
    k = t["t"]
    if k == "opt":
        return "number | none"
    if k == "record":
        return t["n"]
    if k == "list":
        return "[%s]" % type_of(t["of"])
    if k == "map":
        return "{%s: %s}" % (type_of(t["kt"]), type_of(t["vt"]))
    return k


def pen(v):
    k = v["k"]
    if k == "none":
        return "none"
    if k == "bool":
        return "true" if v["b"] else "false"
    if k == "num":
        return NUMBERS[v["n"] - 1]
    if k == "int":
        return "%d" % v["n"]
    if k == "str":
        return '"%s"' % "".join("\\x%02x" % ord(c) for c in v["s"])
    if k == "err":
        return "error(%s)" % pen(v["v"])
    if k == "fun":
        return ["\\() number { 1 }", "\\(x number) number | none { x }"][v["n"] - 1]
    if k == "list":
        return "[%s]" % (type_of(v["t"]) + (" " + ", ".join(map(pen, v["vs"])) if v["vs"] else ""))
    if k == "map":
        types = "%s: %s" % (type_of(v["kt"]), type_of(v["vt"]))
        entries = ["%s: %s" % (pen(e["k"]), pen(e["v"])) for e in v["es"]]
        plain = {"any": "none", "number": "7", "string": '"x"', "boolean": "true", "opt": "none", "record": "S{}" if v["vt"].get("n") == "S" else "R{a: 1, b: none}"}
        value = plain[v["vt"]["t"]] if v["vt"]["t"] in plain else "[number]" if v["vt"]["t"] == "list" else "{string: number}"
        m = "{%s}" % " ".join([types, ", ".join(["%s: %s" % (pen(x), value) for x in v["more"]] + entries)]).strip()
        for x in v["more"]:
            m = "delete(%s, %s)" % (m, pen(x))
        return m
    return "%s{%s}" % (v["n"], ", ".join("%s: %s" % (f, pen(x)) for f, x in zip(FIELDS[v["n"]], v["vs"])))


def body(check):
    cmd = binary()
    pairs = [p for n in range(vf.tier(3, 30)) for p in generate(check, "pairs", 0, vf.SEED + n)]

    def module(ps):
        out = [HEAD]
        for n, p in enumerate(ps):
            out += ["%s%d = \\() any {\n  %s\n}\n" % (x, n, pen(p[x])) for x in "vw"]
        ns = range(len(ps))
        out.append("Shown = \\() [string] {\n  [string %s]\n}\n" % ", ".join("Any'Debug(v%d()), Any'Debug(w%d())" % (n, n) for n in ns))
        out.append("Equal = \\() [boolean | none] {\n  [boolean | none %s]\n}\n" % ", ".join("Any'Equal(v%d(), w%d())" % (n, n) for n in ns))
        out.append("Asserted = \\() [none | error] {\n  [none | error %s]\n}\n" % ", ".join("Assert'Equal(v%d(), w%d())" % (n, n) for n in ns))
        return "\n".join(out)

    def evaluate(groups):
        return run(cmd, [dict(texts={"main/M.pen": module(g)}, roots=["main/M.pen"], calls=[dict(fn=f, args=[]) for f in ("Shown", "Equal", "Asserted")], budget=30000000) for g in groups], timeout=120)

    def lists(g, r):
        rs = [x.get("v") for x in r.get("results", [])]
        if len(rs) == 3 and all(isinstance(x, dict) and "l" in x for x in rs) and [len(x["l"]) for x in rs] == [2 * len(g), len(g), len(g)]:
            return [x["l"] for x in rs]

    results, again = [], []
    groups = [pairs[n:n + 15] for n in range(0, len(pairs), 15)]
    for g, r in zip(groups, evaluate(groups)):
        ls = lists(g, r)
        if ls:
            results += [(p, ls[0][2 * n:2 * n + 2], ls[1][n], ls[2][n]) for n, p in enumerate(g)]
        else:
            again += [[p] for p in g]
    for g, r in zip(again, evaluate(again) if again else []):
        ls = lists(g, r)
        if ls:
            results.append((g[0], ls[0], ls[1][0], ls[2][0]))
        else:
            check.violation("%s and %s: %s" % (pen(g[0]["v"]), pen(g[0]["w"]), r), dict(pair=g[0], got=r), key=pen(g[0]["v"]))
    traces, owner = [], []
    want = {"t": [True], "f": [False], "n": [None], "?": [False, None]}
    for p, texts, equal, asserted in results:
        check.count("pairs")
        key = "%s == %s" % (pen(p["v"]), pen(p["w"]))
        if equal not in want[p["e"]] or type(equal) not in (bool, type(None)):
            check.violation("Equal of %s and %s gives %s" % (pen(p["v"]), pen(p["w"]), equal), dict(pair=p, got=equal), key=key)
        if (asserted is None) != (p["e"] == "t") or not (asserted is None or isinstance(asserted, dict) and "e" in asserted):
            check.violation("the assertion that %s equals %s gives %s" % (pen(p["v"]), pen(p["w"]), asserted), dict(pair=p, got=asserted), key=key)
        for x, t in zip("vw", texts):
            traces.append(dict(v=p[x], t=[chr(b) for b in octets(t) or []]))
            owner.append(t)
    path = "/tmp/reflect-%d-shown.cfg" % os.getpid()
    with open(path, "w") as f:
        f.write(open(os.path.join(vf.SPEC, "Reflect.cfg")).read().replace('"pairs"', '"shown"'))
    try:
        rejected, states, transitions = vf.check_traces("Reflect", path, traces, workers=8)
    finally:
        os.unlink(path)
    check.count("states", states)
    check.count("transitions", transitions)
    check.count("traces_validated_against_impl", len(traces))
    for n in rejected:
        check.violation("%s is shown as %r" % (pen(traces[n]["v"]), owner[n]), dict(value=traces[n]["v"], text=owner[n]), key=pen(traces[n]["v"]))
    check.sample(dict(value=pen(pairs[0]["v"]), text=owner[0]))


vf.main("C33", "model_checking", body)
