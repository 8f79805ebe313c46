from eval_common import *
import copy, tempfile

LITERALS = [dict(k="num", v=1), dict(k="bool", v=True), dict(k="str", v="s"), dict(k="none"), dict(k="list", t=dict(k="num"), es=[]), dict(k="error", e=dict(k="num", v=0)),
            dict(k="map", kt=dict(k="str"), vt=dict(k="num"), es=[]), dict(k="lam", ps=[], r=dict(k="num"), body=dict(k="num", v=1))]
T = lambda k: dict(k=k)
N, S, Z, E = T("num"), T("str"), T("none"), T("err")
LN = dict(k="list", e=N)
UE = dict(k="union", ts=[N, E])
TYPES = [N, S, Z, E, T("bool"), T("any"), LN, dict(k="list", e=S), UE, dict(k="union", ts=[N, Z]), dict(k="union", ts=[N, S, Z]), dict(k="map", a=S, b=N), dict(k="rec", n="r"), dict(k="rec", n="p"),
         dict(k="fn", ps=[], r=N), dict(k="fn", ps=[N], r=N), dict(k="rec", n="nothing"), dict(k="map", a=T("any"), b=N), dict(k="list", e=T("any"))]
P = lambda x, t: dict(x=x, t=t)
U = lambda *ts: dict(k="union", ts=list(ts))
PROGRAM_RECORDS = [dict(x="r", fs=[P("a", N), P("b", U(S, Z))]), dict(x="p", fs=[P("r", dict(k="rec", n="r")), P("q", LN)]), dict(x="t", fs=[P("z", N), P("a", N), P("m", N)]),
                   dict(x="w", fs=[P(x, S if x == "i" else N) for x in "kbjaichdgef"])]
V = lambda x: dict(k="var", x=x)
PROGRAM_LIBRARY = [dict(x="tick", ps=[P("x", N)], r=N, body=V("x")), dict(x="sum", ps=[P("xs", LN)], r=N, body=LITERALS[0]), dict(x="down", ps=[P("n", N)], r=LN, body=LITERALS[4]),
                   dict(x="twice", ps=[P("f", dict(k="fn", ps=[N], r=N)), P("x", N)], r=N, body=dict(k="call", f=V("f"), **{"as": [V("x")]})),
                   dict(x="pick", ps=[P("xs", LN), P("n", N)], r=UE, body=dict(k="error", e=V("n")))]


class Plain(Printer):
    """Programs as they are: without functions for the types of values."""
    def cast(self, t, text):
        return "(%s)" % text

    def operand(self, e):
        if e["k"] == "built":
            return self.e(e)
        return super().operand(e)

    def e(self, e):
        if e["k"] == "built":
            return "%s(%s)" % (e["f"], ", ".join(map(self.operand, e["as"])))
        if e["k"] == "iftype":
            e = dict(e, of=dict(k="num"))
        if e["k"] == "bin":
            e = {k: v for k, v in e.items() if k != "of"}
        return super().e(e)


def module_text(m):
    p = Plain()
    out = ["type %s {\n%s}\n" % (r["x"], "".join("  %s %s\n" % (f["x"], type_text(f["t"])) for f in r["fs"])) for r in m["rs"]]
    out += ["type %s = %s\n" % (a["x"], type_text(a["t"])) for a in m["al"]]
    return "\n".join(out + [p.function(f) for f in m["fs"]])


def explicit(progs):
    """Programs with the functions that give values their types spelled out."""
    casts = {}

    def cast(t, e):
        name = casts.setdefault(type_text(t), ("cast%d" % (len(casts) + 1), t))[0]
        return dict(k="call", f=V(name), **{"as": [e]})

    def go(x):
        if isinstance(x, list):
            return [go(y) for y in x]
        if not isinstance(x, dict):
            return x
        x = {k: go(v) for k, v in x.items()}
        if x.get("k") == "bin" and x.get("of", {}).get("k") == "union":
            x["a"], x["b"] = cast(x["of"], x["a"]), cast(x["of"], x["b"])
        elif x.get("k") == "iftype" and x["of"]["k"] != "none":
            x["e"] = cast(x["of"], x["e"])
        elif x.get("k") == "try":
            x["e"] = cast(UE, x["e"])
        return x

    fs = [dict(x=d["x"], ps=d["ps"], r=d["r"], body=go(d["body"])) for d in progs]
    return dict(al=[], rs=PROGRAM_RECORDS, fs=PROGRAM_LIBRARY + [dict(x=n, ps=[P("x", t)], r=t, body=V("x")) for n, t in casts.values()] + fs)


CHILDREN = {"bin": "ab", "not": "a", "if": "cab", "iflist": "lab", "ifmap": ["m", "key", "a", "b"], "lam": ["body"], "field": "e", "try": "e", "size": "e", "keys": "e", "values": "e", "error": "e",
            "source": "e", "delete": ["m", "key"], "call": "f", "block": "e", "upd": "e", "iftype": "e", "comp": "e"}


def nodes(e, found):
    """Places of expressions: (what holds it, key)."""
    def at(holder, key):
        if holder[key]["k"] in ("absent", "always"):
            return
        found.append((holder, key))
        nodes(holder[key], found)
    k = e["k"]
    for c in CHILDREN.get(k, ""):
        at(e, c)
    if k in ("call", "built"):
        for i in range(len(e["as"])):
            at(e["as"], i)
    if k == "iftype":
        for b in e["bs"]:
            at(b, "e")
        at(e, "else")
    if k == "block":
        for s in e["ss"]:
            at(s, "e")
    if k in ("list", "map"):
        for x in e["es"]:
            at(x, "e")
            if "v" in x:
                at(x, "v")
    if k in ("rec", "upd"):
        for x in e["fs"]:
            at(x, "e")
    if k == "comp":
        for b in e["bs"]:
            for i in range(len(b["ls"])):
                at(b["ls"], i)
            at(b, "c")
    return found


def annotations(e):
    out = []
    k = e["k"]
    if k == "lam":
        out += [(p, "t") for p in e["ps"]] + [(e, "r")]
    if k in ("list", "comp"):
        out.append((e, "t"))
    if k == "map":
        out += [(e, "kt"), (e, "vt")]
    if k == "iftype":
        out += [(b, "t") for b in e["bs"]]
    return out


def mutate(rng, m):
    """A module with one change somewhere; nothing if the one chosen does not apply."""
    m = copy.deepcopy(m)
    f = rng.choice([f for f in m["fs"] if f["x"][0] in "fM"])
    places = [(f, "body")] + nodes(f["body"], [])
    holder, key = rng.choice(places)
    e = holder[key]
    kind = rng.choice(["replace", "replace", "literal", "name", "type", "type", "arguments", "else", "fields", "try", "unnamed", "signature", "swap", "branches", "operator"])

    def some(*ks):
        s = [h[k] for h, k in places if h[k]["k"] in ks]
        return rng.choice(s) if s else None
    if kind in ("replace", "literal"):
        h, k = rng.choice(places)
        new = copy.deepcopy(h[k] if kind == "replace" else rng.choice(LITERALS))
        if new["k"] == "block" and e["k"] != "block":
            new = new["e"]
        holder[key] = new
    elif kind == "name":
        v = some("var", "top")
        if not v:
            return None
        v["x"] = rng.choice(["x", "y", "z", "xs", "ys", "o", "nothing", "sum", "f1", "tick"])
    elif kind == "type":
        ts = [a for h, k in places for a in annotations(h[k])]
        if not ts:
            return None
        h, k = rng.choice(ts)
        h[k] = copy.deepcopy(rng.choice(TYPES))
    elif kind == "arguments":
        c = some("call")
        if not c:
            return None
        if rng.random() < .5 and c["as"]:
            c["as"].pop(rng.randrange(len(c["as"])))
        else:
            c["as"].append(copy.deepcopy(rng.choice(LITERALS)))
    elif kind == "else":
        c = some("iftype")
        if not c:
            return None
        c["else"] = dict(k="absent") if c["else"]["k"] != "absent" else dict(k="none")
    elif kind == "branches":
        c = some("iftype")
        if not c or len(c["bs"]) < 2 and rng.random() < .5:
            return None
        if len(c["bs"]) > 1:
            c["bs"].pop(rng.randrange(len(c["bs"])))
        else:
            c["bs"].append(dict(t=copy.deepcopy(rng.choice(TYPES)), e=dict(k="none")))
    elif kind == "fields":
        c = some("rec", "upd", "field")
        if not c:
            return None
        if c["k"] == "field":
            c["f"] = rng.choice("abqrzm")
        elif rng.random() < .5 or not c["fs"]:
            c["fs"].append(dict(x=rng.choice("abqr"), e=copy.deepcopy(rng.choice(LITERALS))))
        else:
            c["fs"].pop(rng.randrange(len(c["fs"])))
    elif kind == "try":
        if e["k"] == "block":
            return None
        holder[key] = dict(k="try", e=e)
    elif kind == "unnamed":
        b = some("block")
        if not b or not b["ss"]:
            return None
        rng.choice(b["ss"])["x"] = ""
    elif kind == "signature":
        h, k = rng.choice([(f, "r")] + [(p, "t") for p in f["ps"]])
        h[k] = copy.deepcopy(rng.choice(TYPES))
    elif kind == "operator":
        b = some("bin")
        if not b:
            return None
        b["op"] = rng.choice(["+", "-", "<", "==", "!=", "&", "|"])
    else:
        c = some("call", "bin", "ifmap", "delete")
        if not c:
            return None
        if c["k"] == "call":
            rng.shuffle(c["as"])
        else:
            a, b = ("a", "b") if c["k"] == "bin" else ("m", "key")
            c[a], c[b] = c[b], c[a]
    return m, kind


def ambiguous(text):
    """A statement without a name, whose next line could continue it."""
    lines = [x.strip() for x in text.split("\n")]
    return any(y[:1] in tuple("([{.?-+*/<>=!&|") for x, y in zip(lines, lines[1:]) if y and not x.endswith(("{", "(", ",")))


def judge(check, ms):
    with tempfile.TemporaryDirectory() as d:
        parts = [ms[i::4] for i in range(4) if ms[i::4]]

        def one(n):
            path = os.path.join(d, "cases-%d.json" % n)
            with open(path, "w") as f:
                json.dump(parts[n], f)
            return vf.tlc_behaviours("PenTypeJudge", "PenTypeJudge.cfg", env=dict(CASES=path), workers=2, timeout=800)
        out = [None] * len(ms)
        with ThreadPoolExecutor(4) as ex:
            for n, r in enumerate(ex.map(one, range(len(parts)))):
                check.add_tlc(r)
                for b in r.behaviours:
                    out[n + 4 * (b["i"] - 1)] = b["v"]
    return out


def forms_of(check, step):
    families = [["operators", "scopes"], ["meet"], ["try", "built", "declarations"], ["branches", "peels", "types", "records", "comprehensions", "calls"]]

    def one(n):
        path = "/tmp/types-%d-%d.cfg" % (os.getpid(), n)
        text = open(os.path.join(vf.SPEC, "PenTypeForms.cfg")).read()
        text = re.sub(r"Families = .*", "Families = {%s}" % ", ".join('"%s"' % f for f in families[n]), text)
        text = re.sub(r"Step = .*", "Step = %d" % step, text)
        text = re.sub(r"Offset = .*", "Offset = %d" % vf.SEED, text)
        with open(path, "w") as f:
            f.write(text)
        try:
            return vf.tlc_behaviours("PenTypeForms", path, workers=2, timeout=800)
        finally:
            os.unlink(path)
    out = []
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(one, range(4)):
            check.add_tlc(r)
            out += r.behaviours
    return out


def mentions(x, name):
    """Whether a variable of this name is read somewhere."""
    if isinstance(x, list):
        return any(mentions(y, name) for y in x)
    return isinstance(x, dict) and (x.get("k") == "var" and x["x"] == name or any(mentions(y, name) for y in x.values()))


def hidden(x):
    """Whether the second block of an if-map expression reads a variable of the name which the first one gets: known to be compiled wrongly."""
    if isinstance(x, list):
        return any(map(hidden, x))
    return isinstance(x, dict) and (x.get("k") == "ifmap" and mentions(x["b"], x["x"]) or any(map(hidden, x.values())))


HIDDEN = "a variable read in the second block of an if-map expression"


KNOWN = [("f = \\(o number) number {\n  y = o\n\n  if y = {number: number}[o] {\n    y\n  } else {\n    y\n  }\n}\n", HIDDEN)]


def known(check, cmd):
    """The known defects, as they are."""
    for (t, key), o in zip(KNOWN, run(cmd, [dict(texts={"main/M.pen": t}, roots=["main/M.pen"]) for t, _ in KNOWN])):
        if not o.get("ok"):
            check.violation("a module is refused: %s\n%s" % (o, t), dict(text=t, want="ok", got=o), key=key)


def compare(check, cmd, what, cases):
    """cases: (module, verdict)"""
    left = [c for c in cases if c[1] == "?"]
    check.count("left_open", len(left))
    cases = [c for c in cases if c[1] != "?"]
    texts = [module_text(m) for m, _ in cases]
    outs = run(cmd, [dict(texts={"main/M.pen": t}, roots=["main/M.pen"]) for t in texts], timeout=120)
    for (m, v), t, o in zip(cases, texts, outs):
        if "skipped" in o:
            continue
        check.count("traces_validated_against_impl")
        check.count("accepted" if v == "ok" else "refused")
        replay = dict(text=t, want=v, got=o)
        if v == "ok":
            if not o.get("ok"):
                check.violation("%s is refused: %s\n%s" % (what, o, t), replay, key=HIDDEN if "in MIR" in o.get("message", "") and hidden(m["fs"]) else t)
        elif o.get("ok"):
            check.violation("%s is accepted though wrong (%s):\n%s" % (what, v, t), replay, key=t)
        elif o.get("stage") not in ("parse", "hir", "check") or "in MIR" in o["message"]:
            check.violation("%s is wrong (%s), and not refused as such: %s\n%s" % (what, v, o, t), replay, key=t)


def imports(check, cmd):
    """Names and types of other modules."""
    r = vf.tlc_behaviours("PenTypeImports", "PenTypeImports.cfg", workers=1)
    check.add_tlc(r)
    s = r.behaviours[0]
    rest = {"main/A.pen": s["a"], "main/D.pen": s["a"], "main/Sub/A.pen": s["a"], "main/C.pen": s["c"]}
    cases = s["cases"][vf.SEED % 2::vf.tier(2, 1)]
    for c, o in zip(cases, run(cmd, [dict(texts=dict(rest, **{"main/B.pen": c["text"]}), roots=["main/B.pen"]) for c in cases], timeout=120)):
        if "skipped" in o:
            continue
        check.count("traces_validated_against_impl")
        check.count("imports")
        if c["good"] != bool(o.get("ok")) or not c["good"] and (o.get("stage") not in ("parse", "import", "hir", "check") or "in MIR" in o["message"]):
            check.violation("a module which imports others is %s: %s\n%s" % ("refused" if c["good"] else "not refused as it should be", o, c["text"]), dict(text=c["text"], others=rest, want=c["good"], got=o), key=c["text"])


def body(check):
    cmd = binary()
    rng = check.rng
    cases = forms_of(check, vf.tier(9, 1))
    compare(check, cmd, "a form", [(c["m"], c["v"]) for c in cases])
    known(check, cmd)
    imports(check, cmd)
    progs = generate(check, "all", vf.tier(200, 3000), depth=3, base=700000 + vf.SEED * 7919 % 100000)
    ms, whole = [], set()
    for p in progs:
        m = explicit(p["p"])
        ms.append(m)
        whole.add(id(m))
        for _ in range(vf.tier(15, 60)):
            x = mutate(rng, m)
            if x and not (x[1] == "unnamed" and ambiguous(module_text(x[0]))):
                ms.append(x[0])
    vs = judge(check, ms)
    for m, v in zip(ms, vs):
        if id(m) in whole and v != "ok":
            raise Exception("a program of PenProg.tla is taken as wrong (%s):\n%s" % (v, module_text(m)))
    compare(check, cmd, "a module", list(zip(ms, vs)))
    check.sample(dict(text=module_text(cases[0]["m"]), verdict=cases[0]["v"]))


vf.main("C30", "model_checking", body)
