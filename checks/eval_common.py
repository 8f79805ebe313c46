"""Programs of PenProg.tla as text, and comparison of what they give."""
from pen_common import *

RECORDS = """type r {
  a number
  b string | none
}

type p {
  r r
  q [number]
}

type t {
  z number
  a number
  m number
}

type w {
  k number
  b number
  j number
  a number
  i string
  c number
  h number
  d number
  g number
  e number
  f number
}
"""
LIBRARY = """
tick = \\(x number) number {
  debug(x)
  x
}

sum = \\(xs [number]) number {
  if [x, ...xs] = xs {
    x() + sum(xs)
  } else {
    0
  }
}

down = \\(n number) [number] {
  if n <= 0 {
    [number]
  } else {
    m = tick(n)

    [number tick(m + 10) - 10, ...down(n - 1)]
  }
}

twice = \\(f \\(number) number, x number) number {
  f(f(x))
}

pick = \\(xs [number], n number) number | error {
  if [y, ...ys] = xs {
    if n == 0 {
      y()
    } else {
      pick(ys, n - 1)
    }
  } else {
    error(n)
  }
}
"""


def type_text(t):
    k = t["k"]
    if k in ("num", "bool", "str", "none", "any", "err"):
        return {"num": "number", "bool": "boolean", "str": "string", "err": "error"}.get(k, k)
    if k == "list":
        return "[%s]" % type_text(t["e"])
    if k == "map":
        return "{%s: %s}" % (type_text(t["a"]), type_text(t["b"]))
    if k in ("rec", "alias"):
        return t["n"]
    if k == "union":
        return " | ".join("(%s)" % type_text(u) if u["k"] == "fn" else type_text(u) for u in t["ts"])
    return "\\(%s) %s" % (", ".join(map(type_text, t["ps"])), type_text(t["r"]))


class Printer:
    def __init__(self):
        self.casts = {}

    def cast(self, t, text):
        """The value seen at type t: by way of a function, since the types of expressions are inferred."""
        t = type_text(t)
        if t not in self.casts:
            self.casts[t] = "cast%d" % (len(self.casts) + 1)
        return "%s(%s)" % (self.casts[t], text)

    def block(self, b):
        if b["k"] != "block":
            return "{\n%s\n}" % self.e(b)
        lines = ["%s%s" % (s["x"] + " = " if s["x"] else "", self.e(s["e"])) for s in b["ss"]]
        last = self.e(b["e"])
        if last[0] == "{":      # would be fields after a name
            last = "(%s)" % last
        return "{\n%s\n}" % "\n".join(lines + [last])

    def operand(self, e):
        text = self.e(e)
        return text if e["k"] in ("num", "bool", "str", "none", "var", "call", "top", "size", "delete", "field", "list", "comp", "map", "rec", "upd", "error", "source", "keys", "values") else "(%s)" % text

    def elements(self, es, entry):
        out = []
        for x in es:
            if x["m"]:
                out.append("..." + self.operand(x["e"]))
            elif entry:
                out.append("%s: %s" % (self.operand(x["e"]), self.operand(x["v"])))
            else:
                out.append(self.operand(x["e"]))
        return " " + ", ".join(out) if out else ""

    def e(self, e):
        k = e["k"]
        if k in ("num",):
            return str(e["v"])
        if k == "bool":
            return "true" if e["v"] else "false"
        if k == "str":
            return '"%s"' % e["v"]
        if k == "none":
            return "none"
        if k in ("var", "top"):
            return e["x"]
        if k == "bin":
            if e.get("of", {}).get("k") == "union":
                return "%s %s %s" % (self.cast(e["of"], self.e(e["a"])), e["op"], self.cast(e["of"], self.e(e["b"])))
            return "%s %s %s" % (self.operand(e["a"]), e["op"], self.operand(e["b"]))
        if k == "not":
            return "!" + self.operand(e["a"])
        if k == "if":
            return "if %s %s else %s" % (self.operand(e["c"]), self.block(e["a"]), self.block(e["b"]))
        if k == "call":
            return "%s(%s)" % (self.operand(e["f"]), ", ".join(map(self.operand, e["as"])))
        if k == "lam":
            return "\\(%s) %s %s" % (", ".join("%s %s" % (p["x"], type_text(p["t"])) for p in e["ps"]), type_text(e["r"]), self.block(e["body"]))
        if k == "list":
            return "[%s%s]" % (type_text(e["t"]), self.elements(e["es"], False))
        if k == "comp":
            fors = []
            for b in reversed(e["bs"]):
                c = "" if b["c"]["k"] == "always" else " if " + self.operand(b["c"])
                fors.append(" for %s in %s%s" % (", ".join(b["xs"]), ", ".join(map(self.operand, b["ls"])), c))
            return "[%s %s%s]" % (type_text(e["t"]), self.operand(e["e"]), "".join(fors))
        if k == "iflist":
            return "if [%s, ...%s] = %s %s else %s" % (e["x"], e["xs"], self.operand(e["l"]), self.block(e["a"]), self.block(e["b"]))
        if k == "map":
            return "{%s: %s%s}" % (type_text(e["kt"]), type_text(e["vt"]), self.elements(e["es"], True))
        if k == "ifmap":
            return "if %s = %s[%s] %s else %s" % (e["x"], self.operand(e["m"]), self.operand(e["key"]), self.block(e["a"]), self.block(e["b"]))
        if k == "delete":
            return "delete(%s, %s)" % (self.operand(e["m"]), self.operand(e["key"]))
        if k in ("rec", "upd"):
            fs = ["%s: %s" % (f["x"], self.operand(f["e"])) for f in e["fs"]]
            if k == "upd":
                fs = ["..." + self.operand(e["e"])] + fs
            return "%s{%s}" % (e["n"], ", ".join(fs))
        if k == "field":
            return "%s.%s" % (self.operand(e["e"]), e["f"])
        if k == "iftype":
            of = self.e(e["e"]) if e["of"]["k"] == "none" else self.cast(e["of"], self.e(e["e"]))
            text = "if %s = %s " % (e["x"], of)
            text += " else if ".join("%s%s %s" % ("as " if i == 0 else "", type_text(b["t"]), self.block(b["e"])) for i, b in enumerate(e["bs"]))
            return text + ("" if e["else"]["k"] == "absent" else " else " + self.block(e["else"]))
        if k == "try":
            return self.cast(dict(k="union", ts=[dict(k="num"), dict(k="err")]), self.e(e["e"])) + "?"
        if k in ("error", "source", "size", "keys", "values"):
            return "%s(%s)" % (k, self.e(e["e"]))
        raise ValueError(k)

    def function(self, d):
        return "%s = \\(%s) %s %s\n" % (d["x"], ", ".join("%s %s" % (p["x"], type_text(p["t"])) for p in d["ps"]), type_text(d["r"]), self.block(d["body"]))


def module(functions):
    p = Printer()
    text = "\n".join(p.function(d) for d in functions)
    casts = "".join("\n%s = \\(x %s) %s {\n  x\n}\n" % (n, t, t) for t, n in p.casts.items())
    return RECORDS + LIBRARY + casts + "\n" + text


def same(want, got):
    """Whether a result is what the specification shows."""
    (k, v), = [(k, v) for k, v in want.items() if k in "nbszlrefm"]
    if k == "n":
        if isinstance(got, dict) and got.get("n") == "8000000000000000":
            got = 0     # the specification has no negative zero
        return type(got) in (int, float) and got == v
    if k == "b":
        return got is v
    if k == "s":
        return got == v
    if k == "z":
        return got is None
    if not isinstance(got, dict):
        return False
    if k == "f":
        return got.get("fun") is True
    if k == "l":
        return "l" in got and len(got["l"]) == len(v) and all(map(same, v, got["l"]))
    if k == "r":
        return "r" in got and got["r"][0].endswith(":" + want["of"]) and len(got["r"]) == len(v) + 1 and all(map(same, v, got["r"][1:]))
    if k == "e":
        return "e" in got and same(v, got["e"])
    if k == "m":
        if "m" not in got or got["size"] != len(v) or len(got["m"]) != len(v):
            return False
        have = dict((json.dumps(a), b) for a, b in got["m"])
        return all(json.dumps(x["key"]) in have and same(shown(x["v"]), have[json.dumps(x["key"])]) for x in v)


def shown(v):
    return {v["k"]: v.get(v["k"], 0)}


def generate(check, focus, count, depth=3, fuel=4000, parts=6, cfg="PenProg.cfg", base=None, step=100000):
    """Programs for `count` seeds, from several TLC processes."""
    base = (vf.SEED * 7919) % 100000 if base is None else base

    def one(n):
        text = open(os.path.join(vf.SPEC, cfg)).read()
        sub = {"First": base + n * count // parts, "Count": count // parts, "Depth": depth, "Fuel": fuel}
        lines = []
        for line in text.splitlines():
            w = line.split()
            if len(w) == 3 and w[1] == "=" and w[0] in sub:
                line = "  %s = %d" % (w[0], sub[w[0]])
            elif len(w) == 3 and w[0] == "Focus":
                line = '  Focus = "%s"' % focus
            lines.append(line)
        name = "gen-%s-%d-%d.cfg" % (focus, os.getpid(), n)
        path = os.path.join("/tmp", name)
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")
        try:
            return vf.tlc_behaviours("PenProg", path, workers=1, timeout=800)
        finally:
            os.unlink(path)

    out = []
    with ThreadPoolExecutor(parts) as ex:
        for r in ex.map(one, range(parts)):
            check.add_tlc(r)
            out += r.behaviours
    return out


def evaluate(check, cmd, progs, what):
    todo = [p for p in progs if not p["big"]]
    check.count("programs_too_large", len(progs) - len(todo))
    cases = [dict(texts={"main/M.pen": module(p["p"])}, roots=["main/M.pen"], calls=[dict(fn="Main", args=[0])], budget=20000000) for p in todo]
    outs = run(cmd, cases, timeout=120)
    for p, c, o in zip(todo, cases, outs):
        if "skipped" in o:
            continue
        check.count("traces_validated_against_impl")
        text = c["texts"]["main/M.pen"]
        replay = dict(text=text, want=dict(v=p["v"], out=p["out"]), got=o, seed=p["seed"])
        if "results" not in o:
            check.violation("%s: %s\n%s" % (what, o, text), replay, key=text)
            continue
        r = o["results"][0]
        if "v" not in r or not same(p["v"], r["v"]):
            check.violation("%s: gives %s rather than %s:\n%s" % (what, r, p["v"], text), replay, key=text)
        elif r.get("debug", []) != [str(n) for n in p["out"]]:
            check.violation("%s: evaluates %s rather than %s:\n%s" % (what, r.get("debug", []), p["out"], text), replay, key=text)
    return todo


FAMILIES = dict(keys=["equal", "key", "wide"], lists=["list", "listequal", "comp", "comp2"],
                all=["boolean", "number", "chain", "union", "any", "widen", "equal", "record", "wide", "assign", "map", "try", "closure"])


def forms(check, cmd, families, step=2, size=8):
    """The modules of PenForms.tla: several in one, each called on its own."""
    parts = families if step == 1 else [p for p in (families[i::4] for i in range(4)) if p]

    def one(fs):
        fs = [fs] if isinstance(fs, str) else fs
        text = open(os.path.join(vf.SPEC, "PenForms.cfg")).read()
        text = re.sub(r"Families = .*", "Families = {%s}" % ", ".join('"%s"' % f for f in fs), text)
        text = re.sub(r"Offset = .*", "Offset = %d" % vf.SEED, text)
        text = re.sub(r"Step = .*", "Step = %d" % step, text)
        path = "/tmp/forms-%d-%s.cfg" % (os.getpid(), fs[0])
        with open(path, "w") as f:
            f.write(text)
        try:
            return vf.tlc_behaviours("PenForms", path, workers=2, timeout=1500)
        finally:
            os.unlink(path)

    progs = []
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(one, parts):
            check.add_tlc(r)
            progs += r.behaviours
    for f in families:
        check.count("modules_" + f, sum(p["f"] == f for p in progs))
    todo = [p for p in progs if not p["big"]]
    check.count("programs_too_large", len(progs) - len(todo))
    groups = [todo[i:i + size] for i in range(0, len(todo), size)]
    compare_forms(check, cmd, groups)
    return todo


def compare_forms(check, cmd, groups):
    texts = [module([d for p in g for d in p["p"]]) for g in groups]
    cases = [dict(texts={"main/M.pen": t}, roots=["main/M.pen"], calls=[dict(fn=p["p"][-1]["x"], args=[0]) for p in g], budget=5000000 * len(g)) for g, t in zip(groups, texts)]
    again = []
    for g, t, o in zip(groups, texts, run(cmd, cases, timeout=120)):
        if "skipped" in o:
            continue
        if "results" not in o:
            if len(g) > 1:
                again += [[p] for p in g]
            else:
                check.violation("a module: %s\n%s" % (o, t), dict(text=t, got=o), key=t)
            continue
        for p, r in zip(g, o["results"]):
            check.count("traces_validated_against_impl")
            replay = dict(text=module(p["p"]), want=dict(v=p["v"], out=p["out"]), got=r)
            if "v" not in r or not same(p["v"], r["v"]):
                check.violation("%s %d: gives %s rather than %s:\n%s" % (p["f"], p["i"], r, p["v"], replay["text"]), replay, key="%s %d" % (p["f"], p["i"]))
            elif r.get("debug", []) != [str(n) for n in p["out"]]:
                check.violation("%s %d: evaluates %s rather than %s:\n%s" % (p["f"], p["i"], r.get("debug", []), p["out"], replay["text"]), replay, key="%s %d" % (p["f"], p["i"]))
    if again:
        compare_forms(check, cmd, again)
