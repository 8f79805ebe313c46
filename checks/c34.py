from pen_common import *
import math

MODULE = """import Flag'Flag
import Core'Boolean
import Core'List
import Random'Context
import Random'Random
import Test'Assert

type result {
  named {string: string}
  positional [string]
}

type lists {
  ends [any]
  numbers [number]
  strings [string]
  booleans [boolean]
}

Parse = \\(ss [string]) result | error {
  s = Flag'Parse(ss)?

  result{named: s.Named, positional: s.Positional}
}

Booleans = \\(bs [boolean]) [boolean] {
  [boolean Boolean'Any(bs), Boolean'All(bs)]
}

list = \\(xs [any]) [any] {
  [any List'First(xs, 9), List'Last(xs, 9)]
}

numbers = \\(xs [any]) [number] {
  List'ToNumbers(xs)
}

Lists = \\(xs [any]) lists {
  lists{ends: list(xs), numbers: numbers(xs), strings: List'ToStrings(xs), booleans: List'ToBooleans(xs)}
}

Asserts = \\(x any) [none | error] {
  [none | error Assert'True(if x = x as boolean { x } else { false }), Assert'Error(x), Assert'Fail()]
}

AssertsError = \\(x any) [none | error] {
  [none | error Assert'Error(error(x))]
}

draw = \\(c Context'Context, n number) [number] {
  if n == 0 {
    [number]
  } else {
    [number Random'Number(c), ...draw(c, n - 1)]
  }
}

Draw = \\(n number) [number] {
  draw(Context'UnsafeNew(), n)
}
"""


def generate(check, kind, longest):
    path = "/tmp/helpers-%d.cfg" % os.getpid()
    with open(path, "w") as f:
        f.write(open(os.path.join(vf.SPEC, "Helpers.cfg")).read().replace('"flags"', '"%s"' % kind).replace("Longest = 4", "Longest = %d" % longest))
    try:
        r = vf.tlc_behaviours("Helpers", path, workers=4)
    finally:
        os.unlink(path)
    check.add_tlc(r)
    return r.behaviours


def value(x):
    return {"none": lambda: None, "number": lambda: x["n"], "string": lambda: x["s"], "boolean": lambda: x["b"], "list": lambda: {"l": [1]}}[x["k"]]()


def given(x):
    return {"v": value(x)}


def body(check):
    cmd = binary()

    def compare(calls, name, ok):
        """calls: (arguments, what is expected)"""
        groups = [calls[n:n + 300] for n in range(0, len(calls), 300)]
        for g, got in zip(groups, batches(cmd, ["main/M.pen"], [[dict(fn=name, args=a) for a, _ in g] for g in groups], texts={"main/M.pen": MODULE}, timeout=200)):
            for (a, want), r in zip(g, got or [{}] * len(g)):
                check.count(name.lower())
                if not ok(want, r.get("v", "nothing")):
                    check.violation("%s of %s gives %s rather than %s" % (name, a, r, want), dict(function=name, args=a, want=want, got=r), key="%s %s" % (name, a))

    def flags(want, v):
        if not isinstance(v, dict) or not want["ok"]:
            return isinstance(v, dict) and not want["ok"] and "e" in v
        if "r" not in v or v["r"][0] != "main/M.pen:result":
            return False
        _, named, positional = v["r"]
        return sorted(map(tuple, named["m"])) == sorted(("".join(e["n"]), "".join(e["v"])) for e in want["named"]) and named["size"] == len(want["named"]) \
            and positional["l"] == ["".join(a) for a in want["positional"]]

    compare([([{"l": ["".join(a) for a in c["as"]]}], c["r"]) for c in generate(check, "flags", vf.tier(4, 5))], "Parse", flags)
    compare([([{"l": c["bs"]}], [c["some"], c["every"]]) for c in generate(check, "booleans", vf.tier(4, 6))], "Booleans", lambda w, v: v == {"l": w})

    def lists(c, v):
        return v == {"r": ["main/M.pen:lists", {"l": [value(c["first"]), value(c["last"])]}] + [{"l": [value(x) for x in c[k]]} for k in ("numbers", "strings", "booleans")]}

    elements = generate(check, "lists", vf.tier(3, 4))
    compare([([{"l": [given(x) for x in c["xs"]]}], c) for c in elements], "Lists", lists)
    error = lambda x: isinstance(x, dict) and "e" in x
    values = [c["xs"][0] for c in elements if len(c["xs"]) == 1]
    compare([([given(x)], x) for x in values], "Asserts", lambda x, v: isinstance(v, dict) and len(v.get("l", [])) == 3 and (v["l"][0] is None) == (value(x) is True) and all(map(error, v["l"][1:])) and (v["l"][0] is None or error(v["l"][0])))
    compare([([given(x)], x) for x in values], "AssertsError", lambda x, v: v == {"l": [None]})

    # Random numbers.
    got = batches(cmd, ["main/M.pen"], [[dict(fn="Draw", args=[vf.tier(1000, 5000)])] * 4], texts={"main/M.pen": MODULE}, timeout=200)
    traces = []
    for r in got[0] or [{}]:
        xs = r.get("v", {}).get("l") if isinstance(r.get("v"), dict) else None
        if not xs:
            check.violation("drawing random numbers gives %s" % r, dict(got=r))
            continue
        xs = [number(x) for x in xs]
        traces.append([max(-2000000, min(2000000, math.floor(x * 1000000))) if math.isfinite(x) else -1 for x in xs])
    path = "/tmp/helpers-%d-random.cfg" % os.getpid()
    with open(path, "w") as f:
        f.write(open(os.path.join(vf.SPEC, "Helpers.cfg")).read().replace('"flags"', '"random"'))
    try:
        rejected, states, transitions = vf.check_traces("Helpers", path, traces, workers=4)
    finally:
        os.unlink(path)
    check.count("states", states)
    check.count("transitions", transitions)
    check.count("traces_validated_against_impl", len(traces))
    for n in rejected:
        check.violation("random numbers, in millionths: %s" % traces[n][:50], dict(numbers=traces[n]))
    check.sample(dict(elements=elements[-1]))


vf.main("C34", "model_checking", body)
