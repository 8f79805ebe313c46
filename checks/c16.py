from pen_common import *
import math

MODULES = {"Utf8": "core/String/Utf8.pen", "Byte": "core/String/Byte.pen", "String": "core/String.pen", "Character": "core/Character.pen", "View": "core/String/Byte/View.pen", "Number": "core/Number.pen"}
ROOTS = sorted(MODULES.values())
MAXI = 1000000


def fn(name, *args):
    m, f = name.split("'")
    return dict(fn=f, **{"in": MODULES[m]}, args=list(args))


def index(h):
    """An index given in halves."""
    return arg(math.inf if h == MAXI else -math.inf if h == -MAXI else h / 2)


def holds(want, got):
    (k, v), = want.items()
    if "v" not in got:
        return False
    g = got["v"]
    if k == "n":
        return type(g) in (int, float) and g == v
    if k == "nan":
        return isinstance(g, dict) and "n" in g and math.isnan(number(g))
    if k == "b":
        return g is v
    if k == "z":
        return g is None
    if k == "s":
        return octets(g) == v
    if k == "l":
        return isinstance(g, dict) and "l" in g and [octets(x) for x in g["l"]] == v


def compare(check, cmd, cases):
    """cases: lists of (call, wanted result, description)."""
    for case, got in zip(cases, batches(cmd, ROOTS, [[c for c, _, _ in case] for case in cases])):
        if got is None:
            continue
        for (c, want, what), r in zip(case, got):
            check.count("calls")
            if want is not None and not holds(want, r):
                check.violation("%s gives %s rather than %s" % (what, r, want), dict(call=c, want=want, got=r), key=what)
            elif want is None and "v" not in r:
                check.violation("%s ends the program: %s" % (what, r), dict(call=c, got=r), key=what)


def text(bs):
    return bytes(bs).decode("utf8", "backslashreplace")


def body(check):
    cmd = binary()
    cases = []
    for kind in ("few", "many"):
        for c in strings(check, kind):
            ops = []
            for o in c["ops"]:
                if o["f"] == "View'StartsWith":
                    continue
                ops.append((fn(o["f"], string(c["s"]), *map(string, o["a"])), o["v"], "%s(%r, %s)" % (o["f"], text(c["s"]), ", ".join(repr(text(a)) for a in o["a"]))))
            cases.append(ops)
    for c in strings(check, "slice"):
        cases.append([(fn(o["f"], string(c["s"]), *map(index, o["h"])), o["v"], "%s(%r, %s)" % (o["f"], text(c["s"]), ", ".join(str(h / 2) for h in o["h"]))) for o in c["ops"]])
    for c in strings(check, "join"):
        cases.append([(fn(o["f"], {"l": [string(s) for s in c["l"]]}, *map(string, o["a"])), o["v"], "%s(%r, %s)" % (o["f"], [text(s) for s in c["l"]], ", ".join(repr(text(a)) for a in o["a"]))) for o in c["ops"]])
    # Numbers which are no indices: anything but the end of the program.
    strange = [math.nan, 1e300, -1e300, 4294967297.0, -0.5, 1e-300]
    cases.append([(fn(f, string(s), arg(a), arg(b)), None, "%s(%r, %s, %s)" % (f, text(s), a, b))
                  for f in ("Utf8'Slice", "Byte'Slice") for s in ([], [97, 98], [195, 169, 97]) for a in strange + [1.0, 2.0] for b in strange + [1.0, 2.0]])
    compare(check, cmd, cases)

    # Views: what every step of a walk leaves.
    prefixes = [[], [97], [97, 98], [98], [255], [195]]
    for c in strings(check, "view"):
        bs, what = [], []
        for w in c["walks"]:
            calls = [fn("View'New", string(c["s"]))]
            for k in w["ks"]:
                a = [arg(math.inf if n == MAXI else -math.inf if n == -MAXI else float(n)) for n in k]
                calls.append(fn("View'Slice" if len(k) == 2 else "View'Seek", {"u": len(calls) - 1}, *a))
            last = {"u": len(calls) - 1}
            n = len(calls)
            v = w["v"]
            wants = [("View'ToString", [], dict(s=v)), ("View'Length", [], dict(n=len(v))), ("View'Viewee", [], dict(s=c["s"])), ("View'Start", [], dict(n=w["o"] + 1)), ("View'End", [], dict(n=w["o"] + len(v)))]
            wants += [("View'StartsWith", [p], dict(b=v[:len(p)] == p)) for p in prefixes]
            calls += [fn(f, last, *map(string, a)) for f, a, _ in wants]
            bs.append(calls)
            what.append((n, w["ks"], wants))
        for (n, ks, wants), got in zip(what, batches(cmd, ROOTS, bs)):
            if got is None:
                continue
            for (f, a, want), r in zip(wants, got[n:]):
                check.count("view_calls")
                if not holds(want, r):
                    d = "%s of the view of %r after %s%s" % (f, text(c["s"]), ks, a)
                    check.violation("%s gives %s rather than %s" % (d, r, want), dict(string=c["s"], steps=ks, f=f, a=a, want=want, got=r), key=d)
    check.sample(dict(call=cases[5][3][2], gives=cases[5][3][1]))


vf.main("C16", "model_checking", body)
