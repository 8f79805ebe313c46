from pen_common import *

HEAD = """import Html'Node { Attribute, Element, Node }
import Html'Render { Render }
"""
SIMPLE = HEAD + """
Text = \\(s string) string | error {
  Render(s)
}

Value = \\(s string) string | error {
  Render(Element{Tag: "a", Attributes: [Attribute Attribute{Key: "x", Value: s}], Children: [Node]})
}

Key = \\(s string) string | error {
  Render(Element{Tag: "a", Attributes: [Attribute Attribute{Key: s, Value: ""}], Children: [Node]})
}

Tag = \\(s string) string | error {
  Render(Element{Tag: s, Attributes: [Attribute], Children: [Node "x"]})
}

Empty = \\(s string) string | error {
  Render(Element{Tag: s, Attributes: [Attribute], Children: [Node]})
}
"""
TREES = dict(
    Text=lambda s: dict(text=s), Value=lambda s: dict(tag=["a"], ats=[dict(k=["x"], v=s)], ns=[]), Key=lambda s: dict(tag=["a"], ats=[dict(k=s, v=[])], ns=[]),
    Tag=lambda s: dict(tag=s, ats=[], ns=[dict(text=["x"])]), Empty=lambda s: dict(tag=s, ats=[], ns=[]))


def with_kind(kind, parts=1, part=0):
    text = open(os.path.join(vf.SPEC, "Html.cfg")).read().replace('"trees"', '"%s"' % kind)
    text = text.replace("Parts = 1", "Parts = %d" % parts).replace("Part = 0", "Part = %d" % part)
    path = "/tmp/html-%d-%s.cfg" % (os.getpid(), kind)
    with open(path, "w") as f:
        f.write(text)
    return path


def generate(check, *kind):
    path = with_kind(*kind)
    try:
        r = vf.tlc_behaviours("Html", path, workers=4, seed=vf.SEED)
    finally:
        os.unlink(path)
    check.add_tlc(r)
    return r.behaviours


def literal(chars):
    return '"%s"' % "".join("\\x%02x" % b for b in written(chars).encode())


def pen(n):
    if "text" in n:
        return literal(n["text"])
    ats = ["Attribute{Key: %s, Value: %s}" % (literal(a["k"]), literal(a["v"])) for a in n["ats"]]
    return "Element{Tag: %s, Attributes: [Attribute %s], Children: [Node %s]}" % (literal(n["tag"]), ", ".join(ats), ", ".join(map(pen, n["ns"])))


def body(check):
    cmd = binary()
    results = []      # (tree, result)

    # Texts, attributes and names of a few characters.
    items = []
    strings = [c["s"] for c in generate(check, "texts", *vf.tier((4, vf.SEED % 4), (1, 0)))]
    items += [(f, s) for s in strings for f in ("Text", "Value")]
    items += [(f, c["s"]) for c in generate(check, "names") for f in ("Key", "Tag", "Empty")]
    letters = [[c] for c in "abcdefghijklmnopqrstuvwxyz"]
    items += [(f, ["a"] + l) for l in letters for f in ("Key", "Tag", "Empty")] + [(f, l) for l in letters for f in ("Key", "Tag", "Text")]
    groups = [items[n:n + 500] for n in range(0, len(items), 500)]
    for g, got in zip(groups, batches(cmd, ["main/M.pen"], [[dict(fn=f, args=[string(written(s).encode())]) for f, s in g] for g in groups], texts={"main/M.pen": SIMPLE}, timeout=200)):
        results += [(TREES[f](s), r) for (f, s), r in zip(g, got or [])]

    # Trees.
    trees = [c["n"] for c in generate(check, "trees")]

    def evaluate(groups):
        texts = [HEAD + "\n\n".join("n%d = \\() Node {\n  %s\n}" % (n, pen(t)) for n, t in enumerate(g)) + "\n\nMain = \\() [string | error] {\n  [string | error %s]\n}\n" % ", ".join("Render(n%d())" % n for n in range(len(g))) for g in groups]
        return run(cmd, [dict(texts={"main/M.pen": t}, roots=["main/M.pen"], calls=[dict(fn="Main", args=[])], budget=30000000) for t in texts], timeout=120)

    groups = [trees[n:n + 30] for n in range(0, len(trees), 30)]
    again = []
    for g, r in zip(groups, evaluate(groups)):
        l = r["results"][0].get("v", {}).get("l") if "results" in r else None
        if l is not None and len(l) == len(g):
            results += [(t, dict(v=x)) for t, x in zip(g, l)]
        else:
            again += [[t] for t in g]
    for g, r in zip(again, evaluate(again) if again else []):
        l = r["results"][0].get("v", {}).get("l") if "results" in r else None
        results.append((g[0], dict(v=l[0]) if l else r))

    # The specification reads what was rendered.
    traces, owner = [], []
    for tree, r in results:
        check.count("trees_rendered")
        x = r.get("v")
        error = isinstance(x, dict) and "e" in x
        try:
            text = [] if error else named(bytes(octets(x)).decode())
        except (TypeError, ValueError):
            check.violation("the tree %s renders as %s" % (pen(tree), r), dict(tree=tree, got=r), key=pen(tree))
            continue
        traces.append(dict(t=text, n=tree, error=error))
        owner.append((tree, r))
    path = with_kind("rendered")
    try:
        rejected, states, transitions = vf.check_traces("Html", path, traces, workers=8)
    finally:
        os.unlink(path)
    check.count("states", states)
    check.count("transitions", transitions)
    check.count("traces_validated_against_impl", len(traces))
    check.sample(dict(tree=traces[-1]["n"], text=written(traces[-1]["t"])))
    for n in rejected:
        tree, r = owner[n]
        check.violation("the tree %s renders as %s" % (pen(tree), r), dict(tree=tree, got=r), key=pen(tree))
    check.assumptions.append("names that are neither letters and hyphens alone nor contain a character that ends a name may be refused or not; texts that are no UTF-8 are not rendered")


vf.main("C28", "model_checking", body)
