from pen_common import *

TEXT = """import Regex'Expression

Matches = \\(p string, ss [string]) [boolean] | error {
  e = Expression'New(p)?

  [boolean Expression'Matches(e, s()) for s in ss]
}

Match = \\(p string, ss [string]) [[string | none] | none] | error {
  e = Expression'New(p)?

  [[string | none] | none Expression'Match(e, s()) for s in ss]
}
"""


def generate(check, kind, parts=1, part=0):
    text = open(os.path.join(vf.SPEC, "Regex.cfg")).read().replace('"random"', '"%s"' % kind)
    text = text.replace("Parts = 1", "Parts = %d" % parts).replace("Part = 0", "Part = %d" % part)
    path = "/tmp/regex-%d-%s.cfg" % (os.getpid(), kind)
    with open(path, "w") as f:
        f.write(text)
    try:
        r = vf.tlc_behaviours("Regex", path, workers=6, seed=vf.SEED)
    finally:
        os.unlink(path)
    check.add_tlc(r)
    return next(b["strings"] for b in r.behaviours if "strings" in b), [b for b in r.behaviours if "t" in b]


def group(g):
    return None if g == ["unmatched"] else written(g)


def read(x):
    return x if x is None else bytes(octets(x) or b"?").decode(errors="replace") if octets(x) != [] else ""


def body(check):
    cmd = binary()
    kinds = [("random", 1, 0), ("texts", *vf.tier((3, vf.SEED % 3), (1, 0)))] + vf.tier([], [("more", 1, 0), ("longer", 6, vf.SEED % 6)])
    items, given = {}, None
    for k in kinds:
        strings, cases = generate(check, *k)
        given = [written(s) for s in strings]
        items.update({written(c["t"]): c for c in cases})
    items = sorted(items.items())
    subjects = {"l": [string(s.encode()) for s in given]}
    groups = [items[n:n + 200] for n in range(0, len(items), 200)]
    calls = [[dict(fn=f, args=[string(p.encode()), subjects]) for p, _ in g for f in ("Matches", "Match")] for g in groups]
    for g, got in zip(groups, batches(cmd, ["main/M.pen"], calls, texts={"main/M.pen": TEXT}, timeout=200)):
        for (p, c), ms, gs in zip(g, (got or [])[0::2], (got or [])[1::2]):
            check.count("patterns")
            error = [isinstance(x.get("v"), dict) and "e" in x["v"] for x in (ms, gs)]
            if c["st"] == "open":
                if not all("v" in x for x in (ms, gs)):
                    check.violation("the pattern %r gives %s, %s" % (p, ms, gs), dict(pattern=p, got=[ms, gs]), key=p)
                continue
            if c["st"] == "bad":
                check.count("ill_formed")
                if error != [True, True]:
                    check.violation("the ill-formed pattern %r is accepted" % p, dict(pattern=p, got=[ms, gs]), key=p)
                continue
            lists = [x["v"].get("l") if isinstance(x.get("v"), dict) else None for x in (ms, gs)]
            if any(l is None or len(l) != len(given) for l in lists):
                check.violation("the pattern %r gives %s, %s" % (p, ms, gs), dict(pattern=p, got=[ms, gs]), key=p)
                continue
            for n, s in enumerate(given):
                check.count("matches")
                m, l = lists[0][n], lists[1][n]
                l = None if l is None else [read(x) for x in l["l"]] if isinstance(l, dict) and "l" in l else l
                if m is not c["ms"][n] or (l is not None) != c["ms"][n]:
                    check.violation("the pattern %r %s %r, but Matches gives %s and Match %s" % (p, "matches in" if c["ms"][n] else "does not match in", s, m, l), dict(pattern=p, string=s, got=[m, l]), key=p)
                elif l is not None and len(l) != c["n"] + 1:
                    check.violation("the pattern %r has %d groups, but Match gives %s" % (p, c["n"], l), dict(pattern=p, string=s, got=l), key=p)
                elif l is not None and "gs" in c and l != [group(x) for x in c["gs"][n]]:
                    check.violation("the pattern %r in %r: Match gives %s rather than %s" % (p, s, l, [group(x) for x in c["gs"][n]]), dict(pattern=p, string=s, got=l), key=p)
    # Subjects and patterns that are no UTF-8 do not end the program.
    odd = [dict(fn=f, args=[string(p), {"l": [string(s)]}]) for f in ("Matches", "Match") for p in ([97], [128], [255, 97], [92]) for s in ([128], [97, 195], [], [237, 160, 128])]
    for c, r in zip(odd, batches(cmd, ["main/M.pen"], [odd], texts={"main/M.pen": TEXT})[0] or []):
        if "v" not in r:
            check.violation("%s gives %s" % (c, r), dict(call=c, got=r), key=json.dumps(c))
    check.sample(dict(pattern=items[-1][0], case=items[-1][1]["st"], strings=given))
    check.assumptions.append("patterns over literals, classes, any, groups, alternatives, repetitions and edges; which groups are left by repetitions of what can be empty is not decided")


vf.main("C32", "model_checking", body)
