from pen_common import *

MIXED = """type r {
  a number
  b string
}

K = number | string | boolean | none | [number] | r | {number: none}
"""
MIXED_KEYS = ["none", "\"a\"", "r{a: 1, b: \"x\"}", "[number 1, 2]", "{number: none 1: none, 2: none}", "1", "true",
              "false", "\"\"", "[number 2, 1]", "[number]", "r{a: 1, b: \"y\"}", "{number: none}", "0", "[number 1]", "\"1\""]
BODY = """
type M = {%(K)s: number}

Key = \\(i number) %(K)s {
%(keys)s
}

E = \\() M {
  {%(K)s: number}
}

Set = \\(m M, k number, v number) M {
  {%(K)s: number ...m, Key(k): v}
}

Set2 = \\(m M, k number, v number, l number, w number) M {
  {%(K)s: number ...m, Key(k): v, Key(l): w}
}

Mixed = \\(m M, k number, v number, n M) M {
  {%(K)s: number ...m, Key(k): v, ...n}
}

Del = \\(m M, k number) M {
  delete(m, Key(k))
}

Merge = \\(m M, n M) M {
  {%(K)s: number ...m, ...n}
}

Same = \\(m M) M {
  m
}

Get = \\(m M, k number) number {
  if v = m[Key(k)] {
    v
  } else {
    0
  }
}

Keys = \\(m M) [%(K)s] {
  keys(m)
}

Values = \\(m M) [number] {
  values(m)
}

Pairs = \\(m M) [number] {
  [number v() + 100 for k, v in keys(m), values(m) if matches(m, k(), v())]
}

matches = \\(m M, k %(K)s, v number) boolean {
  if w = m[k] {
    v == w
  } else {
    false
  }
}

Size = \\(m M) number {
  size(m)
}

Equal = \\(m M, n M) boolean {
  m == n
}

Nested = \\(m M, n M) number {
  if _ = {M: none m: none}[n] {
    1
  } else {
    0
  }
}
"""


def module(layout):
    kind, keys = layout
    name = "number" if kind == "number" else "K"
    lines, s = "", "  "
    for n, k in enumerate(keys[:-1]):
        lines += "%sif i == %d {\n    %s\n  } else " % (s, n + 1, k)
        s = ""
    lines += "{\n    %s\n  }" % keys[-1]
    head = "" if kind == "number" else MIXED.replace("K =", "type K =")
    return head + BODY % dict(K=name, keys=lines)


def numeric_layouts(cmd, rng, count, check):
    """Numbers whose hashes share their first digits, so that they meet deep in the trie."""
    d = colliding(cmd, vf.tier(12000, 40000))
    groups = [defaultdict(list) for _ in range(6)]
    for k, x in d.items():
        for n in range(1, 6):
            groups[n][x[:n]].append(k)

    def families(n):
        return [v for v in groups[n].values() if len(v) > 1]

    out = []
    deep, mid = families(4), families(3)
    for _ in range(count if deep and mid else 0):
        a, b = rng.sample(rng.choice(deep), 2)
        rest = lambda n: [k for k in groups[n][d[a][:n]] if common(d[k], d[a]) == n] or [rng.randrange(12000, 99999)]
        c, e = rng.choice(rest(2)), rng.choice(rest(1))
        while True:
            f, g = rng.sample(rng.choice(mid), 2)
            if d[f][0] != d[a][0]:
                break
        h = next((k for k in d if d[k][0] not in (d[a][0], d[f][0])), 0)
        keys = [a, b, c, f, g, e, h]
        if len(set(keys)) == 7:
            out.append(("number", [str(k) for k in keys]))
            check.sample(dict(keys=keys, digits=[d.get(k) for k in keys]))
    # digits at the ends of nodes: entries 0 and 31
    ends = [k for k in d if set(d[k][:2]) <= {0, 31}]
    if len(ends) >= 7:
        out.append(("number", [str(k) for k in rng.sample(ends, 7)]))
    return out or [("number", ["1", "2", "3", "4", "5", "6", "7"])]


def calls_of(hist, base):
    """Calls of one history and what each has to give; versions become results base, base + 1, ..."""
    calls, want = [], []
    at = []

    def add(fn, args, expected):
        calls.append(dict(fn=fn, args=args))
        want.append(expected)
        return base + len(calls) - 1

    vers = hist["vers"]
    for n, v in enumerate(vers):
        if n == 0:
            at.append(add("E", [], ("map", v)))
            continue
        op = hist["ops"][n - 1]
        u = lambda i: {"u": at[i - 1]}
        o, i = op[0], op[1]
        args = {"set": lambda: ("Set", [u(i), op[2], op[3]]), "set2": lambda: ("Set2", [u(i)] + op[2:]), "del": lambda: ("Del", [u(i), op[2]]),
                "merge": lambda: ("Merge", [u(i), u(op[2])]), "mixed": lambda: ("Mixed", [u(i), op[2], op[3], u(op[4])])}[o]()
        at.append(add(*args, ("map", v)))
    # every version again, after everything else has been done
    for n, v in enumerate(vers):
        add("Same", [{"u": at[n]}], ("map", v))
        if n + 3 >= len(vers) or n % 3 == 0:
            add("Keys", [{"u": at[n]}], ("keys", v))
            add("Values", [{"u": at[n]}], ("values", v))
            add("Pairs", [{"u": at[n]}], ("pairs", v))
            add("Size", [{"u": at[n]}], ("size", v))
            for k in range(len(v)):
                add("Get", [{"u": at[n]}, k + 1], ("value", v[k]))
    for n in range(len(vers)):
        for m in {0, len(vers) - 1, n, (n * 5 + 3) % len(vers)} | {m for m in range(n) if vers[m] == vers[n]}:
            same = vers[n] == vers[m]
            add("Equal", [{"u": at[n]}, {"u": at[m]}], ("value", same))
            if m % 2 == 0:
                add("Nested", [{"u": at[n]}, {"u": at[m]}], ("value", 1 if same else 0))
    return calls, want


def judge(got, want, index):
    if "v" not in got:
        return "gives %s" % got
    kind, v = want
    x = got["v"]
    if kind == "value":
        return None if x == v and type(x) is type(v) else "gives %s rather than %s" % (x, v)
    present = sorted((k + 1, w) for k, w in enumerate(v) if w)
    if kind == "size":
        return None if x == len(present) else "gives size %s rather than %d" % (x, len(present))
    if not isinstance(x, dict) or (kind if kind == "map" else "l")[:1] not in x:
        return "gives %s" % x
    key = lambda k: index.get(json.dumps(k), -1)
    if kind == "map":
        have = sorted((key(k), w) for k, w in x["m"])
        if x["size"] != len(present):
            return "has size %s rather than %d" % (x["size"], len(present))
    elif kind == "keys":
        have, present = sorted(key(k) for k in x["l"]), [k for k, _ in present]
    else:
        add = 100 if kind == "pairs" else 0
        have, present = sorted(x["l"]), sorted(w + add for _, w in present)
    return None if have == present else "gives %s rather than %s" % (have, present)


# Maps whose keys are different but have one hash.
EQUAL_HASHES = [
    ("none and an empty list", "none | [number]", "none: 1, [number]: 2", 2),
    ("a number and a list of it", "number | [number]", "1: 1, [number 1]: 2", 2),
    ("zero and an empty string", "number | string", "0: 1, \"\": 2", 2),
    ("lists of nothing", "[none]", "[none]: 1, [none none]: 2", 2),
    ("two NaNs", "number", "0 / 0: 1, 0 / 0: 2", 2),
    ("lists of booleans", "[boolean]", "[boolean %s]: 1, [boolean %s]: 2" % tuple(
        ", ".join("true" if c == "t" else "false" for c in w) for w in ("tfftttt", "tttttff")), 2),
]


SAME_HASH = [("none", "[number]"), ("1", "[number 1]"), ("\"\"", "0")]


def equal_hashes(check, cmd):
    for what, k, entries, size in EQUAL_HASHES:
        text = "F = \\() {%s: number} {\n  {%s: number %s}\n}\n" % (k, k, entries)
        case = dict(texts={"main/M.pen": text}, roots=["main/M.pen"], calls=[dict(fn="F", args=[])], budget=300000)
        out = vf.Runner(cmd, timeout=60).run([case])[0]
        got = out.get("results", [{}])[0].get("v")
        if not got or got["size"] != size:
            check.violation("a map with %s as keys, which have equal hashes: %s" % (what, out), case, key="map with keys of equal hashes: " + what)


def body(check):
    cmd = binary()
    histories = []
    r = vf.tlc_behaviours("MapGen", vf.tier("MapGen.cfg", "MapGenT.cfg"), workers=4)
    check.add_tlc(r)
    short = r.behaviours
    with ThreadPoolExecutor(4) as ex:
        sims = list(ex.map(lambda s: vf.tlc_behaviours("MapGen", "MapGenSim.cfg", workers=1, simulate=vf.tier(130, 4000), depth=20, seed=vf.SEED * 100 + s),
                           range(4)))
    long = []
    for r in sims:
        check.add_tlc(r)
        long += r.behaviours
    long = list({json.dumps(h): h for h in long}.values())
    for cfg, ok in (("MapTrie.cfg", True), ("MapTrieF.cfg", False)) if not vf.THOROUGH else (("MapTrieT.cfg", True), ("MapTrieF.cfg", False)):
        r = vf.tlc("MapTrie", cfg, workers=6, expect_ok=ok)
        check.add_tlc(r)
        if not ok and r.ok:
            raise vf.ToolError("the faulty trie of MapTrieF.cfg passes: the invariants are vacuous")
    equal_hashes(check, cmd)
    numeric = numeric_layouts(cmd, check.rng, vf.tier(5, 12), check)
    mixed = []
    for n in range(vf.tier(3, 8)):
        # keys of equal hashes are a known finding, kept out of the histories
        keys = check.rng.sample(MIXED_KEYS, len(MIXED_KEYS))
        for pair in SAME_HASH:
            keys.remove(min(pair, key=keys.index))
        mixed.append(("mixed", keys[:7]))
    layouts = numeric + mixed
    jobs = []
    for n, layout in enumerate(layouts):
        hs = [h for i, h in enumerate(long) if i % len(layouts) == n] + ([] if len(long) > 2000 else check.rng.sample(long, min(len(long), 20)))
        if n in (0, len(numeric)) or vf.THOROUGH and n < 4:
            hs += short
        else:
            hs += check.rng.sample(short, min(len(short), 40))
        for b in range(0, len(hs), 40):
            jobs.append((layout, hs[b:b + 40]))
    cases, wants = [], []
    for layout, hs in jobs:
        keys = layout[1]
        calls = [dict(fn="Key", args=[k + 1]) for k in range(len(keys))]
        want, origin = [None] * len(calls), [None] * len(calls)
        for h in hs:
            c, w = calls_of(h, len(calls))
            calls += c
            want += w
            origin += [h] * len(c)
        cases.append(dict(texts={"main/M.pen": module(layout)}, roots=["main/M.pen"], calls=calls, budget=2000000))
        wants.append((want, origin))
    outs = run(cmd, cases, timeout=200)
    for (layout, hs), case, (want, origin), out in zip(jobs, cases, wants, outs):
        if "skipped" in out:
            continue
        if "results" not in out:
            check.violation("keys %s: %s" % (layout[1], out), dict(case=case if len(hs) == 1 else dict(layout=layout), outcome=out))
            continue
        res = out["results"]
        n = len(layout[1])
        index = {json.dumps(res[k].get("v")): k + 1 for k in range(n)}
        if len(index) != n:
            check.violation("keys %s: keys evaluate to %s" % (layout[1], res[:n]), dict(layout=layout))
            continue
        bad = set()
        for i in range(n, len(res)):
            problem = judge(res[i], want[i], index)
            if problem and id(origin[i]) not in bad:
                bad.add(id(origin[i]))
                check.violation("keys %s, history %s: %s%s %s" % (layout[1], json.dumps(origin[i]["ops"]), case["calls"][i]["fn"], case["calls"][i]["args"], problem),
                                dict(keys=layout[1], history=origin[i], call=case["calls"][i], got=res[i]))
        check.count("traces_validated_against_impl", len(hs))
        check.count("calls", len(res))
    check.set(layouts=len(layouts))
    check.sample(dict(history=long[0]["ops"]))
    check.assumptions.append("packages/prelude/Map.pen runs in harness/pen's interpreter of the compiler's MIR (the LLVM back end cannot be built here)")


vf.main("C26", "model_checking", body)
