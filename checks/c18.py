from eval_common import *
import math

ROOTS = ["core/String.pen", "core/String/Byte.pen"]


def generate_hash(check, kind):
    text = open(os.path.join(vf.SPEC, "Hash.cfg")).read().replace('"strings"', '"%s"' % kind)
    path = "/tmp/hash-%d-%s.cfg" % (os.getpid(), kind)
    with open(path, "w") as f:
        f.write(text)
    try:
        r = vf.tlc_behaviours("Hash", path, workers=4)
    finally:
        os.unlink(path)
    check.add_tlc(r)
    return r.behaviours


def concatenate(parts):
    return dict(fn="Concatenate", **{"in": "core/String.pen"}, args=[{"l": parts}])


def build(w, n):
    """Calls which make a string, the last of them it; n calls come before."""
    if w["k"] == "given":
        return [concatenate([string(w["s"])])], w["s"]
    if w["k"] == "joined":
        return [concatenate([string(s) for s in w["ss"]])], sum(w["ss"], [])
    if w["k"] == "sliced":
        return [dict(fn="Slice", **{"in": "core/String/Byte.pen"}, args=[string(w["s"]), w["a"], w["b"]])], w["s"][w["a"] - 1:w["b"]]
    s, a = w["s"], w["a"]
    return [concatenate([string(s[a:]), string([])]), concatenate([string(s[:a]), {"u": n}])], s


def limbs(b):
    return [b >> 16 * j & 65535 for j in range(4)]


def hexbits(ls):
    return {"n": "%x" % sum(x << 16 * j for j, x in enumerate(ls))}


def integer_bits(r):
    x = r.get("v")
    if isinstance(x, dict) and "n" in x:
        return int(x["n"], 16)
    return bits(float(x)) if type(x) in (int, float) else None


ZEROS = """
type r {
  a number
  b number | none
}

negative = \\() number {
  0 * (0 - 1)
}

nan = \\() number {
  0 / 0
}

at = \\(m {number: number}, k number) number {
  if v = m[k] { v } else { 0 }
}

Look = \\() [number] {
  m = {number: number 0: 1}
  n = {number: number negative(): 2}
  o = {number: number ...m, negative(): 3}

  [number at(m, 0), at(m, negative()), at(n, 0), at(n, negative()), at(o, 0), size(o), size(delete(o, 0)), size(delete(n, 0)), at(m, nan())]
}

Deep = \\() [boolean] {
  a = [number 0, 1]
  b = [number negative(), 1]
  s = r{a: 0, b: 0}
  t = r{a: negative(), b: negative()}

  [boolean
    0 == negative(),
    a == b,
    s == t,
    if _ = {[number]: none a: none}[b] { true } else { false },
    if _ = {r: none s: none}[t] { true } else { false },
    if _ = {number | none: none 0: none}[negative()] { true } else { false },
    {number: number 0: 1} == {number: number negative(): 1},
    {number: number 1: 0} == {number: number 1: negative()},
    if _ = {{number: number}: none {number: number 0: 1}: none}[{number: number negative(): 1}] { true } else { false },
    nan() == nan(),
    [number nan()] == [number nan()],
  ]
}
"""


def body(check):
    cmd = binary()

    # Strings: the same hash for the same bytes.
    built, batch = [], []
    cases = generate_hash(check, "strings")
    groups = [cases[n::SHARDS] for n in range(SHARDS)]
    calls, where = [], []
    for g in groups:
        b, at = [], []
        for c in g:
            for w in c["ways"]:
                made, s = build(w, len(b))
                assert s == c["s"], (w, c["s"])
                b += made
                at.append((c["s"], w, len(b) - 1, len(b)))
                b.append({"foreign": "_pen_prelude_hash_string", "args": [{"u": len(b) - 1}]})
        calls.append(b)
        where.append(at)
    hashes = {}
    some = []
    for at, got in zip(where, batches(cmd, ROOTS, calls)):
        for s, w, made, hashed in at if got else []:
            check.count("hashed")
            r = got[hashed]
            h = integer_bits(r)
            if octets(got[made].get("v")) != s or h is None:
                check.violation("the string %s built as %s is %s, hashed to %s" % (s, w, got[made], r), dict(way=w, made=got[made], hash=r), key="string %s" % w)
                continue
            if hashes.setdefault(h, s) != s:
                check.violation("the strings %s and %s hash alike" % (s, hashes[h]), dict(one=s, other=hashes[h]), key="strings %s %s" % (s, hashes[h]))
            some.append((s, h, w))
    by = {}
    for s, h, w in some:
        if by.setdefault(tuple(s), h) != h:
            check.violation("the string %s built as %s has a hash of its own" % (s, w), dict(way=w), key="hash %s" % w)

    # All pairs of them, built in all ways, are equal or not as their bytes are.
    strings_ = [(c["s"], c["ways"]) for c in cases]
    pairs, b, bs, wants = 0, [], [], []
    rng = check.rng
    for s, ws in strings_:
        wants.append([])
        b = []
        others = [t for t, _ in strings_ if abs(len(t) - len(s)) <= 1]
        for t in others if vf.TIER != "quick" else (others if len(others) <= 12 else rng.sample(others, min(len(others), 30))) + [s] * 6:
            made, _ = build(rng.choice(ws), len(b))
            b += made
            x = len(b) - 1
            made, _ = build(rng.choice(dict((tuple(u), v) for u, v in strings_)[tuple(t)]), len(b))
            b += made
            y = len(b) - 1
            wants[-1] += [(s, t, len(b)), (t, s, len(b) + 1)]
            b += [{"foreign": "_pen_prelude_equal_strings", "args": [{"u": x}, {"u": y}]}, {"foreign": "_pen_prelude_equal_strings", "args": [{"u": y}, {"u": x}]}]
        bs.append(b)
    for want, got in zip(wants, batches(cmd, ROOTS, bs)):
        for s, t, n in want if got else []:
            check.count("compared")
            if got[n].get("v") is not (s == t):
                check.violation("the strings %s and %s: equal is %s" % (s, t, got[n]), dict(one=s, other=t, got=got[n]), key="equal %s %s" % (s, t))

    # Numbers: equal ones hash equally; others apart.
    numbers = [0, 1 << 63, 1, 2, 0x8000000000000001, bits(1.0), bits(-1.0), bits(0.1), bits(0.1 + 2 ** -56), bits(2.0 ** 53), bits(2.0 ** 53 + 2), bits(math.inf), bits(-math.inf), bits(1e308), 0x0010000000000000, 0x000fffffffffffff]
    numbers += [bits(float(n)) for n in range(-300, 3000)] + [rng.getrandbits(64) for _ in range(2000)]
    nans = [0x7ff8000000000000, 0xfff8000000000000, 0x7ff8000000000001, 0x7fffffffffffffff, 0xffffffffffffffff]
    numbers = [n for n in numbers if not math.isnan(number({"n": "%x" % n}))]
    got = foreign(cmd, [("_pen_prelude_hash_number", [{"n": "%x" % n}]) for n in numbers + nans])
    seen = {}
    for n, r in zip(numbers, got or [{}] * len(numbers)):
        check.count("hashed")
        f = number({"n": "%x" % n})
        h = integer_bits(r)
        if h is None or seen.setdefault(h, f) != f:
            check.violation("the numbers %r and %r hash alike: %s" % (f, seen.get(h), r), dict(bits=n, got=r), key="number %x" % n)
        if seen.setdefault(f, h) != h:
            check.violation("the number %r has several hashes" % f, dict(bits=n, got=r), key="number %x" % n)
    if got and len({integer_bits(r) for r in got[len(numbers):]}) != 1:
        check.violation("numbers that are not any hash apart", dict(got=got[len(numbers):]), key="NaNs")

    # Hashes put together.
    combined = [x for c in generate_hash(check, "combine") for x in c["cs"]]
    got = foreign(cmd, [("_pen_prelude_combine_hashes", [hexbits(x["a"]), hexbits(x["b"])]) for x in combined])
    for x, r in zip(combined, got or [{}] * len(combined)):
        check.count("combined")
        if integer_bits(r) != int(hexbits(x["v"])["n"], 16):
            check.violation("the hashes %s and %s together are %s" % (hexbits(x["a"]), hexbits(x["b"]), r), dict(case=x, got=r), key="combine %s %s" % (hexbits(x["a"]), hexbits(x["b"])))

    # Slots: all levels, several layers.
    layers = list(range(1, 9))
    hl = [integer_bits(r) for r in foreign(cmd, [("_pen_prelude_hash_number", [n]) for n in layers])]
    hs = [0, 1, (1 << 64) - 1, 1 << 63, 0x8421084210842108] + [1 << n for n in range(0, 64, 3)] + [rng.getrandbits(64) for _ in range(vf.tier(150, 3000))]
    todo = [(h, layers[n], l) for h in hs for n, l in [(k, hl[k]) for k in range(len(layers))]]
    got = foreign(cmd, [("_pen_prelude_hash_to_index", [{"n": "%x" % h}, n, level]) for h, n, _ in todo for level in range(1, 14)])
    traces = []
    for k, (h, n, l) in enumerate(todo):
        v = [number(r.get("v")) for r in (got or [{}] * 13 * len(todo))[13 * k:13 * k + 13]]
        traces.append([limbs(h), limbs(l), [int(x) if type(x) in (int, float) and x == int(x) else 0 for x in v]])
    path = "/tmp/hash-%d-slots.cfg" % os.getpid()
    with open(path, "w") as f:
        f.write(open(os.path.join(vf.SPEC, "Hash.cfg")).read().replace('"strings"', '"slots"'))
    try:
        rejected, states, transitions = vf.check_traces("Hash", path, traces)
    finally:
        os.unlink(path)
    check.count("traces_validated_against_impl", len(traces))
    for k in rejected:
        check.violation("the slots of the hash %x in the layer %d are %s" % (todo[k][0], todo[k][1], traces[k][2]), dict(trace=traces[k], hash="%x" % todo[k][0]), key="slots %x %d" % todo[k][:2])

    # Keys and comparisons of all types in modules.
    forms(check, cmd, FAMILIES["keys"], step=1)
    r = run(cmd, [dict(texts={"main/M.pen": ZEROS}, roots=["main/M.pen"], calls=[dict(fn="Look", args=[]), dict(fn="Deep", args=[])], budget=5000000)])[0]
    want = [{"l": [1, 1, 2, 2, 3, 1, 0, 0, 0]}, {"l": [True] * 9 + [False] * 2}]
    for w, g in zip(want, r.get("results", [r, r])):
        check.count("traces_validated_against_impl")
        if g.get("v") != w:
            check.violation("zeros of either sign as keys: %s rather than %s" % (g, w), dict(text=ZEROS, got=g, want=w), key="zeros")
    check.sample(dict(slots=traces[0]))


vf.main("C18", "model_checking", body)
