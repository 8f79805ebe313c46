"""Running Pen modules through the compiler front end and the interpreter (harness/pen)."""
import json, os, re, struct, sys
from collections import defaultdict
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "bin"))
import vf

SHARDS = 7


def binary():
    return [os.path.join(vf.build("pen", ["harness-pen"]), "harness-pen")]


def run(cmd, cases, timeout=120, shards=SHARDS, limit=60):
    shards = max(1, min(shards, len(cases)))
    out = [None] * len(cases)
    with ThreadPoolExecutor(shards) as ex:
        rs = list(ex.map(lambda n: vf.Runner(cmd, timeout=timeout, limit=limit).run(cases[n::shards]), range(shards)))
    for n, r in enumerate(rs):
        out[n::shards] = r
    return out


def number(x):
    """The number denoted by a result."""
    if isinstance(x, dict) and "n" in x:
        return struct.unpack(">d", bytes.fromhex(x["n"].zfill(16)))[0]
    return x


def bits(f):
    return struct.unpack(">Q", struct.pack(">d", f))[0]


def arg(f):
    """A number as an argument, exactly."""
    return {"n": "%x" % bits(f)}


def octets(x):
    return list(x["s"]) if isinstance(x, dict) and "s" in x else list(x.encode()) if isinstance(x, str) else None


def string(bs):
    return {"s": list(bs)}


def foreign(cmd, calls, timeout=120):
    """Results of foreign functions; None for a whole batch that crashed."""
    r = vf.Runner(cmd, timeout=timeout).run([{"roots": ["core/Number.pen"], "calls": [{"foreign": f, "args": a} for f, a in calls]}])[0]
    return r.get("results")


def colliding(cmd, n=20000, levels=4):
    """Families of numbers by how many of the first digits of their hashes they share."""
    hs = foreign(cmd, [("_pen_prelude_hash_number", [k]) for k in range(n)])
    if not hs or any("v" not in h for h in hs):
        return {}
    r = foreign(cmd, [("_pen_prelude_hash_to_index", [h["v"], 1, l]) for h in hs for l in range(1, levels + 2)])
    if not r or any("v" not in h for h in r):
        return {}
    v = [number(x["v"]) for x in r]
    w = levels + 1
    return {k: tuple(v[w * k:w * k + w]) for k in range(n)}


def common(a, b):
    n = 0
    while n < len(a) and a[n] == b[n]:
        n += 1
    return n


def batches(cmd, roots, batches, timeout=120, texts=None):
    """Results of lists of calls; a list during which the program ends is run again, its calls one by one where
    they do not depend on each other. A batch is a list of calls; a result is a dictionary for each."""
    def case(b):
        c = dict(roots=roots, calls=b, budget=3000000 * max(1, len(b)))
        if texts:
            c["texts"] = texts
        return c
    out = []
    for b, r in zip(batches, run(cmd, [case(b) for b in batches], timeout=timeout)):
        if "results" in r:
            out.append(r["results"])
        elif "skipped" in r:
            out.append(None)
        elif len(b) > 1 and not any("u" in json.dumps(c) and '"u":' in json.dumps(c) for c in b):
            singles = run(cmd, [case([c]) for c in b], timeout=timeout)
            out.append([s["results"][0] if "results" in s else s for s in singles])
        else:
            out.append([r] * len(b))
    return out


def bytes_of(x):
    return octets(x["v"]) if "v" in x else None


def strings(check, kind):
    text = open(os.path.join(vf.SPEC, "Strings.cfg")).read().replace('"few"', '"%s"' % kind)
    path = "/tmp/strings-%d-%s.cfg" % (os.getpid(), kind)
    with open(path, "w") as f:
        f.write(text)
    try:
        r = vf.tlc_behaviours("Strings", path, workers=4)
    finally:
        os.unlink(path)
    check.add_tlc(r)
    return r.behaviours


NAMED = {"U+E9": "\u00e9", "U+6F22": "\u6f22"}    # characters which specifications name


def written(chars):
    return "".join(NAMED.get(c, c) for c in chars)


def named(text):
    back = {v: k for k, v in NAMED.items()}
    return [back.get(c, c) for c in text]
