"""Reduces a program of PenProg.tla while the real code fails on it in the same way: reduce.py FOCUS SEED DEPTH PATTERN"""
import copy, sys, os, json, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "checks"))
from eval_common import *


class Live:
    def __init__(self):
        self.p = None

    def run(self, text, args=()):
        if self.p is None:
            self.p = subprocess.Popen(binary(), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        self.p.stdin.write(json.dumps(dict(texts={"main/M.pen": text}, roots=["main/M.pen"], calls=[dict(fn="Main", args=list(args))], budget=300000)) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            self.p = None
            return "crash"
        return line


LEAVES = [dict(k="num", v=0), dict(k="none"), dict(k="str", v="a"), dict(k="bool", v=True), dict(k="list", t=dict(k="num"), es=[]),
          dict(k="map", kt=dict(k="num"), vt=dict(k="num"), es=[])]


def nodes(x, path=()):
    if isinstance(x, dict):
        if "k" in x and path and path[-1] not in ("t", "r", "of", "kt", "vt"):
            yield path
        for k, v in x.items():
            if k not in ("t", "of", "kt", "vt") and not (k == "r"):
                yield from nodes(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from nodes(v, path + (i,))


def at(x, path):
    for p in path:
        x = x[p]
    return x


def children(x):
    out = []
    for p in nodes(x):
        c = at(x, p)
        if c["k"] not in ("block", "always", "absent"):
            out.append(c)
    return out[:12]


def reduce(p, bad):
    changed = True
    while changed:
        changed = False
        for path in sorted(nodes(p), key=len):
            try:
                cur = at(p, path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(cur, dict) or "k" not in cur:
                continue
            cands = []
            if cur["k"] == "block":
                for i in range(len(cur["ss"])):
                    cands.append(dict(cur, ss=cur["ss"][:i] + cur["ss"][i + 1:]))
            elif cur["k"] not in ("always", "absent"):
                if cur["k"] in ("list", "map") and cur["es"]:
                    for i in range(len(cur["es"])):
                        cands.append(dict(cur, es=cur["es"][:i] + cur["es"][i + 1:]))
                cands += [l for l in LEAVES if json.dumps(l) != json.dumps(cur)] if cur not in LEAVES else []
                cands += children(cur)
            for c in cands:
                if len(json.dumps(c)) >= len(json.dumps(cur)):
                    continue
                q = copy.deepcopy(p)
                at(q, path[:-1])[path[-1]] = copy.deepcopy(c)
                if bad(q):
                    p, changed = q, True
                    break
    return p


if __name__ == "__main__":
    focus, seed, depth, pattern = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    class C:
        def add_tlc(self, r): pass
    p = generate(C(), focus, 1, depth=depth, parts=1, base=seed)[0]["p"]
    live = Live()
    bad = lambda q: pattern in live.run(module(q), [0] * len(q[-1]["ps"]))
    print("fails:", bad(p))
    for i in range(len(p) - 1):
        q = p[:i] + [dict(p[i], body=dict(k="block", ss=[], e=LEAVES[0]))] + p[i + 1:]
    p = reduce(p, bad)
    t = module(p)
    print(t[t.index("    error(n)"):])
    print(live.run(t, [0] * len(p[-1]["ps"]))[:600])
