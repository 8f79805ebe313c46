import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "bin"))
import vf

SHARDS = 4
NOBODY = 65534
PACKAGES = ("os", "os-sync")


class Places:
    """Scratch folders of an unprivileged user, who runs the code which changes files."""
    def __init__(self):
        self.root = tempfile.mkdtemp(prefix="pen-os-", dir="/tmp")
        os.chmod(self.root, 0o755)
        self.user = NOBODY if os.getuid() == 0 else None
        self.n = 0

    def __enter__(self):
        return self

    def __exit__(self, *_):
        shutil.rmtree(self.root)

    def folder(self):
        self.n += 1
        d = os.path.join(self.root, "place-%d" % self.n)
        os.mkdir(d)
        os.chmod(d, 0o777)
        return d

    def binary(self, package):
        path = os.path.join(self.root, "harness-" + package)
        if not os.path.exists(path):
            shutil.copy(os.path.join(vf.build(package), "harness-" + package), path)
            os.chmod(path, 0o755)
        return path

    def run(self, package, cases, timeout=20, limit=20, shards=SHARDS):
        cmd = [self.binary(package)]
        parts = [cases[i::shards] for i in range(shards)]
        folders = [self.folder() for _ in parts]
        with ThreadPoolExecutor(shards) as ex:
            rs = list(ex.map(lambda p: vf.Runner(cmd, timeout=timeout, limit=limit, cwd=p[0], user=self.user).run(p[1]), zip(folders, parts)))
        out = [None] * len(cases)
        for i, r in enumerate(rs):
            out[i::shards] = r
        return out


def octet(v):
    """Bytes of models as bytes: all values occur, and zeros stay zeros."""
    return v * 37 % 256


def octets(vs):
    return [octet(v) for v in vs]


NO_NAMES = {"!0": [255, 97], "!1": [97, 0, 98], "!2": []}


def path(rng, p):
    """A path in one of its spellings."""
    if p and p[0] in NO_NAMES:
        return NO_NAMES[p[0]]
    return "".join(rng.choice(["/", "/", "/", "//", "/./"]) + x for x in p)


def case_of(rng, b):
    ops = []
    for s in b["h"]:
        o = dict(s["o"])
        for k in "pq":
            if k in o:
                o[k] = path(rng, o[k])
        if "d" in o:
            o["d"] = octets(o["d"])
        ops.append(o)
    return dict(start=[dict(p="/".join(e["p"]), v=e["v"] if e["v"] == [-1] else octets(e["v"])) for e in sorted(b["start"], key=lambda e: e["p"])], ops=ops)


def disk(entries, model):
    return sorted((tuple(e["p"]), tuple(octets(e["v"]) if model and e["v"] != [-1] else e["v"])) for e in entries)


def same(o, r, x):
    """Whether a step gives what it has to."""
    if x.get("ok") != r["ok"]:
        return False
    if not r["ok"] or "v" not in r:
        return True
    v = x.get("v")
    if o["o"] in ("read", "limit"):
        return v == octets(r["v"])
    if o["o"] == "list":
        return v == sorted(r["v"])
    return v == [float(n) for n in r["v"]]


def replay_files(check, behaviours, kinds):
    """Runs histories of Files.tla in both packages; kinds: the operations this property is about."""
    with Places() as places:
        for package in PACKAGES:
            cases = [case_of(check.rng, b) for b in behaviours]
            for b, c, r in zip(behaviours, cases, places.run(package, cases)):
                if "skipped" in r:
                    continue
                check.count("histories")
                check.count("traces_validated_against_impl")
                if "out" not in r:
                    check.violation("%s: %s does not end: %s" % (package, c, r), dict(package=package, case=c, got=r))
                    continue
                for i, (s, o, x) in enumerate(zip(b["h"], c["ops"], r["out"])):
                    if not same(s["o"], s["r"], x["r"]) or disk(x["disk"], False) != disk(s["disk"], True):
                        if o["o"] in kinds:
                            check.violation("%s: after %s and %s, %s gives %s and leaves %s, which must be %s and %s" % (package, c["start"], c["ops"][:i], o, x["r"], disk(x["disk"], False), s["r"], disk(s["disk"], True)),
                                            dict(package=package, case=c, want=b, got=r))
                        break


def process(places, package, case):
    """Runs one process in a place of its own and gives what it did as a trace for ProcessTrace.tla."""
    start = case["start"]
    ops = [o for o in case["ops"] if package == "os" or o["o"] != "run"]
    place = places.folder()
    for name, code in (("t", 0), ("f", 3)):
        with open(os.path.join(place, name), "w") as f:
            f.write("#!/bin/sh\nfor x in \"$@\"; do printf '%%s\\0' \"$x\"; done > out\nexit %d\n" % code)
        os.chmod(os.path.join(place, name), 0o755)
    open(os.path.join(place, "p"), "w").close()
    os.mkdir(os.path.join(place, "d"))
    result = os.path.join(place, "result.json")
    with open(os.path.join(place, "case.json"), "w") as f:
        json.dump(dict(ops=ops, result=result), f)
    env = {b"PATH": b"/usr/bin:/bin", b"CASE": os.path.join(place, "case.json").encode()}
    env.update({bytes(n): bytes(v) for n, v in zip(start["names"], start["values"])})
    user = dict(user=places.user, group=places.user, extra_groups=[]) if places.user else {}
    try:
        p = subprocess.run([places.binary(package).encode()] + [bytes(a) for a in start["args"]], env=env, cwd=place, input=bytes(start["input"]), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30, **user)
    except subprocess.TimeoutExpired:
        return dict(start=start, steps=[], wrong="does not end")
    got = json.load(open(result))["out"] if os.path.exists(result) else []
    steps, base = [], None
    for o, x in zip(ops, got):
        if o["o"] == "arguments":
            x = dict(v=x)
        elif o["o"] == "now":
            base = base or int(x[0]) - 1000
            # Times which are far away are as wrong as others.
            a, n, b = (max(-10 ** 9, min(10 ** 9, v - base)) for v in x)
            x = dict(a=int(a), x=int(n), b=int(b), whole=n == int(n))
        elif o["o"] == "sleep":
            x = dict(a=x[0], b=x[1])
        elif o["o"] == "run":
            data = x["got"]
            words, word = [], []
            for c in data or []:
                if c == 0:
                    words.append(word)
                    word = []
                else:
                    word.append(c)
            x = dict(ok=x["r"]["ok"], ran=[] if data is None else [words + ([word] if word else [])])
        elif o["o"] in ("out", "err") and "v" in x:
            x = dict(x, v=[int(x["v"][0])])
        steps.append(dict(o=o, r=x))
    if ops and ops[-1]["o"] == "exit" and len(steps) == len(ops) - 1:
        steps.append(dict(o=ops[-1], r={}))
    steps.append(dict(o=dict(o="end"), r=dict(code=p.returncode, out=list(p.stdout), err=list(p.stderr))))
    wrong = None if len(steps) == len(ops) + 1 else "does not do all"
    return dict(start=start, steps=steps, wrong=wrong)


def replay_processes(check, cases):
    with Places() as places, ThreadPoolExecutor(8) as ex:
        for package in PACKAGES:
            places.binary(package)
            traces = list(ex.map(lambda c: process(places, package, c), cases))
            for t in traces:
                check.count("processes")
                check.count("traces_validated_against_impl")
            rejected, states, transitions = vf.check_traces("ProcessTrace", "ProcessTrace.cfg", [dict(start=t["start"], steps=t["steps"]) for t in traces])
            check.count("states", states)
            check.count("transitions", transitions)
            for i in sorted(set(rejected) | {i for i, t in enumerate(traces) if t["wrong"]}):
                t = traces[i]
                check.violation("%s: a process begun with %s %s: %s" % (package, short(t["start"]), t["wrong"] or "does what it must not", short(t["steps"])), dict(package=package, case=cases[i], trace=t))


def short(x):
    s = json.dumps(x)
    return s if len(s) < 1500 else s[:1500] + "..."


def net_cases(behaviours, package, long):
    """Every case has an address of the loopback network for itself."""
    base = [127, 40 + 20 * PACKAGES.index(package), 0, 0]
    cases = []
    for i, ops in enumerate(behaviours):
        ip = "%d.%d.%d.%d" % (base[0], base[1] + i // 60000, i // 240 % 250, i % 240 + 1)
        if long:
            cases.append(dict(net="long", place=[ip + ":4000"], streams=ops))
        else:
            cases.append(dict(net="ops", place=[ip + ":4001", ip + ":4002", ip + ":4003"], ops=ops))
    return cases
