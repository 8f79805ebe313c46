"""Shared machinery of all checks: building harnesses, running TLC, running cases, evidence, verdicts."""
from concurrent.futures import ThreadPoolExecutor
import hashlib, json, os, random, re, select, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.realpath(os.path.join(os.path.dirname(__file__), ".."))
REPO = os.environ.get("PEN_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TARGET = os.environ.get("VERIF_TARGET", os.path.join(VERIF, "target"))


class ToolError(Exception):
    pass


def log(*a):
    print("#", *a, file=sys.stderr, flush=True)


def tier(quick, thorough):
    return thorough if THOROUGH else quick


# ------------------------------------------------------------------ builds
def cargo_env(cfg=True):
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "")
    e["RUSTUP_TOOLCHAIN"] = "1.98.0"
    e["RUSTC_WRAPPER"] = ""
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTFLAGS"] = "-A warnings -C debuginfo=0" + (" --cfg pen_verif" if cfg else "")
    return e


def build(crate, bins=None, cfg=True, timeout=800):
    """Builds /verif/harness/<crate> against /repo's working tree; returns the directory of its binaries."""
    src = os.path.join(VERIF, "harness", crate)
    target = os.path.join(TARGET, crate)
    os.makedirs(target, exist_ok=True)
    env = cargo_env(cfg)
    env["CARGO_TARGET_DIR"] = target
    cmd = ["cargo", "build", "--offline", "--locked", "--quiet"]
    for b in bins or []:
        cmd += ["--bin", b]
    t = time.time()
    r = subprocess.run(cmd, cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode != 0:
        raise ToolError("building harness %s failed:\n%s" % (crate, r.stdout[-6000:]))
    log("built %s in %.1fs" % (crate, time.time() - t))
    return os.path.join(target, "debug")


# ------------------------------------------------------------------ TLC
class TlcResult:
    pass


def tlc(module, cfg, env=None, workers=4, timeout=600, simulate=None, depth=None, seed=None, deadlock=None,
        extra=(), heap="4g", expect_ok=True, coverage=False):
    """Runs TLC on spec/<module>.tla with spec/<cfg>. Returns output facts; prints of "@@" lines are collected."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir="/tmp")
    cmd = ["java", "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4", "-Xss512m", "-Xmx" + heap, "-cp", JAR, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-config", cfg, "-noGenerateSpecTE"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate]
    if depth:
        cmd += ["-depth", str(depth)]
    if seed is not None:
        cmd += ["-seed", str(seed)]
    if deadlock is False:
        cmd += ["-deadlock"]
    if coverage:
        cmd += ["-coverage", "1"]
    cmd += list(extra) + [module]
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    t = time.time()
    out_path = os.path.join(meta, "out.txt")
    try:
        with open(out_path, "w") as f:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        rc = r.returncode
        out = open(out_path, errors="replace").read()
    except subprocess.TimeoutExpired:
        out = open(out_path, errors="replace").read()
        raise ToolError("TLC timed out on %s (%ss)\n%s" % (module, timeout, out[-2000:]))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    res = TlcResult()
    res.rc, res.out, res.wall = rc, out, time.time() - t
    res.printed = []
    rest = []
    for line in out.splitlines():
        if line.startswith('"@@'):
            res.printed.append(json.loads(line)[2:])
        else:
            rest.append(line)
    res.text = "\n".join(rest)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", res.text.replace(",", "").replace("generated ", "generated, "))
    m = m or re.findall(r"(\d+) states generated[ ,]+(\d+) distinct", res.text.replace(",", ""))
    res.transitions, res.states = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    if simulate:
        m = re.findall(r"The number of states generated: (\d+)", res.text)
        res.transitions = int(m[-1]) if m else 0
        res.states = res.transitions
    res.ok = rc == 0
    if expect_ok and rc != 0:
        raise ToolError("TLC failed on %s with %s (exit %d):\n%s" % (module, cfg, rc, res.text[-5000:]))
    log("tlc %s %s: rc=%d %d states %d generated, %d printed, %.1fs" % (module, cfg, rc, res.states, res.transitions, len(res.printed), res.wall))
    return res


def tlc_behaviours(*a, **k):
    """TLC run whose printed lines are JSON behaviours."""
    r = tlc(*a, **k)
    r.behaviours = [json.loads(x) for x in r.printed]
    return r


def tlc_samples(module, cfg, procs, num, **k):
    """Several simulations side by side, one worker each: workers of one TLC draw the same random elements."""
    seed = k.pop("seed", SEED)
    with ThreadPoolExecutor(procs) as ex:
        rs = list(ex.map(lambda i: tlc_behaviours(module, cfg, workers=1, simulate=max(1, num // procs), seed=seed * 1009 + i, **k), range(procs)))
    r, seen, out = rs[0], set(), []
    for x in rs[1:]:
        r.states += x.states
        r.transitions += x.transitions
    for x in rs:
        for text, b in zip(x.printed, x.behaviours):
            if text not in seen:
                seen.add(text)
                out.append(b)
    r.behaviours = out
    return r


def check_traces(module, cfg, traces, workers=8, env=None, timeout=600, chunk=None, heap="8g"):
    """Validates recorded traces (list of lists of events) against a trace specification.

    The trace specification takes the traces from the file named by $TRACES (a JSON array), steps through every
    trace and prints "@@<n>" once trace n has been matched to its end. Returns the indices of rejected traces."""
    rejected, states, transitions = [], 0, 0
    chunk = chunk or max(1, len(traces))
    for base in range(0, len(traces), chunk):
        part = traces[base:base + chunk]
        fd, path = tempfile.mkstemp(prefix="traces-", suffix=".json", dir="/tmp")
        with os.fdopen(fd, "w") as f:
            json.dump(part, f)
        try:
            e = dict(env or {})
            e["TRACES"] = path
            r = tlc(module, cfg, env=e, workers=workers, timeout=timeout, deadlock=False, heap=heap)
        finally:
            os.unlink(path)
        states += r.states
        transitions += r.transitions
        accepted = {int(x) for x in r.printed}
        rejected += [base + i for i in range(len(part)) if i + 1 not in accepted]
    return rejected, states, transitions


# ------------------------------------------------------------------ running cases in the real code
class Runner:
    """Feeds cases (one JSON line each) to a harness process that answers one JSON line per case.

    A crash (abort, signal) or a hang of the process is an outcome of the case being run: {"crash": ...}/{"hang": true};
    the process is restarted for the remaining cases."""

    def __init__(self, cmd, timeout=20, env=None, cwd=None, limit=200, user=None):
        self.cmd, self.timeout, self.env, self.cwd, self.limit = cmd, timeout, env, cwd, limit
        self.user = dict(user=user, group=user, extra_groups=[]) if user else {}

    def run(self, cases, window=256):
        results = [None] * len(cases)
        i = 0
        restarts = 0
        while i < len(cases):
            i = self._session(cases, i, results)
            if i < len(cases):
                restarts += 1
                if restarts > self.limit:
                    for j in range(i, len(cases)):
                        results[j] = {"skipped": True}
                    break
        return results

    def _session(self, cases, start, results):
        e = dict(os.environ)
        e.update(self.env or {})
        fd, path = tempfile.mkstemp(prefix="cases-", dir="/tmp")
        with os.fdopen(fd, "w") as f:
            for c in cases[start:]:
                f.write(json.dumps(c) + "\n")
        err = tempfile.TemporaryFile()
        try:
            with open(path) as inp:
                p = subprocess.Popen(self.cmd, stdin=inp, stdout=subprocess.PIPE, stderr=err, env=e, cwd=self.cwd, **self.user)
            i = start
            buf = b""
            fdno = p.stdout.fileno()
            hang = False
            last = time.time()
            while True:
                ready, _, _ = select.select([fdno], [], [], max(0.05, self.timeout - (time.time() - last)))
                if not ready:
                    if time.time() - last >= self.timeout:
                        hang = True
                        p.kill()
                        break
                    continue
                data = os.read(fdno, 1 << 20)
                if not data:
                    break
                buf += data
                *lines, buf = buf.split(b"\n")
                for line in lines:
                    if i < len(cases):
                        try:
                            results[i] = json.loads(line)
                        except ValueError:
                            raise ToolError("bad harness output: %r" % line[:500])
                        i += 1
                    last = time.time()
            p.wait()
            if i < len(cases):
                if hang:
                    results[i] = {"hang": True}
                else:
                    err.seek(0)
                    text = err.read()[-900:].decode(errors="replace")
                    results[i] = {"crash": p.returncode, "stderr": text}
                i += 1
            return i
        finally:
            os.unlink(path)
            err.close()


# ------------------------------------------------------------------ known findings, verdicts, evidence
def known_findings(prop):
    path = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(path):
        return []
    return [f for f in json.load(open(path)).get("findings", []) if f["property"] == prop]


class Check:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.violations = []      # (key, description, replay object)
        self.known_hit = {}
        self.coverage = {}
        self.assumptions = []
        self.rng = random.Random(SEED * 1000003 + int(prop[1:]))

    def count(self, key, n=1):
        self.coverage[key] = self.coverage.get(key, 0) + n

    def set(self, **k):
        self.coverage.update(k)

    def sample(self, case, limit=4):
        s = self.coverage.setdefault("samples", [])
        if len(s) < limit:
            s.append(case)

    def violation(self, what, replay, key=None):
        """key identifies the failing input; known findings are matched by it exactly."""
        key = key if key is not None else json.dumps(replay, sort_keys=True)
        for f in known_findings(self.prop):
            if key in f.get("keys", []):
                self.known_hit.setdefault(f["id"], f)
                return
        self.violations.append((key, what, replay))

    def add_tlc(self, r):
        self.count("states", r.states)
        self.count("transitions", r.transitions)

    def finish(self):
        for f in self.known_hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]))
        self.coverage.setdefault("samples", [])
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level, coverage=self.coverage,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if self.violations:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            # the shortest failing case first
            self.violations.sort(key=lambda v: len(json.dumps(v[2])))
            path = os.path.join(d, "%s-%s.json" % (self.prop, hashlib.sha1(self.violations[0][0].encode()).hexdigest()[:10]))
            with open(path, "w") as f:
                json.dump(dict(property=self.prop, what=self.violations[0][1], replay=self.violations[0][2],
                               more=[dict(what=w, replay=r) for _, w, r in self.violations[1:20]]), f, indent=1)
            for _, w, _ in self.violations[:5]:
                print("#", self.prop, w[:1500])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            sys.stdout.flush()
            return 1
        c = {k: v for k, v in self.coverage.items() if not isinstance(v, (list, dict, str))}
        print("OK property=%s tier=%s %s wall=%.1fs" % (self.prop, TIER, c, time.time() - self.t0))
        return 0


def main(prop, level, body):
    """Runs a check body; tool errors exit 2 so that they are never taken for a verdict."""
    check = Check(prop, level)
    try:
        body(check)
    except ToolError as e:
        print("TOOL ERROR:", e)
        sys.exit(2)
    except Exception:
        import traceback
        traceback.print_exc()
        print("TOOL ERROR: exception in check")
        sys.exit(2)
    sys.exit(check.finish())
