from os_common import *
import time
import c35, glob, hashlib, threading
from c35 import write
from concurrent.futures import ProcessPoolExecutor

# Numbered sources, tidy and untidy. The latter are the former with other spaces, which formatting takes away.
BODIES = [
    ("Foo%d = \\() number {\n  %d\n}\n", "Foo%d   = \\( )  number {\n\n %d\n  }\n"),
    ("# Comment %d\n\ntype Bar%d {\n  x number\n}\n", "\n# Comment %d\n\n\ntype Bar%d {\n x   number\n\n}"),
    ("Foo%d = \\(x number) number {\n  x + %d # comment\n}\n", "Foo%d = \\( x    number )   number {\n x+%d # comment\n\n}\n"),
    ("type t = number | none\n\n# Says %d.\nQux%d = \\(x t) t {\n  x\n}\n", "type t=number|none\n# Says %d.\nQux%d=\\(x t)t{\nx}\n"),
]
WRONG = "Wrong%d = \\() number {\n  %s\n}\n"
UNTIDY_WRONG = "Wrong%d = \\() number {\n  %s}\n\n\n"
OUTCOMES = {"pass": "none", "fail": 'error("wrong %d %d")', "number": "error(42)", "blank": 'error(" ")', "quoted": 'error("a \\"b\\" {} \\\\")'}
MESSAGES = {"pass": "", "number": "<non-string test error>", "blank": " ", "quoted": 'a "b" {} \\'}


def untidied(t, n):
    """Other spaces for a tidy text, in one place only."""
    return [t + "\n", t[:-1], "\n" + t, t[:-1] + " \n", t.replace(" = ", "  = ", 1), t.replace("\n  ", "\n   ", 1), t.replace("\n}\n", "\n\n}\n", 1), t.replace("\n", "\r\n", 1) if t.startswith("#") else t + "\n\n"][n % 8]


def source(s, f):
    n, tidy = f["n"], f["tidy"]
    if not tidy and f["fault"] == "none" and n // 4 % 2:
        return untidied(source(s, dict(f, tidy=True)), n)
    if f["fault"] == "broken":
        return "Foo%d = \\( {\n   1\n}\n" % n
    if s["kind"] == "test":
        parts = []
        for i, t in enumerate(f["tests"]):
            e = OUTCOMES[t]
            e = e % (n, i) if "%d" in e else e
            parts.append("Test%d = \\() none | error {\n  %s\n}\n" % (i, e) if tidy else "Test%d = \\() none|error {\n %s\n }\n\n" % (i, e))
            parts.append("help%d_%d = \\() none {\n  none\n}\n" % (n, i) if tidy else "help%d_%d = \\() none {\nnone}\n\n\n" % (n, i))
        if not parts:
            parts = ["help%d = \\() none {\n  none\n}\n" % n if tidy else "help%d=\\() none{\nnone}\n" % n]
    else:
        parts = [BODIES[n % len(BODIES)][0 if tidy else 1] % (n, n)]
    if f["fault"] == "wrong":
        parts.append((WRONG if tidy else UNTIDY_WRONG) % (n, '"a"'))
    return "\n".join(parts)


def name_of(n):
    """What documentation of a module says, if anything, that no other one says."""
    return [("## `Foo%d`" % n).replace("##", "####"), "#### `Bar%d`" % n, "#### `Foo%d`" % n, "#### `Qux%d`" % n][n % len(BODIES)]


def file_of(s):
    return s["at"] + {"module": ".pen", "test": ".test.pen"}.get(s["kind"], "")


class Package:
    def __init__(self, place, tools, requests):
        self.place, self.tools = os.path.join(place, "main"), tools
        self.env = dict(PATH=os.path.join(tools, "bin") + ":/usr/bin:/bin", PEN_ROOT=tools, PEN_LOG=os.path.join(place, "log"), PEN_REQUESTS=requests, TURTLE_SEED="1", HOME=place)
        self.files, self.seed = {}, 0
        write(os.path.join(self.place, "pen.json"), '{"type":"library","dependencies":{}}')
        os.makedirs(os.path.join(self.place, "D"))

    def pen(self, *args, cwd="", stdin=b""):
        self.seed += 1
        p = subprocess.run(["pen", *args], cwd=os.path.join(self.place, cwd), env=dict(self.env, TURTLE_SEED=str(self.seed)), input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")

    def tree(self):
        out = {}
        for d, ds, fs in os.walk(self.place):
            ds[:] = [x for x in ds if x != ".pen"]
            for f in fs:
                p = os.path.join(d, f)
                out[os.path.relpath(p, self.place)] = open(p, "rb").read().decode("utf-8", "replace")
        out.pop("pen.json", None)
        return out

    def want(self):
        return {file_of(s): source(s, f) for s, f in self.files.values()}

    def restore(self):
        for p, t in self.want().items():
            write(os.path.join(self.place, p), t)


def differences(got, want):
    for p in sorted(set(got) | set(want)):
        if got.get(p) != want.get(p):
            return "%s: %s" % (p, "removed" if p not in got else "made: %r" % got[p] if p not in want else "%r rather than %r" % (got[p], want[p]))


def crashed(code, err):
    if code not in (0, 1) or "panicked" in err:
        return "crashed (%d): %s" % (code, err[-300:])


def step(p, o, i):
    """Does a command, and gives what is wrong with it."""
    k = o["o"]
    if k == "write":
        p.files[file_of(o["s"])] = (o["s"], o["f"])
        write(os.path.join(p.place, file_of(o["s"])), source(o["s"], o["f"]))
        return None
    if k == "delete":
        del p.files[file_of(o["s"])]
        os.remove(os.path.join(p.place, file_of(o["s"])))
        return None
    before = p.tree()
    # Commands find their package from any folder within.
    cwd = "D" if i % 3 == 0 else ""
    if k == "create":
        return create(p, o, i)
    if k == "test":
        code, out, err = p.pen("test", cwd=cwd)
    elif k == "format":
        code, out, err = p.pen("format", cwd=cwd)
    elif k == "check":
        code, out, err = p.pen("format", "--check", cwd=cwd)
    else:
        code, out, err = p.pen("document", "Pack", "https://example.com/pack", "Says a lot.", cwd=cwd)
    wrong = crashed(code, err)
    if wrong:
        return "%s %s" % (k, wrong)
    if (code == 0) != o["ok"]:
        return "%s %s but should not have: %s" % (k, "succeeded" if code == 0 else "failed", (out + err)[-600:])
    if code and not err.strip():
        return "%s failed without a message" % k
    after = p.tree()
    if k == "format":
        tidied = {n: source(s, dict(f, tidy=f["fault"] != "broken")) if s["kind"] in ("module", "test") else before[n] for n, (s, f) in p.files.items()}
        if o["ok"]:
            p.files = {n: (s, dict(f, tidy=True) if s["kind"] in ("module", "test") else f) for n, (s, f) in p.files.items()}
            return differences(after, tidied)
        for n in sorted(set(before) | set(after)):
            if n not in after or n not in before or after[n] not in (before[n], tidied[n]):
                return "format: " + differences({n: after[n]} if n in after else {}, {n: before[n]} if n in before else {})
        p.restore()
        return None
    d = differences(after, before)
    if d:
        return "%s changed %s" % (k, d)
    if k == "check" and not o["ok"] and o["parsed"]:
        got = err.split("module files not formatted: ")[-1].strip()
        want = sorted(file_of(s) for s in o["lists"])
        if sorted(x.strip() for x in got.split(",")) != want:
            return "check lists %s rather than %s" % (got, want)
    if k == "document" and o["ok"]:
        got = re.findall(r"(?m)^## `(.*)` module$", out)
        want = {"Pack'" + s["at"].replace("/", "'"): s["n"] for s in o["lists"]}
        want = {m.replace("F.pen'", "F.pen'"): n for m, n in want.items()}
        if sorted(got) != sorted(want):
            return "documentation is of modules %s rather than %s" % (got, sorted(want))
        for part in re.split(r"(?m)^(?=## `.*` module$)", out)[1:]:
            m = re.match(r"## `(.*)` module", part).group(1)
            if name_of(want[m]) not in part:
                return "documentation of %s is %s" % (m, part)
        if "\"Pack\": \"https://example.com/pack\"" not in out or "Says a lot." not in out or '"type": "library"' not in out:
            return "documentation of the package is %s" % out[:500]
    if k == "test":
        if not o["built"]:
            if "OK" in out.split() or "FAIL" in out.split():
                return "tests ran although modules are wrong: %s" % out
            return None
        return report(out, o["report"])
    return None


def report(out, want):
    modules, at = {}, None
    lines = out.split("\n")
    for l in lines[:lines.index("summary")] if "summary" in lines else lines:
        c = l.split("\t")
        if len(c) == 1 and l.endswith(".test.pen"):
            if l in modules:
                return "module %s is reported twice" % l
            at = modules.setdefault(l, [])
        elif len(c) == 3 and c[0] == "" and c[1] in ("OK", "FAIL"):
            at.append([c[2], c[1], ""])
        elif len(c) == 3 and c[2].startswith("Message: "):
            at[-1][2] += c[2][9:]
        elif l.strip():
            return "the report has a line %r" % l
    expected, passed, failed = {}, 0, 0
    for r in want:
        ts = []
        for i, t in enumerate(r["tests"]):
            ts.append(["Test%d" % i, "OK" if t == "pass" else "FAIL", dict(MESSAGES, fail="wrong %d %d" % (r["n"], i))[t]])
            passed, failed = passed + (t == "pass"), failed + (t != "pass")
        expected[r["at"] + ".test.pen"] = ts
    if modules != expected:
        return "the report is %s rather than %s" % (json.dumps(modules)[:700], json.dumps(expected)[:700])
    if "summary" not in lines or lines[lines.index("summary") + 1] != "\t%s\t%d passed, %d failed" % ("FAIL" if failed else "OK", passed, failed):
        return "the summary is wrong: %s" % lines[-3:]


def create(p, o, i):
    before = p.tree()
    where = os.path.join(os.path.dirname(p.place), "new-%d" % i)
    code, out, err = p.pen("create", *(["--library"] if o["kind"] == "library" else []), where)
    wrong = crashed(code, err)
    if wrong or code:
        return "create %s" % (wrong or err)
    d = differences(p.tree(), before)
    if d:
        return "create changed %s" % d
    got = json.load(open(os.path.join(where, "pen.json")))
    library = o["kind"] == "library"
    if got.get("type") != o["kind"] or got.get("dependencies") != ({} if library else {"Os": "pen:///os"}):
        return "create wrote %s" % got
    names = sorted(os.listdir(where))
    if len(names) != 2 or (not library and "main.pen" not in names):
        return "create made %s" % names
    code, out, err = p.pen("format", "--check", cwd=where)
    if code:
        return "a new package is not formatted: %s" % err
    if library:
        code, out, err = p.pen("build", cwd=where)
        if code:
            return "a new library does not build: %s" % (out + err)
    shutil.rmtree(where)


def replay(arg):
    place, tools, requests, behaviour = arg
    os.makedirs(place)
    n, asked = 0, {}
    try:
        p = Package(place, tools, requests)
        for i, o in enumerate(behaviour["h"]):
            if o["o"] not in ("write", "delete"):
                n += 1
            wrong = step(p, o, i)
            if wrong:
                return i, wrong, n
        return None, None, n
    finally:
        shutil.rmtree(place)


def worker():
    case = json.load(sys.stdin)
    with ProcessPoolExecutor(8) as ex:
        rs = list(ex.map(replay, [(os.path.join(case["place"], "%d" % i), case["tools"], case["requests"], b) for i, b in enumerate(case["behaviours"])]))
    p = Package(os.path.join(case["place"], "empty"), case["tools"], case["requests"])
    write(os.path.join(p.place, "T.test.pen"), 'Test = \\() none | error {\n  error("")\n}\n')
    print(json.dumps([rs, p.pen("test")]))


FFI = """#[repr(C)] pub struct ByteString { p: *const u8, n: usize }
impl ByteString { pub fn as_slice(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(self.p, self.n) } } }
"""


class Compiler:
    """Compiles, for builds of the user who may not run rustc, programs which report tests."""
    def __init__(self, root):
        self.root, self.requests, self.on, self.done, self.known = root, os.path.join(root, "requests"), True, set(), {}
        os.mkdir(self.requests)
        os.chmod(self.requests, 0o777)
        self.work = os.path.join(root, "compiler")
        os.mkdir(self.work)
        write(os.path.join(self.work, "ffi.rs"), FFI)
        subprocess.run(["rustc", "--edition", "2021", "--crate-type", "rlib", "--crate-name", "ffi", "ffi.rs"], cwd=self.work, check=True)
        self.threads = ThreadPoolExecutor(8)
        self.loop = threading.Thread(target=self.watch)
        self.loop.start()

    def watch(self):
        while self.on:
            for n in os.listdir(self.requests):
                if not n.endswith(".new") and n not in self.done:
                    self.done.add(n)
                    self.threads.submit(self.compile, n)
            time.sleep(0.01)

    def compile(self, n):
        d, w = os.path.join(self.requests, n), os.path.join(self.work, n)
        message = "no answer"
        try:
            os.mkdir(w)
            for f in os.listdir(os.path.join(d, "src")):
                shutil.copy(os.path.join(d, "src", f), w)
            ls = []
            for l in open(os.path.join(d, "outcomes")).read().splitlines():
                f, m = l.split(" ", 1)
                m = json.loads(m)
                ls.append("static const char m_%s[] = %s; struct b %s(void) { struct b x = {m_%s, %d}; return x; }" % (f, json.dumps(m), f, f, len(m)))
            write(os.path.join(w, "tests.c"), "struct b { const char *p; unsigned long n; };\n" + "\n".join(ls) + "\n")
            key = hashlib.sha256((open(os.path.join(w, "main.rs")).read() + "\n".join(ls)).encode()).hexdigest()
            out = self.known.get(key)
            if not out:
                subprocess.run("gcc -c tests.c && ar crs libmain_test.a tests.o", shell=True, cwd=w, check=True)
                p = subprocess.run(["rustc", "--edition", "2021", "-A", "warnings", "--extern", "ffi=../libffi.rlib", "-L", ".", "-o", "test", "main.rs"], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
                message = p.stdout.decode("utf-8", "replace")
                if p.returncode == 0:
                    out = self.known[key] = os.path.join(w, "test")
            if out:
                shutil.copy(out, os.path.join(d, "test"))
                os.chmod(os.path.join(d, "test"), 0o755)
        except Exception as e:
            message = repr(e)
        write(os.path.join(d, "done"), message)

    def stop(self):
        self.on = False
        self.loop.join()
        self.threads.shutdown()


def body(check):
    with ThreadPoolExecutor(2) as ex:
        gen = ex.submit(vf.tlc_samples, "Package", "Package.cfg", 4, vf.tier(160, 3000), depth=16)
        ex.submit(vf.build, "build").result()
        r = gen.result()
    check.add_tlc(r)
    with Places() as places:
        tools = c35.tools_of(places.root)
        for f in ("debug", "heap", "spawn", "unreachable"):
            write(os.path.join(tools, "cmd/test/src", f + ".rs"), "")
        compiler = Compiler(places.root)
        try:
            p = subprocess.run([sys.executable, os.path.abspath(__file__), "--worker"], input=json.dumps(dict(place=places.folder(), tools=tools, requests=compiler.requests, behaviours=r.behaviours)).encode(),
                               stdout=subprocess.PIPE, user=places.user, group=places.user, extra_groups=[] if places.user else None)
            rs, empty = json.loads(p.stdout)
        finally:
            compiler.stop()
    for b, (at, wrong, n) in zip(r.behaviours, rs):
        check.count("commands", n)
        check.count("histories")
        if wrong:
            check.violation("after %s: %s" % (json.dumps(b["h"][:at + 1])[-1500:], wrong), dict(b, h=b["h"][:at + 1]), wrong.split(":")[0])
    if empty[0] == 0 or "FAIL\tTest" not in empty[1]:
        check.violation("a test whose error is an empty string: %r" % empty[1], dict(test='error("")', got=empty), "a test whose error is an empty string passes" if empty[0] == 0 else "empty")
    check.sample(dict(history=r.behaviours[-1]["h"][-3:]))
    check.assumptions += ["outcomes of test functions are given by a stand-in when tests are linked; how test modules evaluate is for C31",
                          "stand-ins take the places of turtle-build, LLVM, Cargo and the linker"]


if __name__ == "__main__":
    if sys.argv[1:] == ["--worker"]:
        worker()
    else:
        vf.main("C36", "model_checking", body)
