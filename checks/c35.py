from os_common import *
import glob
from concurrent.futures import ProcessPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
FOLDERS = {"main": "main", "a": "p.q", "b": "p/q", "c": "p_q"}
FILES = {"X": "DE/Y.pen", "Y": "D/E/Y.pen", "main": "main.pen"}
NAMES = {"X": "DE'Y", "Y": "D'E'Y"}
TYPES = {"Number": "number", "ByteString": "string"}
BASE = 700000


def module_text(c):
    ls, names = [], []
    for j, i in enumerate(c["imports"]):
        ls.append("import %s'%s as I%d" % ("" if i["via"] == "own" else i["via"], NAMES[i["m"]], j))
    kind = c["kind"]
    ls.append("type T = %s\n" % {"number": "number", "fixed": "number", "string": "string", "alias": "I0'T"}[kind])
    ls.append("Mark = \\() number {\n  %d\n}\n" % (BASE + c["mark"]))
    ls.append("Value = \\() T {\n  %s\n}\n" % {"number": "1", "string": '"a"'}.get(kind, "I0'Value()"))
    for j in range(1, len(c["imports"])):
        ls.append("Other%d = \\() I%d'T {\n  I%d'Value()\n}\n" % (j, j, j))
    if c["fault"] == "type":
        ls.append('Wrong = \\() number {\n  "a"\n}\n')
    if c["fault"] == "syntax":
        ls.append("Wrong = \\( {\n")
    return "\n".join(ls)


def main_text(imports):
    ls = ["import %s'%s as I%d" % ("" if i["via"] == "own" else i["via"], NAMES[i["m"]], j) for j, i in enumerate(imports)]
    ls.append("main = \\(ctx context) none {")
    ls += ["  _ = I%d'Value()" % j for j in range(len(imports))]
    return "\n".join(ls + ["", "  none", "}", ""])


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


class Project:
    def __init__(self, place, tools, source):
        self.place, self.tools = place, tools
        for p, s in source.items():
            self.configure(p, s["deps"], s["sys"], s["application"])
            for m, c in s["mods"].items():
                if "kind" in c:
                    write(self.path(p, m), module_text(c))
            if s["application"]:
                write(self.path(p, "main"), main_text(s["main"]))
        self.application = source["main"]["application"]

    def path(self, p, m):
        return os.path.join(self.place, FOLDERS[p], FILES[m])

    def configure(self, p, deps, system, application):
        urls = {}
        for a, q in deps.items():
            if q != "-":
                urls[a] = "../" + FOLDERS[q] if p == "main" and q == "b" else "file://" + os.path.join(self.place, FOLDERS[q])
        if system:
            urls["Os"] = "pen:///sys"
        write(os.path.join(self.place, FOLDERS[p], "pen.json"), json.dumps({"type": "application" if application else "library", "dependencies": urls}))

    def do(self, o):
        k = o["o"]
        if k == "write":
            write(self.path(o["p"], o["m"]), module_text(o["c"]))
        elif k == "delete":
            os.remove(self.path(o["p"], o["m"]))
        elif k == "touch":
            path = self.path(o["p"], o["m"])
            text = open(path).read()
            os.remove(path)
            write(path, text)
        elif k == "depend":
            self.configure(o["p"], o["deps"], o["sys"], self.application and o["p"] == "main")
        elif k == "main":
            write(self.path("main", "main"), main_text(o["imports"]))
        elif k == "clean":
            shutil.rmtree(os.path.join(self.place, "main", ".pen"), ignore_errors=True)

    def build(self, seed):
        log = os.path.join(self.place, "log")
        if os.path.exists(log):
            os.remove(log)
        env = dict(PATH=os.path.join(self.tools, "bin") + ":/usr/bin:/bin", PEN_ROOT=self.tools, PEN_LOG=log, TURTLE_SEED=str(seed), HOME=self.place)
        try:
            p = subprocess.run(["pen", "build"], cwd=os.path.join(self.place, "main"), env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=20)
        except subprocess.TimeoutExpired:
            return None, "no end within 20 s", []
        jobs = [l[8:] for l in open(log).read().split("\n") if l.startswith("turtle> ")] if os.path.exists(log) else []
        return p.returncode, p.stdout.decode("utf-8", "replace"), jobs


MARK = re.compile(r'name: "([^"]*:)Mark", environment: \[\], arguments: \[\], result_type: Number, body: Number\((\d+)\.0\)')


def parts(text):
    """The modules of the project within objects, in their order."""
    marks = [(m.group(1), int(m.group(2)) - BASE, m.start()) for m in MARK.finditer(text)]
    by_name = {n: k for n, k, _ in marks}
    out = []
    for name, mark, at in marks:
        m = re.search(r'name: "%sValue", environment: \[\], arguments: \[\], result_type: (\w+)' % re.escape(name), text)
        kind = TYPES.get(m.group(1), m.group(1)) if m else "none"
        calls = 0
        if m:
            body = text[m.end():m.end() + 600].split("GlobalFunctionDefinition")[0]
            c = re.search(r'Call\(Call\(CallInner \{.*?function: Variable\(Variable \{ name: "([^"]*:)Value"', body)
            calls = by_name.get(c.group(1), -1) if c else 0
        out.append(dict(mark=mark, type=kind, calls=calls, name=name))
    return out


def judge(b, built, project, owners):
    """owners gives the package and the module of each mark."""
    code, text, jobs = built
    if code is None:
        return text
    if code < 0 or code == 101 or code >= 128:
        return "the build crashed (%d): %s" % (code, text[-300:])
    if (code == 0) != b["ok"]:
        return "the build %s but should not have: %s" % ("succeeded" if code == 0 else "failed", text[-500:])
    if not b["ok"]:
        if not text.strip():
            return "the build failed without a message"
        return None
    if project.application:
        app = os.path.join(project.place, "main", "app")
        if not os.path.exists(app):
            return "the build made no application"
        got = parts(open(app).read())
        want = {x["mark"]: x for x in b["parts"]}
        if len({g["name"] for g in got}) != len(got):
            return "two modules of the same name: %s" % got
        if sorted(g["mark"] for g in got) != sorted(want):
            return "the application has modules %s rather than %s" % (sorted(g["mark"] for g in got), sorted(want))
        for g in got:
            w = want[g["mark"]]
            if (g["type"], g["calls"]) != (w["type"], w["calls"]):
                return "module %s of %s: %s" % (w["m"], w["p"], dict(got=g, want=w))
        order = [want[g["mark"]]["p"] for g in got]
        for p, q in b["before"]:
            if p in order and q in order and max(i for i, x in enumerate(order) if x == p) > order.index(q):
                return "objects of package %s come after those of %s, which it depends on" % (p, q)
    if b["same"] and jobs:
        return "jobs ran although nothing had changed: %s" % jobs[:3]
    again = {tuple(x) for x in b["again"]}
    for j in jobs:
        if " compile " in j or j.startswith("pen compile "):
            for w in j.split():
                if w.endswith(".bc") and os.path.exists(w):
                    for g in parts(open(w).read()):
                        who = owners.get(g["mark"])
                        if who and who not in again:
                            return "module %s of %s was compiled again although neither it nor its imports had changed" % who[::-1]
    return None


def replay(arg):
    place, tools, behaviour, seed = arg
    os.makedirs(place)
    project = Project(place, tools, behaviour["src"])
    owners = {}
    for p, s in behaviour["src"].items():
        for m, c in s["mods"].items():
            if "kind" in c:
                owners[c["mark"]] = (p, m)
    n = 0
    try:
        for i, o in enumerate(behaviour["h"]):
            if o["o"] == "write":
                owners[o["c"]["mark"]] = (o["p"], o["m"])
            if o["o"] == "lose":
                n += 1
                folder = os.path.join(place, FOLDERS[o["p"]])
                os.rename(folder, folder + "-lost")
                code, text, jobs = project.build(seed * 100 + i)
                os.rename(folder + "-lost", folder)
                if code == 0 or code is None or jobs:
                    return i, "the build went on without a package: %s" % text, n
                continue
            if o["o"] != "build":
                project.do(o)
                continue
            n += 1
            wrong = judge(o, project.build(seed * 100 + i), project, owners)
            if wrong:
                return i, wrong, n
        return None, None, n
    finally:
        shutil.rmtree(place)


def tools_of(root):
    """What builds need besides the project: pen, stand-ins for LLVM and turtle-build, and packages of the language."""
    tools = os.path.join(root, "tools")
    os.makedirs(os.path.join(tools, "bin"))
    shutil.copy(os.path.join(vf.build("build"), "harness-build"), os.path.join(tools, "bin", "pen"))
    for f in glob.glob(os.path.join(HERE, "build_tools", "*")):
        shutil.copy(f, os.path.join(tools, "bin"))
    for p in ("prelude", "ffi"):
        for f in glob.glob("/repo/packages/%s/*.pen" % p) + ["/repo/packages/%s/pen.json" % p]:
            write(os.path.join(tools, "packages", p, os.path.basename(f)), open(f).read())
    sys_ = os.path.join(tools, "packages", "sys")
    write(os.path.join(sys_, "pen.json"), '{"type":"system","dependencies":{}}')
    write(os.path.join(sys_, "Context.pen"), "type Context {\n  x number\n}\n\nUnsafeNew = \\() Context {\n  Context{x: 1}\n}\n")
    write(os.path.join(sys_, "pen-link.sh"), '#!/bin/sh\nwhile [ "$1" != -o ]; do shift; done\no=$2\nshift 2\ncat "$@" > "$o"\n')
    os.chmod(os.path.join(sys_, "pen-link.sh"), 0o755)
    for f in os.listdir(os.path.join(tools, "bin")):
        os.chmod(os.path.join(tools, "bin", f), 0o755)
    return tools


def worker():
    """Replays behaviours as an unprivileged user: builds delete and overwrite files."""
    case = json.load(sys.stdin)
    with ProcessPoolExecutor(8) as ex:
        rs = list(ex.map(replay, [(os.path.join(case["place"], "%d" % i), case["tools"], b, case["seed"] + i) for i, b in enumerate(case["behaviours"])]))
    print(json.dumps(rs))


def body(check):
    with ThreadPoolExecutor(2) as ex:
        gen = ex.submit(vf.tlc_samples, "Build", "Build.cfg", 4, vf.tier(200, 4000), depth=16)
        ex.submit(vf.build, "build").result()
        r = gen.result()
    check.add_tlc(r)
    with Places() as places:
        tools = tools_of(places.root)
        p = subprocess.run([sys.executable, os.path.abspath(__file__), "--worker"], input=json.dumps(dict(place=places.folder(), tools=tools, behaviours=r.behaviours, seed=vf.SEED * 1000)).encode(),
                           stdout=subprocess.PIPE, user=places.user, group=places.user, extra_groups=[] if places.user else None)
        rs = json.loads(p.stdout)
    for b, (at, wrong, n) in zip(r.behaviours, rs):
        check.count("builds", n)
        check.count("histories")
        if wrong:
            check.violation("after %s: %s" % (json.dumps([{k: v for k, v in o.items() if k not in ("parts", "again", "before")} for o in b["h"][:at + 1]])[:1500], wrong), dict(b, h=b["h"][:at + 1]), wrong.split(":")[0])
    check.sample(dict(history=r.behaviours[-1]["h"][:4]))
    check.assumptions += ["stand-ins take the places of turtle-build, LLVM and the linker: jobs run one at a time in random orders which their dependencies allow, and archives hold only what they are made of",
                          "code generation behind MIR is not part of builds here"]


if __name__ == "__main__":
    if sys.argv[1:] == ["--worker"]:
        worker()
    else:
        vf.main("C35", "model_checking", body)
