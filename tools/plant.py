#!/usr/bin/env python3
"""Writes planted bugs into /verif/seeded and confirms them.
usage: plant.py ID...      (definitions: tools/plants/*.py)
For each: makes the patch, builds and runs the baseline tests, runs the demonstration with and without it
and the property's check with it."""
import glob, importlib.util, json, os, subprocess, sys
ROOT = "/verif/seeded"
DEMO = """#!/bin/sh
# Run in the repository. Exit code 0 when the property holds for the demonstrated input.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here"/*.rs "$work/src/"
sed "s|REPOSITORY|$repo|g" "$here/Cargo.toml.in" > "$work/Cargo.toml"
cd "$work"
REPO="$repo" CARGO_TARGET_DIR="$work/target" RUSTFLAGS="-A warnings -C debuginfo=0" cargo build --offline -q || exit 0
timeout 120 "$work/target/debug/demo" > "$work/log" 2>&1
status=$?
cat "$work/log"
exit $status
"""
PEN_DEMO = """#!/bin/sh
# Run in the repository: runs cases.json through its compiler and an interpreter. Exit code 0 when they give what want.json says.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cp -r "$here/pen" "$here/penrt" "$work/"
find "$work" -name Cargo.toml -o -name '*.rs' | xargs sed -i "s|/repo/|$repo/|g"
cd "$work/pen" || exit 0
CARGO_TARGET_DIR="$work/target" RUSTFLAGS="-A warnings -C debuginfo=0" cargo build --offline -q --locked || exit 0
timeout 100 "$work/target/debug/harness-pen" < "$here/cases.json" > "$work/got.json"
python3 - "$work/got.json" "$here/want.json" <<'END'
import json, sys
got, want = ([json.loads(l) for l in open(p) if l.strip()] for p in sys.argv[1:])
for g, w in zip(got, want):
    if "refused" in w and g.get("stage") in ("hir", "check") and "in MIR" not in g["message"]:
        g.clear(), g.update(w)
    if g != w:
        print("gives", json.dumps(g)[:1000], "rather than", json.dumps(w)[:1000])
sys.exit(got != want)
END
"""
HARNESS_DEMO = """#!/bin/sh
# Run in the repository: runs cases.json through its native code. Exit code 0 when that gives what want.json says.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cp -r "$here/harness" "$here/penrt" "$work/"
test -d "$here/os" && cp -r "$here/os" "$work/"
find "$work" -name Cargo.toml -o -name '*.rs' | xargs sed -i "s|/repo/|$repo/|g"
mkdir "$work/place"
cd "$work/harness" || exit 0
CARGO_TARGET_DIR="$work/target" RUSTFLAGS="-A warnings -C debuginfo=0" cargo build --offline -q --locked || exit 0
cd "$work/place" || exit 0
chmod -R a+rwX "$work"
PATH_OF_BINARY=$(find "$work/target/debug" -maxdepth 1 -name 'harness-*' -perm -1 -type f | head -1)
timeout 100 "$PATH_OF_BINARY" < "$here/cases.json" > "$work/got.json" 2> "$work/log"
python3 - "$work/got.json" "$here/want.json" <<'END'
import json, sys
got, want = ([json.loads(l) for l in open(p) if l.strip()] for p in sys.argv[1:])
def differ(g, w):
    if isinstance(w, dict) and isinstance(g, dict):
        return any(k not in g or differ(g[k], v) for k, v in w.items())
    if isinstance(w, list) and isinstance(g, list):
        return len(g) != len(w) or any(differ(a, b) for a, b in zip(g, w))
    return g != w
for g, w in zip(got, want):
    if differ(g, w):
        print("gives", json.dumps(g)[:1000], "rather than", json.dumps(w)[:1000])
sys.exit(len(got) != len(want) or any(differ(g, w) for g, w in zip(got, want)))
END
"""
CARGO = """[package]
name = "demo"
version = "0.0.0"
edition = "2021"

[workspace]

[dependencies]
%s
"""
DEPS = {
 "lang": "\n".join(f'{x} = {{ path = "REPOSITORY/lib/{x}" }}' for x in ["ast", "parse", "format", "doc", "position"]),
 "ffi": 'pen-ffi = { path = "REPOSITORY/lib/ffi", features = ["std"] }\nfutures = "0.3"',
 "bridge": 'ffi = { package = "pen-ffi", path = "REPOSITORY/lib/ffi", features = ["runtime"] }\nfutures = "0.3"\ntokio = { version = "1", features = ["full"] }',
 "app": 'ffi = { package = "pen-ffi", version = "=0.10.23", features = ["runtime"] }\nasync-stream = "0.3"\nserde_json = "1"\nfutures = "0.3"\ntokio = { version = "1", features = ["full"] }',
}
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
def undo(): sh("git -C /repo checkout -- .")
def load():
    plants = {}
    for f in sorted(glob.glob(os.path.dirname(os.path.abspath(__file__)) + "/plants/*.py")):
        spec = importlib.util.spec_from_file_location("p", f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        plants.update(m.PLANTS)
    return plants
def main():
    plants = load()
    flags = [a for a in sys.argv[1:] if a.startswith("-")]
    for id in [a for a in sys.argv[1:] if not a.startswith("-")] or [p for p in plants if not os.path.exists(f"{ROOT}/{p}/meta.json")]:
        p = plants[id]; d = f"{ROOT}/{id}"; os.makedirs(d, exist_ok=True)
        assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo is dirty"
        try:
            for f, old, new in p["edits"]:
                s = open(f"/repo/{f}").read(); assert s.count(old) == 1, (id, f, s.count(old))
                open(f"/repo/{f}", "w").write(s.replace(old, new))
            open(f"{d}/patch.diff", "w").write(sh("git -C /repo diff").stdout)
            open(f"{d}/demo.sh", "w").write(p.get("demo", PEN_DEMO if p.get("deps") == "pen" else HARNESS_DEMO if "harness" in p else DEMO)); os.chmod(f"{d}/demo.sh", 0o755)
            if "main" in p:
                open(f"{d}/main.rs", "w").write(p["main"]); open(f"{d}/Cargo.toml.in", "w").write(CARGO % (p.get("deps_extra", "") + DEPS[p["deps"]]))
            if p.get("deps") == "pen":
                sh(f"rm -rf {d}/pen {d}/penrt; cp -r /verif/harness/pen /verif/harness/penrt {d}/; rm -rf {d}/pen/target")
                open(f"{d}/cases.json", "w").write("".join(json.dumps(c) + "\n" for c, _ in p["cases"]))
                open(f"{d}/want.json", "w").write("".join(json.dumps(w) + "\n" for _, w in p["cases"]))
            if "harness" in p:
                sh(f"rm -rf {d}/harness {d}/penrt; cp -r /verif/harness/penrt {d}/; cp -r /verif/harness/{p['harness']} {d}/harness; rm -rf {d}/harness/target")
                if p["harness"] == "build": sh(f"rm -rf {d}/tools {d}/pen; cp -r /verif/checks/build_tools {d}/tools; cp -r /verif/harness/pen {d}/; rm -rf {d}/pen/target")
                if p["harness"] == "os-sync": sh(f"rm -rf {d}/os; cp -r /verif/harness/os {d}/os; rm -rf {d}/os/target")
                open(f"{d}/cases.json", "w").write("".join(json.dumps(c) + "\n" for c, _ in p["cases"]))
                open(f"{d}/want.json", "w").write("".join(json.dumps(w) + "\n" for _, w in p["cases"]))
            for n, t in p.get("files", {}).items(): open(f"{d}/{n}", "w").write(t)
            r = {}
            if "-n" not in flags:
                sh("bash /opt/vp/build.sh > /tmp/plant-build.log 2>&1")
                t = sh("/tmp/rt.sh").stdout; r["tests"] = "ok" if "missing []" in t else t
            a = sh(f"cd /repo && sh {d}/demo.sh"); r["demo+patch"] = a.returncode
            if a.returncode == 0: r["out"] = (a.stdout + a.stderr)[-500:]
            if "-c" not in flags:
                env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
                c = sh(f"cd /verif && bin/check {p['property']}", env=env)
                r["check"] = c.returncode; r["violations"] = [l for l in (c.stdout + c.stderr).splitlines() if "VIOLATION" in l][:2]
                if c.returncode != 1: r["tail"] = (c.stdout + c.stderr)[-400:]
        finally: undo()
        a = sh(f"cd /repo && sh {d}/demo.sh"); r["demo"] = a.returncode
        if a.returncode: r["demo_out"] = (a.stdout + a.stderr)[-800:]
        json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        good = r.get("tests", "ok") == "ok" and r["demo+patch"] != 0 and r["demo"] == 0
        print(id, "GOOD" if good else "BAD", "CAUGHT" if r.get("check") == 1 else "MISSED", json.dumps(r), flush=True)
main()
