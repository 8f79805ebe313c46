from lang_common import *


def body(check):
    small = vf.tlc_behaviours("Doc", vf.tier("DocSmall.cfg", "DocSmallT.cfg"), workers=6, timeout=800)
    def long(k):
        return vf.tlc_behaviours("Doc", "DocLong.cfg", workers=1, simulate=vf.tier(500, 5000), depth=80, seed=vf.SEED * 31 + k, timeout=800, heap="2g")
    with ThreadPoolExecutor(6) as ex:
        runs = [small] + list(ex.map(long, range(6)))
    packages = {}
    for r in runs:
        check.add_tlc(r)
        for b in r.behaviours:
            packages.setdefault(json.dumps(b, sort_keys=True), b)
    packages = list(packages.values())
    about = dict(name="Foo", url="https://foo.test/", description="About.", type="library", language="pen")
    cases = []
    for b in packages:
        modules = [[path, "".join(l + "\n" for l in lines)] for path, lines in b["modules"]]
        check.rng.shuffle(modules)
        cases.append(dict(op="doc", modules=modules, package=about, private=b["private"]))
    for b, case, r in zip(packages, cases, run(cases)):
        if "skipped" in r:
            continue
        want = "".join(l + "\n" for l in b["doc"])
        if r.get("doc") != want:
            check.violation("the documentation of %s (private names %s) is %s and not %r" % (case["modules"], case["private"], r, want), dict(case=case, expected=want))
    check.set(packages=len(packages))
    check.count("traces_validated_against_impl", len(packages))
    check.sample(cases[-1])


if __name__ == "__main__":
    vf.main("C15", "model_checking", body)
