import json, os, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "bin"))
import vf

TYPE = dict(n="Number", s="ByteString", b="Boolean", l="List", a="Any", e="Error", f="f64")
MAKE = dict(n="Number::from(make_number(&a[%d]))", s="make_text(&a[%d])", b='Boolean::from(a[%d] == "t")', l="make_list(&a[%d])",
            a="make_any(&a[%d])", e="make_error(&a[%d])", f="make_number(&a[%d])")
# kind: (declared result, type seen by the caller, value built from the digest d)
KIND = dict(
    number=("-> Number", "Number", "Number::from(d.len() as f64)"),
    float=("-> f64", "f64", "d.len() as f64"),
    string=("-> ByteString", "ByteString", "ByteString::from(d)"),
    boolean=("-> Boolean", "Boolean", "Boolean::from(d.len() % 2 == 0)"),
    none=("-> ffi::None", "ffi::None", "ffi::None::default()"),
    unit=("", "ffi::None", None),
    list=("-> List", "List", "List::from([Any::from(ByteString::from(d)), Number::from(COUNT as f64).into()])"),
    any=("-> Any", "Any", "Any::from(ByteString::from(d))"),
    error=("-> Error", "Error", "Error::new(ByteString::from(d))"),
    ok=("-> Result<ByteString, ByteString>", "Any", "Result::<ByteString, ByteString>::Ok(d.into())"),
    err=("-> Result<Number, ByteString>", "Any", "Result::<Number, ByteString>::Err(d.into())"),
    okunit=("-> Result<(), ByteString>", "Any", "Result::<(), ByteString>::Ok(drop(d))"),
    box=("-> Result<ByteString, Box<dyn std::error::Error>>", "Any", "Result::<ByteString, Box<dyn std::error::Error>>::Ok(d.into())"),
    boxerr=("-> Result<(), Box<dyn std::error::Error>>", "Any", "Result::<(), Box<dyn std::error::Error>>::Err(Box::new(Failure(d)))"),
)


def render(sigs):
    out = ["use super::*;\n"]
    for i, s in enumerate(sigs):
        ts, kind = s["ts"], s["kind"]
        decl, seen, value = KIND[kind]
        mut = "mut " if i % 7 == 3 else ""
        params = ", ".join("%sp%d: %s" % (mut, j, TYPE[t]) for j, t in enumerate(ts))
        digest = "let d = untracked(|| { let mut d = String::new(); %s d }); record(&d);" % " ".join("d += &p%d.describe(); d += \";\";" % j for j in range(len(ts)))
        # the digest was made by untracked allocations, so that only the library's are counted
        wait = "Suspend(%d).await;" % s["sus"] if s["async"] else ""
        style = s["style"]
        if value is not None:
            value = value.replace("COUNT", str(len(ts)))
        if value is None:
            body = "%s %s let _kept = d;" % (digest, wait) if style != "tail" else "%s %s drop(d)" % (wait, digest)
        elif style == "tail":
            body = "%s %s %s" % (wait, digest, value)
        elif style == "let":
            body = "%s %s let r = %s; r" % (digest, wait, value)
        elif style == "return":
            body = "%s %s return %s;" % (digest, wait, value)
        elif style == "question" and decl.startswith("-> Result"):
            body = "%s %s let r = (%s)?; Ok(r)" % (digest, wait, value)
        else:
            body = "%s if d.len() > 100000 { return unreachable!() } { %s { %s } }" % (digest, wait, value)
        asy = "async " if s["async"] else ""
        vis = "pub " if i % 3 else ""
        out.append("mod e%d { use super::*; #[ffi::bindgen]\n%s%sfn gen_%d(%s) %s { %s } }\n" % (i, vis, asy, i, params, decl, body))
        plain = ", ".join("p%d: %s" % (j, TYPE[t]) for j, t in enumerate(ts))
        args = ", ".join(MAKE[t] % j for j, t in enumerate(ts))
        invoke = ("gen_%d(%s).await" if s["async"] else "unsafe { gen_%d(%s) }") % (i, ", ".join("x%d" % j for j in range(len(ts))))
        lets = " ".join("let x%d = %s;" % (j, MAKE[t] % j) for j, t in enumerate(ts))
        out.append("mod c%d { use super::*; ffi::import!(gen_%d, %sfn(%s) -> %s);\npub fn call(a: &[String]) -> Pin<Box<dyn Future<Output = String>>> "
                   "{ %s Box::pin(async move { let v: %s = %s; v.describe() }) } }\n" % (i, i, asy, plain, seen, lets, seen, invoke))
    out.append("pub static CALLS: [Call; %d] = [%s];\n" % (len(sigs), ", ".join("c%d::call" % i for i in range(len(sigs)))))
    return "".join(out)


def body(check):
    r = vf.tlc_behaviours("Binding", vf.tier("Binding.cfg", "BindingT.cfg"), workers=4)
    check.add_tlc(r)
    programs = sorted(r.behaviours, key=lambda b: json.dumps(b["sig"], sort_keys=True))
    gen = os.path.join(vf.TARGET, "binding-%s.rs" % vf.TIER)
    os.makedirs(vf.TARGET, exist_ok=True)
    text = render([b["sig"] for b in programs])
    if not os.path.exists(gen) or open(gen).read() != text:
        open(gen, "w").write(text)
    os.environ["PEN_GEN"] = gen
    bindir = vf.build("binding")
    cases, expected = [], []
    for i, b in enumerate(programs):
        for c in b["calls"]:
            cases.append(dict(index=i, args=c["args"]))
            expected.append(dict(result=c["result"], seen=[c["seen"]], suspensions=b["sig"]["sus"], leaked=0, twice=0, overrun=0))
    c = vf.tlc_behaviours("Conversion", vf.tier("Conversion.cfg", "ConversionT.cfg"), workers=4)
    check.add_tlc(c)
    n = len(cases)
    cases += c.behaviours
    run = lambda part: vf.Runner([os.path.join(bindir, "harness-binding")]).run(part)
    shards = 6
    parts = [list(range(len(cases)))[i::shards] for i in range(shards)]
    with ThreadPoolExecutor(shards) as ex:
        results = list(ex.map(lambda p: run([cases[i] for i in p]), parts))
    for part, res in zip(parts, results):
        for i, out in zip(part, res):
            if "skipped" in out:
                continue
            if i < n:
                s = programs[cases[i]["index"]]["sig"]
                if out != expected[i]:
                    check.violation("%sfn(%s) -> %s (body %s): got %s, expected %s" % ("async " if s["async"] else "", ", ".join(a[1] for a in cases[i]["args"]), s["kind"], s["style"], out, expected[i]),
                                    dict(kind="binding", sig=s, args=cases[i]["args"], got=out, expected=expected[i]))
            elif out.get("problem", True) is not None:
                check.violation("conversions %s: %s" % ([x["op"] for x in cases[i]["hist"]], out), dict(kind="conversion", case=cases[i], outcome=out))
    check.set(signatures=len(programs))
    check.count("traces_validated_against_impl", len(cases))
    check.sample(dict(sig=programs[-1]["sig"], call=programs[-1]["calls"][0]))
    check.sample(cases[-1])


vf.main("C07", "model_checking", body)
