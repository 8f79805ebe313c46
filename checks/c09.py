import sys
from lang_common import *


def body(check):
    # derivations of the whole grammar
    programs = derive(check, vf.tier(2400, 24000), vf.tier(160, 400), 0)
    programs += [b for b in list_cases(check) if b["tree"] != ["reject"]]
    texts = [Text(b["toks"], b["layout"], comment_seed=i) for i, b in enumerate(programs)]
    cases = [dict(op="parse", text=t.text) for t in texts]
    expected = [strip(b["tree"]) for b in programs]
    # all chains of operators, twelve to a definition
    chains = []
    for cfg in vf.tier(["PenOperators.cfg", "PenPriorities.cfg"], ["PenOperatorsT.cfg", "PenPriorities.cfg"]):
        r = vf.tlc_behaviours("PenOperators", cfg, workers=4, heap="6g")
        check.add_tlc(r)
        chains += r.behaviours
    chains.sort(key=lambda c: json.dumps(c))
    chain_groups = [chains[i:i + 12] for i in range(0, len(chains), 12)]
    for i, g in enumerate(chain_groups):
        gap = ["", " ", "\n", " # |\n"][i % 4]
        cases.append(dict(op="parse", text="f = \\() t {\n%s\n}" % "\n".join("v" + "".join(gap + o + gap + "v" for o in c["chain"]) for c in g)))
        stmts = [["", strip(c["tree"])] for c in g]
        expected.append([[], [], [], [["def", "", "f", ["lambda", [], ["ref", "t"], [stmts[:-1], stmts[-1][1]]]]]])
    # literals, names and blanks, character by character
    chars = [c for c in char_cases(check) if c["ok"]]
    for c in chars:
        cases.append(dict(op="parse", text=c["text"]))
        stmts = [["", [k, v]] for k, _, v in c["items"]]
        expected.append([[], [], [], [["def", "", "f", ["lambda", [], ["ref", "t"], [stmts[:-1], stmts[-1][1]]]]]])
    for case, want, r in zip(cases, expected, run(cases)):
        if "skipped" in r:
            continue
        got = r.get("tree")
        if want == ["reject"]:
            if not isinstance(got, dict):
                check.violation("a text outside the grammar is parsed: %r gives %s" % (case["text"], r), dict(text=case["text"]))
        elif not isinstance(got, list) or strip(got) != want:
            check.violation("parsing %r: got %s, the grammar assigns %s" % (case["text"], json.dumps(strip(got) if isinstance(got, list) else r)[:700], json.dumps(want)[:700]), dict(text=case["text"], expected=want))
    check.set(derived_programs=len(programs), operator_chains=len(chains), literal_texts=len(chars))
    check.count("traces_validated_against_impl", len(cases))
    check.sample(texts[0].text)
    check.sample(cases[len(programs)]["text"])


if __name__ == "__main__":
    vf.main("C09", "model_checking", body)
