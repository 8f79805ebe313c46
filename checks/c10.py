import sys
from lang_common import *


def body(check):
    programs = derive(check, vf.tier(3000, 30000), vf.tier(120, 300), 2, invariant=False)
    lone = ["bad", '"', '"']     # ends a string that starts there wherever another quote follows
    programs = [b for b in programs if lone not in b["toks"]] + [dict(b, layout=[1]) for b in programs if b["toks"].count(lone) == 1 and not any(t[0] == "str" or t[0] == "bad" and t != lone and '"' in t[1] for t in b["toks"])]
    programs += list_cases(check)
    texts = [Text(b["toks"], b["layout"], comment_seed=i) for i, b in enumerate(programs)]
    results = run([dict(op="parse", text=t.text) for t in texts])
    n = 0
    for b, t, r in zip(programs, texts, results):
        if "skipped" in r:
            continue
        got = r.get("tree")
        if b["tree"] == ["reject"]:
            n += 1
            if not isinstance(got, dict):
                check.violation("a text outside the grammar is parsed: %r gives %s" % (t.text, json.dumps(r)[:500]), dict(text=t.text))
            else:
                lines = t.text.split("\n")
                at = got.get("error")
                if not (isinstance(at, list) and len(at) == 2 and 1 <= at[0] <= len(lines) and 1 <= at[1] <= len(lines[at[0] - 1].encode()) + 1):
                    check.violation("the error in %r is reported at %s" % (t.text, at), dict(text=t.text, reported=got))
        elif not isinstance(got, list) or strip(got) != strip(b["tree"]):
            check.violation("parsing %r: got %s, the grammar assigns %s" % (t.text, json.dumps(strip(got) if isinstance(got, list) else r)[:700], json.dumps(strip(b["tree"]))[:700]), dict(text=t.text))
    chars = [c for c in char_cases(check) if not c["ok"]]
    for c, r in zip(chars, run([dict(op="parse", text=c["text"]) for c in chars])):
        if "skipped" not in r and not isinstance(r.get("tree"), dict):
            check.violation("a text outside the grammar is parsed: %r gives %s" % (c["text"], json.dumps(r)[:500]), dict(text=c["text"]))
    n += len(chars)
    texts += chars
    check.set(rejected_texts=n)
    check.count("traces_validated_against_impl", len(texts))
    check.sample(texts[0].text)


if __name__ == "__main__":
    vf.main("C10", "model_checking", body)
