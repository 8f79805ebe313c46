import sys
from lang_common import *


def body(check):
    programs = [b for b in derive(check, vf.tier(1800, 20000), vf.tier(120, 300), 0) if b["tree"] != ["reject"]]
    texts = [Text(b["toks"], b["layout"] if i % 3 == 0 else [[7, 8, 9, 10, 2, 5][(i + j * j) % 6] for j in range(7)] if i % 3 == 1 else [1, 0, 2, 7, 3][i % 4:],
                  comment_seed=i) for i, b in enumerate(programs)]
    for b, t, r in zip(programs, texts, run([dict(op="parse", text=t.text) for t in texts])):
        if "skipped" in r:
            continue
        if r.get("comments") != t.comments:
            check.violation("the comments of %r are %s, reported are %s" % (t.text, t.comments, r.get("comments", r)), dict(text=t.text, expected=t.comments, got=r.get("comments")))
        want = place(b["tree"], t.at)
        if r.get("tree") != want:
            check.violation("positions in %r: got %s, expected %s" % (t.text, json.dumps(r.get("tree", r))[:900], json.dumps(want)[:900]), dict(text=t.text))
    chars = [c for c in char_cases(check) if c["ok"]]
    for c, r in zip(chars, run([dict(op="parse", text=c["text"]) for c in chars])):
        if "skipped" in r:
            continue
        if r.get("comments") != c["comments"]:
            check.violation("the comments of %r are %s, reported are %s" % (c["text"], c["comments"], r.get("comments", r)), dict(text=c["text"]))
        if not isinstance(r.get("tree"), list) or statements(r) != c["items"]:
            check.violation("the items of %r are %s, reported are %s" % (c["text"], c["items"], r), dict(text=c["text"]))
    check.set(comments=sum(len(t.comments) for t in texts))
    check.count("traces_validated_against_impl", len(texts) + len(chars))
    check.sample(texts[1].text)


if __name__ == "__main__":
    vf.main("C11", "model_checking", body)
