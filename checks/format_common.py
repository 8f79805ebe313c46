"""Programs with comments for the formatter, and recorded runs of it for FormatTrace."""
import random
from lang_common import *


def opened_flat(toks, breaks):
    """For every closing bracket: whether its contents start on the line of the opening one."""
    stack, flat = [], {}
    for i, t in enumerate(toks):
        if t[0] in ("sg", "call") and t[1] in ("(", "[", "{", "\\("):
            stack.append(i)
        elif t[0] == "sg" and t[1] in (")", "]", "}") and stack:
            o = stack.pop()
            flat[i] = not breaks[o + 1] or o + 1 == i
    return flat


def first_token(tree):
    """The index of the first token of a tree."""
    return min([first_token(t) for t in tree], default=1 << 30) if isinstance(tree, list) else tree if isinstance(tree, int) else 1 << 30


def line_starts(b):
    """The indices of tokens that begin a line of their own however the program is formatted: those of definitions and
    of the contents of blocks of several statements."""
    starts = set()
    def walk(tree):
        if isinstance(tree, list):
            if len(tree) == 3 and isinstance(tree[0], int) and isinstance(tree[1], list) and tree[1] and isinstance(tree[2], list) and all(isinstance(s, list) and len(s) == 3 and isinstance(s[0], int) and isinstance(s[1], str) for s in tree[1]):
                starts.update(s[0] - 1 for s in tree[1])
                starts.add(first_token(tree[2]) - 1)
            for t in tree:
                walk(t)
    walk(b["tree"])
    for part in b["tree"]:
        starts.update(first_token(item) - 1 for item in part)
    return starts


def with_comments(b, rng, seed, types=True):
    """A text of a derivation with comments between tokens, but not at the end of brackets whose contents begin on
    the line of the opening bracket, and inside types only if so requested; of the comments that follow code on their
    lines there is one at most per statement."""
    toks, style = b["toks"], rng.choice(["natural", "spec", "sparse"])
    if style == "natural":
        layout = [11] * (len(toks) + 1)
    elif style == "spec":
        layout = [c if c < 7 or c == 11 else 2 for c in (b["layout"][i % len(b["layout"])] for i in range(len(toks) + 1))]
    else:
        layout = [rng.choice([0, 1, 1, 1, 1, 2]) for _ in range(len(toks) + 1)]
    density = rng.choice([0, 0.05, 0.15, 0.4])
    starts, trailing = line_starts(b), False
    for i in range(len(toks) + 1):
        if i in starts and style == "natural":
            layout[i] = 2
        if i - 1 in starts and layout[i - 1] in (2, 5, 6, 7, 8, 9):
            trailing = False
        if i < len(toks) and b["inside"][i] and not types and density:
            layout[i] = 1
            continue
        if i < len(toks) and toks[i][0] == "call":
            continue
        if rng.random() < density:
            layout[i] = rng.choice([8, 8, 9] if trailing else [7, 8, 8, 9])
            trailing = trailing or layout[i] == 7
    probe = Text(toks, layout, comment_seed=seed)
    lines = [l for l, _ in probe.at]
    breaks = [False] + [lines[i] > lines[i - 1] for i in range(1, len(toks))] + [True]
    for i, flat in opened_flat(toks, breaks).items():
        if flat and layout[i] in (7, 8, 9):
            layout[i] = 1
    return Text(toks, layout, comment_seed=seed)


def lexemes(text):
    """Tokens, comments, line breaks and blanks of a formatted text."""
    toks = lex(text, spaced=True)
    if toks is None:
        return None
    out, i = [], 0
    rest = iter(toks)
    while i < len(text):
        m = TOKEN.match(text, i)
        s = m.group()
        kind = m.lastgroup
        if kind == "blank":
            for part in re.findall(r"\n| +|[\t\r]+", s):
                out.append(["nl"] if part == "\n" else ["sp", len(part)] if part[0] == " " else ["sp", 1001])
        elif kind == "comment":
            out.append(["comment", s[1:]])
        else:
            j = i
            t = next(rest)
            out.append(t)
            # a signed number is one token of two characters classes
            if t[0] == "snum" and t[1][0] in "+-" and s in "+-":
                m = TOKEN.match(text, m.end())
        i = m.end()
    return out


def reblanked(t, rng):
    """The same text with other blanks between tokens."""
    out = []
    for part in re.split(r"""(\#[^\n\r]*|"(?:[^\\"]|\\.)*"|(?<=[^ \t\r\n])[ \t]+(?=[^ \t\r\n\#]))""", t.text):
        out.append(rng.choice([" ", "  ", "\t", " \t "]) if part and not part.strip(" \t") else part)
    return "".join(out)


def record(check, texts, programs):
    """Formats the texts and returns runs for FormatTrace; texts the formatter refuses are violations."""
    results = run([dict(op="format", text=t.text) for t in texts])
    variants = run([dict(op="format", text=reblanked(t, check.rng)) for t in texts])
    traces, owners = [], []
    for b, t, r, v in zip(programs, texts, results, variants):
        if "skipped" in r:
            continue
        if "text" not in r:
            check.violation("the formatter fails on %r: %s" % (t.text, r), dict(text=t.text))
            continue
        ls = lexemes(r["text"])
        if ls is None:
            ls = [["bad", r["text"][:80], ""]]
        source = b["toks"]
        traces.append(dict(source=source, comments=[c[1].rstrip() for c in t.comments], lexemes=ls, again=r["again"] == r["text"], same=v.get("text", r["text"]) == r["text"]))
        owners.append((t, r))
    return traces, owners


def validate(check, cfg, traces, owners, what, prefer=None):
    """Has TLC validate the runs, in several processes."""
    procs, parts = 6, []
    parts = [list(range(len(traces)))[i::procs] for i in range(procs)]
    def one(p):
        return vf.check_traces("FormatTrace", cfg, [traces[i] for i in p], workers=1, timeout=800, heap="3g") if p else ([], 0, 0)
    with ThreadPoolExecutor(procs) as ex:
        for p, (bad, s, t) in zip(parts, ex.map(one, parts)):
            check.count("states", s)
            check.count("transitions", t)
            for k in sorted(bad, key=lambda k: len(owners[p[k]][0].text))[:3]:
                text, r = owners[p[k]]
                check.violation("%s: %r is formatted as %r%s" % (what, text.text, r["text"], "" if r["again"] == r["text"] else ", and that as %r" % r["again"]), dict(text=text.text, formatted=r["text"]), key=text.text)
    check.count("traces_validated_against_impl", len(traces))


class Example:
    """A text written down."""

    def __init__(self, text):
        self.text, self.comments = text, [[None, c] for c in re.findall(r"#([^\n\r]*)", text)]


def formatting(check, cfg, what, count, place, examples=()):
    programs = [b for b in derive(check, count, vf.tier(140, 400), 0) if b["tree"] != ["reject"]]
    texts = [place(b, i) for i, b in enumerate(programs)]
    # the known findings, which the generated programs stay clear of
    texts += [Example(t) for t in examples]
    programs += [dict(toks=lex(t)) for t in examples]
    traces, owners = record(check, texts, programs)
    validate(check, cfg, traces, owners, what)
    check.set(programs=len(traces), comments=sum(len(t["comments"]) for t in traces))
    for t, r in owners[:3]:
        check.sample(dict(text=t.text, formatted=r["text"]))
