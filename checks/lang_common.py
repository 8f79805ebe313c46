"""Texts of token sequences: rendering with layouts and comments, lexing, and running the language front end."""
import json, os, re, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "bin"))
import vf

KEYWORDS = {"as", "else", "export", "for", "foreign", "if", "in", "import", "type"}
COMMENTS = [" comment", " x = \"", "# }", "", " \u00e9\u00fc", "\t tab", " \\( ) {", " #", " import 'Foo", "\"", " \" # \"", " a'b \\"]
OPERATOR = set("+-*/=<>&|!?")
WORD = re.compile(r"\w", re.A)


def text_of(tok):
    return '"%s"' % tok[1] if tok[0] == "str" else tok[1]


def operand_end(tok):
    return tok[0] in ("id", "qual", "num", "snum", "str") or tok[1] in (")", "]", "}", "?")


def must_separate(toks, i):
    """Whether token i has to stand apart from token i - 1 to be read as it is."""
    a, b = toks[i - 1], toks[i]
    x, y = text_of(a), text_of(b)
    if a[0] == "bad" or b[0] == "bad" or not x or not y:
        return True
    if (WORD.match(x[-1]) or x[-1] == "'") and (WORD.match(y[0]) or y[0] == "'"):
        return True
    if a[0] in ("num", "snum") and (WORD.match(y[0]) or y[0] in ".'"):
        return True
    if x[-1] in OPERATOR and y[0] == "=":
        return True
    if x in (".", "...") and y[0] == ".":
        return True
    if y == "(" and operand_end(a):
        return True     # would be a call
    if x in ("+", "-") and (y[0].isdigit() or y[0] == ".") and not (i >= 2 and operand_end(toks[i - 2])):
        return True
    return False


class Text:
    def __init__(self, toks, layout, comment_seed=0, gap=None):
        """layout: one code per token (and one for the end) saying what stands before it."""
        self.toks, self.comments, self.at = toks, [], []
        self.out, self.line, self.column = [], 1, 1
        self.n = comment_seed
        depth = 0
        for i in range(len(toks) + 1):
            tok = toks[i] if i < len(toks) else None
            code = layout[i % len(layout)]
            if tok is not None and tok[0] == "call" and i and toks[i - 1][0] != "bad":
                pass
            elif code == 11:
                self.natural(i)
            else:
                self.blank(code, i)
            if tok is not None:
                self.at.append([self.line, self.column])
                self.put(text_of(tok))
        self.text = "".join(self.out)

    def put(self, s):
        self.out.append(s)
        if "\n" in s:
            self.line += s.count("\n")
            self.column = 1 + len(s[s.rfind("\n") + 1:].encode())
        else:
            self.column += len(s.encode())

    def comment(self):
        text = COMMENTS[(self.n - self.n // 4) % len(COMMENTS)]     # some are the same as their predecessors
        self.n += 1
        self.comments.append([[self.line, self.column], text])
        self.put("#" + text)
        self.put("\r\n" if self.n % 5 == 0 else "\n")

    def blank(self, code, i):
        first, last = i == 0, i == len(self.toks)
        if code == 0:
            if not first and not last and must_separate(self.toks, i):
                self.put(" ")
        elif code in (1, 2, 3, 4, 5, 6):
            self.put({1: " ", 2: "\n", 3: "\t", 4: "  ", 5: "\r\n", 6: "\n \n"}[code])
        elif code == 7:
            self.put(" ")
            self.comment()
        elif code == 8:
            self.put("\n  ")
            self.comment()
        elif code == 9:
            self.put("\n\n")
            self.comment()
            self.comment()
            self.put("\n")
        elif code == 10:
            self.comment()

    def natural(self, i):
        """Line breaks where programmers put them."""
        toks = self.toks
        if i == 0 or i == len(toks):
            return
        a, b = toks[i - 1], toks[i]
        if b[0] == "kw" and b[1] in ("import", "type") or (b[0] == "kw" and b[1] == "foreign" and a[1] != "import"):
            self.put("\n")
        elif operand_end(a) and (b[0] in ("id", "qual", "num", "str") or b[1] in ("[", "(", "\\(", "!")) and a[0] != "id":
            self.put("\n  ")
        elif a[1] == "{" and b[1] != "}" or b[1] == "}" and a[1] != "{":
            self.put("\n" if (i + len(toks)) % 3 else " ")
        elif must_separate(toks, i) or b[1] in ("{", "else") or a[1] in (",", ":", "=") or b[1] in ("=", "+", "-", "*", "/", "==", "&", "|"):
            self.put(" ")


TOKEN = re.compile(r'''(?P<blank>[ \t\r\n]+)|(?P<comment>\#[^\n\r]*)
  |(?P<str>"(?:[^\\"]|\\["\\nrt]|\\x[0-9a-fA-F]{2})*")
  |(?P<num>0b[01]+|0x[0-9a-fA-F]+|(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+)(?:[eE][+-]?[0-9]+)?)
  |(?P<path>'[A-Za-z_]\w*(?:'[A-Za-z_]\w*)*|[A-Za-z_]\w*(?:'[A-Za-z_]\w*){2,})
  |(?P<qual>[A-Za-z_]\w*'[A-Za-z_]\w*)
  |(?P<word>[A-Za-z_]\w*)
  |(?P<sg>\\\(|\.\.\.|==|!=|<=|>=|[-+*/<>&|!?=()\[\]{},.:])''', re.X | re.A)


def lex(text, spaced=False):
    """Tokens [kind, text, value] of a text, or None where the text has no unambiguous tokens; with spaced, operators
    stand apart from their operands."""
    toks, at, i, glued, apart = [], [], 0, False, False
    while i < len(text):
        m = TOKEN.match(text, i)
        if not m:
            return None
        kind, s = m.lastgroup, m.group()
        i = m.end()
        if kind in ("blank", "comment"):
            glued = False
            continue
        if kind == "word":
            kind = "kw" if s in KEYWORDS else "id"
        if kind in ("qual", "path") and any(w in KEYWORDS for w in s.split("'")):
            kind = "bad"
        value = s
        if kind == "str":
            s = value = s[1:-1]
        elif kind == "num":
            value = s.lower() if s[:2] in ("0b", "0x") else s
            if glued and toks and toks[-1][1] in ("+", "-") and (spaced and apart or not (len(toks) > 1 and operand_end(toks[-2]))):
                sign = toks.pop()[1]
                at.pop()
                glued = not apart and toks and toks[-1][0] in ("num", "snum")
                kind, s, value = "snum", sign + s, sign + value
            elif s[0] == ".":
                kind = "snum"
        elif kind == "qual":
            value = "public" if s.split("'")[1][0].isupper() else "private"
        elif s == "(":
            kind = "call" if glued and toks and operand_end(toks[-1]) else "sg"
        if glued and toks and kind in ("num", "id", "kw", "qual", "path", "snum") and toks[-1][0] in ("num", "id", "kw", "qual", "path", "snum"):
            return None
        apart = not glued
        toks.append([kind, s, value])
        at.append(m.start())
        glued = True
    return toks


def place(tree, at):
    """The tree with token indices replaced by positions."""
    if isinstance(tree, list):
        return [place(t, at) for t in tree]
    return at[tree - 1] if isinstance(tree, int) else tree


def is_position(t):
    return isinstance(t, int) or isinstance(t, list) and len(t) >= 2 and isinstance(t[0], int) and isinstance(t[1], int) and (len(t) == 2 or t[2] == "quotes")


def strip(tree):
    """The tree without positions (token indices or lines and columns)."""
    return [strip(t) for t in tree if not is_position(t)] if isinstance(tree, list) else tree


def derive(check, n, fuel, edits, procs=6, seed=0, invariant=True, timeout=700):
    """Derivations of the grammar (with up to `edits` edits each) from several TLC simulations."""
    def one(k):
        name = "PenGen-%s-%d-%d.cfg" % (check.prop, edits, k)
        path = os.path.join(vf.SPEC, name)
        open(path, "w").write("SPECIFICATION Spec\nCONSTANTS Fuel = %d\nEdits = %d\n%sCHECK_DEADLOCK FALSE\n" % (fuel, edits, "INVARIANT Derived\n" if invariant else ""))
        try:
            return vf.tlc_behaviours("PenGen", name, workers=1, simulate=max(1, n // procs), depth=2000, seed=vf.SEED * 7919 + seed * 101 + k + int(check.prop[1:]) * 13, timeout=timeout, heap="3g")
        finally:
            os.unlink(path)
    with ThreadPoolExecutor(procs) as ex:
        runs = list(ex.map(one, range(procs)))
    out, seen = [], set()
    for r in runs:
        check.add_tlc(r)
        for b in r.behaviours:
            key = json.dumps(b, sort_keys=True)
            if key not in seen:
                seen.add(key)
                out.append(b)
    return out


def run(cases, shards=8, timeout=30):
    bindir = vf.build("lang")
    exe = os.path.join(bindir, "harness-lang")
    parts = [list(range(len(cases)))[i::shards] for i in range(shards)]
    results = [None] * len(cases)
    def one(p):
        return vf.Runner([exe], timeout=timeout, limit=20).run([cases[i] for i in p])
    with ThreadPoolExecutor(shards) as ex:
        for part, res in zip(parts, ex.map(one, parts)):
            for i, r in zip(part, res):
                results[i] = r
    return results


PREFIX = "f = \\() t {\n"


def char_cases(check):
    """Bodies of PenText with what the parser is to make of them."""
    r = vf.tlc_behaviours("PenText", vf.tier("PenText.cfg", "PenTextT.cfg"), workers=6, heap="8g", timeout=800)
    check.add_tlc(r)
    out = []
    for b in r.behaviours:
        body = "".join(b["text"])
        def at(k):
            return [2 + body[:k - 1].count("\n"), k - 1 - body[:k - 1].rfind("\n")]
        out.append(dict(text=PREFIX + body + "\n}", ok=b["ok"], body=body, items=[[k, at(i), v] for k, v, i in b["items"]], comments=[[at(i), v] for i, v in b["comments"]]))
    return sorted(out, key=lambda c: (len(c["body"]), c["body"]))


def list_cases(check):
    """Short lists of every kind, well-formed or not, as token sequences with trees."""
    r = vf.tlc_behaviours("PenLists", vf.tier("PenLists.cfg", "PenListsT.cfg"), workers=4, heap="6g", timeout=800)
    check.add_tlc(r)
    return [dict(b, layout=[(1,), (0, 0, 2), (0,), (7, 1, 0)][i % 4]) for i, b in enumerate(sorted(r.behaviours, key=json.dumps))]


def statements(r):
    """The statements of the only definition of a parsed module."""
    block = r["tree"][3][0][4][4]
    return [s[2] for s in block[1]] + [block[2]]
