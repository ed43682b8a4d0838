"""Mechanical extraction of Rust items from /repo's current source, and injection of contracts.

Only the text found in /repo is emitted as executable code; what is dropped or rewritten is
recorded in Extracted.notes so that every run can state it.
"""
import re
from dataclasses import dataclass, field


class Lost(Exception):
    """An item, loop or anchor named by a specification no longer exists in the source."""


# ---------------------------------------------------------------- tokenizer
@dataclass
class Tok:
    kind: str  # id, life, num, str, chr, punct, com, doc
    s: str
    a: int
    b: int


_ID = re.compile(r"(?:r#)?[A-Za-z_]\w*")
_NUM = re.compile(r"\d[\w]*(?:\.\d[\w]*)?")


def tokenize(t):
    out, i, n = [], 0, len(t)
    while i < n:
        c = t[i]
        if c.isspace():
            i += 1
            continue
        if t.startswith("//", i):
            j = t.find("\n", i)
            j = n if j < 0 else j
            out.append(Tok("com", t[i:j], i, j))
            i = j
            continue
        if t.startswith("/*", i):
            d, j = 1, i + 2
            while d and j < n:
                if t.startswith("/*", j):
                    d += 1
                    j += 2
                elif t.startswith("*/", j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            out.append(Tok("com", t[i:j], i, j))
            i = j
            continue
        m = re.compile(r'(?:br|cr|r)(#*)"').match(t, i)
        if m:
            e = t.find('"' + m.group(1), m.end())
            j = e + 1 + len(m.group(1))
            out.append(Tok("str", t[i:j], i, j))
            i = j
            continue
        m = re.compile(r'[bc]?"').match(t, i)
        if m:
            j = m.end()
            while t[j] != '"':
                j += 2 if t[j] == "\\" else 1
            j += 1
            out.append(Tok("str", t[i:j], i, j))
            i = j
            continue
        m = re.compile(r"b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^\\'])'").match(t, i)
        if m:
            out.append(Tok("chr", m.group(), i, m.end()))
            i = m.end()
            continue
        m = re.compile(r"'[A-Za-z_]\w*").match(t, i)
        if m:
            out.append(Tok("life", m.group(), i, m.end()))
            i = m.end()
            continue
        m = _ID.match(t, i)
        if m:
            out.append(Tok("id", m.group(), i, m.end()))
            i = m.end()
            continue
        m = _NUM.match(t, i)
        if m:
            # do not swallow `0..n`
            s = m.group()
            out.append(Tok("num", s, i, m.end()))
            i = m.end()
            continue
        out.append(Tok("punct", c, i, i + 1))
        i += 1
    return out


OPEN, CLOSE = {"(": ")", "[": "]", "{": "}"}, {")", "]", "}"}


def match_close(toks, k):
    """Index of the token closing the bracket at toks[k]."""
    d = 0
    for j in range(k, len(toks)):
        if toks[j].kind == "punct":
            if toks[j].s in OPEN:
                d += 1
            elif toks[j].s in CLOSE:
                d -= 1
                if d == 0:
                    return j
    raise Lost("unbalanced brackets")


@dataclass
class Item:
    kind: str  # fn impl trait mod struct enum const type other
    name: str
    head: str  # normalised header, e.g. impl target
    toks: list  # tokens without comments
    a: int  # index of first token (after attributes)
    b: int  # index after last token
    body: int = -1  # index of '{'
    children: list = field(default_factory=list)


def _skip_generics(toks, k):
    """k at '<': index after the matching '>' (handles '->' inside)."""
    d = 0
    while k < len(toks):
        s = toks[k].s
        if s == "<":
            d += 1
        elif s == ">" and not (toks[k - 1].s in "-=" and toks[k - 1].b == toks[k].a):
            d -= 1
            if d == 0:
                return k + 1
        elif s in OPEN and toks[k].kind == "punct":
            k = match_close(toks, k)
        k += 1
    raise Lost("unbalanced generics")


def parse_items(toks, a, b):
    items, k = [], a
    while k < b:
        start = k
        # attributes
        while k < b and toks[k].s == "#":
            k += 1
            if toks[k].s == "!":
                k += 1
            k = match_close(toks, k) + 1
        first = k
        # qualifiers
        while k < b and (toks[k].s in ("pub", "async", "unsafe", "extern", "default", "crate") or toks[k].kind == "str" or (toks[k].s == "const" and toks[k + 1].s in ("fn", "unsafe", "async", "extern"))):
            k += 1
            if k < b and toks[k].s == "(" and toks[k - 1].s == "pub":
                k = match_close(toks, k) + 1
        if k >= b:
            break
        w = toks[k].s
        kind, name = "other", ""
        if w in ("fn", "struct", "enum", "union", "trait", "mod", "const", "static", "type", "impl", "use", "macro_rules"):
            kind = w
            if w != "impl" and k + 1 < b:
                name = toks[k + 1].s
        # find end: ';' or '{...}' at depth 0  ('=' items end at ';')
        j, body, seen_eq = k + 1, -1, False
        while j < b:
            s, tk = toks[j].s, toks[j].kind
            if tk == "punct":
                if s == ";":
                    j += 1
                    break
                if s == "=" and kind in ("const", "static", "type", "use"):
                    seen_eq = True
                if s == "{" and not seen_eq and kind not in ("const", "static", "use"):
                    body = j
                    j = match_close(toks, j) + 1
                    break
                if s in OPEN:
                    j = match_close(toks, j) + 1
                    continue
            j += 1
        it = Item(kind, name, "", toks, first, j, body)
        if kind == "impl":
            p = k + 1
            if toks[p].s == "<":
                p = _skip_generics(toks, p)
            hdr = toks[p:body]
            cut = next((i for i, t in enumerate(hdr) if t.s == "where"), len(hdr))
            hdr = hdr[:cut]
            forpos = next((i for i, t in enumerate(hdr) if t.s == "for" and hdr[i + 1].s != "<"), None)

            def base(ts):
                out, d = [], 0
                for i, t in enumerate(ts):
                    if t.s == "<":
                        d += 1
                    elif t.s == ">":
                        d -= 1
                    elif d == 0 and t.kind in ("id", "punct") and t.s not in ("mut", "dyn"):
                        out.append(t.s)
                s = "".join(out).lstrip("&").split("::")[-1]
                return s

            if forpos is None:
                it.name = base(hdr)
                it.head = it.name
            else:
                it.name = base(hdr[forpos + 1 :])
                it.head = base(hdr[:forpos]) + " for " + it.name
        if kind in ("impl", "trait", "mod") and body >= 0:
            it.children = parse_items(toks, body + 1, j - 1)
        if kind == "macro_rules":
            pass
        items.append(it)
        k = max(j, start + 1)
    return items


class Source:
    def __init__(self, text):
        self.text = text
        self.all = tokenize(text)
        self.toks = [t for t in self.all if t.kind != "com"]
        self.items = parse_items(self.toks, 0, len(self.toks))

    def find(self, path, kind=None):
        """path: 'name' | 'Type::name' | 'Trait for Type::name' | 'trait Tr::name'."""
        parts = path.split("::")
        owner, name = ("::".join(parts[:-1]) or None), parts[-1]
        found = []

        def walk(items, own):
            for it in items:
                if it.kind == "mod" and it.children:
                    if it.name != "tests":
                        walk(it.children, own)
                    continue
                if it.kind in ("impl", "trait"):
                    heads = {it.head, it.name} if it.kind == "impl" and " for " not in it.head else {it.head} if it.kind == "impl" else {"trait " + it.name}
                    if owner in heads:
                        for ch in it.children:
                            if ch.name == name and ch.kind in ("fn", "const", "type") and (kind is None or ch.kind == kind):
                                found.append((it, ch))
                elif owner is None and it.name == name and (kind is None or it.kind == kind):
                    found.append((None, it))

        walk(self.items, None)
        if not found:
            raise Lost(f"{path} not found")
        return found[0]

    def slice(self, a, b):
        """Source text of tokens a..b without comments."""
        if a >= b:
            return ""
        lo, hi = self.toks[a].a, self.toks[b - 1].b
        out, p = [], lo
        for t in self.all:
            if t.kind == "com" and t.a >= lo and t.b <= hi:
                out.append(self.text[p : t.a])
                p = t.b
        out.append(self.text[p:hi])
        return "".join(out)


# ---------------------------------------------------------------- function view
def loops_of(toks, a, b):
    """(keyword index, body '{' index, close index) of each loop within tokens a..b, in order."""
    res = []
    for k in range(a, b):
        t = toks[k]
        if t.kind != "id" or t.s not in ("while", "loop", "for"):
            continue
        if t.s == "for" and toks[k + 1].s == "<":
            continue
        j = k + 1
        while j < b:
            s = toks[j].s
            if toks[j].kind == "punct" and s in "([":
                j = match_close(toks, j) + 1
                continue
            if toks[j].kind == "punct" and s == "{":
                break
            j += 1
        if j >= b:
            raise Lost("loop without body")
        res.append((k, j, match_close(toks, j)))
    return res


def norm(toks, a, b):
    return " ".join(t.s for t in toks[a:b])
