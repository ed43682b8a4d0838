"""Assembles a Verus file from a specification template and /repo's current source.

Template directives (each on its own line, in an otherwise ordinary Verus file):
  //@include FILE            another template, in place
  //@import FILE             likewise, contracts only: the bodies are verified by another check
  //@src PATH                source file (relative to the repo) for what follows
  //@gsub /re/ => text       declared rewrite applied to every item extracted after this line
  //@item NAME               a struct/enum/const/type, verbatim, attributes dropped
  //@fn PATH [-> r]          a function, verbatim; the following lines up to //@end are sections:
       (plain lines)         contract: requires / ensures / decreases
     //@loop N               invariants of the N-th loop of the body
     //@loopstart N, //@loopend N, //@body     ghost code at that place
     //@after /re/, //@before /re/             ghost code beside the first match (proof hint)
     //@sub /re/ => text     declared rewrite in this function
  //@fmt                     from here on `format!("..{}..", x)` becomes the builder calls it stands for,
                             fo().l("..").a(&(x)).l("..").s() (see spec/text_out.vrs)
  //@json [all]              likewise `json!({"k": v, ..})`: jo().f("k", jv(&(v)))..o() (see spec/P19l.vrs); all: arrays and others too
  //@strmatch                `match x { "a" => A, _ => B }`: if str_eq(x, "a") A else B
     //@trusted              the body is not verified: contract assumed, covered by the bounded tier
     //@end
"""
import os, re, sys
from rsx import Source, Lost, loops_of, norm, match_close, tokenize

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "..", "spec")


def expand_rules(text):
    """The rules of a `define_rules! { .. }` as the macro (oak-macros/src/define_rules.rs) expands them: one impl per rule, conditions and
    bodies verbatim, the rule's own names for the arguments."""

    def block(at):  # text[at] is a brace: what is inside, and where it ends
        d, i = 0, at
        while True:
            if text[i] in "{}":
                d += 1 if text[i] == "{" else -1
                if d == 0:
                    return text[at + 1 : i], i + 1
            i += 1

    at = re.search(r"define_rules!\s*\{", text)
    if not at:
        raise Lost("define_rules! is gone")
    pos, end = at.end(), block(at.end() - 1)[1] - 1
    out = []
    rule = re.compile(r"(?:\s|//[^\n]*)*(\w+)\s*\{")
    while True:
        m = rule.match(text, pos, end)
        if not m:
            break
        body, pos = block(m.end() - 1)
        base, fns = m.end(), []
        q = re.search(r"\bpriority:\s*(\w+)", body)
        fns.append("fn priority(&self) -> u8 { %s }" % (q.group(1) if q else "0"))
        for kind, ty in (("node", "&RedNode<L>"), ("token", "&RedLeaf<L>")):
            h = re.search(r"\b%s\(([^)]*)\)\s*if\s+(.*?)=>\s*\{" % kind, body, re.S)
            if not h:
                continue
            args = [a.strip() for a in h.group(1).split(",")]
            do, _ = block(base + h.end() - 1)
            fns.append("fn applies_to_%s(&self, %s: %s) -> bool { %s }" % (kind, args[0], ty, h.group(2).strip()))
            more = ", %s: &dyn Fn(&RedNode<L>) -> FormatResult<Document<'a>>" % args[3] if kind == "node" else ""
            fns.append("fn apply_%s<'a>(&self, %s: %s, %s: &FormatContext<L>, %s: &'a str%s) -> FormatResult<Option<Document<'a>>> {%s}" % (kind, args[0], ty, args[1], args[2], more, do))
        out.append("impl %s {\n    %s\n}" % (m.group(1), "\n    ".join(fns)))
    return "\n".join(out)


class Gen:
    def __init__(self, repo, probe=None):
        self.repo, self.probe = repo, probe
        self.out, self.map = [], []  # lines, (name) per line
        self.src, self.srcs = None, {}
        self.gsubs, self.fmt, self.json, self.strmatch = [], False, False, False
        self.importing, self.imported_fns = False, []
        self.functions, self.trusted_fns, self.rewrites, self.lost, self.struct = [], [], [], [], {}
        self.probes = {}  # line -> (fn, where)

    def emit(self, text, name=None):
        for l in text.split("\n"):
            self.out.append(l)
            self.map.append(name)

    def source(self, path):
        if path not in self.srcs:
            try:
                f, _, how = path.partition("#")
                text = open(os.path.join(self.repo, f), encoding="utf-8").read()
                self.srcs[path] = Source(expand_rules(text) if how == "define_rules" else text)
            except (OSError, IndexError, UnicodeDecodeError) as e:
                raise Lost(f"{path}: {e!r}")
        return self.srcs[path]

    def run(self, tmpl):
        lines = open(os.path.join(SPEC, tmpl), encoding="utf-8").read().split("\n")
        i = 0
        while i < len(lines):
            l = lines[i]
            s = l.strip()
            if not s.startswith("//@"):
                self.emit(l)
                i += 1
                continue
            d, _, arg = s[3:].partition(" ")
            arg = arg.strip()
            if d == "include":
                self.run(arg)
            elif d == "import":  # contracts only: another check discharges them
                old, self.importing = self.importing, True
                self.run(arg)
                self.importing = old
            elif d == "src":
                self.src = arg
            elif d == "gsub":
                self.gsubs.append(parse_sub(arg))
            elif d == "fmt":
                self.fmt = True
            elif d == "json":
                self.json = arg or "objects"
            elif d == "strmatch":
                self.strmatch = True
            elif d == "gsubclear":
                self.gsubs = []
            elif d == "item":
                S = self.source(self.src)
                _, it = S.find(arg)
                tx = strip_attrs(S.slice(it.a, it.b))
                if it.kind == "struct":  # visibility is dropped: every field becomes public
                    q = tx.find("{")
                    if q >= 0:
                        tx = tx[:q] + re.sub(r"([{,])(\s*)(?:pub(?:\([^)]*\))?\s+)?(\w+)(\s*:)(?!:)", r"\1\2pub \3\4", tx[q:])
                    tx = re.sub(r"^\s*(?:pub(?:\([^)]*\))?\s+)?struct", "pub struct", tx)
                elif it.kind in ("enum", "type", "const"):
                    tx = re.sub(r"^\s*(?:pub(?:\([^)]*\))?\s+)?(enum|type|const)\b", r"pub \1", tx)
                self.emit(self.apply(tx, self.gsubs, arg), f"{self.src}::{arg}")
            elif d == "fn":
                block = []
                i += 1
                while lines[i].strip() != "//@end":
                    if lines[i].strip().startswith("//@include "):
                        f = lines[i].strip().split()[1]
                        block += open(os.path.join(SPEC, f), encoding="utf-8").read().rstrip("\n").split("\n")
                    else:
                        block.append(lines[i])
                    i += 1
                self.fn(arg, block)
            else:
                raise SystemExit(f"{tmpl}:{i+1}: unknown directive {d}")
            i += 1

    def apply(self, text, subs, who):
        for pat, rep in subs:
            new, n = re.subn(pat, rep, text, flags=re.S)
            if n:
                r = f"{who}: /{pat}/ => {rep} ({n}x)"
                if r not in self.rewrites:
                    self.rewrites.append(r)
            text = new
        return text

    def fn(self, arg, block):
        path, _, ret = arg.partition(" -> ")
        path, ret = path.strip(), ret.strip()
        S = self.source(self.src)
        own, it = S.find(path, "fn")
        name = f"{self.src.split('/src/')[-1]}::{path}"
        contract, secs, subs, trusted = [], [], [], False
        cur = contract
        for l in block:
            s = l.strip()
            if s.startswith("//@"):
                d, _, a = s[3:].partition(" ")
                if d == "sub":
                    subs.append(parse_sub(a.strip()))
                    continue
                if d == "trusted":
                    trusted = True
                    continue
                cur = []
                secs.append((d, a.strip(), cur))
            else:
                cur.append(l)
        raw = S.slice(it.a, it.b)
        imported = self.importing
        if imported:
            trusted = True
        else:
            self.struct[name] = {
                "loops": [norm(S.toks, k, b) for k, b, _ in loops_of(S.toks, it.body, it.b)] if it.body >= 0 else [],
                "text": norm(S.toks, it.a, it.b),
            }
        text = self.apply(raw, subs, name)
        if self.fmt:
            text, n = desugar_format(text)
            if n:
                self.rewrites.append(f"{name}: format!(..) => fo()..s() ({n}x)")
        if self.json:
            text, n = desugar_json(text, self.json == "all")
            if n:
                self.rewrites.append(f"{name}: json!({{..}}) => jo()..o() ({n}x)")
        if self.strmatch:
            text, n = desugar_strmatch(text)
            if n:
                self.rewrites.append(f"{name}: match on string literals => if str_eq(..) else .. ({n}x)")
        text = self.apply(text, self.gsubs, name)
        toks = [t for t in tokenize(text) if t.kind != "com"]
        # signature / body split
        b = next((k for k, t in enumerate(toks) if t.s == "{" and t.kind == "punct"), None)
        depth = 0
        for k, t in enumerate(toks):
            if t.kind == "punct" and t.s in "([":
                depth += 1
            elif t.kind == "punct" and t.s in ")]":
                depth -= 1
            elif t.kind == "punct" and t.s == "{" and depth == 0:
                b = k
                break
        if b is None:
            raise Lost(f"{path} has no body")
        close = match_close(toks, b)
        sig = text[: toks[b].a]
        if ret:
            m = re.search(r"->\s*(.+?)(\s*(?:where\b.*)?)$", sig.strip(), re.S)
            # the last top-level '->'
            pos = top_arrow(toks[:b])
            if pos is None:
                sig = sig.rstrip() + f" -> ({ret}: ())"
            else:
                after = text[toks[pos + 1].b : toks[b].a]
                w = re.search(r"\bwhere\b", after)
                ty, wh = (after[: w.start()], after[w.start() :]) if w else (after, "")
                sig = text[: toks[pos].a] + f"-> ({ret}: {ty.strip()}) " + wh
        # ghost insertions into the body
        ins = []  # (pos, order, text, kind)
        loops = loops_of(toks, b + 1, close)

        def loop(n):
            n = int(n)
            if n > len(loops):
                raise Lost(f"{path}: loop {n} is gone")
            return loops[n - 1]

        if imported:
            self.imported_fns.append(name)
        else:
            self.functions.append(name)
            if trusted:
                self.trusted_fns.append(name)
        for d, a, ls in secs:
            tx = "\n".join(ls)
            if trusted:
                continue
            if d == "loop":
                k, lb, _ = loop(a)
                ins.append((toks[lb].a, 0, "\n" + tx + "\n"))
            elif d == "iter":
                n, nm = a.split()
                k, lb, _ = loop(n)
                j = next((x for x in range(k, lb) if toks[x].s == "in"), None)
                if j is None:
                    raise Lost(f"{path}: loop {n} is not a for loop")
                ins.append((toks[j].b, 0, f" {nm}: "))
            elif d == "loopstart":
                _, lb, _ = loop(a)
                ins.append((toks[lb].b, 1, "\n" + tx + "\n"))
            elif d == "loopend":
                n, _, mode = a.partition(" ")
                _, lb, lc = loop(n)
                ins.append((toks[lc].a, 1, "\n;" + tx + "\n"))
                # the same where the iteration ends early
                inner = [(x, y) for _, x, y in loops if lb < x and y < lc]
                for x in range(lb, lc) if mode != "only" else ():
                    if toks[x].kind == "id" and toks[x].s == "continue" and toks[x + 1].kind == "punct" and not any(y < x < z for y, z in inner):
                        ins.append((toks[x].a, 1, "{ " + tx + "\n"))
                        ins.append((toks[x].b, 1, " }"))
            elif d == "afterloop":
                _, _, lc = loop(a)
                ins.append((toks[lc].b, 1, "\n" + tx + "\n"))
            elif d == "body":
                m = re.match(r"(?:\s*hide\([^;]*;)+", tx)  # verifier directives come before everything else
                if m:
                    ins.append((toks[b].b, -1, "\n" + m.group(0)))
                    tx = tx[m.end() :]
                ins.append((toks[b].b, 1, "\n" + tx + "\n"))
            elif d in ("after", "before"):
                rx = a[1 : a.rindex("/")]
                nth = a[a.rindex("/") + 1 :].strip()
                ms = list(re.finditer(rx, text[toks[b].a :], re.S))
                want = int(nth) if nth else 1
                if len(ms) < want:
                    self.lost.append((name, rx))
                    continue
                m = ms[want - 1]
                p = toks[b].a + (m.end() if d == "after" else m.start())
                ins.append((p, 1, "\n" + tx + "\n"))
            else:
                raise SystemExit(f"{path}: unknown section {d}")
        if self.probe == "body" and not trusted:
            ins.append((toks[b].b, 0, f"\nproof {{ assert(false); }} /*PROBE {name} body*/\n"))
        if self.probe == "loop" and not trusted:
            for n, (_, lb, _) in enumerate(loops):
                ins.append((toks[lb].b, 0, f"\nproof {{ assert(false); }} /*PROBE {name} loop{n+1}*/\n"))
        body = text[toks[b].a : toks[close].b]
        base = toks[b].a
        for p, o, tx in sorted(ins, key=lambda x: (-x[0], -x[1])):
            body = body[: p - base] + tx + body[p - base :]
        if trusted:
            self.emit("#[verifier::external_body] /*" + ("IMPORTED" if imported else "TRUSTED") + "-FN*/", name)
            body = "{ unimplemented!() }"
        self.emit(sig.rstrip() + "\n" + "\n".join(contract) + "\n" + body, name)


def top_arrow(toks):
    d, res, start = 0, None, 0
    for k, t in enumerate(toks):  # past the generics
        if t.kind == "id" and t.s == "fn" and k + 2 < len(toks) and toks[k + 2].s == "<":
            a = 0
            for j in range(k + 2, len(toks)):
                a += 1 if toks[j].s == "<" else -1 if toks[j].s == ">" and toks[j - 1].s != "-" else 0
                if a == 0:
                    start = j + 1
                    break
            break
    for k, t in enumerate(toks):
        if t.kind != "punct" or k < start:
            continue
        if t.s in "([":
            d += 1
        elif t.s in ")]":
            d -= 1
        elif t.s == "-" and d == 0 and k + 1 < len(toks) and toks[k + 1].s == ">":
            # skip arrows inside where clauses / generics bounds: take the first after the parameter list
            if res is None and k > 0 and toks[k - 1].s == ")":
                # parameter list is the first (...) after the name and generics
                res = k
                return res
    return res


def desugar_format(text):
    """format!("a{}b{:>w$}", x, y, w = n)  ->  fo().l("a").a(&(x)).l("b").p(&(y), n).s()"""
    count, skip = 0, set()
    while True:
        toks = [t for t in tokenize(text) if t.kind != "com"]
        at = [k for k in range(len(toks) - 2) if toks[k].s == "format" and toks[k + 1].s == "!" and toks[k + 2].s == "(" and toks[k].a not in skip]
        if not at:
            return text, count
        k = at[-1]  # innermost and last first: positions before it stay valid
        e = match_close(toks, k + 2)
        parts, depth, start = [], 0, k + 3
        for j in range(k + 3, e):
            if toks[j].kind == "punct" and toks[j].s in "([{":
                depth += 1
            elif toks[j].kind == "punct" and toks[j].s in ")]}":
                depth -= 1
            elif toks[j].s == "," and depth == 0:
                parts.append((start, j))
                start = j + 1
        if start < e:
            parts.append((start, e))
        src = lambda p: text[toks[p[0]].a : toks[p[1] - 1].b]
        new = build_format(src(parts[0]), [src(p) for p in parts[1:]]) if parts else None
        if new is None:
            skip.add(toks[k].a)
            continue
        text = text[: toks[k].a] + new + text[toks[e].b :]
        count += 1


def desugar_json(text, every=False):
    """json!({"a": x, "b": {"c": y}})  ->  jo().f("a", jv(&(x))).f("b", jo().f("c", jv(&(y))).o()).o()
    every: also json!([x, y]) -> ja().e(jv(&(x))).e(jv(&(y))).a(), json!(null) -> jnull(), json!(x) -> jv(&(x))"""
    count = 0
    while True:
        toks = [t for t in tokenize(text) if t.kind != "com"]
        at = [k for k in range(len(toks) - 3) if toks[k].s == "json" and toks[k + 1].s == "!" and toks[k + 2].s == "(" and (every or toks[k + 3].s == "{")]
        if not at:
            return text, count
        k = at[-1]
        e = match_close(toks, k + 2)
        a = k
        while a >= 2 and toks[a - 1].s == ":" and toks[a - 2].s == ":":  # a path such as serde_json::json!
            a -= 3
        if a > 0 and toks[a - 1].s == "::":
            a -= 2
        text = text[: toks[a].a] + json_value(text, toks, k + 3, e, every) + text[toks[e].b :]
        count += 1


def json_value(text, toks, a, b, every=False):
    """tokens a..b are one JSON value"""
    whole = toks[a].s in "{[" and match_close(toks, a) == b - 1
    if every and b == a + 1 and toks[a].s == "null":
        return "jnull()"
    if whole and (toks[a].s == "[" and every or toks[a].s == "{" and (a + 1 == b - 1 or toks[a + 1].kind == "str" and toks[a + 2].s == ":")):
        obj = toks[a].s == "{"
        out, k = "jo()" if obj else "ja()", a + 1
        while k < b - 1:
            key, start, depth = toks[k].s, k + 2 if obj else k, 0
            j = start
            while j < b - 1 and not (toks[j].s == "," and depth == 0):
                if toks[j].kind == "punct" and toks[j].s in "([{":
                    depth += 1
                elif toks[j].kind == "punct" and toks[j].s in ")]}":
                    depth -= 1
                j += 1
            v = json_value(text, toks, start, j, every)
            out += f".f({key}, {v})" if obj else f".e({v})"
            k = j + 1
        return out + (".o()" if obj else ".a()")
    return f"jv(&({text[toks[a].a:toks[b-1].b]}))"


def desugar_strmatch(text):
    """match x { "a" | "b" => A, _ => B }  ->  { let m1 = x; if str_eq(m1, "a") || str_eq(m1, "b") { A } else { B } }"""
    count = 0
    while True:
        toks = [t for t in tokenize(text) if t.kind != "com"]
        hit = None
        for k, t in enumerate(toks):
            if t.s != "match" or t.kind == "str":
                continue
            b, depth = k + 1, 0
            while b < len(toks) and not (toks[b].s == "{" and toks[b].kind == "punct" and depth == 0):
                if toks[b].kind == "punct" and toks[b].s in "([":
                    depth += 1
                elif toks[b].kind == "punct" and toks[b].s in ")]":
                    depth -= 1
                b += 1
            if b + 1 < len(toks) and toks[b + 1].kind == "str":
                hit = (k, b)
        if hit is None:
            return text, count
        k, b = hit
        count += 1
        e, m = match_close(toks, b), f"m{count}"
        out, p, last = f"{{ let {m} = {text[toks[k + 1].a : toks[b - 1].b]}; ", b + 1, False
        while p < e:
            names, guard, q = [], "", p
            while not (toks[q].s == "=" and toks[q + 1].s == ">" or toks[q].s == "=>"):
                if toks[q].s == "if" and toks[q].kind != "str":
                    g = q + 1
                    while not (toks[q].s == "=" and toks[q + 1].s == ">" or toks[q].s == "=>"):
                        q += 1
                    guard = f" && ({text[toks[g].a : toks[q - 1].b]})"
                    break
                if toks[q].s != "|":
                    names.append(toks[q])
                q += 1
            q += 1 if toks[q].s == "=>" else 2
            if toks[q].s == "{" and toks[q].kind == "punct":
                z = match_close(toks, q)
                body, nxt = text[toks[q].a : toks[z].b], z + 1
                if nxt < e and toks[nxt].s == ",":
                    nxt += 1
            else:
                z, depth = q, 0
                while z < e and not (toks[z].s == "," and depth == 0):
                    if toks[z].kind == "punct" and toks[z].s in "([{":
                        depth += 1
                    elif toks[z].kind == "punct" and toks[z].s in ")]}":
                        depth -= 1
                    z += 1
                body, nxt = "{ " + text[toks[q].a : toks[z - 1].b] + " }", z + 1
            if all(n.kind == "str" for n in names):
                out += "if (" + " || ".join(f"str_eq({m}, {n.s})" for n in names) + f"){guard} {body} else "
            elif len(names) == 1 and not guard:
                out += body if names[0].s == "_" else f"{{ let {names[0].s} = {m}; {body} }}"
                last = True
                break
            else:
                raise Lost("a match on strings of another shape")
            p = nxt
        text = text[: toks[k].a] + out + (" }" if last else "{ unreached() } }") + text[toks[e].b :]


def build_format(lit, args):
    if not (lit.startswith('"') and lit.endswith('"')):
        return None
    lit, pos, named = lit[1:-1], [], {}
    for a in args:
        m = re.match(r"(\w+)\s*=(?!=)\s*(.*)$", a, re.S)
        if m:
            named[m.group(1)] = m.group(2)
        else:
            pos.append(a)
    out, cur, k, nxt = "fo()", "", 0, 0
    while k < len(lit):
        c = lit[k]
        if c == "\\":
            m = re.match(r"\\u\{[0-9a-fA-F_]+\}", lit[k:])
            n = len(m.group(0)) if m else 4 if lit[k + 1] == "x" else 2
            cur += lit[k : k + n]
            k += n
        elif lit[k : k + 2] in ("{{", "}}"):
            cur += c
            k += 2
        elif c == "{":
            e = lit.index("}", k)
            name, _, spec = lit[k + 1 : e].partition(":")
            name = name.strip()
            if name == "":
                if nxt >= len(pos):
                    return None
                arg, nxt = pos[nxt], nxt + 1
            elif name.isdigit():
                arg = pos[int(name)]
            else:
                arg = named.get(name, name)
            if cur:
                out += f'.l("{cur}")'
                cur = ""
            m = re.fullmatch(r" ?>(\w+)\$", spec)
            if spec == "":
                out += f".a(&({arg}))"
            elif m:
                out += f".p(&({arg}), {named.get(m.group(1), m.group(1))})"
            elif spec == "04x":
                out += f".x4({arg})"
            else:
                return None
            k = e + 1
        else:
            cur += c
            k += 1
    if cur:
        out += f'.l("{cur}")'
    return out + ".s()"


def strip_attrs(t):
    toks = tokenize(t)
    cut, k = [], 0
    tk = [x for x in toks if x.kind != "com"]
    while k < len(tk):
        if tk[k].s == "#" and k + 1 < len(tk) and tk[k + 1].s == "[":
            e = match_close(tk, k + 1)
            cut.append((tk[k].a, tk[e].b))
            k = e
        k += 1
    for a, b in reversed(cut):
        t = t[:a] + t[b:]
    return t


def parse_sub(a):
    m = re.match(r"/(.*?)(?<!\\)/ => ?(.*)$", a)
    return m.group(1), m.group(2)


def generate(repo, tmpl, out, probe=None):
    g = Gen(repo, probe)
    g.run(tmpl)
    text = "\n".join(g.out) + "\n"
    # line map must follow the emitted text (emit may hold multi-line strings: already split)
    with open(out, "w", encoding="utf-8") as f:
        f.write(text)
    for n, l in enumerate(g.out, 1):
        m = re.search(r"/\*PROBE (.*) (\w+)\*/", l)
        if m:
            g.probes[n] = (m.group(1), m.group(2))
    return g
