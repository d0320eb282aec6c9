"""A small Rust lexer and item parser: just enough to cut functions out of real source text
without changing a character of it.  No interpretation happens here."""
import re

IDENT = re.compile(r"(?:r#)?[A-Za-z_][A-Za-z0-9_]*")
NUM = re.compile(r"[0-9][0-9A-Za-z_]*(?:\.[0-9][0-9A-Za-z_]*)?")
PUNCT3 = ["..=", "...", "<<=", ">>="]
PUNCT2 = ["->", "=>", "::", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=", "%=",
          "^=", "&=", "|=", "..", "<<"]


class LexError(Exception):
    pass


class Tok:
    __slots__ = ("k", "t", "s", "e")

    def __init__(self, k, t, s, e):
        self.k, self.t, self.s, self.e = k, t, s, e

    def __repr__(self):
        return f"{self.t!r}@{self.s}"


def lex(src):
    out, i, n = [], 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1
            continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
            continue
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while d and j < n:
                if src.startswith("/*", j):
                    d += 1
                    j += 2
                elif src.startswith("*/", j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            i = j
            continue
        m = re.compile(r'b?r(#*)"').match(src, i)
        if m:
            close = '"' + m.group(1)
            j = src.find(close, m.end())
            if j < 0:
                raise LexError("raw string")
            out.append(Tok("str", src[i:j + len(close)], i, j + len(close)))
            i = j + len(close)
            continue
        if c == '"' or src.startswith('b"', i):
            j = i + (2 if c == "b" else 1)
            while src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            out.append(Tok("str", src[i:j + 1], i, j + 1))
            i = j + 1
            continue
        if c == "'" or src.startswith("b'", i):
            m = re.compile(r"b?'(\\x[0-9a-fA-F]{2}|\\u\{[0-9a-fA-F_]+\}|\\.|[^\\'])'").match(src, i)
            if m:
                out.append(Tok("chr", m.group(0), i, m.end()))
                i = m.end()
                continue
            m = re.compile(r"'[A-Za-z_][A-Za-z0-9_]*").match(src, i)
            if m:
                out.append(Tok("life", m.group(0), i, m.end()))
                i = m.end()
                continue
            raise LexError("quote")
        m = IDENT.match(src, i)
        if m:
            out.append(Tok("id", m.group(0), i, m.end()))
            i = m.end()
            continue
        m = NUM.match(src, i)
        if m:
            t = m.group(0)
            # `0..n` is a range, not a float
            if "." in t and src.startswith("..", i + t.index(".")):
                t = t[:t.index(".")]
            # tuple field access `x.0.1`
            if "." in t and out and out[-1].t == ".":
                t = t[:t.index(".")]
            out.append(Tok("num", t, i, i + len(t)))
            i += len(t)
            continue
        for p in PUNCT3 + PUNCT2:
            if src.startswith(p, i):
                out.append(Tok("p", p, i, i + len(p)))
                i += len(p)
                break
        else:
            out.append(Tok("p", c, i, i + 1))
            i += 1
    return out


OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {")", "]", "}"}


def match_close(toks, i):
    """index of the token closing the bracket at toks[i]"""
    d = 0
    for j in range(i, len(toks)):
        t = toks[j].t
        if toks[j].k == "p":
            if t in OPEN:
                d += 1
            elif t in CLOSE:
                d -= 1
                if d == 0:
                    return j
    raise LexError("unbalanced")


class Loop:
    def __init__(self, kind, kw, brace, close):
        self.kind, self.kw, self.brace, self.close = kind, kw, brace, close  # token indexes


class Fn:
    def __init__(self):
        self.name = self.owner = None
        self.i0 = self.i_sig = self.i_name = self.i_body = self.i_end = 0
        self.i_arrow = None
        self.attrs = []
        self.loops = []
        self.is_async = False

    @property
    def qual(self):
        return f"{self.owner}::{self.name}" if self.owner else self.name


class Item:
    def __init__(self, kind, name, i0, i1, attrs):
        self.kind, self.name, self.i0, self.i1, self.attrs = kind, name, i0, i1, attrs
        self.fns = []      # for impl
        self.body = None   # (open, close) token indexes
        self.of_trait = None


def is_test_attr(a):
    a = a.replace(" ", "")
    return a in ("#[test]", "#[cfg(test)]") or "::test" in a or a.startswith("#[cfg(test")


def parse_items(src, toks, i, end, owner=None):
    items = []
    while i < end:
        i0 = i
        attrs = []
        while toks[i].t == "#":
            j = i + 1
            if toks[j].t == "!":
                j += 1
            c = match_close(toks, j)
            attrs.append(src[toks[i].s:toks[c].e])
            i = c + 1
        i_sig = i
        # visibility and qualifiers
        while toks[i].t in ("pub", "const", "async", "unsafe", "default", "extern") or (toks[i].k == "str" and toks[i - 1].t == "extern"):
            if toks[i].t == "const" and toks[i + 1].t not in ("fn", "async", "unsafe", "extern"):
                break
            i += 1
            if toks[i - 1].t == "pub" and toks[i].t == "(":
                i = match_close(toks, i) + 1
        kw = toks[i].t
        if kw == "fn":
            f = Fn()
            f.owner = owner
            f.name = toks[i + 1].t
            f.i0, f.i_sig, f.i_name, f.attrs = i0, i_sig, i + 1, attrs
            f.is_async = any(toks[k].t == "async" for k in range(i_sig, i))
            j = i + 2
            ang = 0
            while True:
                t = toks[j].t
                if t in ("(", "["):
                    j = match_close(toks, j) + 1
                    continue
                if t == "->" and ang == 0:
                    f.i_arrow = j
                if t == "<":
                    ang += 1
                if t == ">":
                    ang -= 1
                if t in ("{", ";"):
                    break
                j += 1
            if t == ";":
                f.i_body = f.i_end = j
            else:
                f.i_body = j
                f.i_end = match_close(toks, j)
                f.loops = find_loops(toks, f.i_body + 1, f.i_end)
            it = Item("fn", f.name, i0, f.i_end + 1, attrs)
            it.fns = [f]
            i = f.i_end + 1
        elif kw in ("struct", "enum", "union", "trait", "mod", "impl"):
            name = toks[i + 1].t
            j = i + 1
            while toks[j].t not in ("{", ";", "("):
                j += 1
            it_trait = None
            if kw == "impl":
                seg = toks[i + 1:j]
                txt = [t.t for t in seg]
                if "for" in txt:
                    k = txt.index("for")
                    it_trait = "".join(txt[:k])
                    name = txt[k + 1]
                else:
                    k = 0
                    if txt[0] == "<":
                        d = 0
                        for k, t in enumerate(txt):
                            d += t == "<"
                            d -= t == ">"
                            if d == 0:
                                break
                        k += 1
                    name = txt[k]
            if toks[j].t == ";":
                c = j
            else:
                c = match_close(toks, j)
                if toks[j].t == "(":
                    while toks[c].t != ";":
                        c += 1
            it = Item(kw, name, i0, c + 1, attrs)
            it.of_trait = it_trait
            it.body = (j, c)
            if kw == "impl":
                for sub in parse_items(src, toks, j + 1, c, owner=name):
                    if sub.kind == "fn":
                        it.fns.append(sub.fns[0])
            i = c + 1
        elif kw == "macro_rules":
            name = toks[i + 2].t
            c = match_close(toks, i + 3)
            if toks[i + 3].t != "{" and toks[c + 1].t == ";":
                c += 1
            it = Item("macro", name, i0, c + 1, attrs)
            i = c + 1
        else:
            # use, const, static, type, macro call: up to `;` at depth 0
            j = i
            while toks[j].t != ";":
                if toks[j].t in OPEN:
                    j = match_close(toks, j)
                j += 1
            it = Item(kw, toks[i + 1].t, i0, j + 1, attrs)
            i = j + 1
        it.i_sig = i_sig
        items.append(it)
    return items


def find_loops(toks, i, end):
    out = []
    while i < end:
        t = toks[i]
        if t.k == "id" and t.t in ("for", "while", "loop") and toks[i + 1].t != "<" and toks[i - 1].t != ".":
            j = i + 1
            while toks[j].t != "{":
                if toks[j].t in ("(", "["):
                    j = match_close(toks, j)
                j += 1
            out.append(Loop(t.t, i, j, match_close(toks, j)))
        i += 1
    return out


def use_leaves(toks, i, end, prefix=()):
    """flatten a use tree (token range without `use` and `;`) into (path tuple, alias)"""
    out, path = [], list(prefix)
    while i < end:
        t = toks[i].t
        if t == "{":
            c = match_close(toks, i)
            j = i + 1
            start = j
            d = 0
            while j <= c:
                if toks[j].t in OPEN:
                    d += 1
                if (toks[j].t == "," and d == 0) or j == c:
                    if j > start:
                        out += use_leaves(toks, start, j, tuple(path))
                    start = j + 1
                if toks[j].t in CLOSE:
                    d -= 1
                j += 1
            return out
        if t == "as":
            return [(tuple(path), toks[i + 1].t)]
        if t != "::":
            path.append(t)
        i += 1
    return [(tuple(path), None)]


def find_seq(toks, pat, lo, hi):
    """all start indexes where the token texts `pat` occur in toks[lo:hi]"""
    n = len(pat)
    return [i for i in range(lo, hi - n + 1) if all(toks[i + k].t == pat[k] for k in range(n))]
