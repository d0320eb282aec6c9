"""Mechanical extraction: /repo/src/*.rs + /verif/contracts/*.vrs  ->  one Verus crate.

What happens to the source text (everything else is copied character for character):
  E1  test items and items under #[cfg(test)]/#[cfg(raknet_verif)] are dropped
  E2  `use` declarations are flattened; those of crates/traits the contract files replace are dropped
  E3  visibility is widened to `pub` on fields and functions (spec functions must see the fields)
  E4  attributes other than #[verifier..] are dropped (derive(Clone)/derive(PartialEq) become
      explicit impls with the contract "a clone equals its original" / "== is equality")
  E5  contract clauses, loop invariants and proof blocks are inserted (ghost code, erased by Verus)
  E6  the named rewrites below, each a token pattern with a fixed replacement
Every applied rewrite is counted and reported in the evidence.
"""
import os, re, sys, json, hashlib
from rustlex import *


class Overlay:
    """contract file: sections introduced by @@ / @@@ lines"""

    def __init__(self):
        self.modules = {}
        self.fns = {}      # (module, qual) -> dict
        self.files = []

    def load(self, path):
        self.files.append(path)
        mod, cur, key, buf = None, None, None, []
        lineno = 0

        def flush():
            if cur is not None and key is not None:
                txt = "\n".join(buf).strip("\n")
                if key[0] == "blk":
                    cur["blocks"].append((key[1], txt))
                else:
                    cur[key[1]] = (cur.get(key[1], "") + "\n" + txt).strip("\n")

        for line in open(path):
            lineno += 1
            line = line.rstrip("\n")
            if line.startswith("@@@ "):
                flush()
                buf = []
                key = ("blk", line[4:].strip())
            elif line.startswith("@@ "):
                flush()
                buf = []
                w = line[3:].split()
                if w[0] == "module":
                    mod = w[1]
                    cur = self.modules.setdefault(mod, {"top": "", "opts": [], "blocks": []})
                    cur["opts"] += w[2:]
                    key = None
                elif w[0] == "top":
                    cur = self.modules[mod]
                    key = ("txt", "top")
                elif w[0] == "fn":
                    cur = {"blocks": [], "spec": "", "opts": {}, "file": path, "line": lineno}
                    for o in w[2:]:
                        k, _, v = o.partition("=")
                        cur["opts"][k] = v or True
                    if (mod, w[1]) in self.fns:
                        raise Exception(f"duplicate contract {mod} {w[1]}")
                    self.fns[(mod, w[1])] = cur
                    key = ("txt", "spec")
                else:
                    raise Exception(f"{path}:{lineno}: {line}")
            else:
                buf.append(line)
        flush()


def norm_pat(p):
    return [t.t for t in lex(p)]


class Gen:
    def __init__(self, repo, overlay, external=(), skip_hints=()):
        self.repo, self.ov = repo, overlay
        self.external = set(external)      # (module, qual) forced to external_body this run
        self.lost = {}                     # (module, qual) -> [reasons]
        self.fnmap = []                    # generated functions
        self.rewrites = {}                 # name -> count
        self.new_fns = []                  # functions without any contract entry
        self.seen = set()
        self.dropped = []
        self.discr = set()

    def lose(self, mod, q, why):
        self.lost.setdefault((mod, q), []).append(why)

    # ---- rewriting of a token range -------------------------------------------------
    def apply_rules(self, mod, src, toks, lo, hi, edits, rules):
        for r in rules:
            n = r(src, toks, lo, hi, edits)
            if n:
                name = r.__name__
                self.rewrites[name] = self.rewrites.get(name, 0) + n

    def module(self, mod, fname, rules, drop_items=(), drop_fns=(), lift=None):
        src = open(os.path.join(self.repo, "src", fname)).read()
        toks = lex(src)
        items = parse_items(src, toks, 0, len(toks))
        ovm = self.ov.modules.get(mod, {"top": "", "opts": []})
        out = [f"pub mod {mod} {{", "use vstd::prelude::*;", ""]
        out.append(ovm.get("top", ""))
        macros = []
        lines_before = None
        drop_use = [o[9:] for o in ovm["opts"] if o.startswith("drop-use=")]
        chunks = []
        for it in items:
            if any(is_test_attr(a) for a in it.attrs) or any("raknet_verif" in a.replace(" ", "") for a in it.attrs):
                continue
            if it.kind == "use":
                leaves = use_leaves(toks, [k for k in range(it.i0, it.i1) if toks[k].t == "use"][0] + 1, it.i1 - 1)
                for path, alias in leaves:
                    p = "::".join(path)
                    if any(p == d or p.startswith(d + "::") or (d.endswith("*") and p.startswith(d[:-1])) for d in drop_use):
                        continue
                    chunks.append(("txt", f"use {p}" + (f" as {alias}" if alias else "") + ";"))
                continue
            if it.name in drop_items:
                self.dropped.append(f"{mod}::{it.name}")
                continue
            if it.kind == "macro":
                macros.append(src[toks[it.i0].s:toks[it.i1 - 1].e])
                continue
            if it.kind in ("struct", "enum"):
                chunks.append(("txt", self.adt(mod, src, toks, it, [r for r in rules if r.__name__ in ("arc", "paths")])))
                continue
            if it.kind == "impl":
                if it.of_trait == "Drop" and (mod, f"{it.name}::drop") in self.ov.fns:
                    # fn drop of impl Drop, as a function of its own
                    subs = [x for x in parse_items(src, toks, it.body[0] + 1, it.body[1], owner=it.name) if x.kind == "fn" and x.fns[0].qual == f"{it.name}::drop"]
                    chunks.append(("txt", f"impl {it.name} {{"))
                    for x in subs:
                        chunks.append(self.fn_text(mod, src, toks, x.fns[0], f"{it.name}::drop", rules, sig="pub fn drop_(&mut self)"))
                    chunks.append(("txt", "}"))
                    continue
                if it.of_trait and it.of_trait not in ("Default",):
                    self.dropped.append(f"impl {it.of_trait} for {it.name}")
                    continue
                open_i, close_i = it.body
                head = src[toks[it.i_sig].s:toks[open_i].e]
                chunks.append(("txt", head))
                # consts and other non-fn items inside the impl
                for sub in parse_items(src, toks, open_i + 1, close_i, owner=it.name):
                    if any(is_test_attr(a) for a in sub.attrs):
                        continue
                    if sub.kind == "fn":
                        if sub.fns[0].qual in drop_fns:
                            self.dropped.append(f"{mod}::{sub.fns[0].qual}")
                            continue
                        for c in self.fn(mod, src, toks, sub.fns[0], rules, lift):
                            chunks.append(c)
                    else:
                        s = src[toks[sub.i_sig].s:toks[sub.i1 - 1].e]
                        chunks.append(("txt", s if s.startswith("pub") else "pub " + s))
                chunks.append(("txt", "}"))
                continue
            if it.kind == "fn":
                if it.name in drop_fns:
                    self.dropped.append(f"{mod}::{it.name}")
                    continue
                for c in self.fn(mod, src, toks, it.fns[0], rules, lift):
                    chunks.append(c)
                continue
            if it.kind in ("const", "static", "type"):
                s = src[toks[it.i_sig].s:toks[it.i1 - 1].e]
                if it.kind == "const":
                    s = re.sub(r":\s*&\s*str\b", ": &'static str", s)
                chunks.append(("txt", s if s.startswith("pub") else "pub " + s))
                continue
            self.dropped.append(f"{mod}::{it.kind} {it.name}")
        return macros, out, chunks

    # ---- types ------------------------------------------------------------------------
    def adt(self, mod, src, toks, it, type_rules=()):
        edits = []
        for r in type_rules:
            r(src, toks, it.i_sig, it.i1, edits)
        derives = " ".join(a for a in it.attrs if "derive" in a)
        o, c = it.body
        if it.kind == "struct" and toks[o].t == "{":
            i = o + 1
            start = True
            while i < c:
                if start:
                    while toks[i].t == "#":
                        e = match_close(toks, i + 1)
                        edits.append((toks[i].s, toks[e].e, ""))
                        i = e + 1
                    if toks[i].t == "pub":
                        if toks[i + 1].t == "(":
                            e = match_close(toks, i + 1)
                            edits.append((toks[i + 1].s, toks[e].e, ""))
                    else:
                        edits.append((toks[i].s, toks[i].s, "pub "))
                    start = False
                if toks[i].t in OPEN:
                    i = match_close(toks, i)
                if toks[i].t == "<":
                    d = 0
                    while True:
                        d += toks[i].t == "<"
                        d -= toks[i].t == ">"
                        if d == 0:
                            break
                        i += 1
                if toks[i].t == ",":
                    start = True
                i += 1
        if it.kind == "enum":
            i = o + 1
            while i < c:
                if toks[i].t in OPEN:
                    i = match_close(toks, i)
                elif toks[i].t == "=" and toks[i + 1].k != "p":
                    edits.append((toks[i].s, toks[i + 1].e, ""))
                    self.rewrites["drop_discriminant"] = self.rewrites.get("drop_discriminant", 0) + 1
                    self.discr.add(it.name)
                i += 1
        s0 = toks[it.i_sig].s
        text = self.splice(src, s0, toks[it.i1 - 1].e, edits)
        if not text.startswith("pub"):
            text = "pub " + text
        fields = []
        extra = ""
        is_copy = "Copy" in derives
        if "Clone" in derives:
            if is_copy:
                extra += f"\nimpl Copy for {it.name} {{}}"
            if self.ov.modules.get(mod, {}).get("clone-" + it.name):
                pass
            extra += (f"\nimpl Clone for {it.name} {{\n #[verifier::external_body]\n fn clone(&self) -> (r: Self)\n"
                      f"  ensures r == *self,\n {{ unimplemented!() }}\n}}")
            self.rewrites["derive_Clone_contract"] = self.rewrites.get("derive_Clone_contract", 0) + 1
        if "Debug" in derives:
            extra += (f"\n#[verifier::external]\nimpl std::fmt::Debug for {it.name} {{\n fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{ unimplemented!() }}\n}}")
        if "PartialEq" in derives:
            extra += (f"\nimpl PartialEq for {it.name} {{\n #[verifier::external_body]\n fn eq(&self, o: &Self) -> (r: bool)\n"
                      f"  ensures r == (*self == *o),\n {{ unimplemented!() }}\n}}")
            if it.kind == "enum":
                extra += (f"\nimpl vstd::std_specs::cmp::PartialEqSpecImpl for {it.name} {{\n open spec fn obeys_eq_spec() -> bool {{ true }}\n"
                          f" open spec fn eq_spec(&self, o: &Self) -> bool {{ *self == *o }}\n}}")
                extra = extra.replace("\n  ensures r == (*self == *o),", "")
            self.rewrites["derive_PartialEq_contract"] = self.rewrites.get("derive_PartialEq_contract", 0) + 1
        return text + extra

    def splice(self, src, s, e, edits):
        out, pos = [], s
        for a, b, r in sorted(edits, key=lambda x: (x[0], x[1])):
            if a < s or b > e:
                continue
            if a < pos:
                raise LexError(f"overlapping edits at {a}")
            out.append(src[pos:a])
            out.append(r)
            pos = b
        out.append(src[pos:e])
        return "".join(out)

    # ---- functions --------------------------------------------------------------------
    def fn(self, mod, src, toks, f, rules, lift=None):
        q = f.qual
        if lift and q in lift:
            return lift[q](self, mod, src, toks, f, rules)
        return [self.fn_text(mod, src, toks, f, q, rules)]

    def fn_text(self, mod, src, toks, f, q, rules, sig=None, body=None, loops=None, extra=()):
        """sig: replacement signature text (lifted functions); body: (open,close) token indexes"""
        ov = self.ov.fns.get((mod, q))
        self.seen.add((mod, q))
        edits = []
        bo, bc = body if body else (f.i_body, f.i_end)
        loops = loops if loops is not None else [l for l in f.loops if bo < l.kw < bc]
        s0, e0 = toks[f.i_sig].s, toks[f.i_body].s
        origin = (src[:toks[bo].s].count("\n") + 1, src[:toks[bc].s].count("\n") + 1)
        sha = hashlib.sha256(" ".join(t.t for t in toks[f.i_sig:f.i_end + 1]).encode()).hexdigest()[:16]
        attr = ""
        mode = "verify"
        if ov is None:
            self.new_fns.append((mod, q))
            ov = {"blocks": [], "spec": "", "opts": {}}
            mode = "nocontract"
        if ov["opts"].get("mode") == "external_body":
            mode = "assumed"
        if (mod, q) in self.external:
            mode = "fallback" if mode == "verify" else mode
            if mode == "nocontract":
                mode = "fallback-nocontract"
        if mode in ("assumed", "fallback", "fallback-nocontract"):
            attr = "#[verifier::external_body]\n"
        # signature
        if sig is None:
            sedits = []
            for r in rules:
                r(src, toks, f.i_sig, f.i_body, sedits)
            if f.i_arrow is not None:
                rt_s, rt_e = toks[f.i_arrow + 1].s, toks[f.i_body - 1].e
                rname = ov["opts"].get("ret", "vx_ret" if mode in ("nocontract", "fallback-nocontract") else "r")
                inner = [x for x in sedits if rt_s <= x[0] and x[1] <= rt_e]
                sedits = [x for x in sedits if x not in inner]
                sedits.append((rt_s, rt_e, f"({rname}: {self.splice(src, rt_s, rt_e, inner)})"))
            sigt = self.splice(src, s0, e0, sedits)
            if f.i_arrow is None and "ret" in ov["opts"]:
                sigt = f"{sigt.rstrip()} -> ({ov['opts']['ret']}: ())"    # Verus wants it on an async function with a contract
            # widen visibility
            if sigt.startswith("pub"):
                sigt = re.sub(r"^pub\s*\([^)]*\)", "pub", sigt)
            else:
                sigt = "pub " + sigt
        else:
            sigt = sig
        spec = ov["spec"]
        if mode == "fallback" and ov["opts"].get("nospec_on_fallback"):
            spec = ""
        head = f"{attr}{ov['opts'].get('attr', '')}\n{sigt.rstrip()}\n{spec}\n"
        if mode in ("assumed", "fallback", "fallback-nocontract"):
            text = head + "{ unimplemented!() }"
        else:
            # original loops/hints
            expect = [b[0].split() for b in ov["blocks"]]
            for name, txt in ov["blocks"]:
                w = name.split(None, 1)
                if w[0] in ("sig", "wiring"):
                    continue
                if w[0] == "start":
                    edits.append((toks[bo].e, toks[bo].e, "\n" + txt + "\n"))
                elif w[0] == "end":
                    edits.append((toks[bc].s, toks[bc].s, "\n" + txt + "\n"))
                elif w[0] == "loops":
                    kinds = w[1].split() if len(w) > 1 else []
                    if [l.kind for l in loops] != kinds:
                        self.lose(mod, q, f"loop structure changed: expected {kinds}, found {[l.kind for l in loops]}")
                elif w[0] == "loop":
                    k, where = w[1].split(None, 1)
                    k = int(k)
                    if k >= len(loops):
                        self.lose(mod, q, f"loop {k} not found")
                        continue
                    L = loops[k]
                    if where == "inv":
                        edits.append((toks[L.brace].s, toks[L.brace].s, "\n" + txt + "\n"))
                    elif where.startswith("bind "):
                        # for pat in ghost-iterator name: `for i in it: expr`
                        j = L.kw
                        while toks[j].t != "in":
                            j += 1
                        edits.append((toks[j].e, toks[j].e, " " + where[5:] + ":"))
                    elif where == "body-start":
                        edits.append((toks[L.brace].e, toks[L.brace].e, "\n" + txt + "\n"))
                    elif where == "body-end":
                        edits.append((toks[L.close].s, toks[L.close].s, "\n" + txt + "\n"))
                    elif where == "before":
                        s = self.stmt_start(toks, L.kw, bo)
                        edits.append((toks[s].s, toks[s].s, "\n" + txt + "\n"))
                    elif where == "after":
                        edits.append((toks[L.close].e, toks[L.close].e, "\n" + txt + "\n"))
                    elif where == "iter-attr":
                        edits.append((toks[L.kw].s, toks[L.kw].s, txt + "\n"))
                    else:
                        raise Exception(f"{q}: {name}")
                elif w[0] in ("before", "after", "inside", "replace"):
                    m = re.match(r"`(.*)`(?:#(\d+))?$", w[1])
                    pat = norm_pat(m.group(1))
                    occ = find_seq(toks, pat, bo + 1, bc)
                    k = int(m.group(2) or 0)
                    if k >= len(occ):
                        self.lose(mod, q, f"hint anchor `{m.group(1)}` not found")
                        continue
                    if w[0] == "before":
                        s = self.stmt_start(toks, occ[k], bo)
                        edits.append((toks[s].s, toks[s].s, "\n" + txt + "\n"))
                    elif w[0] == "inside":
                        e = toks[occ[k] + len(pat) - 1].e
                        edits.append((e, e, "\n" + txt + "\n"))
                    elif w[0] == "after":
                        e = self.stmt_end(toks, occ[k] + len(pat) - 1, bc)
                        edits.append((e, e, "\n" + txt + "\n"))
                else:
                    raise Exception(f"{q}: bad block {name}")
            if any(l for l in loops) and not any(b[0].startswith("loop") for b in ov["blocks"]) and mode == "verify":
                self.lose(mod, q, "loops without invariants")
            for k in range(bo, bc):
                if toks[k].t == "as" and (toks[k - 1].t == "self" and q.split("::")[0] in self.discr
                                          or toks[k - 2].t == "::" and toks[k - 3].t in self.discr):
                    self.lose(mod, q, "cast of an enum whose discriminants the extraction drops")
            edits += list(extra)
            if "netrules" in sys.modules:
                ctx = sys.modules["netrules"].CTX
                ctx["refs"] = set(re.findall(r"(\w+)\s*:\s*&\s*mut\b", sigt))
                ctx["owned"] = {"s"} if find_seq(toks, ["UdpSocket", "::", "bind"], bo, bc) else set()
                ctx["owned"] |= {n for n, e in sys.modules["netrules"].clones(toks, bo + 1, bc)}
            self.apply_rules(mod, src, toks, bo, bc, edits, rules)
            # merge zero-width edits at equal positions in order; drop edits inside replaced ranges
            edits = self.resolve(edits)
            edits.insert(0, (toks[bo].e, toks[bo].e, " /*body*/"))
            text = head + "{" + self.splice(src, toks[bo].e, toks[bc].e, edits)
        self.fnmap.append({"module": mod, "fn": q, "mode": mode, "file": None, "lines": origin, "sha": sha,
                           "calls": sorted({toks[k].t for k in range(bo, bc) if toks[k].k == "id" and toks[k + 1].t == "("})})
        return ("fn", text, len(self.fnmap) - 1)

    def resolve(self, edits):
        rep = [e for e in edits if e[1] > e[0]]
        out = []
        for e in edits:
            if e[1] == e[0] and any(r[0] < e[0] < r[1] for r in rep):
                continue
            if e[1] > e[0] and any(r is not e and r[0] <= e[0] and e[1] <= r[1] and (r[0], r[1]) != (e[0], e[1]) for r in rep):
                continue
            out.append(e)
        seen, res = set(), []
        for e in out:
            if e[1] > e[0]:
                if (e[0], e[1]) in seen:
                    continue
                seen.add((e[0], e[1]))
            res.append(e)
        return res

    def stmt_start(self, toks, i, lo):
        d = 0
        j = i - 1
        while j > lo:
            t = toks[j]
            if t.k == "p":
                if t.t in CLOSE:
                    if t.t == "}" and d == 0 and toks[j + 1].t not in (".", "?", ")", ",", ";") and toks[j + 1].t != "else":
                        return j + 1
                    d += 1
                elif t.t in OPEN:
                    if d == 0:
                        if t.t == "{":
                            return j + 1
                    else:
                        d -= 1
                elif t.t in (";", "=>") and d == 0:
                    return j + 1
            j -= 1
        return lo + 1

    def stmt_end(self, toks, i, hi):
        d = 0
        j = i
        # skip brackets already opened inside the pattern's last token
        while j < hi:
            t = toks[j]
            if t.k == "p":
                if t.t in OPEN:
                    d += 1
                elif t.t in CLOSE:
                    if d > 0:
                        d -= 1
                        if d == 0 and t.t == "}" and toks[j + 1].t not in (".", "?", ";", "else", ")", ","):
                            return t.e
                    else:
                        if t.t == "}":
                            return t.s
                elif t.t == ";" and d == 0:
                    return t.e
            j += 1
        return toks[hi].s


# ---------------------------------------------------------------------------------------
# E6: the named rewrites.  Each: (src, toks, lo, hi, edits) -> number applied

def drop_log_macros(src, toks, lo, hi, edits):
    """raknet_log_{debug,info,error}!(..) prints only when logging is enabled: dropped"""
    n = 0
    i = lo
    while i < hi:
        if toks[i].k == "id" and toks[i].t.startswith("raknet_log_") and toks[i + 1].t == "!":
            c = match_close(toks, i + 2)
            e = c
            if toks[c + 1].t == ";":
                e = c + 1
                edits.append((toks[i].s, toks[e].e, ""))
            else:
                edits.append((toks[i].s, toks[e].e, "()"))
            n += 1
            i = e
        i += 1
    return n


def keys_cloned_collect(src, toks, lo, hi, edits):
    """M.keys().cloned().collect()  ->  hm_keys_vec(&M)   (HashMap iteration, assumed contract)"""
    pat = [".", "keys", "(", ")", ".", "cloned", "(", ")", ".", "collect", "(", ")"]
    pat2 = [".", "keys", "(", ")", ".", "copied", "(", ")", ".", "collect", "(", ")"]
    n = 0
    for p in (pat, pat2):
        for i in find_seq(toks, p, lo, hi):
            j = i
            while toks[j - 1].k == "id" and (toks[j - 2].t == "." or True):
                j -= 1
                if toks[j - 1].t != ".":
                    break
                j -= 1
            edits.append((toks[j].s, toks[j].s, "hm_keys_vec(&"))
            edits.append((toks[i].s, toks[i + len(p) - 1].e, ")"))
            n += 1
    return n


def closure_underscore(src, toks, lo, hi, edits):
    """|_| e  ->  |_e| e   (Verus wants a variable pattern)"""
    n = 0
    for i in find_seq(toks, ["|", "_", "|"], lo, hi):
        edits.append((toks[i + 1].s, toks[i + 1].e, "_e"))
        n += 1
    return n


def int_bytes(src, toks, lo, hi, edits):
    """x.to_be_bytes() / u32::from_be_bytes(..) (and _le_, u16, u64) -> the trait methods IntBytes::.._"""
    n = 0
    for i in range(lo, hi):
        t = toks[i]
        if t.k == "id" and t.t in ("to_be_bytes", "to_le_bytes", "from_be_bytes", "from_le_bytes") and toks[i + 1].t == "(":
            edits.append((t.e, t.e, "_"))
            n += 1
    return n


def hm_index(src, toks, lo, hi, edits):
    """X.f[E] where f is declared as a HashMap in this file (and, if also as a Vec elsewhere, E starts with &)  ->  (*hm_index(&X.f, E))"""
    maps = set(re.findall(r"(\w+)\s*:\s*(?:std::collections::)?HashMap\s*<", src))
    vecs = set(re.findall(r"(\w+)\s*:\s*Vec\s*<", src))
    n = 0
    for i in range(lo + 1, hi):
        if toks[i].t == "[" and (toks[i + 1].t == "&" or toks[i - 1].t not in vecs) and toks[i - 1].k == "id" and toks[i - 1].t in maps and toks[i - 2].t == ".":
            j = i - 1
            while toks[j - 1].t == ".":
                j -= 2
                if toks[j].t in (")", "]"):
                    break
            if toks[j].k != "id":
                continue
            c = match_close(toks, i)
            edits.append((toks[j].s, toks[j].s, "(*hm_index(&"))
            edits.append((toks[i].s, toks[i].e, ", "))
            edits.append((toks[c].s, toks[c].e, "))"))
            n += 1
    return n


def hm_get_mut(src, toks, lo, hi, edits):
    """m.get_mut(k) on a HashMap field or local -> m.get_mut_(k)  (shim with an assumed contract)"""
    n = 0
    for i in find_seq(toks, [".", "get_mut", "("], lo, hi):
        edits.append((toks[i + 1].e, toks[i + 1].e, "_"))
        n += 1
    return n


def sort_by(src, toks, lo, hi, edits):
    """V.sort_by(|x, y| x.P.cmp(&y.P)) or V.sort_by_key(|x| x.P)  ->  vx_sort_by_key(&mut V, key P)   (assumed contract)"""
    n = 0
    for i in range(lo + 1, hi):
        if toks[i].t not in ("sort_by", "sort_unstable_by", "sort_by_key", "sort_unstable_by_key") or toks[i - 1].t != "." or toks[i + 1].t != "(":
            continue
        c = match_close(toks, i + 1)
        a = [t.t for t in toks[i + 2:c]]
        if toks[i].t.endswith("_key"):
            if len(a) < 5 or a[0] != "|" or a[2] != "|" or a[3] != a[1]:
                continue
            path = a[4:]
        else:
            if len(a) < 9 or a[0] != "|" or a[2] != "," or a[4] != "|" or a[5] != a[1] or "cmp" not in a:
                continue
            k = a.index("cmp")
            path = a[6:k - 1]
            if a[k + 1:] != ["(", "&", a[3]] + path + [")"]:
                continue
        j = i - 1
        while toks[j].t == "." and toks[j - 1].k == "id":
            j -= 2
        ty = ""
        for k in find_seq(toks, [toks[i - 2].t, ":", "Vec", "<"], 0, len(toks)):
            d, e = 0, k + 3
            while True:
                d += (toks[e].t == "<") - (toks[e].t == ">") - 2 * (toks[e].t == ">>")
                if d <= 0:
                    break
                e += 1
            ty = ": " + src[toks[k + 4].s:toks[e].s] + (">" if d < 0 else "")
        edits.append((toks[j + 1].s, toks[j + 1].s, "let ghost vx_key = |x_" + ty + "| x_" + "".join(path) + " as int; vx_sort_by_key(&mut "))
        edits.append((toks[i - 1].s, toks[c].e, ", Ghost(vx_key))"))
        n += 1
    return n


def f64_casts(src, toks, lo, hi, edits):
    """(X as f64 * LIT) as i64, (LIT * X as f64) as i64 -> vx_f64_scale(X, LIT); other f64 expression cast to i64 -> vx_f64_any()"""
    n = 0
    for i in range(lo, hi):
        if toks[i].t != "(" or (toks[i - 1].k == "id" and toks[i - 1].t not in ("return", "in", "if", "match", "else")):
            continue
        c = match_close(toks, i)
        if not (toks[c + 1].t == "as" and toks[c + 2].t == "i64"):
            continue
        a = [t.t for t in toks[i + 1:c]]
        if "f64" not in a:
            continue
        lit = x = None
        if a[-2:-1] == ["*"] and a[-4:-2] == ["as", "f64"]:
            lit, x = a[-1], a[:-4]
        elif a[1:2] == ["*"] and a[-2:] == ["as", "f64"]:
            lit, x = a[0], a[2:-2]
        m = re.fullmatch(r"(\d+)(?:\.(\d+))?(?:_?f64)?", lit) if lit else None
        if m and all(re.fullmatch(r"\w+|\.", t) for t in x):
            fr = m.group(2) or ""
            num, den = int(m.group(1) + fr), 10 ** len(fr)
            r = f"vx_f64_scale({''.join(x)}, Ghost({num}), Ghost({den}))"
        else:
            r = "vx_f64_any()"
        edits.append((toks[i].s, toks[c + 2].e, r))
        n += 1
    return n


def clamp(src, toks, lo, hi, edits):
    """x.clamp(a, b) -> x.clamp_(a, b)  (vstd has no contract for Ord::clamp; clamp_ is verified)"""
    n = 0
    for i in find_seq(toks, [".", "clamp", "("], lo, hi):
        edits.append((toks[i + 1].e, toks[i + 1].e, "_"))
        n += 1
    return n


def build(repo, overlay, plan, external=()):
    g = Gen(repo, overlay, external)
    parts, macros_all = [], []
    for m in plan:
        macros, out, chunks = g.module(m["mod"], m["file"], m["rules"], m.get("drop_items", ()), m.get("drop_fns", ()), m.get("lift"))
        macros_all += macros
        parts.append((out, chunks))
    for k in overlay.fns:
        if k not in g.seen and any(m["mod"] == k[0] for m in plan):
            g.lose(k[0], k[1], "function under contract not found in the source")
    text = ["// generated by /verif/vx from /repo/src: do not edit", "#![feature(allocator_api)]", "#![allow(unused, dead_code, non_snake_case, non_camel_case_types, unreachable_code)]",
            "use vstd::prelude::*;"]
    text += macros_all
    text.append("verus! {")
    text.append("broadcast use vstd::std_specs::hash::group_hash_axioms;" if False else "")
    text.append(overlay.modules.get("root", {"top": ""})["top"])
    cur = "\n".join(text).count("\n") + 1
    buf = "\n".join(text) + "\n"
    line = buf.count("\n") + 1
    for out, chunks in parts:
        s = "\n".join(out) + "\n"
        buf += s
        line += s.count("\n")
        for c in chunks:
            s = c[1] + "\n"
            if c[0] == "fn":
                g.fnmap[c[2]]["gen"] = (line, line + s.count("\n") - 1)
            buf += s
            line += s.count("\n")
        buf += "}\n"
        line += 1
    buf += "} // verus!\nfn main() {}\n"
    return g, buf
