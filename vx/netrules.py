"""Rewrites used only for socket.rs and server.rs (tokio, Arc, std::sync).

The tasks of these files share state through Arc/Mutex/atomics/channels.  The verified text keeps the same statements;
shared handles become exclusive borrows of stand-in objects (contracts/net.vrs) whose contracts say what any other task may
have done in between, so a task is verified against every schedule at its lock, channel and atomic operations.
"""
import re
from rustlex import *

CTX = {"refs": set(), "owned": set()}
SHARED = {"UdpSocket", "RwLock", "Mutex", "Notify", "Sender", "Semaphore", "Receiver", "Arc"}


def arc(src, toks, lo, hi, edits):
    """Arc<T> -> T, Arc::new(x) -> (x)"""
    n = 0
    for i in range(lo, hi):
        if toks[i].t != "Arc" or toks[i].k != "id":
            continue
        if toks[i + 1].t == "<":
            d, j = 0, i + 1
            while True:
                d += (toks[j].t == "<") - (toks[j].t == ">")
                if d == 0:
                    break
                j += 1
            edits.append((toks[i].s, toks[i + 1].e, ""))
            edits.append((toks[j].s, toks[j].e, ""))
            n += 1
        elif toks[i + 1].t == "::" and toks[i + 2].t == "new":
            edits.append((toks[i].s, toks[i + 2].e, ""))
            n += 1
        elif toks[i + 1].t == "::" and toks[i + 2].t == "strong_count":
            edits.append((toks[i].s, toks[i + 1].e, ""))
            n += 1
    return n


def share_refs(src, toks, lo, hi, edits):
    """&T -> &mut T for the stand-ins of shared objects, &self -> &mut self; &name -> &mut *name / &mut name for such names"""
    n = 0
    for i in range(lo, hi):
        if toks[i].t != "&":
            continue
        nx = toks[i + 1]
        if nx.t in SHARED and toks[i - 1].t in (":", "<", "(", ","):
            edits.append((toks[i].e, toks[i].e, "mut "))
            n += 1
        elif nx.t == "self" and toks[i - 1].t == "(" and toks[i + 2].t in (",", ")"):
            edits.append((toks[i].e, toks[i].e, "mut "))
            n += 1
        elif nx.k == "id" and toks[i - 1].t in ("(", ",", "=") and toks[i + 2].t in (",", ")", ";"):
            if nx.t in CTX["refs"]:
                edits.append((toks[i].e, toks[i].e, "mut *"))
                n += 1
            elif nx.t in CTX["owned"]:
                edits.append((toks[i].e, toks[i].e, "mut "))
                n += 1
    return n


def let_mut(src, toks, lo, hi, edits):
    """let x -> let mut x (the stand-ins record what is done to them)"""
    n = 0
    for i in range(lo, hi):
        if toks[i].t == "let" and toks[i + 1].k == "id" and toks[i + 1].t not in ("mut", "ref", "_", "Ok", "Err", "Some") and toks[i + 2].t in ("=", ":", ";"):
            edits.append((toks[i].e, toks[i].e, " mut"))
            n += 1
        if toks[i].t == "Some" and toks[i + 1].t == "(" and toks[i + 2].k == "id" and toks[i + 3].t == ")" and toks[i + 4].t == "=>":
            p = toks[i + 2].t
            if any(toks[j].t == p and toks[j + 1].t == "." and toks[j + 2].t in ("lock", "send") for j in range(i + 5, min(i + 25, hi))):
                edits.append((toks[i + 2].s, toks[i + 2].s, "mut "))
                n += 1
    return n


def paths(src, toks, lo, hi, edits):
    """tokio::a::b::X, std::sync::X, std::time::X, rand::x -> X ; tokio::io::Result -> IoResult; std::mem::drop(guard) -> () (the borrow ends)"""
    n = 0
    i = lo
    while i < hi:
        t = toks[i]
        if t.k == "id" and t.t in ("tokio", "std", "rand") and toks[i + 1].t == "::" and toks[i - 1].t != "::":
            j = i
            seg = [t.t]
            while toks[j + 1].t == "::" and toks[j + 2].k == "id":
                j += 2
                seg.append(toks[j].t)
                if seg[-1][0].isupper():
                    break
            if seg[:2] in (["tokio", "select"], ["tokio", "spawn"]):
                i = j + 1
                continue
            s = "::".join(seg)
            new = {"tokio::io::Result": "IoResult", "std::io::Result": "IoResult", "std::mem::drop": "vx_drop", "std::net::UdpSocket": "StdUdpSocket", "std::sync::RwLock": "StdRwLock", "std::sync::Mutex": "StdMutex"}.get(s)
            if new is None and (seg[0] in ("tokio", "rand") or seg[:2] in (["std", "sync"], ["std", "time"])):
                new = seg[-1]
            if new == "vx_drop" and toks[j + 1].t == "(" and toks[j + 2].k == "id" and toks[j + 3].t == ")":
                edits.append((t.s, toks[j + 3].e, "()"))     # a guard given back: its borrow ends
                n += 1
            elif new:
                edits.append((t.s, toks[j].e, new))
                n += 1
            i = j
        i += 1
    return n


def min_(src, toks, lo, hi, edits):
    """x.min(y), x.max(y) -> x.min_(y), x.max_(y) (verified stand-ins, vstd has no contract for Ord::min / Ord::max)"""
    n = 0
    for w in ("min", "max"):
        for i in find_seq(toks, [".", w, "("], lo, hi):
            if toks[i + 3].t != ")":
                edits.append((toks[i + 1].e, toks[i + 1].e, "_"))
                n += 1
    return n


def chain_start(toks, i):
    """first token of the postfix expression that ends just before toks[i] (a `.`)"""
    j = i - 1
    while True:
        if toks[j].t in (")", "]"):
            d = 0
            while True:
                if toks[j].t in CLOSE:
                    d += 1
                elif toks[j].t in OPEN:
                    d -= 1
                    if d == 0:
                        break
                j -= 1
            if toks[j - 1].k != "id" and toks[j - 1].t not in (")", "]"):
                return j
            j -= 1
            continue
        if toks[j - 1].t in (".", "::"):
            j -= 2
            continue
        return j


def result_closures(src, toks, lo, hi, edits):
    """X.unwrap_or_else(|e| B) -> match X { Ok(v) => v, Err(e) => B };  X.map_err(|_| E) -> match X { Ok(v) => Ok(v), Err(_) => Err(E) }"""
    n = 0
    for name, ok, l, r in (("unwrap_or_else", "v_", "", ""), ("map_err", "Ok(v_)", "Err(", ")")):
        for i in find_seq(toks, [".", name, "(", "|"], lo, hi):
            if toks[i + 5].t != "|":
                continue
            c = match_close(toks, i + 2)
            s = chain_start(toks, i)
            edits.append((toks[s].s, toks[s].s, "(match "))
            edits.append((toks[i].s, toks[i + 5].e, f" {{ Ok(v_) => {ok}, Err({toks[i + 4].t}) => {l}"))
            edits.append((toks[c].s, toks[c].e, f"{r} }})"))
            n += 1
    return n


def select(src, toks, lo, hi, edits):
    """tokio::select! { p = e => {..} q = f => {..} } -> if vx_choice() { let p = e.await; .. } else { let q = f.await; .. }"""
    n = 0
    for i in find_seq(toks, ["tokio", "::", "select", "!", "{"], lo, hi):
        c = match_close(toks, i + 4)
        j = i + 5
        br = []
        while j < c:
            p0 = j
            while toks[j].t != "=":
                j = match_close(toks, j) + 1 if toks[j].t in OPEN else j + 1
            eq = j
            while toks[j].t != "=>":
                j = match_close(toks, j) + 1 if toks[j].t in OPEN else j + 1
            ar = j
            if toks[j + 1].t != "{":
                raise LexError("select branch without a block")
            b1 = match_close(toks, j + 1)
            br.append((p0, eq, ar, b1))
            j = b1 + 1
            if toks[j].t == ",":
                edits.append((toks[j].s, toks[j].e, ""))
                j += 1
        edits.append((toks[i].s, toks[i + 4].e, ""))
        for k, (p0, eq, ar, b1) in enumerate(br):
            head = ("" if k == 0 else " else ") + ("if vx_choice() { let " if k < len(br) - 1 else "{ let ")
            edits.append((toks[p0].s, toks[p0].s, head))
            edits.append((toks[ar].s, toks[ar].e, ".await;"))
            edits.append((toks[b1].e, toks[b1].e, " }"))
        edits.append((toks[c].s, toks[c].e, ""))
        n += 1
    return n


def timeouts(src, toks, lo, hi, edits):
    """timeout(d, f).await -> if vx_choice() { Err(Elapsed) } else { Ok(f.await) }"""
    n = 0
    for i in range(lo, hi):
        if toks[i].t != "timeout" or toks[i + 1].t != "(":
            continue
        c = match_close(toks, i + 1)
        if toks[c + 1].t != "." or toks[c + 2].t != "await":
            continue
        j = i + 2
        while toks[j].t != ",":
            j = match_close(toks, j) + 1 if toks[j].t in OPEN else j + 1
        s = i
        while toks[s - 1].t == "::":
            s -= 2
        edits.append((toks[s].s, toks[j].e, "(if vx_choice() { Err(Elapsed) } else { Ok("))
        e = c - 1 if toks[c - 1].t == "," else c
        edits.append((toks[e].s, toks[c + 2].e, ".await) })"))
        n += 1
    return n


def map_local_index(src, toks, lo, hi, edits):
    """m[&k] on a locked HashMap -> (*hm_index_mut(&mut *m, &k))"""
    n = 0
    for i in range(lo + 1, hi):
        if toks[i].t == "[" and toks[i + 1].t == "&" and toks[i - 1].k == "id" and toks[i - 2].t != "." and toks[i + 3].t == "]":
            edits.append((toks[i - 1].s, toks[i - 1].s, "(*hm_index_mut(&mut *"))
            edits.append((toks[i].s, toks[i].e, ", "))
            edits.append((toks[i + 3].s, toks[i + 3].e, "))"))
            n += 1
    return n


def spawn_drop(src, toks, lo, hi, edits):
    """tokio::spawn(async move {..}); -> nothing: the task's body is verified on its own (lift)"""
    n = 0
    for i in find_seq(toks, ["tokio", "::", "spawn", "("], lo, hi):
        c = match_close(toks, i + 3)
        e = c + 1 if toks[c + 1].t == ";" else c
        edits.append((toks[i].s, toks[e].e, ""))
        n += 1
    return n


def share_clone(src, toks, lo, hi, edits):
    """self.F.clone() of a channel sender -> &mut self.F (the same channel: what is sent is recorded there)"""
    n = 0
    for i in find_seq(toks, [".", "clone", "(", ")"], lo, hi):
        if toks[i - 1].k == "id" and toks[i - 2].t == "." and toks[i - 3].t == "self" and re.search(r"\b%s\s*:\s*Sender\s*<" % toks[i - 1].t, src):
            edits.append((toks[i - 3].s, toks[i - 3].s, "&mut "))
            edits.append((toks[i].s, toks[i + 3].e, ""))
            n += 1
    return n


def server_calls(src, toks, lo, hi, edits):
    """.to_string() / .contains( on a slice -> stand-ins with a contract; format!(..) -> any text; for i in M.iter() over a locked map -> over its keys"""
    n = 0
    for i in find_seq(toks, [".", "to_string", "(", ")"], lo, hi):
        edits.append((toks[i + 1].e, toks[i + 1].e, "_"))
        n += 1
    for i in find_seq(toks, [".", "contains", "(", "&"], lo, hi):
        edits.append((toks[i + 1].e, toks[i + 1].e, "_"))
        n += 1
    for i in find_seq(toks, ["format", "!", "("], lo, hi):
        # the text is not specified (its arguments are only read)
        edits.append((toks[i].s, toks[match_close(toks, i + 2)].e, "vx_format()"))
        n += 1
    for i in range(lo, hi):
        # for PAT in M.iter()[.filter(|s| C)] { B } -> over M's keys; with a filter: { let s = &PAT; if C { B } }
        if toks[i].t != "for":
            continue
        q = i + 1
        while q < hi and toks[q].t not in ("in", "{"):
            q = match_close(toks, q) + 1 if toks[q].t == "(" else q + 1
        if toks[q].t != "in" or toks[q + 1].k != "id" or [t.t for t in toks[q + 2:q + 6]] not in ([".", "iter", "(", ")"], [".", "iter_mut", "(", ")"]):
            continue
        b, fil = q + 6, None
        if [t.t for t in toks[b:b + 4]] == [".", "filter", "(", "|"] and toks[b + 4].k == "id" and toks[b + 5].t == "|":
            c = match_close(toks, b + 2)
            fil = (toks[b + 4].t, b + 6, c)
            b = c + 1
        if toks[b].t != "{":
            continue
        one = q == i + 2
        if fil and not one:
            continue
        v, m = src[toks[i + 1].s:toks[q - 1].e], toks[q + 1].t
        edits.append((toks[i + 1].s, toks[q - 1].e, "vx_k"))
        edits.append((toks[q + 1].s, toks[b - 1].e if not fil else toks[q + 5].e, f"hm_keys_vec(&*{m})"))
        t = f" let {'mut ' if one else ''}{v} = (&vx_k, hm_index_mut(&mut *{m}, &vx_k));"
        if fil:
            # the condition moves behind the binding (its own rewrites are not redone: it only reads)
            edits[:] = [x for x in edits if not (toks[q + 6].s <= x[0] and x[1] <= toks[b - 1].e)]
            edits.append((toks[q + 6].s, toks[b - 1].e, ""))
            t += f" let vx_p = {{ let {fil[0]} = &{v}; {src[toks[fil[1]].s:toks[fil[2]].s]} }}; if vx_p {{"
            e = match_close(toks, b)
            edits.append((toks[e].s, toks[e].s, "}"))
        edits.append((toks[b].e, toks[b].e, t))
        n += 1
    return n


def for_continue(src, toks, lo, hi, edits):
    """in a for body: if C { A; continue; } REST -> if C { A; } else { REST }  (Verus has no continue in for loops)"""
    n = 0
    for i in range(lo, hi):
        if toks[i].t != "continue" or toks[i + 1].t != ";" or toks[i + 2].t != "}":
            continue
        c = i + 2
        d, o = 0, c
        while True:
            d += (toks[o].t in CLOSE) - (toks[o].t in OPEN)
            if d == 0:
                break
            o -= 1
        j = o - 1
        while toks[j].t not in ("{", "}", ";"):
            j -= 1
        if toks[j + 1].t != "if" or toks[c + 1].t == "else" or toks[j].t == "}":
            continue
        # the body the if stands in must be that of a for
        b, d = j + 1, 0
        while True:
            b -= 1
            d += (toks[b].t in CLOSE) - (toks[b].t in OPEN)
            if d < 0:
                break
        k = b
        while toks[k].t not in ("for", "loop", "while", ";", "}"):
            k -= 1
        if toks[k].t != "for":
            continue
        e = match_close(toks, b)
        edits.append((toks[i].s, toks[i + 1].e, ""))
        edits.append((toks[c].e, toks[c].e, " else {"))
        edits.append((toks[e].s, toks[e].s, "}"))
        n += 1
    return n


def norm_expr(ts):
    s = " ".join(ts)
    s = re.sub(r"^(?:Arc|std :: sync :: Arc) :: clone \( & (.*) \)$", r"\1", s)
    s = re.sub(r" \. clone \( \)$", "", s)
    return s


def bindings(toks, lo, hi):
    """let name = expr; at depth 0 of a token range"""
    out, i = {}, lo
    while i < hi:
        if toks[i].t == "let":
            j = i + 1
            if toks[j].t == "mut":
                j += 1
            name = toks[j].t
            k = j + 1
            while k < hi and toks[k].t not in ("=", ";"):
                k += 1
            e = k
            while e < hi and toks[e].t != ";":
                e = match_close(toks, e) + 1 if toks[e].t in OPEN else e + 1
            out[name] = norm_expr([t.t for t in toks[k + 1:e]])
            i = e
        elif toks[i].t in OPEN:
            i = match_close(toks, i)
        i += 1
    return out


def clones(toks, lo, hi):
    """let NAME = self.FIELD(..).clone(); at depth 0"""
    for i in range(lo, hi):
        if toks[i].t == "let" and toks[i + 1].k == "id" and toks[i + 2].t == "=" and toks[i + 3].t == "self" and toks[i + 4].t == ".":
            j = i + 3
            while toks[j].t != ";":
                j = match_close(toks, j) + 1 if toks[j].t in OPEN else j + 1
            if [t.t for t in toks[j - 4:j]] == [".", "clone", "(", ")"]:
                yield toks[i + 1].t, i


def lift(g, mod, src, toks, f, rules):
    """the task spawned by f: its loop body as F__step, what follows the loop as F__end, a loop-less task as F__task"""
    q = f.qual
    chunks = []
    sp = find_seq(toks, ["tokio", "::", "spawn", "(", "async", "move", "{"], f.i_body, f.i_end)
    want = [k for k in (q + "__step", q + "__end", q + "__task") if (mod, k) in g.ov.fns]
    if len(sp) != 1:
        for k in want:
            g.lose(mod, k, f"{q} does not spawn exactly one task")
    else:
        b0 = sp[0] + 6
        b1 = match_close(toks, b0)
        loops = [l for l in f.loops if b0 < l.kw < b1]
        top = [l for l in loops if not any(o.brace < l.kw < o.close for o in loops)]
        main = [l for l in top if l.kind == "loop"]
        env = bindings(toks, f.i_body + 1, sp[0])
        if len(main) == 1:
            env.update(bindings(toks, b0 + 1, main[0].kw))
        for k in want:
            ov = g.ov.fns[(mod, k)]
            blk = dict(ov["blocks"])
            bad = None
            for line in blk.get("wiring", "").strip().splitlines():
                name, _, ex = line.partition(" = ")
                e2 = norm_expr([t.t for t in lex(ex)])
                if env.get(name.strip()) not in [norm_expr([t.t for t in lex(x)]) for x in ex.split(" | ")]:
                    bad = f"task of {q} captures {name.strip()} = {env.get(name.strip())}, expected {e2}"
            if bad:
                g.lose(mod, k, bad)
                continue
            extra = []
            if k.endswith("__task"):
                if main:
                    g.lose(mod, k, "the task has a loop now")
                    continue
                body = (b0, b1)
            elif len(main) != 1:
                g.lose(mod, k, "the task does not consist of one loop")
                continue
            else:
                L = main[0]
                if k.endswith("__step"):
                    body = (L.brace, L.close)
                    inner = [l for l in loops if L.brace < l.kw < L.close]
                    for i in range(L.brace + 1, L.close):
                        if toks[i].t == "return" and toks[i + 1].t == ";" and toks[i].k == "id":
                            # the task ends; where nothing under contract follows the loop, that is what break does
                            extra.append((toks[i].s, toks[i].e, "return Flow::" + ("Return" if (mod, q + "__end") in g.ov.fns else "Break")))
                        if toks[i].t in ("break", "continue") and not any(l.brace < i < l.close for l in inner):
                            extra.append((toks[i].s, toks[i].e, "return Flow::" + toks[i].t.capitalize()))
                    extra.append((toks[L.close].s, toks[L.close].s, "\nFlow::Continue\n"))
                else:
                    body = (L.close, b1)
            g.rewrites["lift_task"] = g.rewrites.get("lift_task", 0) + 1
            chunks.append(g.fn_text(mod, src, toks, f, k, rules, sig=blk["sig"], body=body,
                                    loops=[l for l in loops if body[0] < l.kw < body[1]], extra=extra))
    chunks.append(g.fn_text(mod, src, toks, f, q, [spawn_drop] + list(rules), loops=[l for l in f.loops if not any(s < l.kw < match_close(toks, s + 3) for s in sp)]))
    return chunks
