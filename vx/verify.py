"""Extraction + Verus, with per-function verdicts.

verify(repo, outdir) builds the verified crate from the current source and runs Verus on all of it.
A function that cannot be brought to the verifier on this tree (an annotation finds no place in the changed text,
a construct Verus does not accept, a changed signature) is given `external_body` (its contract is then assumed for its
callers) and reported under `fallback`: the bounded engine decides it on that run.
"""
import threading, glob, json, os, re, subprocess, time
from gen import Overlay, build
from rustlex import LexError
from plan import PLAN

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def overlay():
    ov = Overlay()
    for f in sorted(glob.glob(os.path.join(ROOT, "contracts", "*.vrs"))):
        ov.load(f)
    return ov


def run_verus(path, outdir, extra=(), timeout=600):
    cmd = ["verus", path, "--crate-name", "vx", "--output-json", "--time-expanded", "--multiple-errors", "10", "--error-format=json", *extra]
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=outdir, timeout=timeout)
        so, se = p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        dec = lambda x: x.decode(errors="replace") if isinstance(x, bytes) else (x or "")
        return cmd, {}, [], dec(e.stdout), dec(e.stderr) + "\nTIMEOUT", time.time() - t
    try:
        js = json.loads(so)
    except ValueError:
        js = {}
    diags = []
    for l in se.splitlines():
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error" and not d.get("message", "").startswith("aborting due to"):
                diags.append(d)
    return cmd, js, diags, so, se, time.time() - t


PROOF = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed", "possible arithmetic",
         "possible division", "decreases not satisfied", "possible bit shift", "recommendation not met", "unable to prove", "loop must have a decreases",
         "possible", "cannot show", "could not prove", "constructed value may fail", "assert_by_contradiction", "failed this", "unreachable")
UNKNOWN = ("resource limit", "rlimit", "timed out", "timeout", "solver")


class Result:
    def __init__(self):
        self.ok = False              # the verifier ran to a verdict
        self.why = ""                # if not, why
        self.failed = {}             # "module::fn" -> [(message, source text)]  definite failed obligations
        self.unknown = {}            # resource limits
        self.fallback = {}           # "module::fn" -> reason: not verified on this tree
        self.items = []              # (name, mode, ms, success)
        self.fnmap = []
        self.new_fns = []
        self.rewrites = {}
        self.dropped = []
        self.trusted = []
        self.cmd = ""
        self.raw = ""
        self.wall = 0.0
        self.smt_ms = 0
        self.rounds = 0
        self.retried = []
        self.why_net = ""


def item_name(n):
    """Verus item name -> module::fn (impl paths shortened)"""
    n = re.sub(r"^vx::", "", n)
    return n


def trusted_base(text):
    out = []
    for m in re.finditer(r"assume_specification(?:<[^\[]*>)?\s*\[\s*([^\]]*(?:\[[^\]]*\][^\]]*)*)\]\s*\(", text):
        out.append("assumed contract: " + re.sub(r"\s+", " ", m.group(1)))
    for m in re.finditer(r"axiom fn (\w+)", text):
        out.append("axiom: " + m.group(1))
    lines = text.splitlines()
    cur = ""
    for i, l in enumerate(lines):
        m = re.match(r"\s*(?:impl|pub trait)\b(.*?)\{?\s*$", l)
        if m and not l.strip().startswith("impl Copy"):
            cur = re.sub(r"^\s*<[^>]*>\s*", "", m.group(1)).strip()
        if "external_body" in l:
            for j in range(i, min(i + 6, len(lines))):
                m = re.search(r"\bfn (\w+)", lines[j])
                if m:
                    own = cur if re.match(r"\s", lines[j]) else ""
                    out.append("trusted body: " + (own + "::" if own else "") + m.group(1))
                    break
    if re.search(r"\badmit\(\)|\bassume\(", text):
        out.append("assume()/admit() in contract text")
    return sorted(set(out))


def classify(g, text, diags):
    """diagnostics -> {name: [(message, source)]} failed, unknown; name -> module"""
    spans = [(e["gen"][0], e["gen"][1], (e["module"], e["fn"]), e) for e in g.fnmap if "gen" in e]
    failed, unknown, module, entry = {}, {}, {}, {}
    proofs = []
    mod = "root"
    for i, l in enumerate(text.splitlines(), 1):
        m = re.match(r"(?:pub )?mod (\w+) \{", l)
        if m:
            mod = m.group(1)
        m = re.match(r"\s*(?:pub )?(?:broadcast )?proof fn (\w+)", l)
        if m:
            proofs.append((i, m.group(1), mod))
    for d in diags:
        ls = [s["line_start"] for s in d.get("spans", []) if s.get("is_primary")] + [s["line_start"] for s in d.get("spans", [])]
        e = next((e for l in ls for a, b, k, e in spans if a <= l <= b), None)
        sp = next((s for s in d.get("spans", []) if s.get("is_primary")), None) or (d.get("spans") or [None])[0]
        txt = " ".join(x["text"].strip() for x in sp["text"])[:300] if sp else ""
        extra = [" ".join(x["text"].strip() for x in s["text"])[:300] for s in d.get("spans", []) if s is not sp]
        msg = (d["message"], txt + (" | " + " | ".join(extra) if extra else ""))
        if e is None:
            l = sp["line_start"] if sp else 0
            p = [(n, m) for i, n, m in proofs if i <= l]
            name = "lemma::" + (p[-1][0] if p else "?")
            module[name] = p[-1][1] if p else "?"
        else:
            name = e["module"] + "::" + e["fn"]
            module[name], entry[name] = e["module"], e
        isunk = any(u in d["message"].lower() for u in UNKNOWN)
        (unknown if isunk and e is not None else failed).setdefault(name, []).append(msg)
    return failed, unknown, module, entry


RETRIES = 3
LOCK = threading.Lock()     # the extraction rules keep context between them


def verify(repo, outdir, max_rounds=10, edit=None, plan=None):
    os.makedirs(outdir, exist_ok=True)
    r = Result()
    t0 = time.time()
    plan = PLAN if plan is None else plan
    external, reasons = set(), {}
    for rnd in range(max_rounds):
        r.rounds = rnd + 1
        try:
            with LOCK:
                g, text = build(repo, overlay(), plan, external)
        except (LexError, Exception) as e:
            r.why = f"extraction: {type(e).__name__}: {e}"
            break
        have = {(e["module"], e["fn"]) for e in g.fnmap}
        lost = {k: v for k, v in g.lost.items() if k not in external and k in have}
        gone = {k: v for k, v in g.lost.items() if k not in have}
        for k, v in gone.items():
            r.fallback["::".join(k)] = v[0]
        if lost:
            for k, v in lost.items():
                external.add(k)
                reasons["::".join(k)] = "; ".join(v)
            continue
        if edit:
            text = edit(g, text)
        path = os.path.join(outdir, "vx.rs")
        open(path, "w").write(text)
        cmd, js, diags, so, se, wall = run_verus(path, outdir)
        r.cmd = " ".join(cmd)
        r.raw = se
        vr = js.get("verification-results", {})
        spans = [(e["gen"][0], e["gen"][1], (e["module"], e["fn"])) for e in g.fnmap if "gen" in e]

        def where(d):
            ls = [s["line_start"] for s in d.get("spans", []) if s.get("is_primary")] + [s["line_start"] for s in d.get("spans", [])]
            return next((k for l in ls for a, b, k in spans if a <= l <= b), None)

        compiled = bool(vr) and not vr.get("encountered-vir-error") and "verified" in vr
        proof_errs = [d for d in diags if any(d["message"].lower().startswith(p) or p in d["message"].lower() for p in PROOF + UNKNOWN)]
        if not compiled or (diags and len(proof_errs) < len(diags) and not vr.get("verified")):
            hit = False
            for d in diags:
                k = where(d)
                if k and k not in external:
                    external.add(k)
                    reasons["::".join(k)] = "not accepted by the verifier: " + d["message"][:300]
                    hit = True
            if hit:
                continue
            r.why = "the extracted crate does not compile: " + "; ".join(d["message"][:200] for d in diags[:3]) + (se[-300:] if not diags else "")
            break
        # a verdict
        r.ok = True
        r.fallback.update(reasons)
        r.fnmap, r.new_fns, r.rewrites, r.dropped = g.fnmap, ["::".join(k) for k in g.new_fns], g.rewrites, g.dropped
        r.trusted = trusted_base(text)
        new = {k[1].split("::")[-1] for k in g.new_fns}
        r.failed, r.unknown, module, entry = classify(g, text, diags)
        for name, e in entry.items():
            if e["mode"] == "nocontract":
                r.fallback[name] = "new function without a contract"
            elif set(e["calls"]) & new:
                r.fallback[name] = "calls a function without a contract: " + ", ".join(sorted(set(e["calls"]) & new))
        for name in list(r.failed) + list(r.unknown):
            if name in r.fallback:
                r.failed.pop(name, None)
                r.unknown.pop(name, None)
        for m in js.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            for f in m.get("function-breakdown", []):
                r.items.append((item_name(f["function"]), f.get("mode:", f.get("mode", "")), f["time"], f["success"]))
        # an obligation the solver does not discharge is tried again with other seeds: undischarged means in every run
        if not edit and not plan_is_big(r.failed, r.unknown):
            for seed in range(1, RETRIES + 1):
                bad = set(r.failed) | set(r.unknown)
                if not bad:
                    break
                mods = sorted({module.get(n, "?") for n in bad})
                extra = ["--smt-option", f"smt.random_seed={seed}", "-V", "spinoff-all"]
                for m in mods:
                    if m == "?":
                        extra = extra[:4]
                        break
                    extra += ["--verify-root"] if m == "root" else ["--verify-module", m]
                _, js2, d2, _, se2, _ = run_verus(path, outdir, extra)
                if "verified" not in js2.get("verification-results", {}):
                    break
                f2, u2, _, _ = classify(g, text, d2)
                r.retried = r.retried + [seed]
                good = bad - set(f2) - set(u2)
                for n in good:
                    r.failed.pop(n, None)
                    r.unknown.pop(n, None)
                    fn = n.split("::")[-1]
                    r.items = [(q, md, ms, True if q.split("::")[-1] == fn else ok) for q, md, ms, ok in r.items]
                for n in bad - good:
                    if n in f2:
                        r.unknown.pop(n, None)
                        r.failed[n] = f2[n]
        for name in list(r.unknown):
            r.fallback.setdefault(name, "resource limit reached")
            r.failed.pop(name, None)
        for k in g.new_fns:
            r.fallback.setdefault("::".join(k), "new function without a contract")
        r.smt_ms = sum(i[2] for i in r.items)
        r.wall = time.time() - t0
        r.verified, r.errors = vr.get("verified", 0), vr.get("errors", 0)
        return r
    else:
        r.why = "the extracted crate does not compile after setting aside " + ", ".join(sorted(reasons))
    r.fallback.update(reasons)
    if not edit and any(p["mod"] in NET for p in plan):
        # the session and listener layers cannot be brought to the verifier on this tree: the layers under them still can
        core = verify(repo, outdir, max_rounds, None, [p for p in plan if p["mod"] not in NET])
        if core.ok:
            core.why_net = r.why
            for k, v in r.fallback.items():
                if k.split("::")[0] in NET:
                    core.fallback[k] = v
            for m in NET:
                core.fallback.setdefault(m + "::*", "the layer could not be brought to the verifier on this tree: " + r.why[:300])
            core.wall = time.time() - t0
            return core
    r.wall = time.time() - t0
    return r


NET = ("socket", "server", "net")


def plan_is_big(failed, unknown):
    return len(failed) + len(unknown) > 25
