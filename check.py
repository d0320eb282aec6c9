#!/usr/bin/env python3
"""check.py <property> [--thorough] | check.py --replay <file>

Decides one property on /repo's current tree: Verus on the functions extracted from the current source (every obligation,
all inputs), and the replay engine on the real code (bounded; turns a failed obligation into a concrete failing input, and
stands in for a function the verifier cannot take on this tree).
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "vx"))
REPO = os.environ.get("VERIF_REPO", "/repo")
from props import PROPS, LEVEL, match
import verify as V

BUILD = os.path.join(ROOT, "build")
ENGINE = os.path.join(ROOT, "engine")
NFI = "no-failing-input-found"


def sh(cmd, cwd, timeout):
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        o = e.stdout
        return 124, (o.decode(errors="replace") if isinstance(o, bytes) else o or "") + "\nTIMEOUT"


class Engine:
    def __init__(self, prop, bins, tier, seed):
        self.prop, self.bins, self.tier, self.seed = prop, bins, tier, seed
        self.slow = tier == "thorough"    # also the cases that wait out the 60 s limit of a silent peer
        self.built = {}
        self.build_log = ""
        self.reports = []
        self.fails = []       # (line, replay path)
        self.errors = []

    def build(self):
        for b in self.bins:
            rc, out = sh(["cargo", "build", "--offline", "--quiet", "--bin", b], ENGINE, 800)
            self.built[b] = rc == 0
            if rc:
                self.build_log += out[-3000:]

    def run(self, seed=None, budget=None, tier=None):
        """all programs side by side"""
        with cf.ThreadPoolExecutor(4) as ex:
            list(ex.map(lambda b: self.run1(b, seed, budget, tier), [b for b in self.bins if self.built.get(b)]))

    def run1(self, b, seed, budget, tier):
        seed_ = self.seed if seed is None else seed
        tier_ = tier or self.tier
        out = os.path.join(BUILD, f"{self.prop}.{b}.{seed_}.report.json")
        rep = os.path.join(BUILD, "replay", f"{self.prop}-{b}.json")
        for f in (out, rep):
            if os.path.exists(f):
                os.remove(f)
        budget_ = budget or (400 if tier_ == "thorough" else 40)
        cmd = [os.path.join(BUILD, "engine", "debug", b), "--prop", self.prop, "--seed", str(seed_), "--tier", tier_, "--budget", str(budget_), "--out", out, "--replay-out", rep]
        if self.slow and b == "live":
            cmd.append("--slow")
        rc, o = sh(cmd, ROOT, budget_ * 2 + 250)
        if os.path.exists(out):
            try:
                self.reports.append((b, seed_, json.load(open(out))))
            except ValueError:
                pass
        m = re.search(r"^FAIL property=(\S+) (.*)$", o, re.M)
        if rc == 1 and m:
            self.fails.append((m.group(2), rep))
            return
        if rc != 0:
            self.errors.append(f"{b}: exit {rc}: {o[-400:]}")


def known_findings(prop):
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) generator=(\S+) (.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return replay(a[1])
    prop = a[0]
    tier = "thorough" if "--thorough" in a else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    fnpats, lempats, bins = PROPS[prop]
    eng = Engine(prop, bins, tier, seed)
    vdir = tempfile.mkdtemp(prefix="vx-", dir=BUILD)
    try:
        with cf.ThreadPoolExecutor(4) as ex:
            fv = ex.submit(V.verify, REPO, vdir) if fnpats else None
            fkani = ex.submit(assumed) if tier == "thorough" and prop in KANI else None
            fvac = ex.submit(vacuity, REPO, vdir + ".vac") if fnpats and tier == "thorough" else None

            def e():
                eng.build()
                eng.run()
            fe = ex.submit(e)
            v = fv.result() if fv else None
            fe.result()
            vac = fvac.result() if fvac else None
            kani = fkani.result() if fkani else None
        lemshort = re.sub(r"\b(arq|packet|fragment|shim|wire|socket|server|net)::", "", lempats)
        mine = lambda n: match(fnpats, n) or (n.startswith("lemma::") and re.fullmatch("(" + lemshort + ")", n[7:]))
        failed = {k: x for k, x in v.failed.items() if mine(k)} if v else {}
        lost = {k: x for k, x in v.fallback.items() if match(fnpats, k) or (k.endswith("::*") and any(p.startswith(k[:-1]) for p in fnpats))} if v else {}
        other_lost = {k: x for k, x in v.fallback.items() if k not in lost} if v else {}
        # an obligation is not discharged: look harder for an input that shows it
        if (failed or lost or (v and not v.ok)) and not eng.fails and any(eng.built.values()):
            for s in range(1, 4):
                eng.slow = s == 2
                eng.run(seed=seed + 1000 * s, budget=40, tier="thorough" if s > 1 else tier)
                if eng.fails:
                    break
        rc = 0
        lines = []
        viol = []
        known = known_findings(prop)
        for line, rep in eng.fails:
            viol.append((line, rep, False))
        if failed and not eng.fails:
            rep = os.path.join(BUILD, "replay", f"{prop}-obligations.json")
            json.dump({"property": prop, "failed_obligations": {k: [list(m) for m in x] for k, x in failed.items()},
                       "note": "the verifier rejects these obligations on the current source and gives no counterexample; the bounded engine found no failing input",
                       "engine_built": eng.built, "verifier_cmd": v.cmd, "verifier_output": rendered(v.raw, failed, v)}, open(rep, "w"), indent=1)
            viol.append(("failed obligations in " + ", ".join(sorted(failed)), rep, True))
        for k, x in sorted(failed.items()):
            for m in x[:3]:
                print(f"OBLIGATION {k}: {m[0]}: {m[1][:200]}")
        for k, x in sorted(lost.items()):
            print(f"BOUNDED {k}: {x[:240]} (the bounded engine decides it on this run)")
        if v and not v.ok:
            print(f"BOUNDED all functions: {v.why[:400]}")
        for e_ in eng.errors:
            print("ENGINE " + e_)
        if not all(eng.built.values()):
            print("ENGINE does not build against this tree: " + eng.build_log[-600:])
        if kani and kani["failed"]:
            rep = os.path.join(BUILD, "replay", f"{prop}-assumed.json")
            json.dump({"property": prop, "kani": kani}, open(rep, "w"), indent=1)
            viol.append(("contracts assumed of bytes or std do not hold: " + ", ".join(kani["failed"]), rep, True))
        for what, rep, nfi in viol:
            print(what)
            print(f"VIOLATION property={prop} replay={rep}" + (" " + NFI if nfi else ""))
            rc = 1
        for g, what in known:
            for b, s, r in eng.reports:
                if r.get("known", {}).get(g):
                    print(f"KNOWN-FINDING: property={prop} {what}")
                    break
        decided = (v and v.ok) or (any(eng.built.values()) and not eng.errors)
        if rc == 0 and (not decided or eng.errors):
            print("no verdict")
            rc = 2
        evidence(prop, tier, seed, v, eng, fnpats, lempats, failed, lost, other_lost, vac, kani, len(viol), time.time() - t0)
        print(f"{prop} {tier} exit={rc} wall={time.time() - t0:.1f}s")
        return rc
    finally:
        shutil.rmtree(vdir, ignore_errors=True)
        shutil.rmtree(vdir + ".vac", ignore_errors=True)


def rendered(raw, failed, v):
    out = []
    for l in raw.splitlines():
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error" and d.get("rendered"):
                out.append(d["rendered"])
    return out[:20]


def vacuity(repo, outdir):
    """every function under contract gets `assert(false)` as its first statement: each must be rejected"""
    names = {}
    r = V.verify(repo, outdir, edit=lambda g, t: vac_edit(g, t, names))
    bad = [n for n in names if r.ok and n not in r.failed and n not in r.unknown and n not in r.fallback]
    return {"functions": len(names), "ok": r.ok, "vacuous": bad, "not_accepted": sorted(set(names) & set(r.fallback))}


def vac_edit(g, text, names):
    lines = text.split("\n")
    for e in g.fnmap:
        if e["mode"] != "verify" or "gen" not in e:
            continue
        names["::".join((e["module"], e["fn"]))] = 1
        a, b = e["gen"]
        for i in range(a - 1, b):
            if "/*body*/" in lines[i]:
                lines[i] = lines[i].replace("/*body*/", "/*body*/ proof { assert(false); }", 1)
                break
    return "\n".join(lines)


KANI = ("C01", "C02", "C03", "C04", "C13")


def assumed():
    """the contracts assumed of bytes and std integers, against the real code: all values, buffers of bounded length (kani/gen.py)"""
    t = time.time()
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(BUILD, "kani"))
    try:
        p = subprocess.run(["cargo", "kani", "-j", "4", "--output-format", "terse"], cwd=os.path.join(ROOT, "kani"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=850)
        o = p.stdout
    except (subprocess.TimeoutExpired, OSError) as e:
        return {"verified": 0, "failed": [], "no_answer": str(e)[:200]}
    m = re.search(r"Complete - (\d+) successfully verified harnesses, (\d+) failures", o)
    bad = re.findall(r"Verification failed for - (\S+)", o)
    ver = lambda f: re.search(r'name = "bytes"\nversion = "([^"]+)"', open(f).read()).group(1) if os.path.exists(f) else "?"
    return {"verified": int(m.group(1)) if m else 0, "failed": bad, "wall_s": round(time.time() - t, 1), "bytes_version": ver(os.path.join(ROOT, "kani", "Cargo.lock")),
            "bytes_version_of_repo": ver(os.path.join(REPO, "Cargo.lock")), **({} if m else {"no_answer": o[-500:]})}


ASSUME = [
    "Verus 0.2026.09.13 and its Z3, rustc, and vstd's contracts for Vec, HashMap, Option, slices and integers are trusted",
    "the extraction (vx/gen.py, rules E1-E6) copies the function bodies token for token apart from the rewrites counted in coverage.rewrites",
    "machine integers are verified as machine integers (overflow is an obligation); f64 appears only in the timeout scaling, contract of vx_f64_scale",
    "derived Clone and PartialEq are taken to copy and compare structurally",
    "scope: 24-bit datagram and index numbers do not wrap within a connection; datagrams are at most 65507 bytes",
]

ASSUME_NET = [
    "tokio is replaced by stand-ins with assumed contracts (module net of the extracted crate): a channel delivers what was sent on it, a lock hands out a value any task may have left but that satisfies its invariant, "
    "a semaphore once closed stays closed, time-outs and select! may take any enabled branch",
    "each worker's loop is verified one round at a time, from any state the locks and channels allow; that the runtime spawns the workers and keeps running their rounds is assumed",
    "which channel ends, locks and sockets a worker is given is compared textually with the wiring stated in the contracts",
    "Arc is transparent: a clone is the same object; the loss simulation (set_loss_rate) is off unless the application turns it on",
    "lock invariants hold while fewer than 2^23 datagrams and messages were exchanged on a connection",
]


def evidence(prop, tier, seed, v, eng, fnpats, lempats, failed, lost, other_lost, vac, kani, nviol, wall):
    cov = {}
    level = "exploration"
    ev = sum(r.get("evaluations", 0) for _, _, r in eng.reports)
    dn = sum(r.get("distinct_nontrivial", 0) for _, _, r in eng.reports)
    cov["evaluations"], cov["distinct_nontrivial"] = ev, dn
    cov["rule"] = " || ".join(sorted({r.get("rule", "") for _, _, r in eng.reports})) or "none"
    cov["samples"] = [s for _, _, r in eng.reports for s in r.get("samples", [])][:12]
    cov["engine"] = {"role": "bounded: replays obligations on the real code and stands in for functions listed under bounded; never counted as proved",
                     "built": eng.built, "cases_by_generator": {f"{b}:{k}": n for b, _, r in eng.reports for k, n in r.get("per_generator", {}).items()}}
    assume = list(ASSUME)
    if any(p.startswith(("socket::", "server::")) for p in fnpats):
        assume += ASSUME_NET
    if v and v.ok:
        execs, lemmas = [], []
        for n, mode, ms, ok in v.items:
            if mode == "exec":
                for e in v.fnmap:
                    q = e["module"] + "::" + e["fn"]
                    if (n == q or item_eq(n, q)) and match(fnpats, q):
                        execs.append((q, ms, ok))
                        break
            elif mode == "proof" and re.fullmatch(lempats, n):
                lemmas.append((n, ms, ok))
        level = LEVEL.get(prop) or ("proof" if not lost and execs else "exploration")
        files = {e["module"] + "::" + e["fn"]: e for e in v.fnmap}
        cov["obligations"] = len(execs) + len(lemmas)
        cov["discharged"] = sum(ok for _, _, ok in execs + lemmas)
        cov["obligation_unit"] = "one function or lemma, with all proof obligations Verus generates for it (postconditions, callee preconditions, invariants, termination, overflow, bounds)"
        cov["checker_cmd"] = "verus <extracted crate> --crate-name vx --output-json --time-expanded --multiple-errors 10 (whole crate, back end Z3)"
        cov["trusted_base"] = v.trusted
        cov["functions_under_contract"] = [{"fn": q, "lines": list(files[q]["lines"]), "sha": files[q]["sha"], "smt_ms": ms, "verified": ok} for q, ms, ok in execs]
        cov["lemmas"] = [{"lemma": q, "smt_ms": ms, "verified": ok} for q, ms, ok in lemmas]
        cov["whole_crate"] = {"verified": v.verified, "errors": v.errors, "smt_ms": v.smt_ms, "wall_s": round(v.wall, 1), "rounds": v.rounds, "other_solver_seeds_tried": v.retried}
        cov["rewrites"] = v.rewrites
        cov["not_extracted"] = v.dropped
        if vac is not None:
            cov["vacuity"] = vac
    elif v:
        assume.append("the verifier gave no verdict on this tree: " + v.why)
        cov["obligations"], cov["discharged"], cov["checker_cmd"], cov["trusted_base"] = 0, 0, v.cmd or "verus", ["no verdict: " + v.why[:200]]
    if kani is not None:
        cov["assumed_contracts_checked_by_kani"] = kani
    if lost or other_lost:
        cov["bounded"] = lost
        cov["bounded_elsewhere"] = other_lost
    if failed:
        cov["failed_obligations"] = {k: [list(m) for m in x] for k, x in failed.items()}
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assume, "wall_s": round(wall, 2), "violations": nviol},
              open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)


def item_eq(n, q):
    return n == q or re.sub(r"impl&%\d+", "", n) == q


def replay(path):
    d = json.load(open(path))
    if "generator" not in d:
        print(json.dumps(d, indent=1)[:6000])
        return 1
    b = re.match(r".*-(\w+)\.json$", path).group(1)
    e = Engine(d["property"], [b], "quick", d["seed"])
    e.build()
    rc, o = sh([os.path.join(BUILD, "engine", "debug", b), "--prop", d["property"], "--seed", str(d["seed"]), "--gen", d["generator"], "--index", str(d["index"])], ROOT, 200)
    print(o)
    return rc


if __name__ == "__main__":
    sys.exit(main())
