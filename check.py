#!/usr/bin/env python3-vt
"""Decide one property:  python3-vt check.py C01 [--tier quick|thorough]
   replay a violation:   python3-vt check.py --replay FILE"""
import argparse
import importlib
import json
import multiprocessing as mpx
import os
import random
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from engine import harness as H, realpkg, solve, numeric  # noqa: E402
from engine.nf import Unsupported, TooBig  # noqa: E402
from specs import registry  # noqa: E402

TRUSTED = [
    "engine/terms.py, nf.py, prover.py, solve.py: term simplification, rational/algebraic normal form, path splitting",
    "engine/interp.py + arrays.py + indexing.py: symbolic semantics of the Python subset and of numpy indexing/broadcasting",
    "engine/npmodel.py: assumed contracts of the numpy/scipy functions the code calls",
    "z3 (via z3-solver) for path feasibility and definedness",
    "floating point treated as mathematical real/complex arithmetic",
]


def work(case, tier, seed, conn):
    """runs in a child process"""
    out = dict(cid=case.cid, functions=list(case.functions), obligations=[], undef=[], called={}, real=None, error=None, sym="skipped")
    t0 = time.time()
    try:
        rows, refuted = [], []
        if case.symbolic:
            try:
                t1 = time.time()
                rs, called = H.run_symbolic(case)
                out["sym"] = "ok"
                out["called"] = called
                out["sym_time"] = time.time() - t1
                for r in rs:
                    rows.append(r.row())
                    if getattr(r, "undef", None):
                        out["undef"].append("%s: %s" % (r.label, r.undef[:160]))
                    if r.status == "refuted":
                        refuted.append(r)
            except (Unsupported, TooBig) as e:
                out["sym"] = "unsupported: %s" % e
            except RecursionError:
                out["sym"] = "unsupported: recursion"
            except Exception as e:
                out["sym"] = "unsupported: engine %s: %s @ %s" % (type(e).__name__, e, traceback.format_exc().strip().splitlines()[-3][:200])
            conn.send(("partial", dict(out, obligations=rows)))
        out["obligations"] = rows
        out["z3"] = dict(solve.STATS)
        if case.real:
            n = case.samples if tier == "quick" else case.thorough_samples
            if out["sym"].startswith("unsupported") or any(r["status"] in ("unknown", "vacuous") for r in rows):
                n = max(n * 3, 20)
                clusters = 16
            else:
                clusters = 16 if tier != "quick" or getattr(case, "undecided", False) else 2
            dl = time.time() + (60 if tier == "quick" else 300)
            ev, fails, skipped = H.run_real(case, n, seed, deadline=dl, clusters=clusters)
            conf = []
            spurious = 0
            replays = 0
            if refuted and not fails:
                old = case.tol
                case.tol = min(case.tol, 1e-9)
                for r in refuted[:8]:
                    if r.env is None:
                        continue
                    mode = r.label.split("/")[0]
                    ms = case.modes
                    case.modes = (mode,) if mode in ms or mode.startswith("set:") else ms
                    try:
                        env = {k: (complex(v) if isinstance(v, complex) or type(v).__name__ == "mpc" else float(v)) for k, v in r.env.items()}
                    except Exception:
                        env = {}
                    save = case.samples, case.specials
                    case.specials = []
                    e2, f2, s2 = H.run_real(case, 0, seed, extra_envs=[env], track=getattr(r, "track", None))
                    case.samples, case.specials = save
                    case.modes = ms
                    replays += e2
                    ev += e2
                    if f2:
                        fails = f2
                        break
                    if e2:
                        spurious += 1
                case.tol = old
                if not fails:
                    e3, f3, s3 = H.run_real(case, 60, seed + 17, deadline=time.time() + 60)
                    ev += e3
                    fails = f3
            out["real"] = dict(evaluations=ev, skipped=skipped, fails=fails[:3], spurious=spurious, replays=replays)
        elif refuted:
            out["real"] = None
    except Exception as e:
        out["error"] = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])
    out["wall"] = time.time() - t0
    conn.send(("done", out))
    conn.close()


def run_cases(cases, tier, seed, nproc=8, total=600):
    ctx = mpx.get_context("fork")
    todo = sorted(cases, key=lambda c: -c.timeout)
    running = []
    outs = {}
    t0 = time.time()
    while todo or running:
        while todo and len(running) < nproc:
            c = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=work, args=(c, tier, seed, b), daemon=True)
            p.start()
            b.close()
            lim = c.timeout if tier == "quick" else c.timeout * 4
            running.append([c, p, a, time.time() + lim, None])
        time.sleep(0.02)
        still = []
        for rec in running:
            c, p, a, dl, part = rec
            fin = False
            try:
                while a.poll():
                    kind, o = a.recv()
                    if kind == "partial":
                        rec[4] = o
                    else:
                        outs[c.cid] = o
                        fin = True
            except EOFError:
                if c.cid not in outs:
                    o = rec[4] or dict(cid=c.cid, functions=list(c.functions), obligations=[], undef=[], called={}, real=None, sym="unsupported: worker died")
                    o["error"] = "worker died"
                    outs[c.cid] = o
                fin = True
            if not fin and (time.time() > dl or time.time() - t0 > total):
                p.kill()
                o = rec[4] or dict(cid=c.cid, functions=list(c.functions), obligations=[], undef=[], called={}, real=None, sym="unsupported: time limit")
                o["error"] = "time limit"
                outs[c.cid] = o
                fin = True
            if fin:
                p.join(1)
                if p.is_alive():
                    p.kill()
            else:
                still.append(rec)
        running = still
    return outs


def second_chance(cases, outs, tier, seed):
    """cases whose symbolic run exhausted its time get their bounded check"""
    again = []
    for c in cases:
        o = outs[c.cid]
        if o.get("error") and o.get("real") is None and c.real:
            import copy
            c2 = copy.copy(c)
            c2.symbolic = False
            c2.samples = max(c.samples * 3, 20)
            c2.undecided = True
            again.append(c2)
    if not again:
        return
    o2 = run_cases(again, "quick", seed, total=200)
    for c in again:
        o = outs[c.cid]
        o["real"] = o2[c.cid].get("real")
        o["error2"] = o2[c.cid].get("error")


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        with open(p) as fh:
            return json.load(fh)
    return []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a.replay:
        return replay(a.replay)
    t0 = time.time()
    prop = registry.PROPS[a.prop]
    cases, lemmas = prop["cases"](), prop["lemmas"]()
    if a.only:
        cases = [c for c in cases if a.only in c.cid]
    realpkg.prepare(ext=prop.get("ext", False) or any(c.ext for c in cases))
    realpkg.preload()
    outs = run_cases(cases, a.tier, seed)
    second_chance(cases, outs, a.tier, seed)
    lem = []
    for l in lemmas:
        try:
            lem.extend(r.row() for r in l.run())
        except Exception as e:
            lem.append(dict(case=l.lid, label="lemma", status="unknown", how="%s: %s" % (type(e).__name__, e), detail="", env=None))
    return report(a.prop, prop, cases, outs, lem, a.tier, seed, t0)


def report(pid, prop, cases, outs, lem, tier, seed, t0):
    known = [k for k in known_findings() if k.get("property") == pid and k.get("status") == "open"]
    kcases = {k["case"]: k for k in known}
    viol = []
    ob = disc = bounded = 0
    funcs, called = {}, {}
    undecided = []
    evals = 0
    spurious = 0
    assumptions = []
    for c in cases:
        o = outs[c.cid]
        rows = o["obligations"]
        bad = [r for r in rows if r["status"] == "refuted"]
        unk = [r for r in rows if r["status"] in ("unknown", "vacuous")]
        ob += len(rows)
        disc += sum(r["status"] == "proved" for r in rows)
        for k, v in o.get("called", {}).items():
            called[k] = called.get(k, 0) + v
        real = o.get("real") or {}
        evals += real.get("evaluations", 0)
        fails = real.get("fails") or []
        proved_case = o["sym"] == "ok" and rows and not bad and not unk
        for f in c.functions:
            st = "proved" if proved_case else "bounded" if real.get("evaluations") else "undecided"
            old = funcs.get(f)
            funcs[f] = st if old is None or old == st else "+".join(sorted(set(old.split("+")) | {st}))
        if c.cid in kcases:
            k = kcases[c.cid]
            if fails or bad:
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
            continue
        if fails:
            viol.append(dict(case=c.cid, obligation=(bad[0]["label"] if bad else fails[0]["label"]), failing_input=fails[0], verifier=bad[:3], confirmed=True))
        elif bad:
            replayed = real.get("replays", 0)
            if c.real and replayed and real.get("spurious", 0) >= min(len([r for r in bad if r["env"] is not None]), 8):
                spurious += 1
                undecided.append("%s: counterexample does not replay on the real code (%s)" % (c.cid, bad[0]["how"]))
            else:
                viol.append(dict(case=c.cid, obligation=bad[0]["label"], verifier=bad[:3], confirmed=False))
        if not proved_case and not fails:
            why = o["sym"] if o["sym"] != "ok" else (unk[0]["label"] + ": " + unk[0]["how"] if unk else "no obligations" if not rows else "")
            undecided.append("%s: %s (bounded: %d concrete evaluations)" % (c.cid, why, real.get("evaluations", 0)))
            bounded += 1
        if o.get("error"):
            undecided.append("%s: %s" % (c.cid, o["error"][:300]))
    for r in lem:
        ob += 1
        disc += r["status"] == "proved"
        if r["status"] != "proved":
            undecided.append("lemma %s/%s: %s %s" % (r["case"], r["label"], r["status"], r["how"]))
    zq = sum((outs[c.cid].get("z3") or {}).get("queries", 0) for c in cases)
    zt = sum((outs[c.cid].get("z3") or {}).get("time", 0) for c in cases)
    undef = [u for c in cases for u in outs[c.cid].get("undef", [])]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = dict(
        property=pid, tier=tier, seed=seed, level=prop.get("level", "proof"),
        coverage=dict(
            obligations=ob, discharged=disc, checker_cmd="python3-vt check.py %s --tier %s" % (pid, tier), trusted_base=TRUSTED,
            functions_under_contract=funcs, functions_executed_symbolically=called, lemmas=len(lem),
            back_ends={"normal form (engine/nf.py)": "equalities", "z3": "path feasibility, definedness, inequalities"},
            z3_queries=zq, z3_time_s=round(zt, 2), prover_time_s=round(sum(outs[c.cid].get("sym_time", 0) for c in cases), 2),
            runtime_contract_evaluations=evals, bounded_cases=bounded, not_proved=undecided, definedness_not_proved=undef[:20],
            slowest=sorted(((round(outs[c.cid].get("wall", 0), 1), c.cid) for c in cases), reverse=True)[:8],
            case_status={c.cid: outs[c.cid]["sym"] for c in cases},
            lemma_status={r["case"] + "/" + r["label"]: r["status"] for r in lem}),
        assumptions=TRUSTED[2:] + prop.get("assumptions", []),
        wall_s=round(time.time() - t0, 2), violations=len(viol))
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print("%s: %d obligations, %d discharged, %d cases (%d bounded only), %d run-time evaluations, %.1f s" % (
        pid, ob, disc, len(cases), bounded, evals, time.time() - t0))
    for u in undecided[:30]:
        print("  undecided/bounded: " + u[:300])
    if ob == 0 and evals == 0:
        print("no obligations generated")
        return 2
    if viol:
        viol.sort(key=lambda v: not v["confirmed"])
        rd = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s.json" % pid)
        with open(path, "w") as fh:
            json.dump(dict(property=pid, violations=viol[:10]), fh, indent=1, default=str)
        for v in viol[:6]:
            print("  failed obligation %s %s" % (v["case"], v["obligation"]))
            if v.get("failing_input"):
                f = v["failing_input"]
                print("    got %s want %s at %s" % (f["got"], f["want"], json.dumps(f["inputs"], default=str)[:400]))
            elif v["verifier"]:
                print("    %s" % v["verifier"][0]["how"])
        print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if viol[0]["confirmed"] else " no-failing-input-found"))
        return 1
    return 0


def replay(path):
    with open(path) as fh:
        d = json.load(fh)
    prop = registry.PROPS[d["property"]]
    cases = {c.cid: c for c in prop["cases"]()}
    realpkg.prepare(ext=True)
    bad = 0
    for v in d["violations"]:
        c = cases[v["case"]]
        f = v.get("failing_input")
        print("obligation", v["case"], v["obligation"])
        for r in v.get("verifier", []):
            print("   verifier: %s %s %s" % (r["label"], r["how"], r["env"]))
        if not f:
            continue
        b_env = f["inputs"]
        rng = random.Random(0)
        dims = {k: tuple(x) for k, x in f["dims"].items()}
        orig = H.RealB._draw

        def draw(self, s, b_env=b_env, orig=orig):
            import numpy as np
            if s.args[0] in b_env:
                x = b_env[s.args[0]]
                self.vals[s] = np.asarray(eval(x) if isinstance(x, str) else x)
                return self.vals[s]
            return orig(self, s)
        H.RealB._draw = draw
        try:
            fails, _ = H.run_real_once(c, dims, rng, None, f["form"], f["mode"])
        finally:
            H.RealB._draw = orig
        for x in fails[:3]:
            print("   replayed: %s got %s want %s" % (x["label"], x["got"], x["want"]))
            bad += 1
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
