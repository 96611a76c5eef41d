"""Discharging of obligations: path splitting (z3), equality by normal form,
definedness by z3, refutation by directed sampling at 40 digits."""
import random
import time
from fractions import Fraction
import mpmath as mp
from . import terms as T
from . import solve
from . import numeric
from .nf import NF, Unsupported, TooBig
from .terms import Node, TRUE, FALSE
from .ctx import CTX


class Verdict:
    def __init__(self, status, how="", env=None, detail="", leaves=0):
        self.status, self.how, self.env, self.detail, self.leaves = status, how, env, detail, leaves

    def __repr__(self):
        return "<%s %s %s>" % (self.status, self.how, self.detail)


def flatten(fs):
    out = []
    for f in solve.generic_instances(fs):
        if f.op == "and":
            continue
        if f.op == "any":
            continue
        if f not in out:
            out.append(f)
    return out


# ------------------------------------------------------------- equalities
def _nonzero(nf, k, pc_nz):
    a = nf.atoms[k]
    key = a["key"]
    if key[0] in ("pi", "I", "exp", "sqrtint"):
        return True
    if key[0] == "sym":
        if T.SYM_ATTR[key[1]][1] in ("pos", "neg", "nz"):
            return True
        return key[1] in pc_nz
    if key[0] == "sqrt":
        return _nonzero(nf, key[1][0][0], pc_nz)
    if key[0] == "root" and a["sq"]:
        p = a["sq"]
        if nf.nonneg_poly(p):
            for m in p:
                if all(_nonzero(nf, j, pc_nz) for j, e in m):
                    return True
    return False


def _zero_atoms(nf, p, pc_nz, depth=0):
    """consequences of poly p == 0: list of symbol names that must be 0, or
    'false' if impossible; None if nothing is derivable"""
    if not p:
        return []
    if depth > 6:
        return None
    if len(p) == 1:
        (m, c), = p.items()
        cand = [k for k, e in m if e > 0 and not _nonzero(nf, k, pc_nz)]
        if not cand:
            return "false"
        if len(cand) > 1:
            return None
        k = cand[0]
        a = nf.atoms[k]
        if a["key"][0] == "sym":
            return [a["key"][1]]
        if a["sq"] is not None:
            return _zero_atoms(nf, nf.reduce(a["sq"]), pc_nz, depth + 1)
        return None
    if nf.nonneg_poly(p):
        out = []
        for m, c in p.items():
            r = _zero_atoms(nf, {m: 1}, pc_nz, depth + 1)
            if r == "false":
                return "false"
            if r is None:
                continue
            out += r
        return out
    return None


def sub_rules(rules, sub):
    """the rewrite rules after a substitution, re-oriented where the left side vanished"""
    out = []
    for a, b in rules:
        a2, b2 = T.subst(a, sub), T.subst(b, sub)
        if a2 is a:
            out.append((a, b2))
            continue
        nf = NF()
        try:
            l = nf.norm(a2)
            if not l.d and len(l.n) == 1 and list(l.n)[0]:
                out.append((a2, b2))
                continue
            r = nf.norm(T.add(a2, T.neg(b2)))
        except (Unsupported, TooBig, ZeroDivisionError):
            continue
        if r.d or not r.n:
            continue
        # x^2 + ... with every other monomial of degree at most two
        lead = None
        for m in sorted(r.n, reverse=True):
            if len(m) == 1 and m[0][1] == 2:
                lead = m
                break
        if lead is None:
            continue
        c = Fraction(r.n[lead])
        lt = nf.poly_term({lead: 1})
        rt = nf.poly_term({m: -Fraction(v) / c for m, v in r.n.items() if m != lead})
        if lt is not None and rt is not None:
            out.append((lt, rt))
    return out


def solve_equalities(pc, rules=()):
    """substitution implied by the equalities in pc; returns (map, infeasible)"""
    mp_ = {}
    pc = flatten(pc)
    for _ in range(8):
        changed = False
        nz = set()
        for f in pc:
            g = f
            if g.op == "not" and g.args[0].op == "eq":
                a, b = g.args[0].args
                if b.op == "sym" and a is T.ZERO:
                    nz.add(b.args[0])
                if a.op == "sym" and b is T.ZERO:
                    nz.add(a.args[0])
            if g.op == "lt":
                a, b = g.args
                if T.isnum(a) and T.val(a) >= 0 and b.op == "sym":
                    nz.add(b.args[0])
                if T.isnum(b) and T.val(b) <= 0 and a.op == "sym":
                    nz.add(a.args[0])
        for f in pc:
            if f.op == "le":
                # 0 >= sum of squares
                d = T.add(f.args[0], T.neg(f.args[1]))
                if T.has_op(d, "ite"):
                    continue
                try:
                    nf = NF()
                    p = nf.reduce(nf.norm(d).n) if not nf.norm(d).d else None
                except (Unsupported, TooBig, ZeroDivisionError):
                    continue
                if p is None or not nf.nonneg_poly(p):
                    continue
                z = _zero_atoms(nf, p, nz)
                if z == "false":
                    return mp_, True
                sub = {T.mk("sym", s): T.ZERO for s in (z or [])}
            elif f.op == "eq":
                a, b = f.args
                if T.has_op(a, "ite") or T.has_op(b, "ite") or T.has_op(a, "sum") or T.has_op(b, "sum"):
                    continue
                sub = None
                try:
                    nf = NF(rules)
                    r = nf.norm(T.add(a, T.neg(b)))
                    p = nf.reduce(r.n)
                except (Unsupported, TooBig, ZeroDivisionError):
                    continue
                if not p:
                    continue
                z = _zero_atoms(nf, p, nz)
                if z == "false":
                    return mp_, True
                if z:
                    sub = {T.mk("sym", s): T.ZERO for s in z}
                else:
                    # sqrt(e) == const >= 0 / linear in a symbol
                    for m, c in p.items():
                        if len(m) == 1 and m[0][1] == 1 and nf.atoms[m[0][0]]["key"][0] == "sym":
                            k = m[0][0]
                            if any(k == kk for m2 in p if m2 != m for kk, e in m2):
                                continue
                            if any(_mentions(nf, kk, k) for m2 in p if m2 != m for kk, e in m2):
                                continue
                            s = T.mk("sym", nf.atoms[k]["key"][1])
                            others = [(m2, c2) for m2, c2 in p.items() if m2 != m]
                            e = _poly_term(nf, others)
                            if e is None:
                                continue
                            sub = {s: T.mul(T.num(Fraction(-1) / Fraction(c)), e)}
                            break
                    else:
                        continue
                if not sub:
                    continue
            else:
                continue
            mp_ = {k: T.subst(v, sub) for k, v in mp_.items()}
            for k, v in sub.items():
                mp_[k] = v
            pc = [T.subst(g, sub) for g in pc]
            pc = [g for g in pc if g is not TRUE]
            rules = sub_rules(rules, sub)
            if any(g is FALSE for g in pc):
                return mp_, True
            changed = True
            break
        if not changed:
            break
    return mp_, False


def _mentions(nf, k, target):
    key = nf.atoms[k]["key"]
    if key[0] == "sym" or key[0] in ("pi", "I", "sqrtint"):
        return k == target
    a = nf.atoms[k]
    if a["sq"]:
        return any(_mentions(nf, j, target) for m in a["sq"] for j, e in m)
    return True


def _poly_term(nf, items):
    tot = T.ZERO
    for m, c in items:
        t = T.num(Fraction(c))
        for k, e in m:
            key = nf.atoms[k]["key"]
            if key[0] == "sym":
                b = T.mk("sym", key[1])
            elif key[0] == "pi":
                b = T.PI
            elif key[0] == "sqrtint":
                b = T.sqrt(T.num(key[1]))
            elif key[0] in ("root", "sqrt") and nf.atoms[k]["sq"]:
                b = _poly_term(nf, list(nf.atoms[k]["sq"].items()))
                if b is None:
                    return None
                b = T.sqrt(b)
            else:
                return None
            if isinstance(e, Fraction):
                return None
            t = T.mul(t, T.power(b, e))
        tot = T.add(tot, t)
    return tot


# ------------------------------------------------------------- splitting
def pick_ite(n):
    """an ite condition (innermost first)"""
    best = None
    seen = set()

    def rec(x):
        stack = [(x, False)]
        while stack:
            y, done = stack.pop()
            if done:
                if y.op == "ite":
                    return y
                continue
            if y in seen:
                continue
            seen.add(y)
            stack.append((y, True))
            for a in y.args:
                if isinstance(a, Node):
                    stack.append((a, False))
        return None
    y = rec(n)
    return y


def _atoms(c):
    """atomic formulas of a condition"""
    if c.op == "not":
        return _atoms(c.args[0])
    if c.op == "and":
        out = []
        for a in c.args:
            out += _atoms(a)
        return out
    return [c]


def assign(n, f, value):
    """replace formula f by a truth value everywhere"""
    return T.subst(n, {f: TRUE if value else FALSE})


def leaves(n, pc, budget, depth=0):
    """yield (pc, n) with n free of ite"""
    y = pick_ite(n)
    if y is None:
        yield pc, n
        return
    if depth > 40:
        raise TooBig("split depth")
    c = y.args[0]
    at = _atoms(c)[0]
    for v in (True, False):
        g = at if v else T.lnot(at)
        if budget[0] <= 0:
            raise TooBig("split budget")
        budget[0] -= 1
        if T.lnot(g) in pc:
            continue
        if g not in pc and solve.check(pc + [g], timeout=1500) == "unsat":
            continue
        yield from leaves(assign(n, at, v), pc + [g] if g not in pc else pc, budget, depth + 1)


# ------------------------------------------------------------- sampling
class Sampler:
    def __init__(self, hints=None, seed=1):
        self.rng = random.Random(seed)
        self.hints = hints or {}

    def value(self, s):
        name = s.args[0]
        kind, sign = T.SYM_ATTR[name]
        for h, f in self.hints.items():
            if name == h or (h.endswith("*") and name.startswith(h[:-1])):
                return f(self.rng)
        r = self.rng
        if kind == "int":
            v = r.randint(1, 5)
            if sign in ("nonneg",):
                v = r.randint(0, 5)
            return v
        mag = r.choice([r.uniform(0.1, 2.0), r.uniform(0.5, 1.5), 10 ** r.uniform(-2, 2)])
        if sign in ("pos", "nonneg"):
            return mag
        if sign == "neg":
            return -mag
        v = mag * r.choice([-1, 1])
        if kind == "complex":
            return complex(v, r.uniform(-1.5, 1.5))
        return v


def eval_pc(pc, env, memo):
    for f in pc:
        try:
            if not numeric.evaluate(f, env, memo):
                return False
        except numeric.EvalError:
            return None
    return True


CLIMB = [40.0]          # seconds left for improving counterexamples


def sample_refute(lhs, rhs, pc, hints=None, tries=60, seed=1, sub=None):
    """search for an env with pc true and lhs != rhs"""
    pcf = flatten(pc)
    if sub is None:
        sub, bad = solve_equalities(pcf)
        if bad:
            return None
    L, R = T.subst(lhs, sub), T.subst(rhs, sub)
    P = [T.subst(f, sub) for f in pcf]
    if any(f is FALSE for f in P):
        return None
    P = [f for f in P if f is not TRUE]
    SC = None if CTX.scale is None or L is T.ZERO else T.subst(CTX.scale, sub)
    syms = sorted(T.symbols(L, R, *(P if SC is None else P + [SC])), key=lambda s: s.args[0])
    sm = Sampler(hints, seed)
    tested = 0
    models = []
    got_model = False
    near = [(s, T.mk("sym", s.args[0][:-1])) for s in syms if s.args[0].endswith("'")]
    near = [(s, b) for s, b in near if b in syms or b in sub]
    best, extra, t1 = None, 0, 0
    t = -1
    while t + 1 < tries + (20 if near else 0) or best is not None:
        t += 1
        env = {s: sm.value(s) for s in syms}
        if best is not None:
            # climb from the best counterexample so far
            f_ = sm.rng.choice([3, 1, 1, 0.3, 0.1])
            fam = {} if extra % 2 else None
            for k_ in env:
                env[k_] = best[2][k_]
                if T.SYM_ATTR[k_.args[0]][0] != "real" or isinstance(env[k_], complex):
                    continue
                key = k_ if fam is None else k_.args[0].split(".")[0]
                g_ = (fam or {}).get(key)
                if g_ is None:
                    g_ = 10 ** sm.rng.uniform(-f_, f_) if sm.rng.random() < 0.5 else 1.0
                    if fam is not None:
                        fam[key] = g_
                if g_ != 1:
                    env[k_] = float(env[k_]) * g_
        elif near and t % 4 == 3 or t >= tries:
            # the earlier value of the attribute close to the later one
            f_ = 10 ** sm.rng.uniform(-7, -2) if t % 8 == 3 else sm.rng.choice([5e-6, 9e-6, 1e-6])
            for s, b_ in near:
                if b_ in env and T.SYM_ATTR[s.args[0]][0] != "int":
                    env[s] = env[b_] * (1 + f_ * sm.rng.choice([-1, 1]))
        elif models and t % 3 == 1:
            env.update(models[0])
        elif models and t % 3 == 2:
            f_ = 10 ** sm.rng.uniform(-9, -3)
            for k_, v_ in models[0].items():
                if k_ in env and T.SYM_ATTR[k_.args[0]][0] == "real":
                    env[k_] = float(v_) * (1 + sm.rng.uniform(-f_, f_)) or sm.rng.uniform(-f_, f_)
        elif t >= 20 and t % 2 == 0:
            # common rescaling reaches threshold branches
            f_ = 10 ** sm.rng.uniform(-9, 6)
            for k_ in env:
                if T.SYM_ATTR[k_.args[0]][0] == "real" and not isinstance(env[k_], complex) and sm.rng.random() < 0.8:
                    env[k_] = env[k_] * f_
        CTX.fix(env)
        memo = {}
        if best is not None:
            extra += 1
            if extra > 800 or time.time() > t1 + (8 if CLIMB[0] > 0 else 0.5):
                break
        ok = eval_pc(P, env, memo)
        if ok is not True:
            if t >= 25 and not got_model and tested == 0:
                got_model = True
                nz_ = [T.ne(s_, T.ZERO) for s_ in syms if T.SYM_ATTR[s_.args[0]][0] == "real"]
                r, m = solve.check(P + nz_, timeout=3000, model=True)
                if not (r == "sat" and m):
                    r, m = solve.check(P, timeout=3000, model=True)
                if r == "sat" and m:
                    models.append(m)
            continue
        tested += 1
        try:
            a, b = numeric.evaluate(L, env, memo), numeric.evaluate(R, env, memo)
        except (numeric.EvalError, ZeroDivisionError, ValueError, OverflowError):
            continue
        if differs(a, b):
            # not an artefact of the working precision
            try:
                with mp.workdps(160):
                    if not differs(numeric.evaluate(L, env, {}), numeric.evaluate(R, env, {})):
                        continue
            except (numeric.EvalError, ZeroDivisionError, ValueError, OverflowError):
                continue
            full = dict(env)
            for k, v in sub.items():
                try:
                    full[k] = numeric.evaluate(v, env, memo)
                except numeric.EvalError:
                    pass
            # a counterexample that double precision resolves, if there is one
            try:
                ref = abs(b)
                if SC is not None:
                    ref = max(ref, abs(numeric.evaluate(SC, env, {})) * mp.mpf(10) ** (-7))
                gap = min(abs(a - b) / ref, 1) if ref else mp.mpf(1)
                gap = gap if gap == gap else mp.mpf(1)
            except (ZeroDivisionError, TypeError, numeric.EvalError, ValueError, OverflowError):
                gap = mp.mpf(1)
            if best is None:
                t1 = time.time()
            if best is None or gap > best[0]:
                best = (gap, (full, a, b), env)
            if gap > 1e-4:
                break
        if best is None and tested >= (12 if not near else 20):
            break
    if best is not None:
        CLIMB[0] -= time.time() - t1
    return best[1] if best else None


def differs(a, b, tol=mp.mpf(10) ** (-18)):
    na, nb = numeric._isnan(a), numeric._isnan(b)
    if na or nb:
        return na != nb
    if mp.isinf(a) or mp.isinf(b):
        return not (mp.isinf(a) and mp.isinf(b))
    d = abs(a - b)
    s = abs(a) + abs(b)
    return d > tol * s and d > mp.mpf(10) ** (-300)


# ------------------------------------------------------------- definedness
def partial_ops(n):
    out = []
    for x in T.walk(n):
        if x.op == "pow" and T.isnum(x.args[1]) and T.val(x.args[1]) < 0 and not T.isnum(x.args[0]):
            out.append(("nonzero", x.args[0]))
        elif x.op == "pow" and T.isnum(x.args[0]) and T.val(x.args[0]) == 0:
            out.append(("nonzero", x.args[0]))
        elif x.op == "fn" and x.args[0] == "log":
            out.append(("positive", x.args[1]))
        elif x.op == "fn" and x.args[0] == "sqrt":
            out.append(("nonneg", x.args[1]))
    return out


def _triv(kind, x):
    """cheap syntactic proofs"""
    if T.isnum(x):
        v = T.val(x)
        return v != 0 if kind == "nonzero" else v > 0 if kind == "positive" else v >= 0
    return None


def prove_defined(n, pc, timeout=1500, seen=None):
    """(status, detail, env) for the partial operations of an ite-free term"""
    unknown = []
    for kind, x in partial_ops(n):
        key = (kind, x, frozenset(pc))
        if seen is not None:
            if key in seen:
                if seen[key] == "unknown":
                    unknown.append(T.show(x)[:160])
                continue
        t = _triv(kind, x)
        if t is True:
            continue
        if t is False:
            return "refuted", "%s: %s" % (kind, T.show(x)[:200]), {}
        goal = {"nonzero": T.ne(x, T.ZERO), "positive": T.lt(T.ZERO, x), "nonneg": T.le(T.ZERO, x)}[kind]
        if kind == "nonneg" and _nonneg(x):
            r = "proved"
        elif T.is_complex(x):
            r = "proved" if _complex_nonzero(x, pc, timeout) else "unknown"
        elif solve.entails(pc, goal, timeout):
            r = "proved"
        else:
            r = "unknown"
        if seen is not None:
            seen[key] = r
        if r == "unknown":
            unknown.append("%s: %s" % (kind, T.show(x)[:160]))
    if unknown:
        return "unknown", "; ".join(unknown[:3]), None
    return "proved", "", None


def _nonneg(x):
    try:
        nf = NF(CTX.rules)
        r = nf.norm(x)
        return nf.nonneg_poly(nf.reduce(r.n)) and all(nf.nonneg_poly(nf.polylist[k]) for k in r.d)
    except (Unsupported, TooBig, ZeroDivisionError):
        return False


def _complex_nonzero(x, pc, timeout):
    if x is T.I:
        return True
    if x.op == "sym":
        return T.SYM_ATTR[x.args[0]][1] == "nz"
    if x.op == "mul":
        return all(_complex_nonzero(a, pc, timeout) if T.is_complex(a) else solve.entails(pc, T.ne(a, T.ZERO), timeout) for a in x.args)
    if x.op == "pow":
        return _complex_nonzero(x.args[0], pc, timeout)
    if x.op == "fn" and x.args[0] == "csqrt":
        return _complex_nonzero(x.args[1], pc, timeout)
    if x.op == "fn" and x.args[0] == "exp":
        return True
    re, im = T.reim(x)
    return solve.entails(pc, T.lnot(T.land(T.eq(re, T.ZERO), T.eq(im, T.ZERO))), timeout)


# ------------------------------------------------------------- equality
def prove_eq(lhs, rhs, pc=(), rules=(), hints=None, budget=400, defined=True, use=None):
    """lhs == rhs under pc, for all values; lhs is what the code computes"""
    lhs, rhs = T.num(lhs), T.num(rhs)
    pc = list(pc)
    t0 = time.time()
    nleaves = 0
    unknown = None
    undef = None
    if lhs is rhs and not defined:
        return Verdict("proved", "syntactic", leaves=1)
    rules = list(rules) + list(CTX.rules)
    pair = T.mk("pair", lhs, rhs)
    seen = {}
    try:
        for lpc, lp in leaves(pair, pc, [budget]):
            l, r = lp.args
            nleaves += 1
            st, how, env = _leaf(l, r, lpc, rules, hints)
            if st == "refuted":
                return Verdict("refuted", how, env, "leaf %d: %s" % (nleaves, "; ".join(T.show(f)[:80] for f in lpc[-4:])), nleaves)
            if st == "unknown":
                unknown = how
            elif defined and st == "proved":
                ds, dd, denv = prove_defined(l, lpc, seen=seen)
                if ds == "refuted":
                    m = sample_refute(T.ZERO, T.ONE, lpc, hints)
                    return Verdict("refuted", "undefined operation " + dd, m[0] if m else None, "", nleaves)
                if ds == "unknown":
                    undef = dd
    except TooBig as e:
        unknown = "too big: %s" % e
    except Unsupported as e:
        unknown = "unsupported: %s" % e
    if nleaves == 0 and unknown is None:
        return Verdict("vacuous", "no feasible leaf")
    if unknown:
        return Verdict("unknown", unknown, leaves=nleaves)
    v = Verdict("proved", "nf", leaves=nleaves)
    v.undef = undef
    return v


def _zero_products(pc, want=()):
    """equalities s1*s2*... = 0 between symbols -> [[s1, s2, ...]], those over
    the symbols of the goal first"""
    out = []
    for f in flatten(pc):
        if f.op != "eq":
            continue
        a, b = f.args
        if any(T.has_op(x, "ite") or T.has_op(x, "sum") for x in (a, b)):
            continue
        try:
            nf = NF()
            r = nf.norm(T.add(a, T.neg(b)))
            p = nf.reduce(r.n)
        except (Unsupported, TooBig, ZeroDivisionError):
            continue
        if len(p) != 1:
            continue
        (m, _), = p.items()
        ss = [nf.atoms[k]["key"] for k, e in m if e > 0]
        ss = [T.mk("sym", k[1]) for k in ss if k[0] == "sym" and T.SYM_ATTR.get(k[1], (None, None))[1] != "pos"]
        if len(ss) >= 2 and len(ss) >= sum(1 for k, e in m if not (nf.atoms[k]["key"][0] == "sym" and T.SYM_ATTR.get(nf.atoms[k]["key"][1], (None, None))[1] == "pos") and nf.atoms[k]["key"][0] != "pi"):
            out.append(ss)
    return sorted(out, key=lambda ss: sum(x not in want for x in ss))


def _leaf(l, r, pc, rules, hints):
    v = _leaf1(l, r, pc, rules, hints)
    if v[0] == "unknown" and v[1] == "not normalised to zero":
        want = set(T.symbols(l)) | set(T.symbols(r))
        for ss in _zero_products(pc, want)[:4]:
            vs = [_leaf1(l, r, list(pc) + [T.eq(x, T.ZERO)], rules, hints) for x in ss]
            if all(x[0] == "proved" for x in vs):
                return "proved", "nf", None
        if not T.is_complex(l) and not T.is_complex(r) and not any(n.op in ("sum", "any") or n.op == "fn" and n.args[0] != "sqrt" for n in T.walk(T.add(l, r))):
            try:
                if solve.check(list(pc) + [T.ne(l, r)], timeout=1500) == "unsat":
                    return "proved", "z3", None
            except Exception:
                pass
    return v


def _leaf1(l, r, pc, rules, hints):
    if l is r:
        if l is T.NAN:
            return "proved", "nan", None
        return "proved", "syntactic", None
    sub, bad = solve_equalities(pc, rules)
    if bad:
        return "proved", "infeasible", None
    l2, r2 = T.subst(l, sub), T.subst(r, sub)
    if l2 is r2:
        return "proved", "syntactic", None
    why = "not normalised to zero"
    if l2 is T.NAN or r2 is T.NAN:
        m = sample_refute(T.ZERO, T.ONE, pc, hints, sub=sub)
        return ("refuted", "nan", m[0]) if m else ("unknown", "nan leaf without model", None)
    try:
        if NF(sub_rules(rules, sub) if sub else rules).is_zero(T.add(l2, T.neg(r2))):
            return "proved", "nf", None
    except TooBig as e:
        why = "TooBig"
    except Unsupported as e:
        why = "unsupported in nf: %s" % e
    except ZeroDivisionError:
        why = "division by zero"
    except AssertionError:
        why = "rule"
    m = sample_refute(l2, r2, pc, hints, sub=sub)
    if m:
        env, a, b = m
        return "refuted", "computed %s, contract %s" % (mp.nstr(a, 12), mp.nstr(b, 12)), env
    if why == "division by zero":
        # decide whether the leaf is reachable at all
        m = sample_refute(T.ZERO, T.ONE, pc, hints, sub=sub)
        if m:
            return "refuted", "division by zero", m[0]
    return "unknown", why, None


def prove(goal, pc=(), hints=None, timeout=4000):
    """a formula, by z3"""
    pc = list(pc)
    if goal is TRUE or solve.entails(pc, goal, timeout):
        return Verdict("proved", "z3")
    r, env = solve.check(pc + [T.lnot(goal)], timeout, model=True)
    if r == "sat":
        P = flatten(pc + [T.lnot(goal)])
        sm = Sampler(hints, 3)
        full = {s: sm.value(s) for s in T.symbols(*P)} if P else {}
        full.update(env)
        CTX.fix(full)
        ok = eval_pc(P, full, {})
        if ok:
            return Verdict("refuted", "z3", full)
        m = sample_refute(T.ZERO, T.ONE, pc + [T.lnot(goal)], hints)
        if m:
            return Verdict("refuted", "z3", m[0])
        return Verdict("unknown", "z3 model not confirmed")
    m = sample_refute(T.ZERO, T.ONE, pc + [T.lnot(goal)], hints)
    if m:
        return Verdict("refuted", "sampling", m[0])
    return Verdict("unknown", "z3 " + r)
