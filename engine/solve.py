"""Feasibility / validity of path conditions over the reals, by z3 (NRA)."""
import time
import z3
from . import terms as T
from .terms import Node, TRUE, FALSE

STATS = {"queries": 0, "time": 0.0, "unknown": 0}


class Untranslatable(Exception):
    pass


class Tr:
    def __init__(self):
        self.memo = {}
        self.side = []
        self.vars = {}

    def real(self, n):
        r = self.memo.get(n)
        if r is not None:
            return r
        op = n.op
        if op == "num":
            v = n.args[0]
            r = z3.Q(v.numerator, v.denominator)
        elif op == "sym":
            kind, sign = T.SYM_ATTR[n.args[0]]
            if kind == "complex":
                raise Untranslatable("complex")
            r = z3.Real(n.args[0])
            self.vars[n] = r
            if kind == "int":
                self.side.append(z3.IsInt(r))
            if sign == "pos":
                self.side.append(r > 0)
            elif sign == "nonneg":
                self.side.append(r >= 0)
            elif sign == "neg":
                self.side.append(r < 0)
            elif sign == "nz":
                self.side.append(r != 0)
        elif op == "pi":
            r = z3.Real("pi")
            self.side.append(r > z3.Q(31415926, 10000000))
            self.side.append(r < z3.Q(31415927, 10000000))
        elif op == "add":
            r = self.real(n.args[0]) + self.real(n.args[1])
        elif op == "mul":
            r = self.real(n.args[0]) * self.real(n.args[1])
        elif op == "pow":
            e = int(T.val(n.args[1]))
            b = self.real(n.args[0])
            if e > 0:
                r = b
                for _ in range(e - 1):
                    r = r * b
            else:
                q = z3.FreshReal("inv")
                p = b
                for _ in range(-e - 1):
                    p = p * b
                self.side.append(z3.Implies(b != 0, q * p == 1))
                r = q
        elif op == "ite":
            r = z3.If(self.bool(n.args[0]), self.real(n.args[1]), self.real(n.args[2]))
        elif op == "fn":
            name = n.args[0]
            if name == "sqrt":
                a = self.real(n.args[1])
                s = z3.FreshReal("sqrt")
                self.side.append(s >= 0)
                self.side.append(z3.Implies(a >= 0, s * s == a))
                r = s
            else:
                if T.is_complex(n):
                    raise Untranslatable(name)
                s = z3.FreshReal(name)
                if name == "exp":
                    self.side.append(s > 0)
                    try:
                        a = self.real(n.args[1])
                        self.side.append(z3.And(z3.Implies(a > 0, s > 1), z3.Implies(a < 0, s < 1), s >= 1 + a))
                    except Untranslatable:
                        pass
                elif name in ("sin", "cos"):
                    self.side.append(z3.And(s >= -1, s <= 1))
                    other = T.mk("fn", "cos" if name == "sin" else "sin", n.args[1])
                    if other in self.memo:
                        o = self.memo[other]
                        self.side.append(o * o + s * s == 1)
                elif name in ("erf", "tanh"):
                    self.side.append(z3.And(s > -1, s < 1))
                    a = self.real(n.args[1])
                    self.side.append(z3.And((a > 0) == (s > 0), (a < 0) == (s < 0)))
                elif name == "atan":
                    self.side.append(z3.And(s > z3.Q(-16, 10), s < z3.Q(16, 10)))
                elif name == "atan2":
                    self.side.append(z3.And(s > z3.Q(-32, 10), s < z3.Q(32, 10)))
                elif name in ("ellipk", "ellipe"):
                    self.side.append(s > 0)
                elif name in ("iv", "kv", "ive"):
                    pass
                r = s
        else:
            raise Untranslatable(op)
        self.memo[n] = r
        return r

    def bool(self, f):
        r = self.memo.get(f)
        if r is not None:
            return r
        op = f.op
        if op == "true":
            r = z3.BoolVal(True)
        elif op == "false":
            r = z3.BoolVal(False)
        elif op == "not":
            r = z3.Not(self.bool(f.args[0]))
        elif op == "and":
            r = z3.And(*[self.bool(a) for a in f.args])
        elif op in ("lt", "le", "eq"):
            try:
                if op == "eq" and (T.is_complex(f.args[0]) or T.is_complex(f.args[1])):
                    d = T.add(f.args[0], T.neg(f.args[1]))
                    re, im = T.reim(d)
                    r = z3.And(self.real(re) == 0, self.real(im) == 0)
                else:
                    a, b = self.real(f.args[0]), self.real(f.args[1])
                    r = a < b if op == "lt" else a <= b if op == "le" else a == b
            except Untranslatable:
                r = z3.FreshBool("opq")
        elif op == "any":
            # quantified over a symbolic axis: an independent propositional atom
            r = z3.Bool("any!%d" % f.id)
        else:
            r = z3.FreshBool("opq")
        self.memo[f] = r
        return r


def generic_instances(fs):
    """not any_axis(phi) gives not phi for the generic element."""
    out = []
    for f in fs:
        out.append(f)
        if f.op == "and":
            out.extend(generic_instances(f.args))
        if f.op == "not" and f.args[0].op == "any":
            out.extend(generic_instances([T.lnot(f.args[0].args[1])]))
    return out


class Canon:
    """comparisons brought to polynomial form by the normal form, so that z3
    sees polynomials over symbols and square-root variables only"""

    def __init__(self):
        from .nf import NF
        from .ctx import CTX
        self.nf = NF(CTX.rules)
        self.vars = {}
        self.side = []
        self.syms = {}

    def atom(self, k):
        v = self.vars.get(k)
        if v is not None:
            return v
        a = self.nf.atoms[k]
        key = a["key"]
        if not a["real"]:
            raise Untranslatable("complex")
        if key[0] == "sym":
            kind, sign = T.SYM_ATTR[key[1]]
            v = z3.Real(key[1])
            self.vars[k] = v
            self.syms[T.mk("sym", key[1])] = v
            if kind == "int":
                self.side.append(z3.IsInt(v))
            if sign == "pos":
                self.side.append(v > 0)
            elif sign == "nonneg":
                self.side.append(v >= 0)
            elif sign == "neg":
                self.side.append(v < 0)
            elif sign == "nz":
                self.side.append(v != 0)
            return v
        if key[0] == "pi":
            v = z3.Real("pi")
            self.side += [v > z3.Q(31415926, 10000000), v < z3.Q(31415927, 10000000)]
            self.vars[k] = v
            return v
        if key[0] in ("root", "sqrt", "sqrtint") and a["sq"] is not None:
            v = z3.Real("root!%d" % k)
            self.vars[k] = v
            self.side.append(v >= 0)
            q = self.poly(a["sq"])
            self.side.append(z3.Implies(q >= 0, v * v == q) if not self.nf.nonneg_poly(a["sq"]) else v * v == q)
            return v
        raise Untranslatable(str(key[0]))

    def poly(self, p):
        tot = None
        for m, c in p.items():
            t = z3.Q(int(c.numerator), int(c.denominator)) if hasattr(c, "numerator") else z3.RealVal(c)
            for k, e in m:
                if not isinstance(e, int) or e < 0 or e > 24:
                    raise Untranslatable("exponent")
                v = self.atom(k)
                for _ in range(e):
                    t = t * v
            tot = t if tot is None else tot + t
        return z3.RealVal(0) if tot is None else tot

    def cmp(self, op, a, b):
        nf = self.nf
        # sqrt(E) ? c  with c >= 0 constant
        if op in ("lt", "le", "eq"):
            def issq(n):
                return n.op == "fn" and n.args[0] == "sqrt"
            if issq(a) and T.isnum(b) and T.val(b) >= 0 or issq(b) and T.isnum(a) and T.val(a) >= 0 or issq(a) and issq(b):
                a, b = T.mul(a, a), T.mul(b, b)
        r = nf.norm(T.add(a, T.neg(b)))
        p = nf.reduce(r.n)
        for k, e in r.d.items():
            q = nf.polylist[k]
            if not nf.nonneg_poly(q):
                if e % 2:
                    p = _pmul(p, q)
                    if op == "eq":
                        pass
                self.side.append(self.poly(q) != 0)
            else:
                self.side.append(self.poly(q) > 0)
        # clear negative exponents by even powers
        mins = {}
        for m in p:
            for k, e in m:
                if e < mins.get(k, 0):
                    mins[k] = e
        if mins:
            f = {}
            mono = []
            for k, e in sorted(mins.items()):
                if isinstance(e, int):
                    if nf.atoms[k]["nonneg"]:
                        mono.append((k, -e))
                    else:
                        mono.append((k, -e + (-e) % 2))
                    self.side.append(self.atom(k) != 0)
                else:
                    raise Untranslatable("exponent")
            p = nf.reduce(_pmul(p, {tuple(mono): 1}))
        z = self.poly(p)
        return z < 0 if op == "lt" else z <= 0 if op == "le" else z == 0

    def bool(self, f):
        op = f.op
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "not":
            return z3.Not(self.bool(f.args[0]))
        if op == "and":
            return z3.And(*[self.bool(a) for a in f.args])
        if op in ("lt", "le", "eq"):
            if any(T.has_op(x, "ite") or T.has_op(x, "sum") for x in f.args) or any(T.is_complex(x) for x in f.args):
                raise Untranslatable("ite")
            return self.cmp(op, f.args[0], f.args[1])
        if op == "any":
            return z3.Bool("any!%d" % f.id)
        raise Untranslatable(op)


def _pmul(a, b):
    from .nf import pmul
    return pmul(a, b)


def canon_check(fs, timeout):
    """a second attempt in polynomial form; formulas that do not translate are
    dropped, so only 'unsat' is meaningful"""
    from .nf import Unsupported, TooBig
    c = Canon()
    sol = z3.Solver()
    sol.set("timeout", timeout)
    n = 0
    for f in fs:
        try:
            sol.add(c.bool(f))
            n += 1
        except (Untranslatable, Unsupported, TooBig, ZeroDivisionError):
            continue
    if n == 0:
        return "unknown"
    for x in c.side:
        sol.add(x)
    return str(sol.check())


_cache = {}


def _zint(n):
    op = n.op
    if op == "sym":
        return z3.Int(n.args[0])
    if op == "num":
        v = T.val(n)
        if v.denominator != 1:
            raise ValueError
        return z3.IntVal(int(v))
    if op == "add":
        return _zint(n.args[0]) + _zint(n.args[1])
    if op == "mul" and T.isnum(n.args[0]):
        return _zint(n.args[0]) * _zint(n.args[1])
    raise ValueError


def _zform(f):
    op = f.op
    if op == "not":
        return z3.Not(_zform(f.args[0]))
    if op == "and":
        return z3.And(*[_zform(a) for a in f.args])
    a, b = _zint(f.args[0]), _zint(f.args[1])
    if op == "lt":
        return a < b
    if op == "le":
        return a <= b
    if op == "eq":
        return a == b
    raise ValueError


def int_unsat(fs):
    """the linear integer part (lengths, indices, ranks) on its own"""
    out, syms = [], set()
    for f in fs:
        ss = T.symbols(f)
        if not ss or any(T.SYM_ATTR[x.args[0]][0] != "int" for x in ss):
            continue
        try:
            out.append(_zform(f))
        except (ValueError, IndexError, AttributeError):
            continue
        syms |= ss
    if not out:
        return False
    s = z3.Solver()
    s.set("timeout", 500)
    s.add(*out)
    for x in syms:
        sg = T.SYM_ATTR[x.args[0]][1]
        if sg == "pos":
            s.add(z3.Int(x.args[0]) >= 1)
        elif sg == "nonneg":
            s.add(z3.Int(x.args[0]) >= 0)
    return s.check() == z3.unsat


_closed = {}


def closed(f):
    """comparisons of constants are decided numerically (40 digits, margin 1e-30)"""
    if f.op == "not":
        g = closed(f.args[0])
        return FALSE if g is TRUE else TRUE if g is FALSE else f
    if f.op not in ("lt", "le"):
        return f
    r = _closed.get(f)
    if r is None:
        r = f
        if not T.symbols(f) and not T.has_op(f, "ite") and not T.has_op(f, "any"):
            from . import numeric
            try:
                d = numeric.evaluate(f.args[1] - f.args[0], {}, {})
                if abs(d) > 1e-30:
                    r = TRUE if d > 0 else FALSE
            except Exception:
                pass
        _closed[f] = r
    return r


def check(fs, timeout=2000, model=False, near=True):
    """'unsat' | 'sat' | 'unknown' for the conjunction of formulas."""
    fs = tuple(f for f in dict.fromkeys(map(closed, generic_instances(fs))) if f is not TRUE)
    if any(f is FALSE for f in fs):
        return ("unsat", None) if model else "unsat"
    s = set(fs)
    for f in fs:
        if T.lnot(f) in s:
            return ("unsat", None) if model else "unsat"
    if not fs:
        return ("sat", {}) if model else "sat"
    key = (frozenset(fs), timeout)
    if not model and key in _cache:
        return _cache[key]
    if int_unsat(fs):
        _cache[key] = "unsat"
        return ("unsat", None) if model else "unsat"
    if near and len(fs) > 8 and not model:
        # the facts closest to the last formula often suffice
        q = fs[-1]
        qs = set(T.symbols(q))
        close = [f for f in fs[:-1] if len(T.symbols(f)) <= 4 and qs & set(T.symbols(f))]
        if close and len(close) < len(fs) - 1 and check(close + [q], min(timeout, 500), near=False) == "unsat":
            _cache[key] = "unsat"
            return "unsat"
    from .ctx import CTX
    if CTX.rules and not model and canon_check(fs, min(timeout, 1000)) == "unsat":
        _cache[key] = "unsat"
        return "unsat"
    tr = Tr()
    t0 = time.time()
    sol = z3.Solver()
    sol.set("timeout", timeout)
    for f in fs:
        sol.add(tr.bool(f))
    for c in tr.side:
        sol.add(c)
    r = str(sol.check())
    if r == "unknown" and not model:
        if canon_check(fs, timeout) == "unsat":
            r = "unsat"
    STATS["queries"] += 1
    STATS["time"] += time.time() - t0
    if r == "unknown":
        STATS["unknown"] += 1
    if model:
        if r != "sat":
            return r, None
        m = sol.model()
        env = {}
        for n, v in tr.vars.items():
            x = m.eval(v, model_completion=True)
            try:
                if z3.is_algebraic_value(x):
                    x = x.approx(40)
                env[n] = x.as_fraction()
            except Exception:
                pass
        return r, env
    _cache[key] = r
    return r


def entails(fs, g, timeout=2000):
    if g is TRUE:
        return True
    if g in fs:
        return True
    if g.op == "and":
        return all(entails(fs, x, timeout) for x in g.args)
    return check(list(fs) + [T.lnot(g)], timeout) == "unsat"
