"""Rational-function normal form over algebraic / transcendental generators.

An expression is a quotient  N / prod(P_i^e_i)  with N a Laurent polynomial
over *atoms* (symbols, i, pi, square roots s with s^2 = arg, exp(m), sin, cos,
erf, Bessel functions, ...).  `is_zero` decides N == 0 modulo the defining
relations of the atoms (s^2 -> arg, i^2 -> -1, sin^2 -> 1-cos^2) and modulo the
polynomial hypotheses (rewrite rules) of the current context.  is_zero() ==
True is a proof that the expression vanishes wherever all denominators are
non-zero; False means "not proved".
"""
from fractions import Fraction
from functools import lru_cache
import math
from . import terms as T
from .terms import Node


class Unsupported(Exception):
    pass


class TooBig(Exception):
    pass


def _c(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return x.numerator
    return x


@lru_cache(maxsize=400000)
def mono_mul(a, b):
    """product of monomials -> (sign, mono); handles i^2 = -1."""
    if not a:
        return 1, b
    if not b:
        return 1, a
    d = dict(a)
    for k, e in b:
        v = d.get(k, 0) + e
        if v == 0:
            d.pop(k, None)
        else:
            d[k] = v
    s = 1
    if 0 in d:
        e = d[0] % 4
        if e >= 2:
            s = -1
            e -= 2
        if e == 0:
            del d[0]
        else:
            d[0] = 1
    return s, tuple(sorted(d.items()))


MAXTERMS = 60000


def padd(a, b, k=1):
    if not b:
        return a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c * k
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = _c(v)
    return r


def pmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    if len(a) * len(b) > 4000000:
        raise TooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            s, m = mono_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2 * s
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = _c(v)
    if len(r) > MAXTERMS:
        raise TooBig()
    return r


def pscale(a, k):
    if k == 0:
        return {}
    return {m: _c(c * k) for m, c in a.items()}


POLY1 = {(): 1}


class Rat:
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n = n
        self.d = d or {}


# argument permutations under which an opaque function is invariant
SYMMETRY = {}


_RECS = {}
_RECMEMO = {}


def canon_rec(n):
    """recurrences with provably equal step and initial value are the same"""
    r = _RECMEMO.get(n)
    if r is None:
        axis, off, d, ph, body, init = n.args
        bucket = _RECS.setdefault((axis, off, d), [])
        for m in bucket:
            b2 = T.subst(body, {ph: m.args[3]})
            if _same(init, m.args[5]) and _same(b2, m.args[4]):
                r = m
                break
        else:
            bucket.append(n)
            r = n
        _RECMEMO[n] = r
    return r


def _same(a, b):
    if a is b:
        return True
    if T.has_op(a, "ite") or T.has_op(b, "ite"):
        return False
    try:
        return NF().is_zero(T.add(a, T.neg(b)))
    except (TooBig, Unsupported, ZeroDivisionError):
        return False


class NF:
    def __init__(self, rules=()):
        self.atoms = []       # dicts
        self.index = {}
        self.memo = {}
        self.polys = {}       # frozenset -> (pid)
        self.polylist = []
        self.rules = []       # (lead mono, Poly)
        self.fnbuckets = {}
        self._new(("I",), nonneg=False)
        self._new(("pi",), nonneg=True)
        self._evalenv = {}
        for lhs, rhs in rules:
            self.add_rule(lhs, rhs)

    # -- atoms
    def _new(self, key, nonneg=False, sq=None, real=True):
        i = len(self.atoms)
        mono_sq = sq is not None and len(sq) == 1 and next(iter(sq.values())) == 1
        self.atoms.append(dict(key=key, nonneg=nonneg, sq=sq, mono=mono_sq, real=real))
        self.index[key] = i
        return i

    def atom(self, key, **kw):
        i = self.index.get(key)
        if i is None:
            i = self._new(key, **kw)
        return i

    def add_rule(self, lhs, rhs):
        """lhs, rhs: Nodes; lhs must normalise to a single monomial."""
        l = self.norm(lhs)
        assert not l.d and len(l.n) == 1
        (m, c), = l.n.items()
        r = self.norm(rhs)
        assert not r.d
        self.rules.append((m, pscale(r.n, Fraction(1) / Fraction(c))))
        self.memo.clear()

    # -- reduction
    def _reducible(self, m):
        for k, e in m:
            sq = self.atoms[k]["sq"]
            if sq is not None:
                if self.atoms[k]["mono"]:
                    if e not in (0, 1):
                        return ("sq", k, e)
                elif e >= 2:
                    return ("sq", k, e)
        for idx, (lead, _) in enumerate(self.rules):
            d = dict(m)
            ok = True
            for k, e in lead:
                if d.get(k, 0) < e:
                    ok = False
                    break
            if ok:
                return ("rule", idx, None)
        return None

    def reduce(self, p):
        out = {}
        work = p
        steps = 0
        cache = {}
        while work:
            nxt = {}
            for m, c in work.items():
                rr = cache.get(m)
                if rr is None:
                    rr = self._red1(m)
                    cache[m] = rr
                if rr is False:
                    v = out.get(m, 0) + c
                    if v == 0:
                        out.pop(m, None)
                    else:
                        out[m] = _c(v)
                else:
                    for m2, c2 in rr.items():
                        v = nxt.get(m2, 0) + c * c2
                        if v == 0:
                            nxt.pop(m2, None)
                        else:
                            nxt[m2] = _c(v)
            work = nxt
            steps += 1
            if steps > 200 or len(work) > MAXTERMS * 3:
                raise TooBig()
        return out

    def _red1(self, m):
        r = self._reducible(m)
        if r is None:
            return False
        if r[0] == "sq":
            _, k, e = r
            q, rem = e // 2, e % 2
            rest = tuple((a, b) for a, b in m if a != k)
            if rem:
                _, rest = mono_mul(rest, ((k, 1),))
            p = {rest: 1}
            sq = self.atoms[k]["sq"]
            if q >= 0:
                for _ in range(q):
                    p = pmul(p, sq)
            else:
                (sm, sc), = sq.items()
                inv = tuple((a, -b) for a, b in sm)
                for _ in range(-q):
                    p = pmul(p, {inv: 1})
            return p
        lead, rhs = self.rules[r[1]]
        inv = tuple((a, -b) for a, b in lead)
        s, rest = mono_mul(m, inv)
        return pmul({rest: s}, rhs)

    # -- polys as denominators
    def content(self, p):
        """split p = c * mono * primitive"""
        if len(p) == 1:
            (m, c), = p.items()
            return c, m, POLY1
        mins = None
        for m in p:
            d = dict(m)
            if mins is None:
                mins = dict(d)
            else:
                for k in list(mins):
                    mins[k] = min(mins[k], d.get(k, 0))
                for k, e in d.items():
                    if k not in mins:
                        mins[k] = min(0, e)
        mins.pop(0, None)
        mono = tuple(sorted((k, e) for k, e in mins.items() if e != 0))
        if mono:
            inv = tuple((k, -e) for k, e in mono)
            q = {}
            for m, c in p.items():
                s, m2 = mono_mul(m, inv)
                q[m2] = c * s
            p = q
        lead = min(p)
        c0 = p[lead]
        den = 1
        g = 0
        for c in p.values():
            f = Fraction(c)
            den = den * f.denominator // math.gcd(den, f.denominator)
        for c in p.values():
            g = math.gcd(g, int(Fraction(c) * den))
        cont = Fraction(g, den)
        if c0 < 0:
            cont = -cont
        q = {m: _c(Fraction(c) / cont) for m, c in p.items()}
        return _c(cont), mono, q

    def prim(self, p):
        """c, mono, primitive with square roots reduced to a fixpoint"""
        c, mono, q = 1, (), p
        for _ in range(20):
            q = self.reduce(q)
            if not q:
                return 0, (), {}
            c1, m1, q1 = self.content(q)
            c = c * c1
            s, mono = mono_mul(mono, m1)
            c *= s
            if q1 == q:
                return _c(Fraction(c)), mono, q1
            q = q1
        return _c(Fraction(c)), mono, q

    def polyid(self, p):
        key = frozenset(p.items())
        i = self.polys.get(key)
        if i is None:
            i = len(self.polylist)
            self.polys[key] = i
            self.polylist.append(p)
        return i

    # -- Rat arithmetic
    def rconst(self, c):
        return Rat({(): _c(c)} if c else {})

    def ratom(self, i, e=1):
        s, m = mono_mul((), ((i, e),))
        return Rat({m: s})

    def radd(self, a, b):
        if not a.n:
            return b
        if not b.n:
            return a
        if a.d == b.d:
            return Rat(padd(a.n, b.n), a.d)
        den = dict(a.d)
        for k, e in b.d.items():
            den[k] = max(den.get(k, 0), e)
        na, nb = a.n, b.n
        for k, e in den.items():
            for _ in range(e - a.d.get(k, 0)):
                na = pmul(na, self.polylist[k])
            for _ in range(e - b.d.get(k, 0)):
                nb = pmul(nb, self.polylist[k])
        return Rat(padd(na, nb), den)

    def rmul(self, a, b):
        if not a.n or not b.n:
            return Rat({})
        den = dict(a.d)
        for k, e in b.d.items():
            den[k] = den.get(k, 0) + e
        an, bn = a.n, b.n
        # exact cancellation of a numerator that equals a denominator factor
        for which in (0, 1):
            p = (an, bn)[which]
            if len(p) > 1 and den:
                c, m, q = self.content(p)
                pid = self.polys.get(frozenset(q.items()))
                if pid is not None and den.get(pid, 0) > 0:
                    den[pid] -= 1
                    if den[pid] == 0:
                        del den[pid]
                    if which == 0:
                        an = {m: c}
                    else:
                        bn = {m: c}
        n = self.redmono(pmul(an, bn))
        return Rat(n, den)

    def redmono(self, p):
        """apply the cheap (monomial) square-root reductions"""
        need = False
        for m in p:
            for k, e in m:
                a = self.atoms[k]
                if a["mono"] and e not in (0, 1):
                    need = True
                    break
            if need:
                break
        if not need:
            return p
        out = {}
        for m, c in p.items():
            q = {m: c}
            for k, e in m:
                a = self.atoms[k]
                if a["mono"] and e not in (0, 1):
                    qn, rem = e // 2, e % 2
                    (sm, sc), = a["sq"].items()
                    mm = tuple((x, y * qn) for x, y in sm if y * qn)
                    base = tuple((x, y) for x, y in next(iter(q)) if x != k)
                    if rem:
                        _, base = mono_mul(base, ((k, 1),))
                    s, nm = mono_mul(base, mm)
                    q = {nm: next(iter(q.values())) * s}
            (nm, nc), = q.items()
            v = out.get(nm, 0) + nc
            if v == 0:
                out.pop(nm, None)
            else:
                out[nm] = v
        if out.keys() != p.keys():
            return self.redmono(out)
        return out

    def rinv(self, a):
        if not a.n:
            raise ZeroDivisionError()
        c, m, q = self.prim(a.n)
        if not q:
            raise ZeroDivisionError()
        inv = tuple((k, -e) for k, e in m)
        s, inv = mono_mul((), inv)
        # 1/i = -i is handled by mono_mul only on products
        ie = dict(inv).get(0)
        if ie is not None and ie < 0:
            inv2 = tuple((k, e) for k, e in inv if k != 0)
            s2, inv = mono_mul(inv2, ((0, (ie % 4)),)) if ie % 4 else (1, inv2)
            s *= s2
        n = {inv: _c(Fraction(1) / Fraction(c) * s)}
        for k, e in a.d.items():
            for _ in range(e):
                n = pmul(n, self.polylist[k])
        n = self.redmono(n)
        den = {}
        if q != POLY1:
            den = {self.polyid(q): 1}
        return Rat(n, den)

    def rpow(self, a, e):
        if e == 0:
            return Rat(dict(POLY1))
        if e < 0:
            return self.rpow(self.rinv(a), -e)
        r = None
        b = a
        while e:
            if e & 1:
                r = b if r is None else self.rmul(r, b)
            e >>= 1
            if e:
                b = self.rmul(b, b)
        return r

    # -- main
    def norm(self, n):
        r = self.memo.get(n)
        if r is not None:
            return r
        # iterative for deep DAGs
        stack = [n]
        while stack:
            x = stack[-1]
            if x in self.memo:
                stack.pop()
                continue
            kids = [a for a in x.args if isinstance(a, Node)] if x.op in ("add", "mul", "pow", "fn") else []
            pend = [k for k in kids if k not in self.memo]
            if pend:
                stack.extend(pend)
                continue
            self.memo[x] = self._norm(x)
            stack.pop()
        return self.memo[n]

    def _norm(self, n):
        op = n.op
        if op == "num":
            return self.rconst(n.args[0])
        if op == "I":
            return self.ratom(0)
        if op == "pi":
            return self.ratom(1)
        if op == "sym":
            kind, sign = T.SYM_ATTR[n.args[0]]
            return self.ratom(self.atom(("sym", n.args[0]), nonneg=sign in ("pos", "nonneg"), real=kind != "complex"))
        if op == "add":
            return self.radd(self.norm(n.args[0]), self.norm(n.args[1]))
        if op == "mul":
            return self.rmul(self.norm(n.args[0]), self.norm(n.args[1]))
        if op == "pow":
            e = n.args[1]
            if T.isnum(e) and T.val(e).denominator == 1:
                return self.rpow(self.norm(n.args[0]), int(T.val(e)))
            raise Unsupported("pow")
        if op == "fn":
            return self._fn(n)
        if op == "sum":
            return self.ratom(self.atom(("sum", n.args[0], n.args[1])))
        if op == "rec":
            return self.ratom(self.atom(("rec", canon_rec(n)), real=False))
        if op == "recat":
            return self.ratom(self.atom(("recat", canon_rec(n.args[0])) + n.args[1:], real=False))
        raise Unsupported(op)

    # -- functions
    def _simplify_rat(self, a):
        """cheap canonicalisation used before looking inside a Rat"""
        if not a.d:
            return Rat(self.redmono(a.n))
        return a

    def _sqrt(self, a, node):
        """sqrt of a Rat: split into provably non-negative factors"""
        out = Rat(dict(POLY1))
        c, m, q = self.prim(a.n)
        if not q:
            return Rat({})
        rest = Rat(q) if q != POLY1 else Rat(dict(POLY1))
        cc = Fraction(c)
        # denominators: sqrt(N/P) = sqrt(N*P)/P
        for k, e in a.d.items():
            for _ in range(e // 2 + e % 2):
                out = self.rmul(out, Rat(dict(POLY1), {k: 1}))
            if e % 2:
                rest = self.rmul(rest, Rat(self.polylist[k]))
            # valid for P > 0; for unknown sign of P the identity holds only up
            # to sign, so demand provable non-negativity
            if not self.nonneg_poly(self.polylist[k]):
                return None
        restmono = []
        for k, e in m:
            if e % 2 == 0:
                at = self.atoms[k]
                if at["nonneg"] or (at["real"] and (e // 2) % 2 == 0 and e != 0 and False):
                    out = self.rmul(out, self.ratom(k, e // 2))
                    continue
                restmono.append((k, e))
            else:
                at = self.atoms[k]
                if at["nonneg"]:
                    s = self.atom(("sqrt", ((k, 1),)), nonneg=True, sq={((k, 1),): 1})
                    out = self.rmul(out, self.ratom(s, e))
                else:
                    restmono.append((k, e))
        if restmono:
            rest = self.rmul(rest, Rat({tuple(restmono): 1}))
        # numeric coefficient
        if cc < 0:
            rest = self.rmul(rest, self.rconst(-1))
            cc = -cc
        nnum, nden = cc.numerator, cc.denominator
        out = self.rmul(out, self._sqrt_int(nnum))
        out = self.rmul(out, self.rinv(self._sqrt_int(nden)))
        return out, rest

    def _sqrt_int(self, n):
        out = 1
        r = self.rconst(1)
        p = 2
        while p * p <= n and p < 100000:
            while n % (p * p) == 0:
                n //= p * p
                out *= p
            p += 1
        f = {}
        p = 2
        while n > 1 and p * p <= n and p < 100000:
            while n % p == 0:
                f[p] = f.get(p, 0) + 1
                n //= p
            p += 1
        if n > 1:
            f[n] = f.get(n, 0) + 1
        for p, e in f.items():
            s = self.atom(("sqrtint", p), nonneg=True, sq={(): p})
            r = self.rmul(r, self.ratom(s, e))
        return self.rmul(self.rconst(out), r)

    def nonneg_poly(self, p):
        """syntactic: sum of terms each of which is provably >= 0"""
        for m, c in p.items():
            if Fraction(c) < 0:
                return False
            for k, e in m:
                a = self.atoms[k]
                if k == 0:
                    return False
                if a["nonneg"]:
                    continue
                if e % 2 == 0 and a["real"]:
                    continue
                return False
        return True

    def _root(self, a, kind, node):
        sp = self._sqrt(a, node)
        if sp is None:
            # opaque root of the whole rational function
            nm = self.rmul(a, self.rconst(1))
            return self._opaque_root(kind, nm)
        if isinstance(sp, Rat):
            return sp
        out, rest = sp
        if rest.d:
            return self.rmul(out, self._opaque_root(kind, rest))
        p = self.reduce(rest.n)
        if p == POLY1:
            return out
        if not p:
            return Rat({})
        # sqrt of i, -i, -1
        if len(p) == 1:
            (m, c), = p.items()
            if m == ((0, 1),) and c in (1, -1):
                s2 = self._sqrt_int(2)
                v = self.radd(self.rconst(Fraction(1, 2)), Rat({((0, 1),): Fraction(c, 2)}))
                return self.rmul(out, self.rmul(s2, v))
            if m == () and c == -1:
                return self.rmul(out, self.ratom(0))
        sq = self._perfect_square(p)
        if sq is not None:
            return self.rmul(out, sq)
        key = ("root", frozenset(p.items()))
        real = self._realpoly(p)
        i = self.atom(key, nonneg=real, sq=dict(p), real=real)
        return self.rmul(out, self.ratom(i))

    def _realpoly(self, p):
        for m in p:
            for k, e in m:
                if k == 0 or not self.atoms[k]["real"]:
                    return False
        return True

    def _perfect_square(self, p):
        """recognise p = q^2 with q provably >= 0 (q a sum of >=0 terms)"""
        if len(p) not in (1, 3):
            return None
        sq = []
        cross = []
        for m, c in p.items():
            if c > 0 and all(e % 2 == 0 for _, e in m):
                f = Fraction(c)
                a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
                if a * a == f.numerator and b * b == f.denominator:
                    sq.append((Fraction(a, b), tuple((k, e // 2) for k, e in m)))
                    continue
            cross.append((m, c))
        if len(p) == 3 and len(sq) == 2 and len(cross) == 1:
            (c1, m1), (c2, m2) = sq
            s, mm = mono_mul(m1, m2)
            (m, c) = cross[0]
            if mm == m and c == 2 * c1 * c2 and s == 1:
                q = {m1: _c(c1), m2: _c(c2)}
                if self.nonneg_poly(q):
                    return Rat(q)
        return None

    def _opaque_root(self, kind, a):
        sqn = self.reduce(a.n)
        key = ("rootrat", frozenset(sqn.items()), tuple(sorted(a.d.items())))
        i = self.index.get(key)
        if i is None:
            i = self._new(key, nonneg=kind == "sqrt", sq=None, real=kind == "sqrt")
            self.atoms[i]["sqrat"] = a
        return self.ratom(i)

    def _fn(self, n):
        name = n.args[0]
        args = [self.norm(a) if isinstance(a, Node) else a for a in n.args[1:]]
        if name in ("sqrt", "csqrt"):
            return self._root(args[0], name, n)
        if name == "exp":
            return self._exp(args[0])
        if name == "ive":
            z = n.args[2]
            return self.norm(T.mul(T.mk("fn", "iv", n.args[1], z), T.exp(T.neg(z))))
        if name in ("iv", "kv") and T.isnum(n.args[1]) and T.val(n.args[1]) >= 2:
            nu, z = T.val(n.args[1]), n.args[2]
            a, b = T.fn(name, T.num(nu - 1), z), T.fn(name, T.num(nu - 2), z)
            co = T.div(T.num(2 * (nu - 1)), z)
            if name == "iv":
                return self.norm(T.add(b, T.neg(T.mul(co, a))))
            return self.norm(T.add(b, T.mul(co, a)))
        if name in ("sin", "cos"):
            r = self._shifted(name, args[0])
            if r is not None:
                return r
        if name in ("sin", "tan", "atan", "erf", "sinh", "tanh"):
            a, s = self._signed(args[0])
            if not a.n:
                return Rat({})
            r = self._fatom(name, [a], n)
            return self.rmul(self.rconst(s), r)
        if name in ("cos", "cosh"):
            a, s = self._signed(args[0])
            if not a.n:
                return self.rconst(1)
            return self._fatom(name, [a], n)
        if name in ("ellipk", "ellipe") and not self.reduce(args[0].n):
            return self.norm(T.div(T.PI, T.num(2)))
        return self._fatom(name, args, n)

    def _shifted(self, name, a):
        """quarter turns in the argument of sin and cos"""
        i = self.index.get(("pi",))
        if i is None or a.d:
            return None
        c = Fraction(a.n.get(((i, 1),), 0)) if not isinstance(a.n.get(((i, 1),), 0), complex) else 0
        if c == 0 or (2 * c).denominator != 1:
            return None
        b = Rat({m: v for m, v in a.n.items() if m != ((i, 1),)})
        k = int(2 * c) % 4
        f, sg = {"sin": [("sin", 1), ("cos", 1), ("sin", -1), ("cos", -1)], "cos": [("cos", 1), ("sin", -1), ("cos", -1), ("sin", 1)]}[name][k]
        if not b.n:
            return self.rconst(sg if f == "cos" else 0) if f == "cos" else Rat({})
        b, s = self._signed(b)
        node = T.mk("fn", f, T.sym("!shift"))
        r = self._fatom(f, [b], node)
        return self.rmul(self.rconst(sg * (s if f == "sin" else 1)), r)

    def _signed(self, a):
        """canonical sign: returns (b, s) with a = s*b"""
        c, m, q = self.prim(a.n)
        if not q:
            return Rat({}), 1
        if c < 0:
            return Rat(pscale(a.n, -1), a.d), -1
        return a, 1

    def _exp(self, a):
        if not a.n:
            return self.rconst(1)
        out = self.rconst(1)
        dk = tuple(sorted(a.d.items()))
        for m, c in self.reduce(a.n).items():
            # exp(c*m/d): generator exp(m/d), exponent c
            im = dict(m).get(0, 0)
            real = im == 0 and all(self.atoms[k]["real"] for k, _ in m)
            i = self.atom(("exp", m, dk), nonneg=real, real=real)
            out = self.rmul(out, Rat({((i, Fraction(c) if Fraction(c).denominator != 1 else int(c)),): 1}))
        return out

    def _fatom(self, name, args, node):
        key0 = (name, tuple(self._key(a) for a in args))
        i = self.index.get(("f",) + key0)
        if i is None:
            # semantic lookup among atoms of the same function
            bucket = self.fnbuckets.setdefault((name, len(args)), [])
            perms = SYMMETRY.get(name) or (None,)
            for (j, bargs) in bucket:
                if any(all(self._eqrat(x, y) for x, y in zip(args if pm is None else [args[k] for k in pm], bargs)) for pm in perms):
                    i = j
                    self.index[("f",) + key0] = j
                    break
        if i is None:
            real = not T.is_complex(node)
            sq = None
            if name == "sin":
                ci = self._fatom("cos", args, T.mk("fn", "cos", *node.args[1:]))
                (cm, _), = ci.n.items()
                sq = padd({(): 1}, pmul({cm: 1}, {cm: 1}), -1)
            i = self._new(("f",) + key0, nonneg=name in ("cosh", "ellipk", "ellipe") , sq=sq, real=real)
            self.fnbuckets.setdefault((name, len(args)), []).append((i, args))
        return self.ratom(i)

    def _key(self, a):
        return (frozenset(self.reduce(a.n).items()), tuple(sorted(a.d.items())))

    def _eqrat(self, a, b):
        try:
            return self.ratzero(self.radd(a, self.rmul(self.rconst(-1), b)))
        except TooBig:
            return False

    # -- decision
    def ratzero(self, r):
        p = r.n
        if not p:
            return True
        p = self.clear(p)
        for _ in range(10):
            q = self.reduce(p)
            if not q:
                return True
            q2 = self.clear(q)
            if q2 == p:
                break
            if q2 == q and not self._any_red(q2):
                return self._rootrat_zero(q2)
            p = q2
        return self._rootrat_zero(p)

    def _any_red(self, p):
        return any(self._reducible(m) is not None for m in p)

    def _rootrat_zero(self, p):
        """square of an opaque root of a rational function: s^2 = N/D"""
        for m in p:
            for k, e in m:
                if "sqrat" in self.atoms[k] and e >= 2:
                    a = self.atoms[k]["sqrat"]
                    tot = Rat({})
                    for m2, c2 in p.items():
                        d = dict(m2)
                        ee = d.pop(k, 0)
                        t = Rat({tuple(sorted(d.items())): c2})
                        t = self.rmul(t, self.rpow(a, ee // 2))
                        if ee % 2:
                            t = self.rmul(t, self.ratom(k))
                        tot = self.radd(tot, t)
                    return self.ratzero(tot)
        return not p

    def clear(self, p):
        mins = {}
        for m in p:
            for k, e in m:
                if e < mins.get(k, 0):
                    mins[k] = e
        if not mins:
            return p
        # exp atoms are invertible and need no clearing, but doing so is harmless
        f = {tuple(sorted((k, -e) for k, e in mins.items())): 1}
        return pmul(p, f)

    def is_zero(self, n):
        """n: Node without ite. True = proved identically zero."""
        sums = [x for x in T.walk(n) if x.op == "sum"]
        if sums:
            return self._zero_sums(n)
        try:
            if self._grouped_zero(n):
                return True
        except (TooBig, ZeroDivisionError):
            pass
        if len({x for x in T.walk(n) if x.op == "fn" and x.args[0] == "sqrt"}) >= 4:
            try:
                if self._root_grouped_zero(n):
                    return True
            except (TooBig, ZeroDivisionError):
                pass
        return self.ratzero(self.norm(n))

    def _addends(self, n, limit=96):
        if n.op == "add":
            a = self._addends(n.args[0], limit)
            b = a and self._addends(n.args[1], limit)
            return a + b if a and b and len(a) + len(b) <= limit else None
        if n.op == "mul":
            a = self._addends(n.args[0], limit)
            b = a and self._addends(n.args[1], limit)
            if not a or not b or len(a) * len(b) > limit:
                return None
            if len(a) == 1 and len(b) == 1:
                return [n]
            return [T.mul(x, y) for x in a for y in b]
        return [n]

    def poly_term(self, p):
        """the term of a polynomial over symbols, or None"""
        tot = T.ZERO
        for m, c in sorted(p.items()):
            t = T.num(Fraction(c))
            for k, e in m:
                key = self.atoms[k]["key"]
                if key[0] != "sym":
                    return None
                t = T.mul(t, T.power(T.mk("sym", key[1]), e))
            tot = T.add(tot, t)
        return tot

    def simp(self, n, limit=12):
        """an equal, shorter polynomial term where there is one"""
        try:
            r = self.norm(n)
            if r.d:
                return n
            p = self.reduce(r.n)
            if len(p) > limit:
                return n
            t = self.poly_term(p)
            return n if t is None else t
        except (TooBig, Unsupported, ZeroDivisionError):
            return n

    def _canon_roots(self, r):
        """root^-k rewritten with the radicand in the denominator"""
        low = {}
        for m in r.n:
            for k, e in m:
                if e < 0 and self.atoms[k]["sq"] is not None and not self.atoms[k]["mono"]:
                    low[k] = min(low.get(k, 0), e)
        if not low:
            return Rat(self.reduce(r.n), r.d)
        n, d = r.n, dict(r.d)
        for k, e in low.items():
            h = (-e + 1) // 2
            c, mono, q = self.content(self.atoms[k]["sq"])
            n = pmul(n, {((k, 2 * h),): 1})
            inv = tuple((a, -b * h) for a, b in mono)
            n = pmul(n, {inv: Fraction(1) / Fraction(c) ** h})
            if q != POLY1:
                pid = self.polyid(q)
                d[pid] = d.get(pid, 0) + h
        return Rat(self.reduce(n), d)

    def _grouped_zero(self, n):
        """sufficient test: the addends cancel within each denominator"""
        ads = self._addends(n)
        if not ads or len(ads) < 4:
            return False
        groups = {}
        for a in ads:
            r = self._canon_roots(self.norm(a))
            if not r.n:
                continue
            k = frozenset(r.d.items())
            g = groups.get(k)
            groups[k] = r if g is None else self.radd(g, r)
        return all(self.ratzero(g) for g in groups.values())

    def _root_grouped_zero(self, n):
        """sufficient test: the addends cancel among those with the same roots"""
        ads = self._addends(n, 4000)
        if not ads or len(ads) < 8:
            return False
        memo = {}

        def roots(x):
            out = set()
            for y in T.walk(x):
                if y.op == "fn" and y.args[0] in ("sqrt", "csqrt"):
                    k = memo.get(y)
                    if k is None:
                        r = self.norm(y)
                        k = memo[y] = (frozenset(r.n.items()), frozenset(r.d.items()))
                    out.add(k)
            return frozenset(out)
        groups = {}
        for a in ads:
            groups.setdefault(roots(a), []).append(a)
        keys = sorted(groups, key=len, reverse=True)
        top = []
        for k in keys:
            home = [t for t in top if k <= t]
            if len(home) > 1:
                return False
            if home:
                groups[home[0]].extend(groups[k])
            else:
                top.append(k)
        if len(top) < 2:
            return False
        for k in top:
            tot = groups[k][0]
            for a in groups[k][1:]:
                tot = T.add(tot, a)
            if not self.ratzero(self.norm(tot)):
                return False
        return True

    def _zero_sums(self, n):
        """linear combinations of finite sums over one axis"""
        r = self.norm(n)
        # collect sum atoms present in the numerator
        ids = {}
        for m in r.n:
            for k, e in m:
                key = self.atoms[k]["key"]
                if key[0] == "sum":
                    if e != 1:
                        return self.ratzero(r)
                    ids[k] = key
        if not ids:
            return self.ratzero(r)
        for axis in {key[1] for key in ids.values()}:
            total = Rat({})
            rest = {}
            for m, c in r.n.items():
                hit = [k for k, e in m if k in ids and ids[k][1] == axis]
                if not hit:
                    rest[m] = c
                    continue
                k = hit[0]
                body = self.norm(ids[k][2])
                co = tuple((a, e) for a, e in m if a != k)
                if any(self.atoms[a]["key"][0] == "sum" for a, e in co):
                    return False
                total = self.radd(total, self.rmul(Rat({co: c}, r.d), body))
            if not self.ratzero(total):
                return False
            r = Rat(rest, r.d)
            if not rest:
                return True
        return self.ratzero(r)
