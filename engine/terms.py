"""Hash-consed mathematical terms and formulas over the reals / complex numbers.

Terms are what the symbolic interpreter computes when it executes the real
source; specification functions build terms with the same constructors.
Floating point values are treated as mathematical numbers (see DESIGN.md).
"""
from fractions import Fraction
import math

_table = {}


class Node:
    __slots__ = ("op", "args", "id", "_h", "__weakref__")
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other

    # arithmetic sugar -------------------------------------------------
    def __add__(self, o): return add(self, o)
    def __radd__(self, o): return add(o, self)
    def __sub__(self, o): return add(self, neg(o))
    def __rsub__(self, o): return add(o, neg(self))
    def __mul__(self, o): return mul(self, o)
    def __rmul__(self, o): return mul(o, self)
    def __truediv__(self, o): return div(self, o)
    def __rtruediv__(self, o): return div(o, self)
    def __neg__(self): return neg(self)
    def __pos__(self): return self
    def __pow__(self, e): return power(self, e)
    def __rpow__(self, b): return power(b, self)
    def __lt__(self, o): return lt(self, o)
    def __le__(self, o): return le(self, o)
    def __gt__(self, o): return lt(o, self)
    def __ge__(self, o): return le(o, self)

    def __bool__(self):
        if self.op == "true":
            return True
        if self.op == "false":
            return False
        raise TypeError("symbolic term used as a Python bool: %s" % self)

    def __repr__(self):
        return show(self)


def mk(op, *args):
    key = (op, args)
    n = _table.get(key)
    if n is None:
        n = Node()
        n.op = op
        n.args = args
        n.id = len(_table)
        n._h = hash(key)
        _table[key] = n
    return n


# ---------------------------------------------------------------- constants
_PIS = {math.pi: 1, 2 * math.pi: 2, 4 * math.pi: 4, math.pi / 2: Fraction(1, 2)}


def num(x):
    if isinstance(x, Node):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return mk("num", Fraction(x))
    if isinstance(x, Fraction):
        return mk("num", x)
    if isinstance(x, float):
        if x != x:
            return NAN
        if x in (math.inf, -math.inf):
            return INF if x > 0 else neg(INF)
        if x in _PIS:
            return mul(_PIS[x], mk("pi"))       # the double nearest to a multiple of pi stands for it
        return mk("num", Fraction(repr(x)))
    if isinstance(x, complex):
        return add(num(x.real), mul(num(x.imag), I))
    try:
        import numpy as _np
        if isinstance(x, _np.generic):
            return num(x.item())
    except ImportError:
        pass
    raise TypeError("not a number: %r" % (x,))


I = mk("I")
PI = mk("pi")
NAN = mk("nan")
INF = mk("inf")
TRUE = mk("true")
FALSE = mk("false")
ZERO = num(0)
ONE = num(1)

SYM_ATTR = {}


def sym(name, kind="real", sign=None):
    """kind: real | complex | int ; sign: pos | nonneg | neg | nz | None"""
    n = mk("sym", name)
    if name in SYM_ATTR:
        assert SYM_ATTR[name] == (kind, sign), (name, SYM_ATTR[name], kind, sign)
    SYM_ATTR[name] = (kind, sign)
    return n


_fresh = [0]


def fresh(prefix, kind="real", sign=None):
    _fresh[0] += 1
    return sym("%s!%d" % (prefix, _fresh[0]), kind, sign)


def isnum(n):
    return n.op == "num"


def val(n):
    return n.args[0]


# ---------------------------------------------------------------- arithmetic
def add(a, b):
    a, b = num(a), num(b)
    if a is NAN or b is NAN:
        return NAN
    if isnum(a):
        if isnum(b):
            return num(val(a) + val(b))
        if val(a) == 0:
            return b
    if isnum(b) and val(b) == 0:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk("add", a, b)


def neg(a):
    a = num(a)
    if isnum(a):
        return num(-val(a))
    return mul(num(-1), a)


def mul(a, b):
    a, b = num(a), num(b)
    if a is NAN or b is NAN:
        return NAN
    if isnum(b) and not isnum(a):
        a, b = b, a
    if isnum(a):
        if isnum(b):
            return num(val(a) * val(b))
        if val(a) == 0 and b.op not in ("inf",):
            return ZERO
        if val(a) == 1:
            return b
        if b.op == "mul" and isnum(b.args[0]):
            return mul(num(val(a) * val(b.args[0])), b.args[1])
        return mk("mul", a, b)
    if a is I and b is I:
        return num(-1)
    if a.op == "mul" and isnum(a.args[0]):
        return mul(a.args[0], mul(a.args[1], b))
    if b.op == "mul" and isnum(b.args[0]):
        return mul(b.args[0], mul(a, b.args[1]))
    if a.id > b.id:
        a, b = b, a
    return mk("mul", a, b)


def div(a, b):
    return mul(a, power(b, -1))


def power(a, e):
    a = num(a)
    e = num(e)
    if a is NAN or e is NAN:
        return NAN
    if isnum(e):
        ev = val(e)
        if ev == 0:
            return ONE
        if ev == 1:
            return a
        if isnum(a):
            av = val(a)
            if av == 0 and ev < 0:
                return mk("pow", a, e)
            if ev.denominator == 1:
                return num(av ** int(ev))
            if av == 0:
                return ZERO
            if av == 1:
                return ONE
        if ev.denominator == 1:
            if a is I:
                return [ONE, I, num(-1), neg(I)][int(ev) % 4]
            if a.op == "pow" and isnum(a.args[1]) and val(a.args[1]).denominator == 1:
                return power(a.args[0], val(a.args[1]) * ev)
            return mk("pow", a, e)
        if ev.denominator == 2:
            # half-integer power: principal square root raised to an integer
            return power(sqrt(a), ev * 2)
        return mk("pow", a, e)
    return mk("fn", "pow", a, e)


def is_complex(n, _memo={}):
    r = _memo.get(n)
    if r is None:
        if n.op == "I":
            r = True
        elif n.op == "sym":
            r = SYM_ATTR[n.args[0]][0] == "complex"
        elif n.op == "fn":
            if n.args[0] in ("re", "im", "abs", "floor", "trunc"):
                r = False
            else:
                r = n.args[0] in ("csqrt",) or any(is_complex(x) for x in n.args[1:] if isinstance(x, Node))
        else:
            r = any(is_complex(x) for x in n.args if isinstance(x, Node))
        _memo[n] = r
    return r


def sqrt(a):
    a = num(a)
    if a is NAN:
        return NAN
    if isnum(a) and val(a) >= 0:
        v = val(a)
        p, q = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if p * p == v.numerator and q * q == v.denominator:
            return num(Fraction(p, q))
    if a.op == "ite":
        return ite(a.args[0], sqrt(a.args[1]), sqrt(a.args[2]))
    if is_complex(a):
        return mk("fn", "csqrt", a)
    return mk("fn", "sqrt", a)


def fn(name, *args):
    args = tuple(num(a) for a in args)
    if any(a is NAN for a in args):
        return NAN
    if name == "sqrt":
        return sqrt(args[0])
    if name == "exp":
        if args[0] is ZERO:
            return ONE
    elif name == "log":
        if args[0] is ONE:
            return ZERO
    elif name in ("sin", "tan", "atan", "erf", "tanh", "sinh", "asin"):
        if args[0] is ZERO:
            return ZERO
    elif name in ("cos", "cosh"):
        if args[0] is ZERO:
            return ONE
    elif name in ("ellipk", "ellipe"):
        if args[0] is ZERO:
            return div(PI, num(2))
    elif name == "abs":
        a = args[0]
        if isnum(a):
            return num(abs(val(a)))
        if not is_complex(a):
            return sqrt(mul(a, a))
        re, im = fn("re", a), fn("im", a)
        return sqrt(add(mul(re, re), mul(im, im)))
    elif name in ("re", "im"):
        a = args[0]
        if not is_complex(a):
            return a if name == "re" else ZERO
        return reim(a)[0 if name == "re" else 1]
    elif name == "trunc" and args[0].op == "sym" and SYM_ATTR.get(args[0].args[0], ("real", None))[0] == "int":
        return args[0]
    elif name == "sign":
        a = args[0]
        return ite(lt(ZERO, a), ONE, ite(lt(a, ZERO), num(-1), ZERO))
    elif name == "conj":
        re, im = reim(args[0])
        return add(re, mul(num(-1), mul(I, im)))
    return mk("fn", name, *args)


def reim(a, _memo={}):
    """Real and imaginary part as terms (opaque re/im functions where needed)."""
    r = _memo.get(a)
    if r is not None:
        return r
    if not is_complex(a):
        r = (a, ZERO)
    elif a is I:
        r = (ZERO, ONE)
    elif a.op == "add":
        x, y = reim(a.args[0]), reim(a.args[1])
        r = (add(x[0], y[0]), add(x[1], y[1]))
    elif a.op == "mul":
        x, y = reim(a.args[0]), reim(a.args[1])
        r = (add(mul(x[0], y[0]), neg(mul(x[1], y[1]))), add(mul(x[0], y[1]), mul(x[1], y[0])))
    elif a.op == "ite":
        x, y = reim(a.args[1]), reim(a.args[2])
        r = (ite(a.args[0], x[0], y[0]), ite(a.args[0], x[1], y[1]))
    elif a.op == "fn" and a.args[0] == "exp":
        x = reim(a.args[1])
        r = (mul(fn("exp", x[0]), fn("cos", x[1])), mul(fn("exp", x[0]), fn("sin", x[1])))
    else:
        r = (mk("fn", "re", a), mk("fn", "im", a))
    _memo[a] = r
    return r


def cos_atan2(y, x):
    rho = sqrt(add(mul(x, x), mul(y, y)))
    return ite(eq(rho, ZERO), ONE, div(x, rho))


def sin_atan2(y, x):
    rho = sqrt(add(mul(x, x), mul(y, y)))
    return ite(eq(rho, ZERO), ZERO, div(y, rho))


def sin(a):
    a = num(a)
    if a.op == "fn" and a.args[0] == "atan2":
        return sin_atan2(a.args[1], a.args[2])
    if a.op == "mul" and isnum(a.args[0]) and val(a.args[0]) < 0:
        return neg(sin(neg(a)))
    return fn("sin", a)


def cos(a):
    a = num(a)
    if a.op == "fn" and a.args[0] == "atan2":
        return cos_atan2(a.args[1], a.args[2])
    if a.op == "mul" and isnum(a.args[0]) and val(a.args[0]) < 0:
        return cos(neg(a))
    return fn("cos", a)


def atan2(y, x):
    return fn("atan2", num(y), num(x))


def absv(a):
    a = num(a)
    return ite(lt(a, ZERO), neg(a), a)


def exp(a): return fn("exp", a)
def log(a): return fn("log", a)
def erf(a): return fn("erf", a)
def atan(a): return fn("atan", a)


# ---------------------------------------------------------------- formulas
def lt(a, b):
    a, b = num(a), num(b)
    if isnum(a) and isnum(b):
        return TRUE if val(a) < val(b) else FALSE
    if a is b:
        return FALSE
    if a is NAN or b is NAN:
        return FALSE
    return mk("lt", a, b)


def le(a, b):
    a, b = num(a), num(b)
    if isnum(a) and isnum(b):
        return TRUE if val(a) <= val(b) else FALSE
    if a is b:
        return TRUE
    if a is NAN or b is NAN:
        return FALSE
    return mk("le", a, b)


def eq(a, b):
    a, b = num(a), num(b)
    if isnum(a) and isnum(b):
        return TRUE if val(a) == val(b) else FALSE
    if a is NAN or b is NAN:
        return FALSE
    if a is b:
        return TRUE
    if a.id > b.id:
        a, b = b, a
    return mk("eq", a, b)


def ne(a, b):
    return lnot(eq(a, b))


def lnot(f):
    if f is TRUE:
        return FALSE
    if f is FALSE:
        return TRUE
    if f.op == "not":
        return f.args[0]
    return mk("not", f)


def land(*fs):
    out = []
    for f in fs:
        if f is FALSE:
            return FALSE
        if f is TRUE:
            continue
        for g in (f.args if f.op == "and" else (f,)):
            if g not in out:
                out.append(g)
    for g in out:
        if lnot(g) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *out)


def lor(*fs):
    return lnot(land(*[lnot(f) for f in fs]))


def implies(a, b):
    return lor(lnot(a), b)


def iff(a, b):
    return land(implies(a, b), implies(b, a))


def ite(c, a, b):
    a, b = num(a), num(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    return mk("ite", c, a, b)


def quant(kind, axis, f):
    """any/all over a symbolic axis (axis: hashable identity)."""
    if f is TRUE or f is FALSE:
        # non-emptiness of the axis is an input assumption (see DESIGN)
        return f
    if kind == "all":
        return lnot(quant("any", axis, lnot(f)))
    return mk("any", axis, f)


def sumover(axis, body):
    """Finite sum over the generic index of a symbolic axis."""
    if body is ZERO:
        return ZERO
    return mk("sum", axis, body)


def rec(axis, off, direction, ph, body, init):
    """State of a recurrence at the generic index k of a symbolic axis, the loop
    running over 0 .. n+off-1.  direction -1:  S(k) = body[ph := S(k+1)],
    S(n+off) = init.  direction +1:  S(k+1) = body[ph := S(k)], S(0) = init."""
    return mk("rec", axis, off, direction, ph, body, init)


def recat(r, kind, k):
    """that state at index k (kind "at"; k < 0 counts from the end) or at the
    generic index shifted by k (kind "sh")"""
    if r.op == "recat":
        if r.args[1] == "at":
            return r
        if kind == "sh":
            return recat(r.args[0], "sh", r.args[2] + k)
        k0 = k + r.args[2]
        if (k < 0) != (k0 < 0):
            raise ValueError("recurrence index")
        return recat(r.args[0], "at", k0)
    axis, off, direction, ph, body, init = r.args
    if kind == "sh" and k == 0:
        return r
    if kind == "at" and k == (0 if direction > 0 else off):
        return init
    return mk("recat", r, kind, k)


# ---------------------------------------------------------------- traversal
def children(n):
    return [a for a in n.args if isinstance(a, Node)]


def rebuild(n, args):
    op = n.op
    if op == "add": return add(*args)
    if op == "mul": return mul(*args)
    if op == "pow": return power(*args)
    if op == "fn":
        if args[0] == "sin": return sin(args[1])
        if args[0] == "cos": return cos(args[1])
        if args[0] == "csqrt": return sqrt(args[1])
        return fn(*args)
    if op == "ite": return ite(*args)
    if op == "lt": return lt(*args)
    if op == "le": return le(*args)
    if op == "eq": return eq(*args)
    if op == "not": return lnot(*args)
    if op == "and": return land(*args)
    if op == "any": return quant("any", *args)
    if op == "sum": return sumover(*args)
    if op == "recat": return recat(*args)
    return mk(op, *args)


def subst(n, mp, memo=None):
    """Replace nodes (terms or formulas) by others, simultaneously."""
    if memo is None:
        memo = {}
    r = memo.get(n)
    if r is not None:
        return r
    if n in mp:
        r = mp[n]
    elif not n.args or n.op in ("num", "sym"):
        r = n
    else:
        na = [subst(a, mp, memo) if isinstance(a, Node) else a for a in n.args]
        if all(x is y for x, y in zip(na, n.args)):
            r = n
        else:
            r = rebuild(n, na)
    memo[n] = r
    return r


def walk(n, seen=None):
    if seen is None:
        seen = set()
    stack = [n]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for a in x.args:
            if isinstance(a, Node):
                stack.append(a)


def symbols(*ns):
    seen = set()
    out = set()
    for n in ns:
        for x in walk(n, seen):
            if x.op == "sym":
                out.add(x)
    return out


def has_op(n, op):
    return any(x.op == op for x in walk(n))


def show(n, depth=0):
    if depth > 12:
        return "…"
    op = n.op
    d = depth + 1
    if op == "num":
        return str(n.args[0])
    if op == "sym":
        return n.args[0]
    if op in ("I", "pi", "nan", "inf", "true", "false"):
        return op
    if op == "add":
        return "(%s + %s)" % (show(n.args[0], d), show(n.args[1], d))
    if op == "mul":
        return "%s*%s" % (show(n.args[0], d), show(n.args[1], d))
    if op == "pow":
        return "%s^%s" % (show(n.args[0], d), show(n.args[1], d))
    if op == "fn":
        return "%s(%s)" % (n.args[0], ", ".join(show(a, d) for a in n.args[1:]))
    if op == "ite":
        return "[%s ? %s : %s]" % tuple(show(a, d) for a in n.args)
    if op in ("lt", "le", "eq"):
        return "%s %s %s" % (show(n.args[0], d), {"lt": "<", "le": "<=", "eq": "=="}[op], show(n.args[1], d))
    if op == "not":
        return "!(%s)" % show(n.args[0], d)
    if op == "and":
        return "(" + " & ".join(show(a, d) for a in n.args) + ")"
    return "%s(%s)" % (op, ", ".join(show(a, d) if isinstance(a, Node) else str(a) for a in n.args))


# ---------------------------------------------------------------- calculus
class NotDifferentiable(Exception):
    pass


def diff(n, x, memo=None):
    if memo is None:
        memo = {}
    r = memo.get(n)
    if r is not None:
        return r
    op = n.op
    if n is x:
        r = ONE
    elif op in ("num", "sym", "I", "pi", "nan", "inf"):
        r = ZERO
    elif op == "add":
        r = add(diff(n.args[0], x, memo), diff(n.args[1], x, memo))
    elif op == "mul":
        a, b = n.args
        r = add(mul(diff(a, x, memo), b), mul(a, diff(b, x, memo)))
    elif op == "pow":
        a, e = n.args
        r = mul(mul(e, power(a, val(e) - 1)), diff(a, x, memo))
    elif op == "ite":
        r = ite(n.args[0], diff(n.args[1], x, memo), diff(n.args[2], x, memo))
    elif op == "sum":
        r = sumover(n.args[0], diff(n.args[1], x, memo))
    elif op == "fn":
        name = n.args[0]
        ds = [diff(a, x, memo) for a in n.args[1:]]
        if all(d is ZERO for d in ds):
            r = ZERO
        else:
            r = _dfn(name, n.args[1:], ds, n)
    else:
        raise NotDifferentiable(op)
    memo[n] = r
    return r


def _dfn(name, a, d, n):
    u = a[0]
    if name in ("sqrt", "csqrt"):
        return div(d[0], mul(2, n))
    if name == "exp":
        return mul(n, d[0])
    if name == "log":
        return div(d[0], u)
    if name == "sin":
        return mul(fn("cos", u), d[0])
    if name == "cos":
        return neg(mul(fn("sin", u), d[0]))
    if name == "atan":
        return div(d[0], add(ONE, mul(u, u)))
    if name == "tanh":
        return mul(add(ONE, neg(mul(n, n))), d[0])
    if name == "erf":
        return mul(div(mul(num(2), exp(neg(mul(u, u)))), sqrt(PI)), d[0])
    if name == "atan2":
        y, x_ = a
        den = add(mul(x_, x_), mul(y, y))
        return div(add(mul(x_, d[0]), neg(mul(y, d[1]))), den)
    if name == "ellipk":
        m = u
        return mul(div(add(fn("ellipe", m), neg(mul(add(ONE, neg(m)), n))), mul(num(2), mul(m, add(ONE, neg(m))))), d[0])
    if name == "ellipe":
        m = u
        return mul(div(add(n, neg(fn("ellipk", m))), mul(num(2), m)), d[0])
    if name in ("iv", "kv"):
        nu, z = a
        if d[0] is not ZERO or not isnum(nu):
            raise NotDifferentiable(name)
        up, dn = fn(name, num(val(nu) + 1), z), fn(name, num(abs(val(nu) - 1)), z)
        g = mul(num(Fraction(1, 2)), add(up, dn))
        if name == "kv":
            g = neg(g)
        return mul(g, d[1])
    if name == "ive":
        nu, z = a
        up, dn = fn(name, num(val(nu) + 1), z), fn(name, num(abs(val(nu) - 1)), z)
        g = add(mul(num(Fraction(1, 2)), add(up, dn)), neg(n))
        return mul(g, d[1])
    raise NotDifferentiable(name)
