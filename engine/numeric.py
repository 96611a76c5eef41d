"""High-precision numeric evaluation of terms (mpmath)."""
import mpmath as mp
from . import terms as T
from .terms import Node

mp.mp.dps = 40


class EvalError(Exception):
    pass


def _atan2(y, x):
    return mp.atan2(y, x)


EXTRA = {}      # numeric meaning of specification functions


def _f(name, a):
    if name in EXTRA:
        return EXTRA[name](*a)
    if name == "sqrt":
        if isinstance(a[0], mp.mpf) and a[0] < 0:
            if a[0] > -mp.mpf(10) ** (-30):
                return mp.mpf(0)
            return mp.nan
        return mp.sqrt(a[0])
    if name == "csqrt":
        return mp.sqrt(a[0])
    if name == "exp":
        return mp.exp(a[0])
    if name == "log":
        if a[0] == 0:
            return mp.ninf
        if isinstance(a[0], mp.mpf) and a[0] < 0:
            return mp.nan
        return mp.log(a[0])
    if name in ("sin", "cos", "tan", "atan", "tanh", "sinh", "cosh", "erf", "asin", "acos"):
        return getattr(mp, name)(a[0])
    if name == "erfc":
        return mp.erfc(a[0])
    if name == "atan2":
        return _atan2(a[0], a[1])
    if name == "ellipk":
        return mp.ellipk(a[0])
    if name == "ellipe":
        return mp.ellipe(a[0])
    if name == "iv":
        return mp.besseli(a[0], a[1])
    if name == "kv":
        return mp.besselk(a[0], a[1])
    if name == "ive":
        return mp.besseli(a[0], a[1]) * mp.exp(-abs(mp.re(a[1])))
    if name == "kve":
        return mp.besselk(a[0], a[1]) * mp.exp(a[1])
    if name == "re":
        return mp.re(a[0])
    if name == "im":
        return mp.im(a[0])
    if name == "pow":
        return mp.power(a[0], a[1])
    if name == "floor":
        return mp.floor(a[0])
    if name == "trunc":
        return mp.floor(a[0]) if a[0] >= 0 else mp.ceil(a[0])
    raise EvalError(name)


def evaluate(n, env, memo=None, defs=None):
    """env: {sym node: number}. Returns mpf/mpc, or bool for formulas."""
    if memo is None:
        memo = {}
    stack = [n]
    while stack:
        x = stack[-1]
        if x in memo:
            stack.pop()
            continue
        op = x.op
        if op == "ite":
            c = x.args[0]
            if c not in memo:
                stack.append(c)
                continue
            b = x.args[1] if memo[c] else x.args[2]
            if b not in memo:
                stack.append(b)
                continue
            memo[x] = memo[b]
            stack.pop()
            continue
        if op == "sum" or op == "any":
            raise EvalError(op)
        kids = [a for a in x.args if isinstance(a, Node)]
        pend = [k for k in kids if k not in memo]
        if pend:
            stack.extend(pend)
            continue
        memo[x] = _ev(x, [memo[k] for k in kids], env)
        stack.pop()
    return memo[n]


def _ev(x, a, env):
    op = x.op
    if op == "num":
        v = x.args[0]
        return mp.mpf(v.numerator) / v.denominator
    if op == "sym":
        if x not in env:
            raise EvalError("unbound " + x.args[0])
        v = env[x]
        if isinstance(v, complex):
            return mp.mpc(v)
        if isinstance(v, (mp.mpf, mp.mpc)):
            return v
        if hasattr(v, "numerator") and hasattr(v, "denominator"):
            return mp.mpf(int(v.numerator)) / int(v.denominator)
        return mp.mpf(v)
    if op == "I":
        return mp.mpc(0, 1)
    if op == "pi":
        return mp.pi + mp.mpf(0)
    if op == "nan":
        return mp.nan
    if op == "inf":
        return mp.inf
    if op == "true":
        return True
    if op == "false":
        return False
    if op == "add":
        return a[0] + a[1]
    if op == "mul":
        return a[0] * a[1]
    if op == "pow":
        if a[0] == 0 and mp.re(a[1]) < 0:
            return mp.nan
        return a[0] ** (int(x.args[1].args[0]) if x.args[1].op == "num" and x.args[1].args[0].denominator == 1 else a[1])
    if op == "fn":
        if any(_isnan(v) for v in a):
            return mp.nan
        try:
            return _f(x.args[0], a)
        except (ZeroDivisionError, ValueError):
            return mp.nan
    if op == "lt":
        return mp.re(a[0]) < mp.re(a[1])
    if op == "le":
        return mp.re(a[0]) <= mp.re(a[1])
    if op == "eq":
        return _close0(a[0], a[1])
    if op == "not":
        return not a[0]
    if op == "and":
        return all(a)
    raise EvalError(op)


def _close0(a, b):
    d = abs(a - b)
    if d == 0:
        return True
    s = abs(a) + abs(b)
    return d < s * mp.mpf(10) ** (-32) or d < mp.mpf(10) ** (-60)


def _isnan(v):
    if isinstance(v, mp.mpc):
        return mp.isnan(v.real) or mp.isnan(v.imag)
    if isinstance(v, bool):
        return False
    return mp.isnan(v)
