"""Assumed contracts of the external dependencies (builtins, numpy, scipy).

Each entry is the mathematical specification of the library function on
generic-element arrays.  These are trusted (listed in the evidence).
"""
import inspect as _pytypes
import numpy as np
from fractions import Fraction
from . import terms as T
from .terms import Node, TRUE, FALSE
from .nf import Unsupported
from .arrays import *
from .arrays import is_formula
from . import indexing as IX
from . import solve
from collections import namedtuple
Prod = namedtuple("Prod", "axes")        # several axes flattened into one


def PyRaise(e):
    from .interp import PyRaise as P
    return P(e)


def lift(v):
    return to_arr(v)


def unwrap(a):
    """0-d results become scalars, like numpy"""
    if isinstance(a, Arr) and a.scalar:
        v = a.item()
        if is_formula(v):
            if v is TRUE:
                return True
            if v is FALSE:
                return False
        return v
    return a


NUMERIC = (int, float, complex, Node, Arr, bool)


def as_term(b):
    """boolean -> 0/1 in arithmetic"""
    if is_formula(b):
        return T.ite(b, T.ONE, T.ZERO)
    return b


# ------------------------------------------------------------------ operators
def _arith(op):
    def add(a, b): return T.add(as_term(a), as_term(b))
    def sub(a, b): return T.add(as_term(a), T.neg(as_term(b)))
    def mul(a, b): return T.mul(as_term(a), as_term(b))
    def div(a, b): return T.div(as_term(a), as_term(b))
    def pw(a, b): return T.power(as_term(a), as_term(b))
    def fdiv(a, b):
        a, b = as_term(a), as_term(b)
        if T.isnum(a) and T.isnum(b) and T.val(b) != 0:
            return T.num(T.val(a) // T.val(b))
        return T.fn("floor", T.div(a, b))
    def mod(a, b):
        a, b = as_term(a), as_term(b)
        return T.add(a, T.neg(T.mul(b, T.fn("floor", T.div(a, b)))))
    return {"Add": add, "Sub": sub, "Mult": mul, "Div": div, "Pow": pw, "FloorDiv": fdiv, "Mod": mod}[op]


def binop(I, op, a, b):
    from .interp import Obj, Opaque, SymStr, ShapeTuple, SymSeq
    if isinstance(a, Obj) or isinstance(b, Obj):
        names = {"Add": ("__add__", "__radd__"), "Sub": ("__sub__", "__rsub__"), "Mult": ("__mul__", "__rmul__"), "MatMult": ("__matmul__", "__rmatmul__"), "Div": ("__truediv__", "__rtruediv__")}.get(op)
        if names and isinstance(a, Obj):
            m, _ = a.cls.lookup(names[0])
            if m is not None:
                return I.call(m, [a, b], {})
        if names and isinstance(b, Obj):
            m, _ = b.cls.lookup(names[1])
            if m is not None:
                return I.call(m, [b, a], {})
        raise PyRaise(TypeError("unsupported operand"))
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque("binop")
    if isinstance(a, str) or isinstance(b, str):
        if op == "Mod" or op == "Add":
            return SymStr("str")
        if op == "Mult":
            return SymStr("str")
        raise PyRaise(TypeError("str operand"))
    if isinstance(a, RotVal) and isinstance(b, RotVal) and op == "Mult":
        return RotVal([[_sum([T.mul(a.m[i][k], b.m[k][j]) for k in range(3)]) for j in range(3)] for i in range(3)])
    if op == "Add" and isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, list) != isinstance(b, list):
            raise PyRaise(TypeError("concatenate"))
        if isinstance(a, ShapeTuple) or isinstance(b, ShapeTuple):
            return ShapeTuple(tuple(a) + tuple(b))
        return a + b
    if op == "Mult" and (isinstance(a, (list, tuple)) and isinstance(b, (int, Node)) or isinstance(b, (list, tuple)) and isinstance(a, (int, Node))):
        s, n = (a, b) if isinstance(a, (list, tuple)) else (b, a)
        if isinstance(n, int):
            return type(s)(tuple(s) * n) if isinstance(s, tuple) else s * n
        ni = IX._as_int(n)
        if ni is not None:
            return s * ni
        if tuple(s) == (1,):
            return ShapeTuple(ones_for(n))
        raise Unsupported("sequence repetition")
    if op == "MatMult":
        return matmul(lift(a), lift(b))
    if op == "BitAnd" or op == "BitOr" or op == "BitXor":
        if isinstance(a, bool) and isinstance(b, bool):
            return (a & b) if op == "BitAnd" else (a | b) if op == "BitOr" else a ^ b
        if isinstance(a, int) and isinstance(b, int):
            return (a & b) if op == "BitAnd" else (a | b) if op == "BitOr" else a ^ b
        if isinstance(a, set) and isinstance(b, set):
            return a & b if op == "BitAnd" else a | b
        x, y = lift(a), lift(b)
        if x.dtype != "b" or y.dtype != "b":
            raise PyRaise(TypeError("bitwise operation on floats"))
        f = {"BitAnd": T.land, "BitOr": T.lor, "BitXor": lambda p, q: T.lnot(T.iff(p, q))}[op]
        return unwrap(elementwise(f, x, y, dtype="b"))
    if isinstance(a, int) and isinstance(b, int):
        if op == "Add": return a + b
        if op == "Sub": return a - b
        if op == "Mult": return a * b
        if op == "Div":
            if b == 0:
                raise PyRaise(ZeroDivisionError("division by zero"))
            return T.num(Fraction(a, b))
        if op == "FloorDiv":
            if b == 0:
                raise PyRaise(ZeroDivisionError("division by zero"))
            return a // b
        if op == "Mod":
            if b == 0:
                raise PyRaise(ZeroDivisionError("division by zero"))
            return a % b
        if op == "Pow":
            return a ** b if b >= 0 else T.num(Fraction(a) ** b)
        if op == "LShift": return a << b
        if op == "RShift": return a >> b
    if a is None or b is None or isinstance(a, (dict, set)) or isinstance(b, (dict, set)):
        raise PyRaise(TypeError("unsupported operand type"))
    from .interp import Bad
    if isinstance(a, Bad) or isinstance(b, Bad):
        raise PyRaise(TypeError("unsupported operand type"))
    if isinstance(a, (list, tuple)) and not isinstance(b, Arr) or isinstance(b, (list, tuple)) and not isinstance(a, Arr):
        if not (isinstance(a, Node) or isinstance(b, Node)):
            raise PyRaise(TypeError("unsupported operand type"))
    if isinstance(a, NUMERIC + (list, tuple)) and isinstance(b, NUMERIC + (list, tuple)):
        if op == "Div" and not isinstance(a, Arr) and not isinstance(b, Arr):
            # python scalar division by a literal zero raises; a symbolic python
            # float divisor is handled by the definedness obligations
            bb = lift(b).item()
            if T.isnum(bb) and T.val(bb) == 0:
                raise PyRaise(ZeroDivisionError("float division by zero"))
        try:
            f = _arith(op)
        except KeyError:
            raise Unsupported("operator " + op)
        x, y = lift(a), lift(b)
        dt = max_dtype(x.dtype, y.dtype)
        if op == "Div":
            dt = max_dtype(dt, "f")
        if dt == "b":
            dt = "i"
        if x.dtype == "b" and y.dtype == "b" and op == "Sub":
            raise PyRaise(TypeError("numpy boolean subtract"))
        try:
            r = elementwise(f, x, y, dtype=dt)
        except ShapeError as e:
            raise PyRaise(ValueError(str(e)))
        if op == "Pow" and r.dtype in "if" and any(T.is_complex(v) for v in r.data.flat):
            r.dtype = "c"
        return unwrap(r)
    raise Unsupported("binop %s %r %r" % (op, type(a), type(b)))


def ones_for(n):
    """(1,)*n for n = rank(pack)+c  ->  OnesPack marker + c ones"""
    for s in T.symbols(n):
        if s.args[0].startswith("rank:"):
            name = s.args[0][5:]
            from .nf import NF
            r = NF().norm(T.add(n, T.neg(s)))
            if not r.n:
                return (OnesPack(name),)
            if not r.d and len(r.n) == 1 and () in r.n and int(r.n[()]) > 0:
                return (OnesPack(name),) + (1,) * int(r.n[()])
    raise Unsupported("symbolic repetition")


def compare(I, op, a, b):
    from .interp import Obj, Opaque, Bad, ShapeTuple, ClassVal
    if op == "Is" or op == "IsNot":
        r = _is(I, a, b)
        if isinstance(r, Node):
            return r if op == "Is" else I.pybool(T.lnot(r))
        return r if op == "Is" else not r
    if op in ("In", "NotIn"):
        if isinstance(b, (list, tuple, set, str, range)):
            if isinstance(b, str):
                r = a in b
            else:
                r = False
                for x in b:
                    c = compare(I, "Eq", a, x)
                    if I.truth(c):
                        r = True
                        break
        elif isinstance(b, dict) or type(b).__name__ in ("dict_keys",):
            r = a in b
        else:
            raise Unsupported("in %r" % (type(b),))
        return r if op == "In" else not r
    if isinstance(a, ShapeTuple) or isinstance(b, ShapeTuple):
        if op not in ("Eq", "NotEq"):
            raise Unsupported("shape order")
        r = shape_eq(a, b)
        return r if op == "Eq" else I.pybool(T.lnot(r)) if isinstance(r, Node) else not r
    if isinstance(a, (str, type(None), dict, set, type, ClassVal)) or isinstance(b, (str, type(None), dict, set, type, ClassVal)):
        if isinstance(a, (Arr,)) or isinstance(b, Arr):
            raise Unsupported("array compared with non-number")
        if op == "Eq":
            return a is b if isinstance(a, (type, ClassVal)) else (type(a) == type(b) or isinstance(a, str) and isinstance(b, str)) and a == b
        if op == "NotEq":
            return not compare(I, "Eq", a, b)
        if isinstance(a, str) and isinstance(b, str):
            return {"Lt": a < b, "Gt": a > b, "LtE": a <= b, "GtE": a >= b}[op]
        raise PyRaise(TypeError("ordering"))
    if isinstance(a, Bad) or isinstance(b, Bad):
        if op in ("Eq", "NotEq"):
            return op == "NotEq"
        raise PyRaise(TypeError("ordering"))
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque("cmp")
    isty = lambda v: isinstance(v, _Marker) or _pytypes.isfunction(v)      # built-in types are modelled by these
    if isty(a) and isty(b) and op in ("Eq", "NotEq"):
        return (a is b) == (op == "Eq")
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if op not in ("Eq", "NotEq"):
            raise Unsupported("sequence order")
        if len(a) != len(b) or isinstance(a, list) != isinstance(b, list):
            r = False
        else:
            r = True
            for x, y in zip(a, b):
                c = compare(I, "Eq", x, y)
                if not I.truth(c):
                    r = False
                    break
        return r if op == "Eq" else not r
    if isinstance(a, Obj) or isinstance(b, Obj):
        if op in ("Eq", "NotEq"):
            return (a is b) == (op == "Eq")
        raise PyRaise(TypeError("ordering"))
    if isinstance(a, int) and isinstance(b, int):
        return {"Lt": a < b, "Gt": a > b, "LtE": a <= b, "GtE": a >= b, "Eq": a == b, "NotEq": a != b}[op]
    if isinstance(a, NUMERIC + (list, tuple)) and isinstance(b, NUMERIC + (list, tuple)):
        f = {"Lt": T.lt, "LtE": T.le, "Gt": lambda x, y: T.lt(y, x), "GtE": lambda x, y: T.le(y, x), "Eq": T.eq, "NotEq": T.ne}[op]
        g = lambda x, y: f(as_term(x), as_term(y))
        try:
            return unwrap(elementwise(g, lift(a), lift(b), dtype="b"))
        except ShapeError as e:
            if op in ("Eq", "NotEq"):
                raise Unsupported("== of mismatched shapes")
            raise PyRaise(ValueError(str(e)))
    raise Unsupported("compare %r %r" % (type(a), type(b)))


def _is(I, a, b):
    if isinstance(a, SymBoolVal) or isinstance(b, SymBoolVal):
        raise Unsupported("is on symbolic")
    if isinstance(b, bool) or isinstance(a, bool):
        # `x is True`: symbolic python bool flags are formulas
        if isinstance(a, Node) and is_formula(a):
            return a if b is True else T.lnot(a)
        return a is b
    return a is b


class SymBoolVal:
    pass


def shape_eq(a, b):
    a, b = tuple(a), tuple(b)
    pa = any(isinstance(x, (Pack, OnesPack)) for x in a)
    pb = any(isinstance(x, (Pack, OnesPack)) for x in b)
    if a == b:
        return True
    if pa or pb:
        # compare concrete trailing parts: a definite mismatch is a mismatch
        for x, y in zip(reversed(a), reversed(b)):
            if isinstance(x, (Pack, OnesPack)) or isinstance(y, (Pack, OnesPack)):
                break
            if isinstance(x, int) and isinstance(y, int) and x != y:
                return False
        raise Unsupported("comparison of symbolic shapes")
    if len(a) != len(b):
        return False
    fs = []
    for x, y in zip(a, b):
        x2 = T.num(x) if isinstance(x, int) else x
        y2 = T.num(y) if isinstance(y, int) else y
        fs.append(T.eq(x2, y2))
    r = T.land(*fs)
    return True if r is TRUE else False if r is FALSE else r


def shape_of(a):
    from .interp import ShapeTuple
    out = []
    symb = False
    for x in a.axes:
        if isinstance(x, int):
            out.append(x)
        elif isinstance(x, (Pack, OnesPack)):
            out.append(x)
            symb = True
        elif isinstance(x, Masked):
            out.append(MaskLen(x))
            symb = True
        else:
            out.append(AxLen(x))
            symb = True
    return ShapeTuple(out) if symb else tuple(out)


def AxLen(ax):
    if isinstance(ax, Prod):
        n = T.ONE
        for x in ax.axes:
            n = T.mul(n, dimlen(x))
    else:
        n = dimlen(ax)
    LEN_AXIS[n] = ax
    return n


LEN_AXIS = {}


class MaskLen:
    def __init__(self, ax):
        self.ax = ax


def axes_from_shape(shape):
    if isinstance(shape, (int, Node)) and not isinstance(shape, bool):
        shape = (shape,)
    if isinstance(shape, Arr):
        shape = [shape.data[i] for i in range(shape.axes[0])]
    out = []
    for x in shape:
        i = IX._as_int(x) if not isinstance(x, (Pack, OnesPack, MaskLen)) else None
        if i is not None:
            out.append(i)
        elif isinstance(x, (Pack, OnesPack)):
            out.append(x)
        elif isinstance(x, MaskLen):
            out.append(x.ax)
        elif isinstance(x, Node):
            if x in LEN_AXIS:
                out.append(LEN_AXIS[x])
            else:
                ax = find_dim(x)
                if ax is None:
                    raise Unsupported("shape entry %r" % (x,))
                out.append(ax)
        else:
            raise Unsupported("shape entry %r" % (x,))
    return tuple(out)


def find_dim(node):
    for s in T.symbols(node):
        n = s.args[0]
        if n.startswith("#") and not n.startswith("#flat:"):
            d = IX.diff_dim(node, n[1:])
            if d is not None:
                return Dim(n[1:], d)
    return None


def filled(axes, v, dtype):
    shape = tuple(a for a in axes if isinstance(a, int))
    d = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        d[ix] = v
    if shape == ():
        d[()] = v
    return Arr(axes, d, dtype)


# ------------------------------------------------------------------ linear algebra
def _sum(xs):
    r = T.ZERO
    for x in xs:
        r = T.add(r, x)
    return r


def last_concrete(a):
    return len(a.axes) > 0 and isinstance(a.axes[-1], int)


def contract_last(a, b1):
    """sum over last axis of a times 1-d b1"""
    if not last_concrete(a):
        if isinstance(a.axes[-1], Dim) and b1.axes == (a.axes[-1],):
            ax = a.axes[-1]
            prod = elementwise(T.mul, a, b1)
            return reduce_sum(prod, -1, False)
        raise Unsupported("contraction over symbolic axis")
    n = a.axes[-1]
    if b1.axes != (n,):
        raise ShapeError("matmul dimension mismatch %r %r" % (a.axes, b1.axes))
    d = a.data
    out = np.empty(d.shape[:-1], dtype=object)
    for ix in np.ndindex(*d.shape[:-1]):
        out[ix] = _sum([T.mul(as_term(d[ix + (i,)]), as_term(b1.data[i])) for i in range(n)])
    return Arr(a.axes[:-1], out, max_dtype(a.dtype, b1.dtype))


def matmul(a, b):
    if a.scalar or b.scalar:
        raise PyRaise(ValueError("matmul: 0-d operand"))
    try:
        if len(b.axes) == 1 and not isinstance(b.axes[0], (Pack, OnesPack)):
            return unwrap(contract_last(a, b))
        if len(a.axes) == 1 and len(b.axes) >= 2 and not isinstance(a.axes[0], (Pack,)):
            bt = swap_last(b)
            return unwrap(contract_last(bt, a))
        if len(b.axes) == 2 and all(isinstance(x, int) for x in b.axes):
            k, m = b.axes
            cols = [contract_last(a, Arr((k,), b.data[:, j].copy(), b.dtype)) for j in range(m)]
            return stack(cols, -1)
        # batched matmul (…,n,k)@(…,k,m)
        if last_concrete(a) and isinstance(b.axes[-2], int):
            k = a.axes[-1]
            if b.axes[-2] != k:
                raise ShapeError("matmul")
            x = Arr(a.axes[:-1] + (1, k), a.data.reshape(a.data.shape[:-1] + (1, k)), a.dtype)
            bt = swap_last(b)  # (..., m, k)
            # align (..., n, 1, k) * (..., 1, m, k)
            y = Arr(bt.axes[:-2] + (1,) + bt.axes[-2:], insert_dim(bt, len(bt.axes) - 2), bt.dtype)
            p = elementwise(T.mul, x, y)
            return unwrap(reduce_sum(p, -1, False))
    except ShapeError as e:
        raise PyRaise(ValueError(str(e)))
    raise Unsupported("matmul %r %r" % (a.axes, b.axes))


def insert_dim(a, pos):
    k = sum(1 for x in a.axes[:pos] if isinstance(x, int))
    return np.expand_dims(a.data, k)


def swap_last(b):
    ax = list(b.axes)
    ax[-1], ax[-2] = ax[-2], ax[-1]
    d = b.data
    if isinstance(b.axes[-1], int) and isinstance(b.axes[-2], int):
        d = np.swapaxes(d, -1, -2)
    return Arr(ax, d, b.dtype, b.buf)


def dot(a, b):
    a, b = lift(a), lift(b)
    if a.scalar or b.scalar:
        return unwrap(elementwise(T.mul, a, b))
    if len(b.axes) >= 3 or any(isinstance(x, (Pack, OnesPack)) for x in b.axes):
        if len(a.axes) == 1:
            return matmul(a, b) if len(b.axes) == 2 else _unsup("dot")
        raise Unsupported("dot")
    return matmul(a, b)


def _unsup(m):
    raise Unsupported(m)


def stack(arrs, axis=-1):
    arrs = [lift(x) for x in arrs]
    ax = arrs[0].axes
    for a in arrs[1:]:
        if a.axes != ax:
            raise PyRaise(ValueError("all input arrays must have the same shape"))
    nd = len(ax)
    if isinstance(axis, Node):
        axis = IX._as_int(axis)
    pos = axis if axis >= 0 else nd + 1 + axis
    if axis >= 0 and any(isinstance(x, (Pack, OnesPack)) for x in ax[:pos]):
        raise Unsupported("stack axis past pack")
    if axis < 0 and any(isinstance(x, (Pack, OnesPack)) for x in ax[pos:]):
        raise Unsupported("stack axis inside pack")
    k = sum(1 for x in ax[:pos] if isinstance(x, int))
    d = np.stack([a.data for a in arrs], axis=k)
    return Arr(ax[:pos] + (len(arrs),) + ax[pos:], d, max_dtype(*[a.dtype for a in arrs]))


def norm_axis(a, axis):
    if isinstance(axis, Node):
        axis = IX._as_int(axis)
    n = len(a.axes)
    if axis >= 0:
        if any(isinstance(x, (Pack, OnesPack)) for x in a.axes[:axis + 1]):
            raise Unsupported("axis inside/after a pack")
        return axis
    pos = n + axis
    if pos < 0 or any(isinstance(x, (Pack, OnesPack)) for x in a.axes[pos:]):
        if pos < 0 and not any(isinstance(x, (Pack, OnesPack)) for x in a.axes):
            raise PyRaise(ValueError("axis out of bounds"))
        raise Unsupported("axis inside a pack")
    return pos


def reduce_generic(a, axis, keepdims, conc, symb):
    a = lift(a)
    if axis is None:
        r = a
        for _ in range(len(a.axes)):
            r = reduce_generic(r, -1 if not isinstance(r.axes[-1], (Pack,)) else "pack", False, conc, symb)
        return r
    if isinstance(axis, (tuple, list)):
        ps = sorted((norm_axis(a, x) for x in axis), reverse=True)
        r = a
        for p in ps:
            r = reduce_generic(r, p, keepdims, conc, symb)
        return r
    pos = len(a.axes) - 1 if axis == "pack" else norm_axis(a, axis)
    ax = a.axes[pos]
    if isinstance(ax, int):
        k = sum(1 for x in a.axes[:pos] if isinstance(x, int))
        d = np.moveaxis(a.data, k, -1)
        out = np.empty(d.shape[:-1], dtype=object)
        for ix in np.ndindex(*d.shape[:-1]):
            out[ix] = conc([d[ix + (i,)] for i in range(ax)])
        axes = a.axes[:pos] + ((1,) if keepdims else ()) + a.axes[pos + 1:]
        if keepdims:
            out = np.expand_dims(out, k)
        return Arr(axes, out, a.dtype)
    if symb is None:
        raise Unsupported("reduction over symbolic axis")
    out = np.empty(a.data.shape, dtype=object)
    for ix in np.ndindex(*a.data.shape):
        out[ix] = symb(ax, a.data[ix])
    axes = a.axes[:pos] + a.axes[pos + 1:]
    r = Arr(axes, out, a.dtype)
    if keepdims:
        if isinstance(ax, Pack):
            raise Unsupported("keepdims over pack")
        k = sum(1 for x in a.axes[:pos] if isinstance(x, int))
        r = Arr(a.axes[:pos] + (1,) + a.axes[pos + 1:], np.expand_dims(out, k), a.dtype)
    return r


def axis_name(ax):
    return ax


def reduce_sum(a, axis=None, keepdims=False):
    a = lift(a)
    def symb(ax, t):
        return T.sumover(ax, as_term(t))
    r = reduce_generic(a, axis, keepdims, lambda xs: _sum([as_term(x) for x in xs]), symb)
    if r.dtype == "b":
        r = Arr(r.axes, r.data, "i")
    return r


def np_any(a, axis=None, keepdims=False, **kw):
    a = lift(a)
    f = lambda x: x if is_formula(x) else T.ne(x, T.ZERO)
    r = reduce_generic(a, axis, keepdims, lambda xs: T.lor(*[f(x) for x in xs]) if xs else FALSE, lambda ax, t: T.quant("any", ax, f(t)))
    if r is a:
        r = elementwise(f, a, dtype="b")
    r = Arr(r.axes, r.data, "b")
    return unwrap(r)


def np_all(a, axis=None, keepdims=False, **kw):
    a = lift(a)
    f = lambda x: x if is_formula(x) else T.ne(x, T.ZERO)
    r = reduce_generic(a, axis, keepdims, lambda xs: T.land(*[f(x) for x in xs]) if xs else TRUE, lambda ax, t: T.quant("all", ax, f(t)))
    if r is a:
        r = elementwise(f, a, dtype="b")
    r = Arr(r.axes, r.data, "b")
    return unwrap(r)


def np_norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2):
        raise Unsupported("norm ord")
    a = lift(x)
    if a.dtype == "b":
        raise Unsupported("norm bool")
    def sq(v):
        if T.is_complex(v):
            re, im = T.reim(v)
            return T.add(T.mul(re, re), T.mul(im, im))
        return T.mul(v, v)
    s = elementwise(sq, a, dtype="f" if a.dtype in "ic" else a.dtype)
    if axis is None and any(not isinstance(q, int) for q in a.axes):
        raise Unsupported("norm over symbolic axes")
    r = reduce_generic(s, axis, keepdims, _sum, None)
    return unwrap(elementwise(T.sqrt, r, dtype="f"))


def np_cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    a, b = lift(a), lift(b)
    if not (last_concrete(a) and last_concrete(b)) or a.axes[-1] != 3 or b.axes[-1] != 3:
        raise Unsupported("cross")
    ga = [getlast(a, i) for i in range(3)]
    gb = [getlast(b, i) for i in range(3)]
    def comp(i, j):
        f = lambda p, q, r, s: T.add(T.mul(p, q), T.neg(T.mul(r, s)))
        return elementwise(f, ga[i], gb[j], ga[j], gb[i])
    return stack([comp(1, 2), comp(2, 0), comp(0, 1)], -1)


def getlast(a, i):
    return Arr(a.axes[:-1], a.data[..., i], a.dtype, a.buf)


# ------------------------------------------------------------------ conversion
class StrArr:
    """a numpy array of strings: cannot become a number"""


def np_asarray(v, dtype=None, copy=None, order=None, **kw):
    from .interp import Bad, Obj, Opaque
    if isinstance(v, (Bad, Obj, dict, Opaque)) or v is None:
        if dtype is not None:
            raise PyRaise(TypeError("cannot convert"))
        raise Unsupported("asarray of object")
    if isinstance(v, str):
        if dtype is not None:
            raise PyRaise(ValueError("could not convert string"))
        return StrArr()
    if isinstance(v, (list, tuple)):
        bad = [x for x in flat(v) if isinstance(x, (Bad, Obj, str, dict)) or x is None]
        if bad and (dtype is None and all(isinstance(x, str) for x in flat(v))):
            return StrArr()
        if bad:
            raise PyRaise(ValueError("could not convert"))
    if isinstance(v, StrArr):
        if dtype is not None:
            raise PyRaise(ValueError("could not convert string"))
        return v
    try:
        a = to_arr(v)
    except ShapeError as e:
        raise PyRaise(ValueError("inhomogeneous shape"))
    dk = dtype_kind(dtype)
    if dk is None or dk == a.dtype:
        return a if isinstance(v, Arr) else a
    return cast(a, dk)


def flat(v):
    for x in v:
        if isinstance(x, (list, tuple)):
            yield from flat(x)
        else:
            yield x


def cast(a, dk):
    if dk == a.dtype:
        return a.copy()
    if dk == "f" and a.dtype == "c":
        # numpy: asarray(complex array, dtype=float) discards the imaginary part
        # with a warning; float(complex) raises
        return elementwise(lambda t: T.fn("re", t), a, dtype="f")
    if dk == "i" and a.dtype in "fc":
        return elementwise(lambda t: t if T.isnum(t) and T.val(t).denominator == 1 else T.fn("trunc", t), a, dtype="i")
    if dk == "b":
        return elementwise(lambda t: t if is_formula(t) else T.ne(t, T.ZERO), a, dtype="b")
    if a.dtype == "b":
        return elementwise(as_term, a, dtype=dk)
    r = a.copy()
    r.dtype = dk
    return r


def dtype_kind(d):
    from .interp import Opaque
    if d is None:
        return None
    if isinstance(d, DType):
        return d.k
    if d is b_float:
        return "f"
    if d is b_int:
        return "i"
    if d is b_complex:
        return "c"
    if d is b_bool:
        return "b"
    if isinstance(d, str):
        if d in ("float", "float64", "f8", "d"):
            return "f"
        if d in ("complex", "complex128", "c16"):
            return "c"
        if d in ("int", "int64"):
            return "i"
        if d == "bool":
            return "b"
    raise Unsupported("dtype %r" % (d,))


class DType:
    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, DType) and o.k == self.k

    def __hash__(self):
        return hash(self.k)

    def __call__(self, v):
        return {"f": b_float, "i": b_int, "c": b_complex, "b": b_bool}[self.k](v)


def b_float(v=0):
    from .interp import Bad, Obj
    if isinstance(v, bool):
        return T.num(int(v))
    if isinstance(v, int):
        return T.num(v)
    if isinstance(v, Node):
        if is_formula(v):
            return as_term(v)
        if T.is_complex(v):
            raise PyRaise(TypeError("can't convert complex to float"))
        return v
    if isinstance(v, Arr):
        if all(a == 1 for a in v.axes):
            return b_float(v.data.reshape(-1)[0])
        if any(not isinstance(a, int) for a in v.axes):
            raise Unsupported("float of symbolic array")
        raise PyRaise(TypeError("only length-1 arrays can be converted"))
    if isinstance(v, str):
        try:
            return T.num(float(v))
        except ValueError as e:
            raise PyRaise(e)
    raise PyRaise(TypeError("float() argument"))


def b_complex(v=0, im=None):
    if im is not None:
        return T.add(num_(v), T.mul(T.I, num_(im)))
    if isinstance(v, (bool, int)):
        return T.num(int(v))
    if isinstance(v, Node):
        return as_term(v)
    if isinstance(v, Arr) and all(a == 1 for a in v.axes):
        return b_complex(v.data.reshape(-1)[0])
    if isinstance(v, str):
        try:
            return T.num(complex(v))
        except ValueError as e:
            raise PyRaise(e)
    raise PyRaise(TypeError("complex() argument"))


def num_(v):
    if isinstance(v, (int, bool)):
        return T.num(int(v))
    return v


def b_int(v=0, base=None):
    if isinstance(v, (int, bool)):
        return int(v)
    if isinstance(v, Node):
        if T.isnum(v):
            return int(T.val(v))
        if v.op == "sym" and T.SYM_ATTR[v.args[0]][0] == "int":
            return v
        return T.fn("trunc", v)
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError as e:
            raise PyRaise(e)
    raise PyRaise(TypeError("int() argument"))


def b_bool(v=False):
    if isinstance(v, Node):
        return v if is_formula(v) else T.ne(v, T.ZERO)
    if isinstance(v, Arr) and v.scalar:
        return b_bool(v.item())
    if isinstance(v, (int, str, list, tuple, dict)) or v is None:
        return bool(v)
    raise Unsupported("bool()")


# ------------------------------------------------------------------ reshape
def squeeze(a, axis=None):
    if axis is not None:
        pos = norm_axis(a, axis)
        if a.axes[pos] != 1:
            raise PyRaise(ValueError("cannot squeeze"))
        k = sum(1 for x in a.axes[:pos] if isinstance(x, int))
        return Arr(a.axes[:pos] + a.axes[pos + 1:], np.squeeze(a.data, axis=k), a.dtype, a.buf)
    axes = tuple(x for x in a.axes if x != 1 and not isinstance(x, OnesPack))
    if any(isinstance(x, (Pack, Dim, Flat)) for x in axes):
        # lengths of symbolic axes could be one: the result is exact for longer
        # axes only; contracts about it say so (Want(squeeze=True)) and the unit
        # lengths are left to the run-time contract
        sq = Arr(axes, a.data.reshape(tuple(x for x in axes if isinstance(x, int))), a.dtype, a.buf)
        SQUEEZED.append(sq)
        return sq
    return Arr(axes, a.data.reshape(axes), a.dtype, a.buf)


SQUEEZED = []


def reshape(a, shape, order="C"):
    tgt = axes_from_shape(shape)
    if tgt == a.axes:
        return Arr(a.axes, a.data, a.dtype, a.buf)
    if order not in ("C",):
        raise Unsupported("reshape order")
    src = a.axes
    if all(isinstance(x, int) for x in src) and all(isinstance(x, int) for x in tgt):
        try:
            d = a.data.reshape(tgt)
        except ValueError as e:
            raise PyRaise(e)
        return Arr(d.shape, d, a.dtype, a.buf)
    # (Pack, k) -> (-1, k)
    if tgt and tgt[0] == -1 and src and isinstance(src[0], Pack) and tgt[1:] == src[1:]:
        return Arr((Flat(src[0].name),) + src[1:], a.data, a.dtype, a.buf)
    if tgt and tgt[0] == -1 and src and isinstance(src[0], (Flat, Dim)) and tgt[1:] == src[1:]:
        return Arr(src, a.data, a.dtype, a.buf)
    if src and isinstance(src[0], Flat) and tgt and tgt[0] == Pack(src[0].name) and src[1:] == tgt[1:]:
        return Arr(tgt, a.data, a.dtype, a.buf)
    if src and isinstance(src[0], Flat) and tgt and tgt[0] == Pack(src[0].name):
        rest = [x for x in tgt[1:]]
        if all(isinstance(x, int) for x in rest) and all(isinstance(x, int) for x in src[1:]):
            try:
                d = a.data.reshape(rest)
            except ValueError as e:
                raise PyRaise(e)
            return Arr((tgt[0],) + d.shape, d, a.dtype, a.buf)
    # single leading symbolic axes kept, trailing concrete reshaped
    if tgt == (-1,) and len(src) == 1:
        if isinstance(src[0], Pack):
            return Arr((Flat(src[0].name),), a.data, a.dtype, a.buf)
        return a
    # several Dims flattened together: opaque product axis
    if tgt == (-1,) and all(isinstance(x, Dim) for x in src):
        return Arr((Prod(src),), a.data, a.dtype, a.buf)
    if len(src) == 1 and isinstance(src[0], Prod) and tuple(tgt) == src[0].axes:
        return Arr(tgt, a.data, a.dtype, a.buf)
    if src and isinstance(src[-1], Prod) and tuple(tgt) == src[:-1] + src[-1].axes:
        return Arr(tgt, a.data, a.dtype, a.buf)
    # inserting / dropping ones
    s2 = tuple(x for x in src if x != 1 and not isinstance(x, OnesPack))
    t2 = tuple(x for x in tgt if x != 1 and not isinstance(x, OnesPack))
    if s2 == t2:
        return Arr(tgt, a.data.reshape(tuple(x for x in tgt if isinstance(x, int))), a.dtype, a.buf)
    if -1 in t2 and len(t2) == len(s2):
        t3 = tuple(y if x == -1 else x for x, y in zip(t2, s2))
        if t3 == s2:
            it = iter(s2)
            full = tuple(x if (x == 1 or isinstance(x, OnesPack)) else next(it) for x in tgt)
            return Arr(full, a.data.reshape(tuple(x for x in full if isinstance(x, int))), a.dtype, a.buf)
    raise Unsupported("reshape %r -> %r" % (src, tgt))




def transpose(a, axes=None):
    if axes is None:
        if sum(isinstance(x, (Pack, OnesPack)) for x in a.axes) and len(a.axes) > 1:
            raise Unsupported("transpose of pack")
        return Arr(tuple(reversed(a.axes)), a.data.T, a.dtype, a.buf)
    if any(isinstance(x, (Pack, OnesPack)) for x in a.axes):
        # packs may only keep their place
        for i, x in enumerate(axes):
            if isinstance(a.axes[i], (Pack, OnesPack)):
                if x != i:
                    raise Unsupported("transpose of pack")
        if not all(isinstance(x, int) and 0 <= x < len(a.axes) for x in axes) or not getattr(axes, "internal", False):
            raise Unsupported("transpose of pack")
    else:
        axes = [norm_axis(a, x) for x in axes]
    na = tuple(a.axes[i] for i in axes)
    pos = conc_positions(a.axes)
    perm = [pos[i] for i in axes if pos[i] is not None]
    return Arr(na, a.data.transpose(perm), a.dtype, a.buf)


def moveaxis(a, s, d):
    if any(isinstance(x, (Pack, OnesPack)) for x in a.axes):
        n = len(a.axes)
        s2 = s if s >= 0 else n + s
        d2 = d if d >= 0 else n + d
        if s >= 0 or (d >= 0 and d != 0) or d < 0 and any(isinstance(x, Pack) for x in a.axes[min(s2, d2):]):
            raise Unsupported("moveaxis with pack")
    n = len(a.axes)
    s %= n
    d %= n
    order = [i for i in range(n) if i != s]
    order.insert(d, s)
    na = tuple(a.axes[i] for i in order)
    pos = conc_positions(a.axes)
    perm = [pos[i] for i in order if pos[i] is not None]
    return Arr(na, a.data.transpose(perm), a.dtype, a.buf)


def flatten(a, order="C"):
    if all(isinstance(x, int) for x in a.axes):
        d = a.data.flatten(order=order)
        return Arr(d.shape, d, a.dtype)
    if len(a.axes) == 1 and isinstance(a.axes[0], (Dim, Flat)):
        return a.copy()
    if order == "C":
        return reshape(a, (-1,)).copy()
    if order == "F" and not any(isinstance(x, (Pack, OnesPack)) for x in a.axes):
        # Fortran order of the axes = C order of the reversed axes
        return reshape(transpose(a), (-1,)).copy()
    raise Unsupported("flatten")


def atleast_1d(v):
    a = np_asarray(v)
    if isinstance(a, StrArr):
        return a
    if a.scalar:
        return Arr((1,), a.data.reshape((1,)), a.dtype, a.buf)
    if all(isinstance(x, (Pack, OnesPack)) for x in a.axes):
        raise Unsupported("atleast_1d of a pack")
    return a


def atleast_2d(v):
    a = np_asarray(v)
    if isinstance(a, StrArr):
        return a
    if a.scalar:
        return Arr((1, 1), a.data.reshape((1, 1)), a.dtype, a.buf)
    if len(a.axes) == 1 and not isinstance(a.axes[0], Pack):
        return Arr((1,) + a.axes, a.data[None] if True else a.data, a.dtype, a.buf)
    if any(isinstance(x, Pack) for x in a.axes) and len(a.axes) < 3:
        raise Unsupported("atleast_2d of pack")
    return a


# ------------------------------------------------------------------ Rotation
class RotVal:
    def __init__(self, m):
        self.m = m  # 3x3 nested list of terms (rows)


def _framesimp(t):
    from .ctx import CTX
    if not CTX.frames:
        return t
    from .nf import NF
    return NF(CTX.rules).simp(t, 6)


def rot_apply(R, v, inverse=False):
    v = lift(v)
    if not last_concrete(v) or v.axes[-1] != 3:
        raise PyRaise(ValueError("Expected input of shape (3,) or (P, 3)"))
    if len(v.axes) > 2 or any(isinstance(x, Pack) for x in v.axes):
        raise PyRaise(ValueError("Expected input of shape (3,) or (P, 3)"))
    comps = [getlast(v, i) for i in range(3)]
    out = []
    for i in range(3):
        row = [R.m[j][i] if inverse else R.m[i][j] for j in range(3)]
        f = lambda a, b, c, row=row: _framesimp(_sum([T.mul(row[0], a), T.mul(row[1], b), T.mul(row[2], c)]))
        out.append(elementwise(f, *comps, dtype="f"))
    return stack(out, -1)


def rot_from_quat(q, **kw):
    q = lift(q)
    if q.axes != (4,):
        raise Unsupported("from_quat shape")
    x, y, z, w = [q.data[i] for i in range(4)]
    n = _sum([T.mul(a, a) for a in (x, y, z, w)])
    def f(t): return T.div(t, n)
    xx, yy, zz, ww = [T.mul(a, a) for a in (x, y, z, w)]
    xy, xz, yz, xw, yw, zw = [T.mul(a, b) for a, b in ((x, y), (x, z), (y, z), (x, w), (y, w), (z, w))]
    two = T.num(2)
    m = [
        [f(xx - yy - zz + ww), f(two * (xy - zw)), f(two * (xz + yw))],
        [f(two * (xy + zw)), f(yy - xx - zz + ww), f(two * (yz - xw))],
        [f(two * (xz - yw)), f(two * (yz + xw)), f(zz - xx - yy + ww)],
    ]
    return RotVal(m)


def rot_from_matrix(m, **kw):
    m = lift(m)
    if m.axes != (3, 3):
        raise Unsupported("from_matrix")
    return RotVal([[m.data[i, j] for j in range(3)] for i in range(3)])


def rot_matrix(R):
    d = np.empty((3, 3), dtype=object)
    for i in range(3):
        for j in range(3):
            d[i, j] = R.m[i][j]
    return Arr((3, 3), d, "f")


# ------------------------------------------------------------------ attributes of values
def getattr_(I, o, name):
    from .interp import Opaque, SymStr
    if isinstance(o, Arr):
        return arr_attr(I, o, name)
    if isinstance(o, Node) or isinstance(o, int) and not isinstance(o, bool) or isinstance(o, bool):
        if isinstance(o, (int, bool)):
            if name == "real":
                return o
            if name == "imag":
                return 0
            if isinstance(o, bool) and name in ("any", "all"):
                # the comparison of an array of known values
                return lambda *a, **k: o
            # python ints have no shape
            if name in ("shape", "ndim", "astype", "any", "all"):
                raise PyRaise(AttributeError(name))
            raise PyRaise(AttributeError(name))
        if name == "upper" or name == "lower":
            raise PyRaise(AttributeError(name))
        return arr_attr(I, to_arr(o), name)
    if isinstance(o, StrArr):
        if name == "astype":
            def astype(d, *a, **k):
                if dtype_kind(d) in ("f", "c", "i"):
                    raise PyRaise(ValueError("could not convert string to float"))
                raise Unsupported("astype of strings")
            return astype
        raise Unsupported("string array." + name)
    if isinstance(o, RotVal):
        if name == "apply":
            return lambda v, inverse=False: rot_apply(o, v, inverse)
        if name == "as_matrix":
            return lambda: rot_matrix(o)
        if name == "inv":
            return lambda: RotVal([[o.m[j][i] for j in range(3)] for i in range(3)])
        raise Unsupported("Rotation." + name)
    if isinstance(o, str):
        if isinstance(o, SymStr):
            return lambda *a, **k: SymStr("s")
        if name == "format":
            return lambda *a, **k: SymStr("s")
        if name == "join":
            return lambda *a, **k: SymStr("s")
        m = getattr(o, name, None)
        if m is None:
            raise PyRaise(AttributeError(name))
        return m
    if isinstance(o, list):
        if name == "append":
            return o.append
        if name == "extend":
            return lambda x: o.extend(I.iterate(x))
        if name in ("pop", "insert", "reverse", "copy", "index", "clear"):
            return getattr(o, name)
        raise PyRaise(AttributeError(name))
    if isinstance(o, dict):
        if name in ("items", "keys", "values"):
            return lambda: list(getattr(o, name)())
        if name == "pop":
            def pop(k, *d):
                try:
                    return o.pop(k, *d)
                except KeyError as e:
                    raise PyRaise(e)
            return pop
        if name in ("get", "update", "setdefault", "copy", "clear"):
            return getattr(o, name)
        raise PyRaise(AttributeError(name))
    if isinstance(o, (tuple, set)):
        if name in ("index", "count", "add", "update", "discard"):
            return getattr(o, name)
        raise PyRaise(AttributeError(name))
    if o is None or type(o).__name__ == "Bad":
        raise PyRaise(AttributeError(name))
    if isinstance(o, NPr):
        raise Unsupported("r_")
    if callable(o):
        ns = getattr(o, "_ns", None)
        if ns and name in ns:
            return ns[name]
        if name == "__name__":
            return getattr(o, "__name__", "f")
        raise Unsupported("attribute %s of builtin" % name)
    raise Unsupported("attribute %s of %r" % (name, type(o)))


def arr_attr(I, a, name):
    if name == "shape":
        return shape_of(a)
    if name == "ndim":
        n = 0
        t = T.ZERO
        for x in a.axes:
            if isinstance(x, (Pack, OnesPack)):
                t = T.add(t, packrank(x.name))
            else:
                n += 1
        t = T.add(t, T.num(n))
        return int(T.val(t)) if T.isnum(t) else t
    if name == "size":
        n = 1
        t = T.ONE
        for x in a.axes:
            if isinstance(x, int):
                t = T.mul(t, T.num(x))
            elif isinstance(x, Pack):
                t = T.mul(t, T.sym("#flat:" + x.name, "int", "nonneg"))
            elif isinstance(x, OnesPack):
                pass
            elif isinstance(x, Masked):
                t = T.mul(t, T.sym("#masked%d" % x.cond.id, "int", "nonneg"))
            else:
                t = T.mul(t, dimlen(x))
        return int(T.val(t)) if T.isnum(t) else t
    if name == "dtype":
        return DType(a.dtype)
    if name == "T":
        return transpose(a)
    if name == "real":
        return unwrap(elementwise(lambda t: T.fn("re", t), a, dtype="f" if a.dtype == "c" else a.dtype))
    if name == "imag":
        return unwrap(elementwise(lambda t: T.fn("im", t), a, dtype="f" if a.dtype == "c" else a.dtype))
    if name == "flags":
        raise Unsupported("flags")
    M = {
        "copy": lambda *x, **k: Arr(a.axes, a.data.copy(), a.dtype),
        "squeeze": lambda axis=None: unwrap0(squeeze(a, axis)),
        "reshape": lambda *s, order="C": unwrap0(reshape(a, s[0] if len(s) == 1 else s, order)),
        "dot": lambda b: dot(a, b),
        "any": lambda axis=None, **k: np_any(a, axis, **k),
        "all": lambda axis=None, **k: np_all(a, axis, **k),
        "sum": lambda axis=None, keepdims=False, **k: unwrap(reduce_sum(a, axis, keepdims)),
        "prod": lambda axis=None, **k: np_prod(a, axis),
        "astype": lambda d, **k: unwrap_keep(cast(a, dtype_kind(d))),
        "flatten": lambda order="C": flatten(a, order),
        "ravel": lambda order="C": flatten(a, order),
        "transpose": lambda *s: transpose(a, s if s else None),
        "conj": lambda: unwrap(elementwise(lambda t: T.fn("conj", t), a)),
        "conjugate": lambda: unwrap(elementwise(lambda t: T.fn("conj", t), a)),
        "item": lambda: one_item(a),
        "tolist": lambda: tolist(a),
        "max": lambda axis=None, **k: np_max(a, axis),
        "min": lambda axis=None, **k: np_min(a, axis),
        "fill": lambda v: IX.setitem(a, Ellipsis, v),
        "swapaxes": lambda p, q: _swapaxes(a, p, q),
        "setflags": lambda **k: None,
        "cumsum": lambda axis=None, **k: np_cumsum(a, axis),
        "take": lambda ix, axis=None, **k: np_take(I, a, ix, axis),
        "repeat": lambda n, axis=None: np_repeat(a, n, axis),
        "trace": lambda: np_trace(a),
        "nonzero": lambda: np_where(a, I_=I),
        "clip": lambda lo=None, hi=None: np_clip(a, lo, hi),
        "mean": lambda axis=None, keepdims=False: np_mean(a, axis, keepdims),
        "view": lambda *p: _unsup("view"),
        "__len__": lambda: b_len(a),
    }
    if name in M:
        return M[name]
    raise Unsupported("ndarray." + name)


def unwrap0(a):
    return a


def unwrap_keep(a):
    return a


def one_item(a):
    if a.data.size == 1 and all(isinstance(x, int) for x in a.axes):
        return a.data.reshape(-1)[0]
    raise PyRaise(ValueError("can only convert an array of size 1"))


def tolist(a):
    if all(isinstance(x, int) for x in a.axes):
        return a.data.tolist()
    raise Unsupported("tolist")


def _swapaxes(a, p, q):
    n = len(a.axes)
    o = _Order(range(n))
    p, q = norm_axis(a, p), norm_axis(a, q)
    o[p], o[q] = o[q], o[p]
    return transpose(a, o)


class _Order(list):
    """positions in Arr.axes (not numpy axis numbers)"""
    internal = True


def getitem_(I, o, k):
    if isinstance(o, NPr):
        return o.get(I, k)
    raise Unsupported("subscript %r" % (type(o),))


class NPr:
    """np.r_ / np.c_"""

    def __init__(self, col):
        self.col = col

    def get(self, I, k):
        if not isinstance(k, tuple):
            k = (k,)
        if self.col:
            cols = [lift(x) for x in k]
            if all(len(c.axes) == 1 for c in cols):
                return stack(cols, -1)
            raise Unsupported("c_")
        parts = []
        dt = "i"
        for x in k:
            if isinstance(x, slice):
                raise Unsupported("r_ slice")
            a = lift(x)
            dt = max_dtype(dt, a.dtype)
            if a.scalar:
                parts.append(a.item())
            elif len(a.axes) == 1 and isinstance(a.axes[0], int):
                parts.extend(list(a.data))
            else:
                raise Unsupported("r_ of symbolic array")
        d = np.empty((len(parts),), dtype=object)
        for i, p in enumerate(parts):
            d[i] = p
        return Arr((len(parts),), d, dt)


# ------------------------------------------------------------------ misc reductions
def np_prod(a, axis=None, **kw):
    a = lift(a)
    def conc(xs):
        r = T.ONE
        for x in xs:
            r = T.mul(r, as_term(x))
        return r
    return unwrap(reduce_generic(a, axis, False, conc, None))


def np_mean(a, axis=None, keepdims=False):
    a = lift(a)
    def conc(xs):
        return T.div(_sum(xs), T.num(len(xs)))
    return unwrap(reduce_generic(a, axis, keepdims, conc, None))


def _max2(a, b): return T.ite(T.lt(a, b), b, a)
def _min2(a, b): return T.ite(T.lt(b, a), b, a)


BOUNDS = []            # scalars a specification offers as bounds of maxima


def np_max(a, axis=None, **kw):
    a = lift(a)
    def conc(xs):
        r = xs[0]
        for x in xs[1:]:
            r = _max2(r, x)
        return r

    if not any(isinstance(x, (Pack, OnesPack, Dim, Prod, Flat)) for x in a.axes):
        return unwrap(reduce_generic(a, axis, kw.get("keepdims", False), conc, None))
    if axis is not None and not (len(a.axes) == 1 and axis in (0, -1)) or kw:
        return unwrap(reduce_generic(a, axis, kw.get("keepdims", False), conc, None))
    # over everything: some value not below any element, and not above a bound of all of them
    I = _CUR[0]
    ts = list(a.data.ravel())
    m = T.fresh("max", "real", "nonneg" if solve.check([T.lt(ts[0], T.ZERO)]) == "unsat" else None)
    for t in ts:
        I.assume(T.le(t, m))
    for c in BOUNDS:
        if all(solve.check(list(I.pc) + [T.lt(c, t)]) == "unsat" for t in ts):
            I.assume(T.le(m, c))
    return m


_CUR = [None]



def np_min(a, axis=None, **kw):
    a = lift(a)
    def conc(xs):
        r = xs[0]
        for x in xs[1:]:
            r = _min2(r, x)
        return r
    return unwrap(reduce_generic(a, axis, kw.get("keepdims", False), conc, None))


def b_len(v):
    from .interp import ShapeTuple, SymSeq
    if isinstance(v, ShapeTuple):
        t = T.ZERO
        for x in v:
            t = T.add(t, packrank(x.name) if isinstance(x, (Pack, OnesPack)) else T.ONE)
        return int(T.val(t)) if T.isnum(t) else t
    if isinstance(v, (list, tuple, str, dict, range, set)):
        return len(v)
    if isinstance(v, Arr):
        if not v.axes:
            raise PyRaise(TypeError("len() of unsized object"))
        ax = v.axes[0]
        if isinstance(ax, int):
            return ax
        if isinstance(ax, (Dim, Prod)):
            return AxLen(ax)
        raise Unsupported("len of pack")
    if isinstance(v, SymSeq):
        return AxLen(v.axis)
    raise PyRaise(TypeError("object has no len()"))


def ufunc1(name, dtype=None, f=None, out_c=None):
    f = f or (lambda t: T.fn(name, t))

    def g(x, *a, out=None, where=None, **kw):
        if a:
            raise Unsupported("positional out")
        v = np_asarray(x)
        r = elementwise(lambda t: f(as_term(t)), v, dtype=dtype or max_dtype("f", v.dtype))
        if r.dtype == "f" and any(T.is_complex(t) for t in r.data.flat):
            r.dtype = "c"
        return finish(r, out, where)
    g.__name__ = name
    return g


def finish(r, out, where):
    if where is not None and where is not True:
        w = lift(where)
        if out is None:
            raise Unsupported("where without out")
        o = lift(out)
        sel = elementwise(lambda c, a, b: T.ite(c, a, b), w, r, o, dtype=r.dtype)
        IX.setitem(out, Ellipsis, sel)
        return out
    if out is not None:
        if isinstance(out, tuple):
            out = out[0]
        IX.setitem(out, Ellipsis, r)
        return out
    return unwrap(r)


def ufunc2(op, name):
    def g(x, y, *a, out=None, where=None, **kw):
        if a:
            raise Unsupported("positional out")
        r = op(np_asarray(x), np_asarray(y))
        if out is not None or where is not None:
            return finish(lift(r), out, where)
        return r
    g.__name__ = name
    return g


def np_where(c, a=None, b=None, I_=None):
    if a is None:
        m = lift(c)
        for x in m.axes:
            if isinstance(x, Pack) and len(m.axes) == 1 and I_.truth(T.eq(packrank(x.name), T.ZERO)):
                raise PyRaise(ValueError("Calling nonzero on 0d arrays is not allowed"))
        return IX.MaskIdx(m if m.dtype == "b" else elementwise(lambda x: T.ne(x, T.ZERO), m, dtype="b"))
    c, a, b = lift(c), lift(a), lift(b)
    f = lambda x: x if is_formula(x) else T.ne(x, T.ZERO)
    return unwrap(elementwise(lambda p, x, y: T.ite(f(p), as_term(x), as_term(y)), c, a, b, dtype=max_dtype(a.dtype, b.dtype)))


def _absterm(t):
    if T.is_complex(t):
        re, im = T.reim(t)
        return T.sqrt(re * re + im * im)
    return T.fn("abs", t)


def np_isclose(I, a, b, rtol=None, atol=None):
    """|a - b| <= atol + rtol |b| (finite arguments)"""
    rt = lift(T.num(Fraction(1, 10 ** 5)) if rtol is None else rtol)
    at = lift(T.num(Fraction(1, 10 ** 8)) if atol is None else atol)
    return unwrap(elementwise(lambda x, y, r, q: T.le(_absterm(as_term(x) - as_term(y)), q + r * _absterm(as_term(y))), lift(a), lift(b), rt, at, dtype="b"))


def _mclose(a, b, rel_tol=None, abs_tol=0):
    a, b = as_term(num_(a)), as_term(num_(b))
    r = T.num(Fraction(1, 10 ** 9)) if rel_tol is None else num_(rel_tol)
    return T.le(_absterm(a - b), _max2(r * _max2(_absterm(a), _absterm(b)), num_(abs_tol)))


def np_clip(a, lo=None, hi=None):
    a = lift(a)
    if lo is not None:
        a = elementwise(_max2, a, lift(lo))
    if hi is not None:
        a = elementwise(_min2, a, lift(hi))
    return unwrap(a)


def np_diag(a):
    a = lift(a)
    if not all(isinstance(x, int) for x in a.axes) or len(a.axes) not in (1, 2):
        raise Unsupported("diag")
    if len(a.axes) == 2:
        n = min(a.axes)
        d = np.empty((n,), dtype=object)
        for i in range(n):
            d[i] = a.data[i, i]
        return Arr((n,), d, a.dtype)
    n = a.axes[0]
    d = np.empty((n, n), dtype=object)
    d[...] = T.ZERO
    for i in range(n):
        d[i, i] = a.data[i]
    return Arr((n, n), d, a.dtype)


def np_count(a, axis=None, **k):
    m = lift(a)
    f = lambda x: T.ite(x if is_formula(x) else T.ne(x, T.ZERO), T.ONE, T.ZERO)
    return unwrap(reduce_generic(elementwise(f, m, dtype="i"), axis, False, _sum, None))


def np_polyval(I, p, x):
    r = 0
    for c in I.iterate(p):
        r = I.binop("Add", I.binop("Mult", r, x), c)
    return r


def np_split(a, n, axis=0):
    p, k = _conc(a, axis)
    n = IX._as_int(n)
    if n is None or a.axes[p] % n:
        raise Unsupported("split")
    return [Arr(a.axes[:p] + (a.axes[p] // n,) + a.axes[p + 1:], d, a.dtype, a.buf) for d in np.split(a.data, n, k)]


def np_trace(a):
    a = lift(a)
    if len(a.axes) != 2 or not all(isinstance(x, int) for x in a.axes):
        raise Unsupported("trace")
    return _sum([a.data[i, i] for i in range(min(a.axes))])


def np_det(a):
    a = lift(a)
    if len(a.axes) != 2 or a.axes[0] not in (2, 3) or a.axes[0] != a.axes[1]:
        raise Unsupported("det")
    d = a.data
    if a.axes[0] == 2:
        return d[0, 0] * d[1, 1] - d[0, 1] * d[1, 0]
    return _sum([d[0, i] * (d[1, (i + 1) % 3] * d[2, (i + 2) % 3] - d[1, (i + 2) % 3] * d[2, (i + 1) % 3]) for i in range(3)])


def _conc(a, axis):
    """position of a concrete axis in the axes and in the data"""
    p = norm_axis(a, axis)
    if not isinstance(a.axes[p], int):
        raise Unsupported("symbolic axis")
    return p, sum(1 for x in a.axes[:p] if isinstance(x, int))


def np_flip(a, axis=None):
    for q in range(len(a.axes)) if axis is None else axis if isinstance(axis, tuple) else (axis,):
        p, k = _conc(a, q)
        a = Arr(a.axes, np.flip(a.data, k), a.dtype)
    return a


def np_roll(a, shift, axis=None):
    if axis is None and len(a.axes) != 1:
        raise Unsupported("roll")
    p, k = _conc(a, 0 if axis is None else axis)
    s = IX._as_int(shift)
    if s is None:
        raise Unsupported("roll by")
    return Arr(a.axes, np.roll(a.data, s, k), a.dtype)


def np_diff(I, a, n=1, axis=-1):
    if n != 1:
        raise Unsupported("diff n")
    p = norm_axis(a, axis)
    key = [slice(None)] * len(a.axes[p + 1:])
    hi = IX.getitem(a, tuple([Ellipsis, slice(1, None, None)] + key), I)
    lo = IX.getitem(a, tuple([Ellipsis, slice(None, -1, None)] + key), I)
    return I.binop("Sub", hi, lo)


def np_take(I, a, ix, axis=None):
    if axis is None:
        if len(a.axes) != 1:
            raise Unsupported("take")
        axis = 0
    p = norm_axis(a, axis)
    return IX.getitem(a, tuple([Ellipsis, ix] + [slice(None)] * len(a.axes[p + 1:])), I)


def np_cumsum(a, axis=None):
    if axis is None and len(a.axes) != 1:
        raise Unsupported("cumsum")
    p, k = _conc(a, 0 if axis is None else axis)
    d = a.data.copy()
    m = np.moveaxis(d, k, 0)
    for i in range(1, m.shape[0]):
        for ix in np.ndindex(*m.shape[1:]):
            m[(i,) + ix] = T.add(as_term(m[(i - 1,) + ix]), as_term(m[(i,) + ix]))
    return Arr(a.axes, d, a.dtype)


def np_append(a, b, axis=None):
    a, b = lift(a), lift(b)
    if axis is None:
        a, b = [reshape(x, (-1,), "C") if len(x.axes) != 1 else x for x in (a, b)]
        axis = 0
    return np_concatenate([a, b], axis)


def np_repeat(a, n, axis=None):
    n = IX._as_int(n)
    if n is None or axis is None and len(a.axes) > 1:
        raise Unsupported("repeat")
    if a.scalar:
        a = Arr((1,), np.array([a.item()], dtype=object), a.dtype)
    p, k = _conc(a, 0 if axis is None else axis)
    return Arr(a.axes[:p] + (a.axes[p] * n,) + a.axes[p + 1:], np.repeat(a.data, n, k), a.dtype)


def np_copyto(dst, src, where=True, **kw):
    if not isinstance(dst, Arr):
        raise PyRaise(TypeError("copyto"))
    if where is True:
        IX.setitem(dst, Ellipsis, src)
        return None
    f = lambda x: x if is_formula(x) else T.ne(x, T.ZERO)
    IX.setitem(dst, Ellipsis, elementwise(lambda c, x, y: T.ite(f(c), as_term(x), as_term(y)), lift(where), lift(src), dst, dtype=dst.dtype))
    return None


def np_select(conds, choices, default=0):
    r = lift(default)
    for c, v in reversed(list(zip(conds, choices))):
        r = lift(np_where(c, v, r))
    return r


def np_concatenate(seq, axis=0, **kw):
    parts = [lift(x) for x in seq]
    n = len(parts[0].axes)
    pos = axis if axis is not None and axis >= 0 else n + axis
    for p in parts:
        if len(p.axes) != n:
            raise PyRaise(ValueError("dims mismatch"))
        if not isinstance(p.axes[pos], int):
            raise Unsupported("concatenate on symbolic axis")
        if p.axes[:pos] + p.axes[pos + 1:] != parts[0].axes[:pos] + parts[0].axes[pos + 1:]:
            raise PyRaise(ValueError("shape mismatch"))
    k = sum(1 for x in parts[0].axes[:pos] if isinstance(x, int))
    d = np.concatenate([p.data for p in parts], axis=k)
    ax = list(parts[0].axes)
    ax[pos] = sum(p.axes[pos] for p in parts)
    return Arr(ax, d, max_dtype(*[p.dtype for p in parts]))


def np_tile(a, reps):
    a = lift(a)
    if isinstance(reps, (int, Node)):
        reps = (reps,)
    if len(reps) != len(a.axes):
        raise Unsupported("tile")
    axes = []
    d = a.data
    pos = conc_positions(a.axes)
    drop = []
    for i, (ax, r) in enumerate(zip(a.axes, reps)):
        ri = IX._as_int(r)
        if ri == 1:
            axes.append(ax)
        elif ax == 1:
            na = axes_from_shape((r,))[0]
            axes.append(na)
            if isinstance(na, int):
                d = np.repeat(d, na, axis=pos[i])
            else:
                drop.append(pos[i])
        elif isinstance(ax, int) and ri is not None:
            axes.append(ax * ri)
            d = np.concatenate([d] * ri, axis=pos[i]) if ri else _unsup("tile 0")
        else:
            raise Unsupported("tile repeats")
    if drop:
        d = np.squeeze(d, axis=tuple(drop))
    return Arr(axes, d.copy(), a.dtype)


def np_broadcast_to(a, shape, **kw):
    a = lift(a)
    axes = axes_from_shape(shape)
    full = broadcast_axes(a.axes, axes)
    if full != axes:
        raise PyRaise(ValueError("cannot broadcast"))
    z = filled(axes, T.ZERO, a.dtype)
    return elementwise(lambda x, y: x, a, z, dtype=a.dtype)


def np_broadcast_arrays(*xs, **kw):
    arrs = [lift(x) for x in xs]
    try:
        axes = broadcast_axes(*[a.axes for a in arrs])
    except ShapeError as e:
        raise PyRaise(ValueError(str(e)))
    z = filled(axes, T.ZERO, "f")
    return [elementwise(lambda x, y: x, a, z, dtype=a.dtype) for a in arrs]


def np_einsum(spec, *ops, **kw):
    raise Unsupported("einsum")


def np_eye(n, *a, dtype=None, **kw):
    n = IX._as_int(n)
    d = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            d[i, j] = T.ONE if i == j else T.ZERO
    return Arr((n, n), d, "f")


def zeros(shape, dtype=None, order=None, **kw):
    k = dtype_kind(dtype) or "f"
    return filled(axes_from_shape(shape), T.ZERO if k != "b" else FALSE, k)


def ones(shape, dtype=None, order=None, **kw):
    k = dtype_kind(dtype) or "f"
    return filled(axes_from_shape(shape), T.ONE if k != "b" else TRUE, k)


def full(shape, v, dtype=None, **kw):
    a = lift(v)
    k = dtype_kind(dtype) or a.dtype
    if not a.scalar:
        return np_broadcast_to(a, shape)
    return filled(axes_from_shape(shape), a.item(), k)


def empty(shape, dtype=None, order=None, **kw):
    k = dtype_kind(dtype) or "f"
    r = filled(axes_from_shape(shape), T.mk("undef"), k)
    r.order = order or "C"
    return r


def like(f):
    def g(a, dtype=None, shape=None, **kw):
        a = np_asarray(a)
        k = dtype_kind(dtype) or a.dtype
        ax = a.axes if shape is None else axes_from_shape(shape)
        v = {"z": T.ZERO, "o": T.ONE, "e": T.mk("undef")}[f]
        if k == "b":
            v = FALSE if f != "o" else TRUE
        return filled(ax, v, k)
    return g


def full_like(a, v, dtype=None, **kw):
    a = np_asarray(a)
    k = dtype_kind(dtype) or a.dtype
    val = lift(v)
    if val.scalar:
        x = val.item()
        if k == "i" and val.dtype in "fc":
            x = T.fn("trunc", x)
        return filled(a.axes, x, k)
    return np_broadcast_to(val, shape_of(a))


def np_array(v, dtype=None, copy=True, order=None, ndmin=0, **kw):
    a = np_asarray(v, dtype)
    r = Arr(a.axes, a.data.copy(), a.dtype)
    return r


def np_require(v, dtype=None, requirements=None, **kw):
    a = np_asarray(v, dtype)
    rq = [requirements] if isinstance(requirements, str) else list(requirements or ())
    rq = [str(r)[0].upper() for r in rq]
    o = "F" if "F" in rq else "C" if "C" in rq else None
    if o is None:
        return a
    r = Arr(a.axes, a.data, a.dtype, a.buf)
    r.order = o
    return r


def isinstance_(I):
    from .interp import Obj, ClassVal, Bad, Opaque

    def py_of(v):
        if isinstance(v, bool):
            return {"bool", "int"}
        if isinstance(v, int):
            return {"int"}
        if isinstance(v, Node):
            if is_formula(v):
                return {"bool", "int", "npbool"}
            return {"float"} if not T.is_complex(v) else {"complex"}
        if isinstance(v, Arr):
            return {"ndarray"}
        return set()

    def chk(v, t):
        if isinstance(t, tuple):
            return any(chk(v, x) for x in t)
        if isinstance(t, ClassVal):
            return isinstance(v, Obj) and issubclass(v.cls.pytype, t.pytype)
        if t is b_float:
            return "float" in py_of(v)
        if t is b_int:
            return "int" in py_of(v)
        if t is b_bool:
            return isinstance(v, bool) or isinstance(v, Node) and is_formula(v)
        if t is b_complex:
            return "complex" in py_of(v)
        if t is b_str:
            return isinstance(v, str)
        if t is b_list:
            return isinstance(v, list)
        if t is b_tuple:
            return isinstance(v, tuple)
        if t is b_dict:
            return isinstance(v, dict)
        if t is NDARRAY:
            return isinstance(v, Arr)
        if t is MATRIX:
            return False
        if t is GENERIC or t is NUMBERTYPE or t is INTEGERTYPE or t is FLOATINGTYPE:
            if isinstance(v, Node):
                raise Unsupported("isinstance of numpy scalar kind")
            return False
        if t is NUMBER or t is REALNUM:
            return isinstance(v, (int, Node)) and not isinstance(v, Arr)
        if isinstance(t, type) and issubclass(t, BaseException):
            return isinstance(v, t)
        if isinstance(t, DType):
            raise Unsupported("isinstance dtype")
        raise Unsupported("isinstance %r" % (t,))
    return chk


def b_id(o):
    raise Unsupported("id()")


def b_str(v=""):
    from .interp import SymStr
    return v if isinstance(v, str) else SymStr("s")


def b_dict(*a, **k):
    return dict(*a, **k)


def _kron(I, a, b):
    """outer product where on every axis one of the two has length one (then it is the broadcast product)"""
    a, b = lift(a), lift(b)
    if len(a.axes) != len(b.axes) or not all(x == 1 or y == 1 for x, y in zip(a.axes, b.axes)):
        return _unsup("kron")
    return I.binop("Mult", a, b)


class _Marker:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


NDARRAY = _Marker("ndarray")
MATRIX = _Marker("matrix")
GENERIC = _Marker("generic")
NUMBERTYPE = _Marker("np.number")
INTEGERTYPE = _Marker("np.integer")
FLOATINGTYPE = _Marker("np.floating")
NUMBER = _Marker("numbers.Number")
REALNUM = _Marker("numbers.Real")

b_list = None
b_tuple = None


def install(I):
    global b_list, b_tuple
    _CUR[0] = I
    from .interp import Module, SymRange, SymSeq, Opaque, PyRaise as PR, ShapeTuple, LOCALS, FnVal, BoundM, ClassVal, Obj, UfuncVal

    def _list(v=()):
        return list(I.iterate(v))

    def _tuple(v=()):
        if isinstance(v, ShapeTuple):
            return v
        return tuple(I.iterate(v))
    if b_list is None:
        b_list, b_tuple = _list, _tuple
    I_list, I_tuple = b_list, b_tuple
    # conversion functions must use the current interpreter
    def list_(v=()):
        return list(I.iterate(v))
    def tuple_(v=()):
        return v if isinstance(v, ShapeTuple) else tuple(I.iterate(v))
    import sys
    sys.modules[__name__].b_list = list_
    sys.modules[__name__].b_tuple = tuple_

    def rng(*a):
        ints = [IX._as_int(x) if not isinstance(x, int) else x for x in a]
        if all(x is not None for x in ints):
            return range(*ints)
        for x in a:
            if not isinstance(x, (int, Node)):
                raise PR(TypeError("range"))
            if isinstance(x, Node) and T.isnum(x):
                raise PR(TypeError("float in range"))
        if len(a) == 1:
            return SymRange(0, a[0], 1)
        if len(a) == 2:
            return SymRange(a[0], a[1], 1)
        return SymRange(*a)

    def zip_(*xs, **kw):
        its = [I.iterate(x, allow_sym=True) for x in xs]
        if any(isinstance(x, SymSeq) for x in its):
            if not all(isinstance(x, SymSeq) for x in its) or len({x.axis for x in its}) != 1:
                raise Unsupported("zip of different axes")
            return SymSeq(its[0].axis, tuple(x.item for x in its))
        return list(zip(*its))

    def enumerate_(x, start=0):
        it = I.iterate(x, allow_sym=True)
        if isinstance(it, SymSeq):
            raise Unsupported("enumerate symbolic")
        return list(enumerate(it, start))

    def sum_(x, start=0):
        it = I.iterate(x, allow_sym=True)
        if isinstance(it, SymSeq):
            a = lift(it.item)
            r = elementwise(lambda t: T.sumover(it.axis, t), a)
            return I.binop("Add", unwrap(r), start) if start != 0 else unwrap(r)
        r = start
        for v in it:
            r = I.binop("Add", r, v)
        return r

    def minmax(f):
        def g(*a, key=None, default=None):
            if key is not None:
                raise Unsupported("key")
            xs = list(I.iterate(a[0])) if len(a) == 1 else list(a)
            if all(isinstance(x, int) for x in xs):
                return (min if f is _min2 else max)(xs)
            r = num_(xs[0])
            for x in xs[1:]:
                r = f(num_(r), num_(x))
            return r
        return g

    def any_(x):
        for v in I.iterate(x):
            if I.truth(v):
                return True
        return False

    def all_(x):
        for v in I.iterate(x):
            if not I.truth(v):
                return False
        return True

    def getattr__(o, n, *d):
        try:
            return I.getattr(o, n)
        except PR as e:
            if d and isinstance(e.exc, AttributeError):
                return d[0]
            raise

    def hasattr_(o, n):
        try:
            I.getattr(o, n)
            return True
        except PR as e:
            if isinstance(e.exc, AttributeError):
                return False
            raise

    def type_(v):
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, list):
            return list_
        if isinstance(v, tuple):
            return tuple_
        if isinstance(v, str):
            return b_str
        if isinstance(v, Arr):
            return NDARRAY
        if isinstance(v, dict):
            return b_dict
        return Opaque("type")

    def abs_(v):
        if isinstance(v, int):
            return abs(v)
        return unwrap(elementwise(lambda t: T.fn("abs", t), lift(v), dtype="f"))

    def round_(v, n=None):
        raise Unsupported("round")

    I.builtins = {
        "__ufunc__": lambda f: UfuncVal(f), "__extern__": lambda n: _extern(I, n), "__memview__": lambda v, t, n: _memview(I, v, t, n), "__addr__": lambda v, ix: _addr(I, v, ix),
        "float": b_float, "int": b_int, "complex": b_complex, "bool": b_bool, "str": b_str,
        "len": b_len, "range": rng, "zip": zip_, "enumerate": enumerate_, "sum": sum_,
        "list": list_, "tuple": tuple_, "dict": b_dict, "set": lambda v=(): set(I.iterate(v)),
        "min": minmax(_min2), "max": minmax(_max2), "any": any_, "all": all_,
        "isinstance": isinstance_(I), "getattr": getattr__, "hasattr": hasattr_,
        "setattr": lambda o, n, v: I.setattr(o, n, v),
        "type": type_, "abs": abs_, "round": round_, "property": property, "staticmethod": staticmethod,
        "classmethod": classmethod, "object": object, "print": lambda *a, **k: None,
        "super": "super", "callable": lambda f: isinstance(f, (FnVal, BoundM, ClassVal)) or callable(f),
        "pow": lambda a, b: I.binop("Pow", a, b), "locals": LOCALS,
        "reversed": lambda x: list(reversed(I.iterate(x))), "sorted": lambda x, **k: sorted(I.iterate(x)),
        "map": lambda f, *xs: [I.call(f, list(t), {}) for t in zip(*[I.iterate(x) for x in xs])],
        "id": b_id, "repr": lambda o: b_str(o), "slice": slice, "NotImplemented": NotImplemented,
        "__name__": "geoana", "divmod": lambda a, b: (I.binop("FloorDiv", a, b), I.binop("Mod", a, b)),
        "issubclass": lambda a, b: isinstance(a, ClassVal) and isinstance(b, ClassVal) and issubclass(a.pytype, b.pytype),
        "iter": lambda x: list(I.iterate(x)), "hash": lambda o: Opaque("hash"),
        "True": True, "False": False, "None": None,
    }

    B = lambda op: (lambda x, y: I.binop(op, x, y))
    C = lambda op: (lambda x, y: I.compare(op, x, y))
    npns = {
        "pi": T.PI, "nan": T.NAN, "inf": T.INF, "newaxis": None, "e": T.exp(T.ONE),
        "ndarray": NDARRAY, "matrix": MATRIX, "generic": GENERIC, "number": NUMBERTYPE,
        "integer": INTEGERTYPE, "floating": FLOATINGTYPE,
        "float64": DType("f"), "float_": DType("f"), "double": DType("f"), "complex128": DType("c"), "int64": DType("i"),
        "bool_": DType("b"), "intp": DType("i"),
        "r_": NPr(False), "c_": NPr(True),
        "asarray": np_asarray, "array": np_array, "ascontiguousarray": lambda v, dtype=None: np_asarray(v, dtype),
        "asanyarray": np_asarray, "asfarray": lambda v: np_asarray(v, DType("f")),
        "require": np_require, "copy": lambda a, **k: lift(a).copy(),
        "zeros": zeros, "ones": ones, "full": full, "empty": empty, "eye": np_eye, "identity": np_eye,
        "zeros_like": like("z"), "ones_like": like("o"), "empty_like": like("e"), "full_like": full_like,
        "stack": lambda xs, axis=0, **k: stack(I.iterate(xs), axis), "concatenate": lambda xs, axis=0, **k: np_concatenate(I.iterate(xs), axis),
        "column_stack": lambda xs: stack(I.iterate(xs), -1) if all(len(lift(x).axes) == 1 for x in I.iterate(xs)) else _unsup("column_stack"),
        "hstack": lambda xs: np_concatenate(I.iterate(xs), 0) if all(len(lift(x).axes) == 1 for x in I.iterate(xs)) else _unsup("hstack"),
        "squeeze": lambda a, axis=None: squeeze(np_asarray(a), axis), "reshape": lambda a, s, order="C", **k: reshape(np_asarray(a), s, order),
        "ravel": lambda a, order="C": flatten(lift(a), order), "transpose": lambda a, axes=None: transpose(lift(a), axes),
        "moveaxis": lambda a, s, d: moveaxis(lift(a), s, d), "expand_dims": lambda a, axis: expand_dims(lift(a), axis),
        "atleast_1d": atleast_1d, "atleast_2d": atleast_2d,
        "any": np_any, "all": np_all, "sum": lambda a, axis=None, keepdims=False, **k: unwrap(reduce_sum(a, axis, keepdims)),
        "prod": np_prod, "mean": np_mean, "max": np_max, "min": np_min, "amax": np_max, "amin": np_min,
        "dot": dot, "inner": lambda a, b: dot(a, b) if len(lift(b).axes) == 1 else _unsup("inner"),
        "vdot": lambda a, b: dot(a, b), "matmul": lambda a, b: matmul(lift(a), lift(b)), "cross": np_cross,
        "outer": lambda a, b: outer(lift(a), lift(b)),
        "einsum": lambda s, *o, **k: einsum(s, [lift(x) for x in o]),
        "where": lambda c, *xy: np_where(c, *xy, I_=I), "select": np_select, "tile": np_tile, "broadcast_to": np_broadcast_to, "broadcast_arrays": np_broadcast_arrays,
        "shape": lambda a: shape_of(np_asarray(a)), "ndim": lambda a: arr_attr(I, np_asarray(a), "ndim"), "size": lambda a: arr_attr(I, np_asarray(a), "size"),
        "isscalar": lambda v: isinstance(v, (int, Node, str)), "iscomplexobj": lambda v: lift(v).dtype == "c",
        "isrealobj": lambda v: lift(v).dtype != "c",
        "real": lambda v: arr_attr(I, np_asarray(v), "real"), "imag": lambda v: arr_attr(I, np_asarray(v), "imag"),
        "conj": ufunc1("conj"), "conjugate": ufunc1("conj"),
        "sqrt": ufunc1("sqrt", f=T.sqrt), "exp": ufunc1("exp"), "log": ufunc1("log"), "sin": ufunc1("sin", f=T.sin), "cos": ufunc1("cos", f=T.cos),
        "tan": ufunc1("tan", f=lambda t: T.div(T.sin(t), T.cos(t))), "arctan": ufunc1("atan"), "arcsin": ufunc1("asin"), "arccos": ufunc1("acos"), "tanh": ufunc1("tanh"),
        "sinh": ufunc1("sinh", f=lambda t: T.mul(T.num(Fraction(1, 2)), T.exp(t) - T.exp(-t))), "cosh": ufunc1("cosh", f=lambda t: T.mul(T.num(Fraction(1, 2)), T.exp(t) + T.exp(-t))),
        "expm1": ufunc1("expm1", f=lambda t: T.exp(t) - T.ONE), "log1p": ufunc1("log1p", f=lambda t: T.log(T.ONE + t)),
        "log10": ufunc1("log10", f=lambda t: T.div(T.log(t), T.log(T.num(10)))), "log2": ufunc1("log2", f=lambda t: T.div(T.log(t), T.log(T.num(2)))),
        "square": ufunc1("square", f=lambda t: T.mul(t, t)), "abs": abs_, "absolute": abs_, "fabs": abs_, "negative": ufunc1("neg", f=T.neg),
        "reciprocal": ufunc1("reciprocal", f=lambda t: T.div(T.ONE, t)),
        "sign": ufunc1("sign"), "deg2rad": ufunc1("deg2rad", f=lambda t: t * T.PI / 180), "radians": ufunc1("radians", f=lambda t: t * T.PI / 180),
        "rad2deg": ufunc1("rad2deg", f=lambda t: t * 180 / T.PI), "degrees": ufunc1("degrees", f=lambda t: t * 180 / T.PI),
        "floor": ufunc1("floor"), "cbrt": lambda *a: _unsup("cbrt"),
        "isnan": ufunc1("isnan", dtype="b", f=lambda t: TRUE if t is T.NAN else FALSE),
        "isfinite": ufunc1("isfinite", dtype="b", f=lambda t: FALSE if t in (T.NAN, T.INF) else TRUE),
        "isinf": ufunc1("isinf", dtype="b", f=lambda t: TRUE if t is T.INF else FALSE),
        "add": ufunc2(B("Add"), "add"), "subtract": ufunc2(B("Sub"), "subtract"), "multiply": ufunc2(B("Mult"), "multiply"), "divide": ufunc2(B("Div"), "divide"),
        "true_divide": ufunc2(B("Div"), "divide"), "power": ufunc2(B("Pow"), "power"), "float_power": ufunc2(B("Pow"), "power"), "mod": ufunc2(B("Mod"), "mod"),
        "arctan2": ufunc2(lambda y, x: unwrap(elementwise(lambda a, b: T.atan2(as_term(a), as_term(b)), lift(y), lift(x), dtype="f")), "arctan2"),
        "hypot": ufunc2(lambda y, x: unwrap(elementwise(lambda a, b: T.sqrt(a * a + b * b), lift(y), lift(x), dtype="f")), "hypot"),
        "maximum": ufunc2(lambda y, x: unwrap(elementwise(_max2, lift(y), lift(x))), "maximum"),
        "minimum": ufunc2(lambda y, x: unwrap(elementwise(_min2, lift(y), lift(x))), "minimum"),
        "clip": lambda a, lo=None, hi=None: np_clip(a, lo, hi),
        "less": C("Lt"), "less_equal": C("LtE"), "greater": C("Gt"), "greater_equal": C("GtE"), "equal": C("Eq"), "not_equal": C("NotEq"),
        "logical_and": ufunc2(lambda a, b: unwrap(elementwise(T.land, lift(a), lift(b), dtype="b")), "logical_and"),
        "logical_or": ufunc2(lambda a, b: unwrap(elementwise(T.lor, lift(a), lift(b), dtype="b")), "logical_or"),
        "logical_not": ufunc1("not", dtype="b"), "array_equal": lambda a, b: array_equal(I, a, b),
        "linspace": lambda *a, **k: np_linspace(I, *a, **k), "meshgrid": lambda *a, **k: np_meshgrid(I, *a, **k), "arange": lambda *a, **k: np_arange(*a),
        "kron": lambda a, b: _kron(I, a, b), "diag": np_diag, "diagonal": lambda a: np_diag(a) if len(lift(a).axes) == 2 else _unsup("diagonal"), "count_nonzero": np_count, "average": lambda a, axis=None: np_mean(a, axis), "polyval": lambda p, x: np_polyval(I, p, x), "split": lambda a, n, axis=0: np_split(lift(a), n, axis),
        "vectorize": lambda f, **k: UfuncVal(f) if isinstance(f, FnVal) and not k else _unsup("vectorize"),
        "errstate": lambda **k: Opaque("errstate"), "seterr": lambda **k: {},
        "swapaxes": lambda a, p, q: _swapaxes(lift(a), p, q), "vstack": lambda xs: stack(I.iterate(xs), 0) if all(len(lift(x).axes) == 1 for x in I.iterate(xs)) else np_concatenate(I.iterate(xs), 0),
        "size": lambda a: arr_attr(I, lift(a), "size"), "allclose": lambda a, b, rtol=None, atol=None, **k: np_all(np_isclose(I, a, b, rtol, atol)), "isclose": lambda a, b, rtol=None, atol=None, **k: np_isclose(I, a, b, rtol, atol),
        "trace": lambda a: np_trace(a), "flip": lambda a, axis=None: np_flip(lift(a), axis), "flipud": lambda a: np_flip(lift(a), 0), "fliplr": lambda a: np_flip(lift(a), 1),
        "roll": lambda a, shift, axis=None: np_roll(lift(a), shift, axis), "diff": lambda a, n=1, axis=-1: np_diff(I, lift(a), n, axis),
        "take": lambda a, ix, axis=None, **k: np_take(I, lift(a), ix, axis), "cumsum": lambda a, axis=None, **k: np_cumsum(lift(a), axis), "append": lambda a, b, axis=None: np_append(a, b, axis),
        "repeat": lambda a, n, axis=None: np_repeat(lift(a), n, axis), "nonzero": lambda c: np_where(c, I_=I), "argwhere": lambda c: _unsup("argwhere"),
        "arcsinh": ufunc1("asinh", f=lambda t: T.log(t + T.sqrt(t * t + T.ONE))), "arccosh": ufunc1("acosh", f=lambda t: T.log(t + T.sqrt(t * t - T.ONE))),
        "arctanh": ufunc1("atanh", f=lambda t: T.num(Fraction(1, 2)) * T.log((T.ONE + t) / (T.ONE - t))), "exp2": ufunc1("exp2", f=lambda t: T.exp(t * T.log(T.num(2)))),
        "positive": ufunc1("positive", f=lambda t: t), "heaviside": ufunc2(lambda x, h: unwrap(elementwise(lambda a, b: T.ite(T.lt(a, T.ZERO), T.ZERO, T.ite(T.eq(a, T.ZERO), b, T.ONE)), lift(x), lift(h), dtype="f")), "heaviside"),
        "sinc": ufunc1("sinc", f=lambda t: T.ite(T.eq(t, T.ZERO), T.ONE, T.sin(T.PI * t) / (T.PI * t))),
        "finfo": lambda d=None: Module("finfo", {"eps": T.num(Fraction(1, 2 ** 52)), "tiny": T.num(Fraction(1, 2 ** 1022)), "resolution": T.num(Fraction(1, 10 ** 15))}),
        "dstack": lambda xs: stack(I.iterate(xs), -1) if all(len(lift(x).axes) == 2 for x in I.iterate(xs)) else _unsup("dstack"),
        "isreal": ufunc1("isreal", dtype="b", f=lambda t: T.eq(T.fn("im", t), T.ZERO) if T.is_complex(t) else TRUE), "iscomplex": ufunc1("iscomplex", dtype="b", f=lambda t: T.ne(T.fn("im", t), T.ZERO) if T.is_complex(t) else FALSE),
        "signbit": ufunc1("signbit", dtype="b", f=lambda t: T.lt(t, T.ZERO)), "copysign": ufunc2(lambda x, y: unwrap(elementwise(lambda a, b: T.ite(T.lt(b, T.ZERO), T.neg(T.fn("abs", a)), T.fn("abs", a)), lift(x), lift(y), dtype="f")), "copysign"),
        "fmax": ufunc2(lambda y, x: unwrap(elementwise(_max2, lift(y), lift(x))), "fmax"), "fmin": ufunc2(lambda y, x: unwrap(elementwise(_min2, lift(y), lift(x))), "fmin"),
        "result_type": lambda *a: DType(max_dtype(*[lift(x).dtype if not isinstance(x, DType) else x.k for x in a])),
        "copyto": np_copyto, "putmask": lambda d, m, v: np_copyto(d, v, where=m) if lift(v).scalar else _unsup("putmask"), "nan_to_num": lambda *a, **k: _unsup("nan_to_num"),
        "complexfloating": _Marker("complexfloating"), "issubdtype": lambda *a: _unsup("issubdtype"),
    }

    def np_logical_not(a, **k):
        return unwrap(elementwise(lambda t: T.lnot(t if is_formula(t) else T.ne(t, T.ZERO)), lift(a), dtype="b"))
    npns["logical_not"] = np_logical_not
    npns["add"]._ns = {"reduce": lambda a, axis=0, **k: unwrap(reduce_sum(lift(a), axis, False))}
    npns["multiply"]._ns = {"reduce": lambda a, axis=0, **k: np_prod(a, axis), "outer": lambda a, b: outer(lift(a), lift(b))}
    for _n in ("subtract", "divide"):
        npns[_n]._ns = {}
    npns["invert"] = lambda a: I.unary("Invert", a)
    linalg = Module("numpy.linalg", {"norm": np_norm, "det": np_det})
    npns["linalg"] = linalg
    nptesting = Module("numpy.testing", {"__opaque__": True})
    npns["testing"] = nptesting

    Rot = _Marker("Rotation")

    class RotNS:
        pass
    rotmod = Module("Rotation", {"from_quat": rot_from_quat, "from_matrix": rot_from_matrix})
    sp = {
        "erf": ufunc1("erf"), "erfc": ufunc1("erfc", f=lambda t: T.ONE - T.erf(t)), "ellipk": ufunc1("ellipk"), "ellipe": ufunc1("ellipe"),
        "ellipkm1": ufunc1("ellipkm1", f=lambda t: T.fn("ellipk", T.ONE - t)),
        "iv": bessel("iv"), "kv": bessel("kv"), "ive": bessel("ive"),
        "i0": lambda x: bessel("iv")(0, x), "i1": lambda x: bessel("iv")(1, x), "i0e": lambda x: bessel("ive")(0, x), "i1e": lambda x: bessel("ive")(1, x),
        "k0": lambda x: bessel("kv")(0, x), "k1": lambda x: bessel("kv")(1, x),
        "xlogy": lambda x, y: unwrap(elementwise(lambda a, b: T.ite(T.eq(a, T.ZERO), T.ZERO, a * T.log(b)), lift(x), lift(y), dtype="f")),
    }
    mu0 = T.sym("mu_0", "real", "pos")
    eps0 = T.sym("epsilon_0", "real", "pos")
    Gc = T.sym("G", "real", "pos")
    const = {"mu_0": mu0, "epsilon_0": eps0, "G": Gc, "gravitational_constant": Gc, "pi": T.PI,
             "c": T.sym("c_light", "real", "pos"), "speed_of_light": T.sym("c_light", "real", "pos")}
    I.models = {
        "numpy": Module("numpy", npns), "numpy.linalg": linalg,
        "scipy.special": Module("scipy.special", sp), "scipy.constants": Module("scipy.constants", const),
        "scipy.spatial.transform": Module("scipy.spatial.transform", {"Rotation": rotmod}),
        "scipy": Module("scipy", {}), "math": Module("math", {
            "pi": T.PI, "sqrt": npns["sqrt"], "sin": npns["sin"], "cos": npns["cos"], "exp": npns["exp"], "log": npns["log"], "atan2": npns["arctan2"], "atan": npns["arctan"],
            "hypot": npns["hypot"], "isnan": npns["isnan"], "inf": T.INF, "asin": npns["arcsin"], "acos": npns["arccos"], "tan": npns["tan"], "degrees": npns["degrees"], "radians": npns["radians"], "pow": lambda a, b: I.binop("Pow", a, b), "expm1": npns["expm1"], "log1p": npns["log1p"], "log10": npns["log10"], "sinh": npns["sinh"], "cosh": npns["cosh"], "asinh": npns["arcsinh"], "atanh": npns["arctanh"], "acosh": npns["arccosh"], "erfc": sp["erfc"], "e": T.exp(T.ONE), "isclose": lambda a, b, rel_tol=None, abs_tol=0: _mclose(a, b, rel_tol, abs_tol), "floor": npns["floor"], "copysign": npns["copysign"], "dist": lambda a, b: np_norm(I.binop("Sub", lift(a), lift(b))), "isfinite": npns["isfinite"], "isinf": npns["isinf"], "nan": T.NAN, "fabs": abs_, "tanh": npns["tanh"], "erf": sp["erf"],
            "prod": lambda xs: np_prod(lift(list(I.iterate(xs)))),
        }),
        "functools": Module("functools", {
            "reduce": lambda f, xs, *init: freduce(I, f, xs, *init),
            "wraps": lambda f: (lambda g: g), "lru_cache": lambda *a, **k: Opaque("lru_cache") if not a or not isinstance(a[0], FnVal) else Opaque("lru_cache"),
            "partial": lambda f, *a, **k: (lambda *b, **kk: I.call(f, list(a) + list(b), {**k, **kk})),
        }),
        "itertools": Module("itertools", {"product": lambda *xs, repeat=1: list(__import__("itertools").product(*[I.iterate(x) for x in xs], repeat=repeat)),
                                           "pairwise": lambda x: list(zip(I.iterate(x), I.iterate(x)[1:])),
                                           "cycle": lambda *a: _unsup("cycle")}),
        "operator": Module("operator", {"neg": lambda a: I.unary("USub", a), "pow": B("Pow"), "lt": C("Lt"), "gt": C("Gt"), "le": C("LtE"), "ge": C("GtE"), "mul": B("Mult"), "add": B("Add"), "sub": B("Sub"), "truediv": B("Div")}),
        "numbers": Module("numbers", {"Number": NUMBER, "Real": REALNUM}),
        "warnings": Module("warnings", {"warn": lambda *a, **k: None, "__opaque__": True}),
        "copy": Module("copy", {"copy": lambda v: copy_value(v), "deepcopy": lambda v: copy_value(v)}),
        "tabnanny": Module("tabnanny", {"check": Opaque("check")}),
        "libc.math": Module("libc.math", {"sqrt": npns["sqrt"], "log": npns["log"], "atan": npns["arctan"], "fabs": abs_, "exp": npns["exp"], "pow": lambda a, b: I.binop("Pow", a, b), "hypot": npns["hypot"], "log1p": npns["log1p"], "atan2": npns["arctan2"]}),
    }
    hank = Module("libdlf.hankel", {"key_101_2009": lambda: dlf("key_101_2009"), "__opaque__": True})
    I.models["libdlf.hankel"] = hank
    I.models["libdlf"] = Module("libdlf", {"hankel": hank})
    I.models["utm"] = Module("utm", {"to_latlon": to_latlon, "__opaque__": True})
    I.models["scipy"].ns.update({"special": I.models["scipy.special"], "constants": I.models["scipy.constants"]})


def to_latlon(easting, northing, zone_number, zone_letter=None, northern=None, strict=True):
    """some function of its arguments into (latitude, longitude)"""
    if zone_letter is not None or not isinstance(northern, bool):
        raise Unsupported("utm.to_latlon")
    z = zone_number if isinstance(zone_number, int) else IX._as_int(num_(zone_number))
    if z is None:
        raise Unsupported("utm zone")
    a = [lift(easting), lift(northing)]
    z = T.num(z if northern else -z)
    if not all(x.scalar for x in a):
        raise Unsupported("utm arrays")
    a = [x.item() for x in a]
    return tuple(T.mk("fn", f, a[0], a[1], z) for f in ("utm_lat", "utm_lon"))


def dlf(name):
    """a digital linear filter: abscissae (positive) and J0, J1 weights, of some
    length; nothing else is assumed about it"""
    from .arrays import register_generic
    out = []
    for nm, sign in (("fb", "pos"), ("wj0", None), ("wj1", None)):
        s = T.sym("%s:%s" % (name, nm), "real", sign)
        register_generic("flt", [s])
        out.append(Arr((Dim("flt"),), s, "f"))
    return tuple(out)


def order_of(a):
    return getattr(a, "order", None) or ("F" if len(a.axes) <= 1 else "C")


def _extern(I, name):
    """a function declared `cdef extern` in Cython: the C++ source beside it"""
    from .cxx import Cxx
    import os
    path = os.path.join(I.root, "geoana", "kernels", "_extensions", "_rTE.cpp")

    def call(*args):
        I.called["geoana.kernels._extensions._rTE.cpp:" + name] = I.called.get("geoana.kernels._extensions._rTE.cpp:" + name, 0) + 1
        return Cxx(path, I).call(name, list(args))
    return call


def _memview(I, v, t, n):
    from .interp import PyRaise
    if not isinstance(v, Arr):
        raise PyRaise(TypeError("a bytes-like object is required"))
    if len(v.axes) != n:
        raise PyRaise(ValueError("Buffer has wrong number of dimensions"))
    want = "c" if "COMPLEX" in t or "complex" in t else "f" if t in ("REAL_t", "double") or "float64" in t else None
    if want is None:
        raise Unsupported("memoryview of " + t)
    if v.dtype != want:
        raise PyRaise(ValueError("Buffer dtype mismatch"))
    return v


def _addr(I, v, ix):
    from .cxx import Ptr
    if not isinstance(v, Arr) or any(k != 0 for k in ix) or len(ix) != len(v.axes):
        raise Unsupported("address")
    if any(a == 0 for a in v.axes):
        from .interp import PyRaise
        raise PyRaise(IndexError("Out of bounds on buffer access"))
    return Ptr(v, 0, order_of(v))

def copy_value(v):
    if isinstance(v, Arr):
        return v.copy()
    if isinstance(v, (int, Node, str)) or v is None:
        return v
    if isinstance(v, list):
        return [copy_value(x) for x in v]
    if isinstance(v, dict):
        return {k: copy_value(x) for k, x in v.items()}
    if isinstance(v, tuple):
        return tuple(copy_value(x) for x in v)
    raise Unsupported("copy")


def freduce(I, f, xs, *init):
    it = I.iterate(xs)
    if init:
        r = init[0]
    else:
        r, it = it[0], it[1:]
    for x in it:
        r = I.call(f, [r, x], {})
    return r


def bessel(name):
    def g(nu, z, **kw):
        nu, z = lift(nu), lift(z)
        return unwrap(elementwise(lambda a, b: T.fn(name, a, b), nu, z, dtype=max_dtype("f", z.dtype)))
    return g


def expand_dims(a, axis):
    if isinstance(axis, (tuple, list)):
        for x in sorted(axis):
            a = expand_dims(a, x)
        return a
    n = len(a.axes)
    pos = axis if axis >= 0 else n + 1 + axis
    if axis >= 0 and any(isinstance(x, (Pack, OnesPack)) for x in a.axes[:pos]):
        raise Unsupported("expand_dims")
    if axis < 0 and any(isinstance(x, (Pack, OnesPack)) for x in a.axes[pos:]):
        raise Unsupported("expand_dims")
    return Arr(a.axes[:pos] + (1,) + a.axes[pos:], insert_dim(a, pos), a.dtype, a.buf)


def outer(a, b):
    if len(a.axes) != 1 or len(b.axes) != 1 or isinstance(a.axes[0], Pack) or isinstance(b.axes[0], Pack):
        raise Unsupported("outer")
    return elementwise(T.mul, expand_dims(a, -1), b)


def einsum(spec, ops):
    spec = spec.replace(" ", "")
    if "->" not in spec:
        raise Unsupported("einsum implicit")
    ins, out = spec.split("->")
    ins = ins.split(",")
    if len(ins) != len(ops):
        raise Unsupported("einsum")
    # label -> axis ; '...' -> leading axes
    letters = []
    for s in ins + [out]:
        for ch in s.replace("...", ""):
            if ch not in letters:
                letters.append(ch)
    ell = ()
    for s, o in zip(ins, ops):
        if "..." in s:
            if not s.startswith("..."):
                raise Unsupported("einsum ellipsis")
            k = len(s) - 3
            lead = o.axes[: len(o.axes) - k]
            ell = broadcast_axes(ell, lead) if ell else lead
        elif len(s) != len(o.axes):
            raise Unsupported("einsum rank")
    axmap = {}
    for s, o in zip(ins, ops):
        body = s.replace("...", "")
        for ch, ax in zip(body, o.axes[len(o.axes) - len(body):]):
            if ch in axmap and axmap[ch] != ax:
                raise ShapeError("einsum")
            axmap[ch] = ax
        if len(set(body)) != len(body):
            raise Unsupported("einsum diagonal")
    outb = out.replace("...", "")
    order = [c for c in outb] + [c for c in letters if c not in outb]
    # reorder every operand to ell + order
    ps = []
    for s, o in zip(ins, ops):
        body = s.replace("...", "")
        k = len(body)
        lead = o.axes[: len(o.axes) - k]
        pos = conc_positions(o.axes)
        nlead = sum(1 for a in lead if isinstance(a, int))
        perm = list(range(nlead))
        naxes = list(lead)
        for c in order:
            if c in body:
                i = len(lead) + body.index(c)
                naxes.append(o.axes[i])
                if pos[i] is not None:
                    perm.append(pos[i])
        d = o.data.transpose(perm)
        a = Arr(naxes, d, o.dtype)
        # insert ones for missing letters
        have = [c for c in order if c in body]
        cur = len(lead)
        res = a
        p = len(lead)
        for c in order:
            if c in body:
                p += 1
            else:
                res = Arr(res.axes[:p] + (1,) + res.axes[p:], insert_dim(res, p), res.dtype)
                p += 1
        if not lead and ell:
            pass
        ps.append(res)
    r = ps[0]
    for q in ps[1:]:
        r = elementwise(T.mul, r, q)
    for _ in range(len(order) - len(outb)):
        r = reduce_sum(r, -1, False)
    return unwrap(r)


def array_equal(I, a, b):
    a, b = lift(a), lift(b)
    if a.axes != b.axes:
        raise Unsupported("array_equal shapes")
    return np_all(elementwise(lambda x, y: T.eq(as_term(x), as_term(y)), a, b, dtype="b"))


def np_linspace(I, start, stop, n=50, **kw):
    if kw:
        raise Unsupported("linspace keywords")
    start, stop = num_(start), num_(stop)
    k = IX._as_int(n) if not isinstance(n, int) else n
    if k is not None:
        d = np.empty((k,), dtype=object)
        for i in range(k):
            d[i] = start + (stop - start) * T.num(i) / T.num(max(k - 1, 1))
        return Arr((k,), d, "f")
    if isinstance(n, Arr):
        n = n.item()
    ax = LEN_AXIS.get(num_(n))
    if not isinstance(ax, Dim) or ax.off:
        raise Unsupported("linspace of %s" % T.show(num_(n)))
    # with one point the value is just the start
    if not solve.entails(list(I.pc), T.le(T.num(2), dimlen(ax))):
        raise Unsupported("linspace: length may be one")
    i = index_sym(ax.name)
    register_generic(ax.name, [i])
    return Arr((ax,), start + (stop - start) * i / (dimlen(ax) - 1), "f")


def np_meshgrid(I, *xs, **kw):
    if len(xs) != 2 or kw.get("indexing", "xy") not in ("xy", "ij") or set(kw) - {"indexing"}:
        raise Unsupported("meshgrid")
    x, y = (lift(v) for v in xs)
    if len(x.axes) != 1 or len(y.axes) != 1:
        raise Unsupported("meshgrid")
    if kw.get("indexing", "xy") == "xy":
        x, y = IX.getitem(x, (None, slice(None))), IX.getitem(y, (slice(None), None))
    else:
        x, y = IX.getitem(x, (slice(None), None)), IX.getitem(y, (None, slice(None)))
    return [v.copy() for v in np_broadcast_arrays(x, y)]


def np_arange(*a):
    xs = [IX._as_int(x) for x in a]
    if any(x is None for x in xs):
        raise Unsupported("arange")
    r = list(range(*xs))
    d = np.empty((len(r),), dtype=object)
    for i, v in enumerate(r):
        d[i] = T.num(v)
    return Arr((len(r),), d, "i")

CONST_SYMS = {"mu_0": T.sym("mu_0", "real", "pos"), "epsilon_0": T.sym("epsilon_0", "real", "pos"), "G": T.sym("G", "real", "pos")}
