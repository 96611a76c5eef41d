"""Rank-polymorphic generic-element arrays.

An Arr stands for a numpy array whose shape mixes concrete lengths with
symbolic axes.  `data` is a numpy object array over the *concrete* axes only;
its entries are terms for the element at the generic index of every symbolic
axis.  A statement proved about the generic element therefore holds for every
element, for arrays of every length (Dim) and every leading shape (Pack).
Views share `data`, so aliasing and in-place writes are modelled.
"""
import numpy as np
from collections import namedtuple
from . import terms as T
from .terms import Node, TRUE, FALSE
from .nf import Unsupported

def _kind(nm, fields):
    """named tuples that are equal only to tuples of their own kind"""
    c = namedtuple(nm, fields)
    c.__eq__ = lambda s, o: type(s) is type(o) and tuple.__eq__(s, o)
    c.__ne__ = lambda s, o: not (type(s) is type(o) and tuple.__eq__(s, o))
    c.__hash__ = lambda s: hash((nm, tuple.__hash__(s)))
    return c


Dim = _kind("Dim", "name off")          # symbolic length (len(name)+off), one axis
Dim.__new__.__defaults__ = (0,)
Pack = _kind("Pack", "name")            # arbitrary number of axes
OnesPack = _kind("OnesPack", "name")    # as many length-1 axes as Pack(name)
Flat = _kind("Flat", "name")            # Pack(name) flattened to one axis
Masked = _kind("Masked", "axes cond")   # selected subset of the axes, one axis

AXIS_SYMS = {}        # Dim name -> set of generic symbols varying along it
LENGTHS = {}
SHIFT = {}            # (Dim name, k) -> {generic symbol at i: term for index i+k}


def dimlen(ax):
    if isinstance(ax, int):
        return ax
    if isinstance(ax, Dim):
        n = T.sym("#" + ax.name, "int", "pos")
        return n if ax.off == 0 else T.add(n, T.num(ax.off))
    if isinstance(ax, Flat):
        return T.sym("#flat:" + ax.name, "int", "nonneg")
    raise Unsupported("length of %r" % (ax,))


def packrank(name):
    return T.sym("rank:" + name, "int", "nonneg")


class ShapeError(Exception):
    """shapes that do not broadcast (numpy would raise ValueError)"""


class Buffer:
    """identity of a memory block, for frame/alias reasoning"""
    n = 0

    def __init__(self, owner=None):
        Buffer.n += 1
        self.id = Buffer.n
        self.owner = owner
        self.written = []


class Arr:
    __slots__ = ("axes", "data", "dtype", "buf", "order")

    def __init__(self, axes, data, dtype="f", buf=None):
        self.axes = tuple(axes)
        if not isinstance(data, np.ndarray):
            d = np.empty((), dtype=object)
            d[()] = data
            data = d
        self.data = data
        self.dtype = dtype
        self.buf = buf or Buffer()
        cs = tuple(a for a in self.axes if isinstance(a, int))
        assert data.shape == cs, (data.shape, self.axes)

    def __repr__(self):
        return "Arr%s:%s%s" % (self.axes, self.dtype, self.data.tolist())

    @property
    def scalar(self):
        return len(self.axes) == 0

    def item(self):
        return self.data[()]

    def copy(self):
        return Arr(self.axes, self.data.copy(), self.dtype)


def conc_positions(axes):
    """map axis position -> data dim (or None)"""
    out, k = [], 0
    for a in axes:
        if isinstance(a, int):
            out.append(k)
            k += 1
        else:
            out.append(None)
    return out


def to_arr(v):
    """interpreted value -> Arr (numpy.asarray semantics, always float-ish)"""
    if isinstance(v, Arr):
        return v
    if isinstance(v, Node):
        k = kind_of(v)
        return Arr((), v, k)
    if isinstance(v, bool):
        return Arr((), TRUE if v else FALSE, "b")
    if isinstance(v, (int,)):
        return Arr((), T.num(v), "i")
    if isinstance(v, (float, complex)):
        return Arr((), T.num(v), "c" if isinstance(v, complex) else "f")
    if isinstance(v, (list, tuple)):
        if len(v) == 0:
            return Arr((0,), np.empty((0,), dtype=object), "f")
        parts = [to_arr(x) for x in v]
        ax = parts[0].axes
        for p in parts:
            if p.axes != ax:
                raise ShapeError("inhomogeneous")
        data = np.empty((len(parts),) + parts[0].data.shape, dtype=object)
        for i, p in enumerate(parts):
            data[i] = p.data if p.data.shape else p.data[()]
        return Arr((len(parts),) + ax, data, max_dtype(*[p.dtype for p in parts]))
    raise Unsupported("to_arr %r" % (type(v),))


FORMULA_OPS = {"lt", "le", "eq", "not", "and", "any", "true", "false"}


def is_formula(n):
    return n.op in FORMULA_OPS


def kind_of(n):
    if is_formula(n):
        return "b"
    if T.is_complex(n):
        return "c"
    return "f"


def max_dtype(*ds):
    order = "bifc"
    return max(ds, key=lambda d: order.index(d))


def unify_axis(a, b):
    """broadcast two axes; returns axis"""
    if a == b:
        return a
    if a == 1 and not isinstance(b, (Pack, OnesPack)):
        return b
    if b == 1 and not isinstance(a, (Pack, OnesPack)):
        return a
    if isinstance(a, OnesPack) and isinstance(b, Pack) and a.name == b.name:
        return b
    if isinstance(b, OnesPack) and isinstance(a, Pack) and a.name == b.name:
        return a
    if isinstance(a, Masked) and isinstance(b, Masked) and a.axes == b.axes:
        from . import solve
        if solve.check([T.lnot(T.iff(a.cond, b.cond))]) == "unsat":
            return a
    raise ShapeError("cannot broadcast %r with %r" % (a, b))


def broadcast_axes(*axs):
    n = max(len(a) for a in axs)
    out = []
    for i in range(1, n + 1):
        cur = None
        for a in axs:
            if len(a) >= i:
                cur = a[-i] if cur is None else unify_axis(cur, a[-i])
        out.append(cur)
    out = tuple(reversed(out))
    # a Pack of unknown rank may only meet axes to its left if aligned
    for a in axs:
        for p, ax in enumerate(a):
            if isinstance(ax, (Pack, OnesPack)):
                # everything right of it must line up one to one, guaranteed by
                # the right alignment above; everything to the left of a pack in
                # the *other* operand must not overlap the pack's extra axes
                pos = len(a) - p
                for b in axs:
                    if len(b) >= pos and b[-pos] != ax and not (
                        isinstance(b[-pos], (Pack, OnesPack)) and b[-pos].name == ax.name
                    ):
                        raise ShapeError("rank-dependent broadcast %r / %r" % (a, b))
    return out


def align(arr, axes):
    """numpy data of arr, shaped for the concrete axes of `axes` (size 1 or n)"""
    src = arr.axes
    off = len(axes) - len(src)
    idx_shape = []
    d = arr.data
    # walk from left; build list of dims for d: keep / squeeze / insert
    k = 0
    take = []
    newshape = []
    for i, ax in enumerate(axes):
        if i < off:
            if isinstance(ax, int):
                newshape.append(1)
            continue
        s = src[i - off]
        if isinstance(s, int):
            if isinstance(ax, int):
                newshape.append(d.shape[k])
            else:
                assert d.shape[k] == 1
            k += 1
        else:
            if isinstance(ax, int):
                raise ShapeError("symbolic axis against concrete axis")
    return d.reshape(newshape)


def elementwise(f, *arrs, dtype=None):
    axes = broadcast_axes(*[a.axes for a in arrs])
    ds = [align(a, axes) for a in arrs]
    shape = tuple(a for a in axes if isinstance(a, int))
    bs = np.broadcast_arrays(*ds) if len(ds) > 1 else [ds[0]]
    if len(ds) == 1:
        bs = [np.broadcast_to(ds[0], shape)]
    else:
        bs = [np.broadcast_to(b, shape) for b in bs]
    out = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        out[ix] = f(*[b[ix] for b in bs])
    if dtype is None:
        dtype = max_dtype(*[a.dtype for a in arrs])
    return Arr(axes, out, dtype)


def register_generic(name, symbols):
    AXIS_SYMS.setdefault(name, set()).update(symbols)


def index_sym(axname):
    """the generic index of a symbolic axis itself"""
    return T.sym("#ix:" + axname, "int", "nonneg")


def index_subst(node, axname, mp, recf, memo=None):
    """substitute along one axis: bound occurrences (sums and recurrences over
    that axis) are not touched; the latter are indexed by `recf` instead"""
    if memo is None:
        memo = {}
    r = memo.get(node)
    if r is not None:
        return r
    op = node.op
    if node in mp:
        r = mp[node]
    elif not node.args or op in ("num", "sym"):
        r = node
    elif op in ("sum", "any") and _axis_name(node.args[0]) == axname:
        r = node
    elif op == "rec" and node.args[0] == axname or op == "recat" and node.args[0].args[0] == axname:
        r = recf(node)
    else:
        na = [index_subst(a, axname, mp, recf, memo) if isinstance(a, Node) else a for a in node.args]
        r = node if all(x is y for x, y in zip(na, node.args)) else T.rebuild(node, na)
    memo[node] = r
    return r


def _axis_name(ax):
    return getattr(ax, "name", ax)


def at_index(node, axname, key):
    """substitute the generic index of axis `axname` by a specific one"""
    syms = AXIS_SYMS.get(axname, ())
    mp = {}
    for s in syms:
        kind, sign = T.SYM_ATTR[s.args[0]]
        mp[s] = T.sym("%s[%s]" % (s.args[0], key), kind, sign)
    try:
        ik = int(key)
    except ValueError:
        ik = None
    if ik is not None:
        n = T.sym("#" + axname, "int", "pos")
        mp[index_sym(axname)] = T.num(ik) if ik >= 0 else T.add(n, T.num(ik))

    def recf(r):
        if ik is None:
            raise Unsupported("recurrence at a symbolic index")
        return T.recat(r, "at", ik)
    return index_subst(node, axname, mp, recf)


def shift_index(node, axname, k):
    """generic index i -> i+k"""
    recf = lambda r: T.recat(r, "sh", k)
    if (axname, k) in SHIFT:
        return index_subst(node, axname, SHIFT[(axname, k)], recf)
    syms = AXIS_SYMS.get(axname, ())
    mp = {}
    new = set()
    for s in list(syms):
        kind, sign = T.SYM_ATTR[s.args[0]]
        nm = s.args[0]
        o = 0
        if nm.endswith(">"):
            base, so = nm[:-1].rsplit("<", 1)
            o = int(so)
        else:
            base = nm
        no = o + k
        n2 = T.sym("%s<%+d>" % (base, no) if no else base, kind, sign)
        mp[s] = n2
        new.add(n2)
    mp[index_sym(axname)] = T.add(index_sym(axname), T.num(k))
    r = index_subst(node, axname, mp, recf)
    AXIS_SYMS[axname] = set(syms) | new
    return r
