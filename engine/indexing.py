"""numpy indexing on generic-element arrays."""
import numpy as np
from . import terms as T
from .terms import Node, TRUE, FALSE
from .nf import Unsupported
from .ctx import CTX
from .arrays import *
from .arrays import is_formula


def _as_int(k):
    if isinstance(k, bool):
        raise Unsupported("bool index")
    if isinstance(k, int):
        return k
    if isinstance(k, np.integer):
        return int(k)
    if isinstance(k, Node) and T.isnum(k) and T.val(k).denominator == 1:
        return int(T.val(k))
    if isinstance(k, Arr) and k.scalar and k.dtype == "i":
        return _as_int(k.item())
    return None


class MaskIdx(tuple):
    """np.where(cond) / cond.nonzero(): indexing with it is indexing with the mask"""
    def __new__(cls, mask):
        t = tuple.__new__(cls, ())
        t.mask = mask
        return t

    def _no(self, *a):
        raise Unsupported("np.where(cond) used other than as an index")
    __getitem__ = __len__ = __iter__ = __add__ = __bool__ = _no


def nconsumed(k):
    if k is None or k is Ellipsis:
        return 0
    if isinstance(k, Arr) and k.dtype == "b":
        return len(k.axes)
    return 1


def expand_key(arr, key):
    """expand Ellipsis, returns list of (item, axes consumed tuple)"""
    if isinstance(key, MaskIdx):
        key = key.mask
    if not isinstance(key, tuple):
        key = (key,)
    axes = arr.axes
    nell = sum(1 for k in key if k is Ellipsis)
    if nell > 1:
        raise Unsupported("two ellipses")
    used = sum(nconsumed(k) for k in key)
    if used > len(axes):
        # packs count as unknown many axes
        if any(isinstance(a, Pack) for a in axes):
            raise Unsupported("indexing into a pack")
        raise PyIndexError("too many indices")
    if nell == 0:
        key = key + (Ellipsis,)
    out = []
    pos = 0
    i = 0
    for j, k in enumerate(key):
        if k is Ellipsis:
            rest = sum(nconsumed(x) for x in key[j + 1:])
            n = len(axes) - pos - rest
            for _ in range(n):
                out.append((slice(None), (axes[pos],)))
                pos += 1
        else:
            c = nconsumed(k)
            out.append((k, axes[pos:pos + c]))
            pos += c
    return out


class PyIndexError(Exception):
    pass


def mask_match(mask_axes, axes):
    """do the axes of a boolean mask match the indexed axes"""
    if tuple(mask_axes) == tuple(axes):
        return True
    return False


def getitem(arr, key, interp=None):
    items = expand_key(arr, key)
    # leading positional indices into Pack axes are rank dependent
    npk = []          # numpy key on data
    out_axes = []
    data = arr.data
    post = []         # post-processing substitutions
    view = True
    masks = []
    for k, ax in items:
        if k is None:
            npk.append(None)
            out_axes.append(1)
            continue
        if isinstance(k, Arr) and k.dtype == "b":
            if not mask_match(k.axes, ax):
                raise Unsupported("mask axes %r vs %r" % (k.axes, ax))
            if any(isinstance(a, int) for a in ax):
                if len(ax) == 1 and all(x in (TRUE, FALSE) for x in k.data.flat):
                    sel = [i for i in range(ax[0]) if k.data[i] is TRUE]
                    npk.append(sel)
                    out_axes.append(len(sel))
                    view = False
                    continue
                raise Unsupported("mask over concrete axis")
            cond = k.item()
            if len(ax) == 0:
                raise Unsupported("0-d mask")
            out_axes.append(Masked(tuple(ax), cond))
            view = False
            continue
        a = ax[0]
        if isinstance(k, slice):
            if isinstance(a, int):
                st = [None if x is None else _as_int(x) for x in (k.start, k.stop, k.step)]
                for x, y in zip((k.start, k.stop, k.step), st):
                    if x is not None and y is None:
                        raise Unsupported("symbolic slice bound")
                s = slice(*st)
                npk.append(s)
                out_axes.append(len(range(*s.indices(a))))
            else:
                if k.start is None and k.stop is None and k.step in (None, 1):
                    out_axes.append(a)
                    continue
                if isinstance(a, Dim):
                    st, sp, se = k.start, k.stop, k.step
                    if se not in (None, 1):
                        raise Unsupported("strided slice of symbolic axis")
                    st = 0 if st is None else _as_int(st)
                    if a.off == 0 and (st, sp if sp is None else _as_int(sp)) in ((0, 1), (-1, None)):
                        # the first (last) element, kept as an axis
                        view = False
                        whole_read(arr)
                        post.append((a.name, ("at", str(st))))
                        npk.append(None)
                        out_axes.append(1)
                        continue
                    if st is None or st < 0:
                        raise Unsupported("slice start")
                    off = a.off
                    if sp is not None:
                        spi = _as_int(sp)
                        if spi is not None and spi < 0:
                            off += spi
                        elif isinstance(sp, Node):
                            d = diff_dim(sp, a.name)
                            if d is None:
                                raise Unsupported("slice stop")
                            off = d
                        else:
                            raise Unsupported("slice stop on symbolic axis")
                    off -= st
                    out_axes.append(Dim(a.name, off))
                    if st:
                        post.append((a.name, st))
                    continue
                raise Unsupported("slice of %r" % (a,))
            continue
        if isinstance(k, (list, tuple)) or (isinstance(k, Arr) and k.dtype in "i" and len(k.axes) == 1):
            vals = [_as_int(x) for x in (k if not isinstance(k, Arr) else list(k.data))]
            if any(v is None for v in vals):
                raise Unsupported("fancy index")
            if not isinstance(a, int):
                raise Unsupported("fancy index on symbolic axis")
            npk.append(vals)
            out_axes.append(len(vals))
            view = False
            continue
        ik = _as_int(k)
        if ik is None and not isinstance(k, Node):
            raise Unsupported("index %r" % (type(k),))
        if isinstance(a, int):
            if ik is None:
                raise Unsupported("symbolic index into concrete axis")
            if not (-a <= ik < a):
                raise PyIndexError("index %d out of bounds for axis %d" % (ik, a))
            npk.append(ik)
        elif isinstance(a, Dim):
            view = False
            if ik is None:
                o = loop_offset(k, a.name)
                if o is not None:
                    data = read_in_loop(arr, data, a, o, post)
                    continue
                d = diff_dim(k, a.name)
                if d is not None and d < 0:
                    if d >= a.off:
                        raise PyIndexError("index out of bounds")
                    keyname = str(d)
                else:
                    keyname = "%s" % T.show(k)
            else:
                keyname = str(ik)
                if ik < 0 and a.off:
                    keyname = str(ik + a.off)
            whole_read(arr)
            post.append((a.name, ("at", keyname)))
        else:
            raise Unsupported("integer index into %r" % (a,))
    # apply fancy lists one at a time (orthogonal only when a single list)
    nl = [i for i, k in enumerate(npk) if isinstance(k, list)]
    if len(nl) > 1:
        raise Unsupported("multiple fancy indices")
    if nl and any(isinstance(k, int) for k in npk):
        # numpy would mix advanced + basic ints; keep axis order via take
        i = nl[0]
        lst = npk[i]
        npk[i] = slice(None)
        d = data[tuple(npk)]
        axis = sum(1 for k in npk[:i] if not isinstance(k, int))
        d = np.take(d, lst, axis=axis)
    elif any(isinstance(k, list) for k in npk):
        d = data[tuple(npk)]
    else:
        d = data[tuple(npk) + (Ellipsis,)]      # a view, also when no concrete axis is left
    if not isinstance(d, np.ndarray):
        x = np.empty((), dtype=object)
        x[()] = d
        d = x
        if not all(isinstance(k, int) for k in npk) or not npk:
            pass
    if len(out_axes) == 0 and len(post) == 0 and view:
        v = d[()]
        return v if not isinstance(v, np.ndarray) else v
    if post:
        f = np.empty(d.shape, dtype=object)
        for ix in np.ndindex(*d.shape):
            v = d[ix]
            for name, s in post:
                v = at_index(v, name, s[1]) if isinstance(s, tuple) else shift_index(v, name, s)
            f[ix] = v
        d = f
        view = False
    if not view:
        r = Arr(out_axes, d.copy() if d.base is not None else d, arr.dtype)
        if not out_axes:
            return r.item()
        return r
    return Arr(out_axes, d, arr.dtype, arr.buf)


# ---- loops over a symbolic axis (see loops.axis_loop)
FRAMES = []


class Frame:
    def __init__(self, axis, off, direction):
        self.axis, self.off, self.direction = axis, off, direction
        self.written = {}       # id(base data) -> (base, content before the loop)
        self.cur = {}           # id(base) -> element written in this iteration
        self.prev = {}          # id(base) -> placeholders for the neighbouring index


def frame_for(axname):
    for f in reversed(FRAMES):
        if f.axis == axname:
            return f
    return None


def loop_offset(k, axname):
    """k == generic index of the axis + constant"""
    ix = index_sym(axname)
    if not any(s is ix for s in T.symbols(k)):
        return None
    from .nf import NF
    r = NF().norm(T.add(k, T.neg(ix)))
    if r.d:
        return None
    if not r.n:
        return 0
    if len(r.n) == 1 and () in r.n:
        return int(r.n[()])
    return None


def _is_base(d):
    return not isinstance(d.base, np.ndarray)


def read_in_loop(arr, data, a, o, post):
    f = frame_for(a.name)
    if f is None:
        raise Unsupported("loop index outside its loop")
    if o < 0 or f.off + o > a.off:
        # first / last iteration would leave the axis
        raise Unsupported("index %+d at the end of the axis" % o)
    w = f.written.get(id(arr.data))
    if w is None and not _is_base(arr.data) and f.written:
        b = arr.data
        while isinstance(b.base, np.ndarray):
            b = b.base
        if id(b) in f.written:
            raise Unsupported("view of an array written in the loop")
    if w is None:
        if o:
            post.append((a.name, o))
        return data
    if o == 0:
        return f.cur.get(id(arr.data), w[1])
    if o == -f.direction:
        return f.prev[id(arr.data)]
    raise Unsupported("loop-carried array access")


def write_in_loop(arr, a, o, value, out_axes):
    f = frame_for(a.name)
    if f is None or o != 0 or not _is_base(arr.data):
        raise Unsupported("store to one element of a symbolic axis")
    if any(x != y for x, y in zip(arr.axes, [a] + list(out_axes))) or len(out_axes) != len(arr.axes) - 1:
        raise Unsupported("partial store in a symbolic loop")
    if f.off > a.off:
        raise Unsupported("store beyond the end of the axis")
    v = to_arr(value)
    full = broadcast_axes(tuple(out_axes), v.axes)
    if full != tuple(out_axes):
        raise ShapeError("could not broadcast into target")
    d = np.empty(arr.data.shape, dtype=object)
    d[...] = np.broadcast_to(align(v, tuple(out_axes)), d.shape)
    if arr.dtype in "if" and v.dtype == "c":
        raise Unsupported("complex into real")
    f.cur[id(arr.data)] = d
    f.written.setdefault(id(arr.data), (arr.data, arr.data.copy()))
    arr.buf.written.append("loop")


def whole_read(arr):
    for f in FRAMES:
        if id(arr.data) in f.written:
            raise Unsupported("whole-array access to an array written in the loop")


def diff_dim(node, name):
    """node == len(name)+c -> c"""
    n = T.sym("#" + name, "int", "pos")
    from .nf import NF
    r = NF().norm(T.add(node, T.neg(n)))
    if r.d:
        return None
    if not r.n:
        return 0
    if len(r.n) == 1 and () in r.n:
        return int(r.n[()])
    return None


def excluded(cond):
    """the facts of the path rule the condition out for every element"""
    from . import npmodel, solve
    pc = list(npmodel._CUR[0].pc)
    if T.lnot(cond) in pc:
        return True
    return solve.check(pc + [cond], 1000) == "unsat"


def setitem(arr, key, value, interp=None):
    items = expand_key(arr, key)
    npk = []
    out_axes = []
    conds = []
    for k, ax in items:
        if k is None:
            npk.append(None)
            out_axes.append(1)
            continue
        if isinstance(k, Arr) and k.dtype == "b":
            if not mask_match(k.axes, ax):
                raise Unsupported("mask axes")
            if len(ax) == 0:
                conds.append(k.item())
                continue
            if any(isinstance(a, int) for a in ax):
                if len(ax) == 1:
                    # mask over a concrete axis: element-wise ite
                    out_axes.append(("maskc", ax[0], k))
                    npk.append(slice(None))
                    continue
                raise Unsupported("mask over concrete axes")
            cond = k.item()
            if CTX.ghosts and excluded(cond):
                return              # no element is selected
            conds.append(cond)
            out_axes.append(Masked(tuple(ax), cond))
            continue
        a = ax[0]
        if isinstance(k, slice):
            if isinstance(a, int):
                st = [None if x is None else _as_int(x) for x in (k.start, k.stop, k.step)]
                s = slice(*st)
                npk.append(s)
                out_axes.append(len(range(*s.indices(a))))
            elif k.start is None and k.stop is None and k.step in (None, 1):
                out_axes.append(a)
            else:
                raise Unsupported("store to slice of symbolic axis")
            continue
        if isinstance(k, (list, tuple)):
            vals = [_as_int(x) for x in k]
            npk.append(vals)
            out_axes.append(len(vals))
            continue
        ik = _as_int(k)
        if isinstance(a, Dim) and all(x is slice or isinstance(x, slice) for x, _ in items[1:]) and k is items[0][0]:
            rest = [x[1][0] for x in items[1:] if x[0].start is None and x[0].stop is None and x[0].step in (None, 1)]
            if len(rest) != len(items) - 1:
                raise Unsupported("store to one element of a symbolic axis")
            if ik is None and isinstance(k, Node):
                o = loop_offset(k, a.name)
                if o is not None:
                    write_in_loop(arr, a, o, value, rest)
                    return
                d = diff_dim(k, a.name)
                ik = d if d is not None and d < 0 else None
                if ik is not None:
                    ik -= a.off
            if ik is None:
                raise Unsupported("store index")
            whole_read(arr)
            v = to_arr(value)
            if broadcast_axes(tuple(rest), v.axes) != tuple(rest):
                raise ShapeError("could not broadcast into target")
            src = np.broadcast_to(align(v, tuple(rest)), arr.data.shape)
            pos = T.num(ik) if ik >= 0 else T.add(T.sym("#" + a.name, "int", "pos"), T.num(ik + a.off))
            c = T.eq(index_sym(a.name), pos)
            for ix in np.ndindex(*arr.data.shape):
                nv = src[ix]
                if arr.dtype in "if" and T.is_complex(nv):
                    raise Unsupported("complex into real")
                arr.data[ix] = _ite(c, nv, arr.data[ix])
            arr.buf.written.append(key)
            return
        if ik is None:
            raise Unsupported("store index")
        if not isinstance(a, int):
            raise Unsupported("store to one element of a symbolic axis")
        if not (-a <= ik < a):
            raise PyIndexError("index out of bounds")
        npk.append(ik)
    arr.buf.written.append(key)
    v = to_arr(value)
    maskc = [(i, a) for i, a in enumerate(out_axes) if isinstance(a, tuple) and len(a) == 3 and a[0] == "maskc"]
    if maskc:
        if len(maskc) > 1 or not v.scalar:
            raise Unsupported("masked store with array value")
        i, (_, n, k) = maskc[0]
        out_axes[i] = n
        tgt = arr.data[tuple(npk)]
        pos = sum(1 for a in out_axes[:i] if isinstance(a, int))
        for ix in np.ndindex(*tgt.shape):
            tgt[ix] = T.ite(k.data[ix[pos]], v.item(), tgt[ix])
        return
    # check broadcast of value against out_axes
    try:
        full = broadcast_axes(tuple(out_axes), v.axes)
    except ShapeError:
        raise
    if len(full) != len(out_axes):
        # numpy allows leading ones only
        if all(a == 1 for a in v.axes[: len(v.axes) - len(out_axes)]):
            v = Arr(v.axes[len(v.axes) - len(out_axes):], v.data.reshape(v.data.shape[len(v.axes) - len(out_axes):]), v.dtype)
        else:
            raise ShapeError("could not broadcast into target")
    if full[-len(out_axes):] != tuple(out_axes) if out_axes else False:
        raise ShapeError("could not broadcast into target")
    src = align(v, tuple(out_axes))
    conv = None
    if arr.dtype == "i" and v.dtype in "fc":
        conv = lambda n: n if (T.isnum(n) and T.val(n).denominator == 1) else T.fn("trunc", T.fn("re", n))
    elif arr.dtype == "f" and v.dtype == "c":
        conv = lambda n: T.fn("re", n)
    nl = [i for i, k in enumerate(npk) if isinstance(k, list)]
    if nl and len(npk) > 1:
        raise Unsupported("store with fancy index")
    tgt = arr.data[tuple(npk)] if not nl else None
    cond = T.land(*conds) if conds else TRUE
    if nl:
        lst = npk[0]
        src = np.broadcast_to(src, (len(lst),))
        for j, i in enumerate(lst):
            nv = src[j]
            nv = conv(nv) if conv else nv
            arr.data[i] = T.ite(cond, nv, arr.data[i])
        return
    if not isinstance(tgt, np.ndarray):
        # single element
        nv = src[()] if src.shape == () else src.reshape(-1)[0]
        nv = conv(nv) if conv else nv
        full_idx = tuple(k for k in npk if k is not None)
        arr.data[full_idx] = _ite(cond, nv, arr.data[full_idx])
        return
    src = np.broadcast_to(src, tgt.shape)
    vals = {}
    for ix in np.ndindex(*tgt.shape):
        nv = src[ix]
        nv = conv(nv) if conv else nv
        vals[ix] = _ite(cond, nv, tgt[ix])
    for ix, nv in vals.items():
        tgt[ix] = nv


def _ite(c, a, b):
    if c is TRUE:
        return a
    if is_formula(a) or (isinstance(b, Node) and is_formula(b)):
        return T.lor(T.land(c, a), T.land(T.lnot(c), b))
    if b is None:
        b = T.mk("undef")
    return T.ite(c, a, b)
