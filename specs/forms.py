"""Input forms: observation points mean the same however they are handed over
(array, tuple of coordinate arrays, nested list, integers, any memory layout);
points of the wrong dimension are rejected.  Postcondition added to the contract
cases of the other properties."""
import copy
import numpy as np
from engine import terms as T
from engine.arrays import Arr, Pack, Dim, elementwise
from engine.harness import Case, Holds, Eq, Want
from engine.interp import Obj, PyRaise
from engine import npmodel
from engine.npmodel import getlast, Unsupported
from specs import registry
from specs.frame import freeze, same
from specs.lib import S

SKIP = ("geoana.earthquake.", "geoana.em.fdem.MagneticDipoleHalfSpace", "geoana.em.fdem.MagneticDipoleLayeredHalfSpace", "geoana.em.tdem.VerticalMagneticDipoleHalfSpace", "geoana.em.base.", "geoana.em.fdem.BaseFDEM", "geoana.em.tdem.BaseTDEM", "geoana.spatial", "geoana.kernels",
        "geoana.em.fdem.omega", "geoana.shapes")


def points(B, a):
    if B.symbolic:
        return isinstance(a, Arr) and len(a.axes) > 1 and a.axes[-1] == 3 and isinstance(a.axes[0], (Pack, Dim))
    return isinstance(a, np.ndarray) and a.ndim > 0 and a.shape[-1] == 3


def split(B, a):
    if B.symbolic:
        return tuple(Arr(a.axes[:-1], a.data[..., i].copy() if isinstance(a.data[..., i], np.ndarray) else np.array(a.data[..., i], dtype=object), a.dtype) for i in range(3))
    return tuple(np.array(a[..., i]) for i in range(3))


def ints(B, a):
    if B.symbolic:
        return Arr(a.axes, a.data.copy(), "i")
    return a.astype(int)


def wrong(B, a, n):
    if B.symbolic:
        d = np.empty((n,), dtype=object)
        for i in range(n):
            d[i] = a.data[i % 3]
        return Arr(a.axes[:-1] + (n,), d, a.dtype)
    return np.concatenate([a, a], axis=-1)[..., :n].copy()


def size(r):
    if isinstance(r, (list, tuple)):
        return max([size(x) for x in r] or [0.0])
    r = np.asarray(r)
    fin = np.abs(r[np.isfinite(r)]) if r.size else r
    return float(np.max(fin)) if fin.size else 0.0


def close(r0, r1, scale=None):
    # a part that cancels carries the rounding of the terms it is made of: the
    # parts of one answer (total, primary, secondary) share their scale
    scale = size(r0) if scale is None else scale
    if isinstance(r0, (list, tuple)):
        return isinstance(r1, (list, tuple)) and len(r0) == len(r1) and all(close(x, y, scale) for x, y in zip(r0, r1))
    r0, r1 = np.asarray(r0), np.asarray(r1)
    return r0.shape == r1.shape and np.allclose(r0, r1, rtol=1e-12, atol=1e-13 * scale, equal_nan=True)


def lead(B, obj):
    """Number of leading axes of the result that come from the object itself."""
    for nm in ("frequency", "time"):
        if hasattr(obj, nm):
            return np.ndim(getattr(obj, nm))
    return 0


def drop(r, k):
    """The result without the unit axis at position k; None if there is none."""
    if isinstance(r, (list, tuple)):
        q = [drop(x, k) for x in r]
        return None if any(x is None for x in q) else tuple(q)
    r = np.asarray(r)
    return r[(slice(None),) * k + (0,)] if r.ndim > k and r.shape[k] == 1 else None


def formed(base):
    def scen(B):
        items = []
        raw = B.call
        warming = [False]

        def call(obj, meth, *a, **k):
            r0 = raw(obj, meth, *a, **k)
            isobj = isinstance(obj, Obj) if B.symbolic else type(obj).__module__.startswith("geoana")
            if not isobj or not any(points(B, x) for x in a):
                return r0
            eq = (lambda r: same(freeze(r0), freeze(r))) if B.symbolic else (lambda r: close(r0, r))
            put = lambda f: [f(x) if points(B, x) else x for x in a]
            items.append(Holds("%s: tuple of coordinate arrays" % meth, eq(raw(obj, meth, *put(lambda x: split(B, x)), **k))))
            if B.symbolic and npmodel.SQUEEZED:
                raise Unsupported("squeeze of symbolic axes")
            if not B.symbolic:
                # symbolically the points have any number of axes of any length,
                # so this is the same obligation there
                r1 = drop(raw(obj, meth, *put(lambda x: x[None]), **k), lead(B, obj))
                items.append(Holds("%s: grid with a unit axis keeps its shape" % meth, r1 is not None and eq(r1)))
            whole = not B.symbolic and all(np.all(x == np.round(x)) for x in a if points(B, x))
            if B.symbolic or whole:
                items.append(Holds("%s: integer coordinates" % meth, eq(raw(obj, meth, *put(lambda x: ints(B, x)), **k))))
            if not B.symbolic:
                items.append(Holds("%s: nested list" % meth, eq(raw(obj, meth, *put(lambda x: x.tolist()), **k))))
                items.append(Holds("%s: Fortran order" % meth, eq(raw(obj, meth, *put(np.asfortranarray), **k))))
                def ro(x):
                    x = np.repeat(x[None], 2, axis=0)[::2][0]
                    x.setflags(write=False)
                    return x
                items.append(Holds("%s: read-only" % meth, eq(raw(obj, meth, *put(ro), **k))))
            for n in (2, 4):
                j = [i for i, x in enumerate(a) if points(B, x)]
                for i in j:
                    b = list(a)
                    b[i] = wrong(B, a[i], n)
                    e = B.raises(lambda: raw(obj, meth, *b, **k))
                    items.append(Holds("%s: points of dimension %d rejected" % (meth, n), e is ValueError))
            return r0
        B.call = call
        base.scenario(B)
        return items
    c = copy.copy(base)
    c.scenario = scen
    c.modes = ("fresh",)
    c.samples = 3
    c.specials = []
    c.defined = False
    c.forms = ("array", "int")
    return c


def cases():
    out, count = [], {}
    for pid, p in list(registry.PROPS.items()):
        if not p.get("frame", True):
            continue
        for c in p["cases"]():
            f = c.functions[0]
            if not c.symbolic or any(f.startswith(s) for s in SKIP) or "reject" in c.cid or f.rsplit(".", 1)[0].rsplit(".", 1)[-1][:1].islower() or f.endswith("__init__"):
                continue
            n = count.get(f, 0)
            arr = ".arr" in c.cid
            key = (f, arr)
            if count.get(key, 0) >= 1:
                continue
            count[key] = 1
            out.append(formed(c))
    return out


class Lazy:
    def __iter__(self):
        return iter(cases())


CASES = Lazy()
