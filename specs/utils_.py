"""geoana.utils and the geometric helpers."""
import numpy as np
from engine import terms as T
from engine.harness import Case, Eq, Want, Holds
from specs.lib import *

U = "geoana.utils."
CASES = []


def add(cid, fn, scen, **kw):
    kw.setdefault("modes", ("fresh", "int", "mixed"))
    CASES.append(Case(cid, fn if isinstance(fn, list) else [fn], scen, **kw))


# ------------------------------------------------------------------ mkvc
def mkvc(axes, nd):
    def scen(B):
        x = B.array("x", axes)
        kw = {} if nd is None else {"n_dims": nd}
        flat = tuple(reversed(axes))
        return Eq("mkvc", B.fn(U + "mkvc", x, **kw), Want((flat if len(flat) > 1 else flat[0],) + (1,) * ((nd or 1) - 1), nest(S("x"), (nd or 1) - 1)))
    return scen


def nest(v, k):
    for _ in range(k):
        v = [v]
    return v


for r, axes in enumerate((("#n",), ("#n", "#m"), ("#n", "#m", "#k")), 1):
    for nd in (None, 1, 2, 3):
        add("mkvc.%dd.%s" % (r, nd), U + "mkvc", mkvc(axes, nd))


# ------------------------------------------------------------------ ndgrid
def ndgrid(n, vector, aslist):
    names = ("#n", "#m", "#k")[:n]

    def scen(B):
        xs = [B.array("x%d" % i, (a,)) for i, a in enumerate(names)]
        kw = {} if vector is None else {"vector": vector}
        got = B.fn(U + "ndgrid", xs, **kw) if aslist else B.fn(U + "ndgrid", *xs, **kw)
        if n == 1:
            return Eq("ndgrid", got, Want(("#n",), S("x0")))
        if vector is False:
            return [Eq("ndgrid[%d]" % i, got[i], Want(names, S("x%d" % i))) for i in range(n)]
        return Eq("ndgrid", got, Want((tuple(reversed(names)), n), [S("x%d" % i) for i in range(n)]))
    return scen


for n in (1, 2, 3):
    for vector in (None, True, False):
        for al in (False, True):
            if n == 1 and vector is not None:
                continue
            add("ndgrid.%d.%s%s" % (n, vector, ".list" if al else ""), U + "ndgrid", ndgrid(n, vector, al))


# ------------------------------------------------------------- append_ndim
def app(k):
    def scen(B):
        x = B.array("x", ("p",))
        return Eq("append_ndim", B.fn(U + "append_ndim", x, k), Want(("p",) + (1,) * k, nest(S("x"), k)))
    return scen


for k in range(5):
    add("append_ndim.%d" % k, U + "append_ndim", app(k))


def app_any(B):
    x = B.array("x", ("#f",))
    q = B.array("q", ("p",))
    return Eq("append_ndim", B.fn(U + "append_ndim", x, B.ndim(q)), Want(("#f", "1:p"), S("x")))


add("append_ndim.any", U + "append_ndim", app_any)


# ----------------------------------------------------------- check_xyz_dim
def chk(dim, form):
    def scen(B):
        kw = {} if dim is None else {"dim": dim}
        n = dim or 3
        if form == "tuple":
            x = tuple(B.array("x.%d" % i, ("p",)) for i in range(n))
        elif form == "list":
            x = [B.scalar("x.%d" % i) for i in range(n)]
        else:
            x = B.array("x", ("p", n))
        return Eq("check_xyz_dim", B.fn(U + "check_xyz_dim", x, **kw), Want(("p", n) if form != "list" else (n,), V("x", n)))
    return scen


def chkbad(dim, n, form):
    def scen(B):
        kw = {} if dim is None else {"dim": dim}
        x = tuple(B.array("x.%d" % i, ("p",)) for i in range(n)) if form == "tuple" else B.array("x", ("p", n))
        e = B.raises(lambda: B.fn(U + "check_xyz_dim", x, **kw))
        return Holds("wrong dimension rejected", e is ValueError)
    return scen


for dim in (None, 2, 3):
    for form in ("array", "tuple", "list"):
        add("check_xyz_dim.%s.%s" % (dim, form), U + "check_xyz_dim", chk(dim, form), forms=("array", "list", "fortran") if form == "array" else ("array",))
    for n in (1, 2, 3, 4):
        if n != (dim or 3):
            for form in ("array", "tuple"):
                add("check_xyz_dim.%s.rejects.%d.%s" % (dim, n, form), U + "check_xyz_dim", chkbad(dim, n, form))


# ------------------------------------------------ geometry of dipole sources
BD = "geoana.em.base.BaseDipole"


def geo(meth):
    def scen(B):
        o = B.unit("o", B.scalar("k", "pos"))
        loc = B.vec("loc")
        kw = dict(location=loc, orientation=o)
        if meth in ("dot_orientation", "cross_orientation"):
            x = B.array("d", ("p", 3))
        else:
            x = B.offset(loc, B.array("d", ("p", 3)))
        ob = B.build(BD, kw, warm=lambda ob: B.call(ob, meth, x), prime=dict(orientation="Z"))
        d, ov = V("d"), V("o")
        w = {"vector_distance": d, "distance": RR(d), "dot_orientation": dot(d, ov), "cross_orientation": cross(d, ov)}[meth]
        return Eq(meth, B.call(ob, meth, x), Want(("p", 3) if isinstance(w, list) else ("p",), w, scale="vec" if isinstance(w, list) else RR(d)))
    return scen


for m in ("vector_distance", "distance", "dot_orientation", "cross_orientation"):
    CASES.append(Case("BaseDipole." + m, [BD + "." + m], geo(m)))


def nseg(B):
    nd = B.array("nd", ("#n", 3))
    o = B.new("geoana.em.base.BaseLineCurrent", nodes=nd)
    got = B.get(o, "n_segments")
    if B.symbolic:
        return Eq("n_segments", got, T.sym("#n", "int", "pos") - 1)
    return Holds("n_segments", got == nd.shape[0] - 1)


add("BaseLineCurrent.n_segments", "geoana.em.base.BaseLineCurrent.n_segments", nseg)
