"""Contracts of static magnetic dipole/pole, point currents and their half-space images."""
from engine import terms as T
from engine.harness import Case, Eq, Want, Holds, Lemma
from specs.lib import *

P = "geoana.em.static."
for _s in ("d.0", "d.1", "d.2", "o.0", "o.1", "o.2", "m"):
    T.sym(_s)
MU = T.sym("mu", "real", "pos")
sin, cos = T.sin, T.cos
AXES3 = {"X": (1, 0, 0), "y": (0, 1, 0), "Z": (0, 0, 1)}


def dip_a(d, o, m, mu):
    r = RR(d)
    c = cross(o, d)
    return [m * mu / (4 * PI) * c[i] / r ** 3 for i in range(3)]


def dip_b(d, o, m, mu):
    r = RR(d)
    return [m * mu / (4 * PI) * (3 * dot(o, d) * d[i] / r ** 5 - o[i] / r ** 3) for i in range(3)]


def pole_b(d, o, m, mu):
    r = RR(d)
    return [m * mu / (4 * PI) * d[i] / r ** 3 for i in range(3)]


def orient(B, how):
    """(argument, components)"""
    if how == "vec":
        return B.unit("o", B.scalar("k", "pos")), V("o")
    return how, [T.num(x) for x in AXES3[how]]


def dip(cls, meth, spec, how, coord, fac):
    def scen(B):
        m, mu = B.scalar("m"), B.scalar("mu", "pos")
        loc = B.vec("loc")
        oa, o = orient(B, how)
        kw = {} if coord is None else {"coordinates": coord}
        if coord and coord.lower() == "cylindrical":
            g = B.array("g", ("p", 3), signs={0: "pos"})
            gg = V("g")
            x = [gg[0] * cos(gg[1]), gg[0] * sin(gg[1]), gg[2]]
            d = [x[i] - S("loc.%d" % i) for i in range(3)]
            arg = g
        else:
            dd = B.array("d", ("p", 3))
            d = D()
            arg = B.offset(loc, dd)
        B.assume(T.lt(T.ZERO, R2(d)))
        ob = B.build(P + cls, dict(moment=m, mu=mu, location=loc, orientation=oa), warm=lambda ob: B.call(ob, meth, arg, **kw))
        v = [fac * c for c in spec(d, o, S("m"), MU)]
        if coord and coord.lower() == "cylindrical":
            c, s = cos(V("g")[1]), sin(V("g")[1])
            v = [v[0] * c + v[1] * s, v[1] * c - v[0] * s, v[2]]
        return Eq(meth, B.call(ob, meth, arg, **kw), Want(("p", 3), v, scale="vec"))
    return scen


DIP = []
for cls, ms in (("MagneticDipoleWholeSpace", (("vector_potential", dip_a, T.ONE), ("magnetic_flux_density", dip_b, T.ONE), ("magnetic_field", dip_b, 1 / MU))),
                ("MagneticPoleWholeSpace", (("magnetic_flux_density", pole_b, T.ONE), ("magnetic_field", pole_b, 1 / MU)))):
    for meth, sp, fac in ms:
        for how in ("vec", "X", "y", "Z"):
            for coord in ((None, "cartesian", "Cylindrical") if how == "vec" else (None,)):
                DIP.append(Case("%s.%s.%s.%s" % (cls, meth, how, coord), [P + cls + "." + meth], dip(cls, meth, sp, how, coord, fac)))


def gen():
    d, o, m = D(), V("o"), S("m")
    pc = [T.lt(T.ZERO, R2(d))]
    A, B = dip_a(d, o, m, MU), dip_b(d, o, m, MU)
    cA, cB = curl(A, d), curl(B, d)
    for i in range(3):
        yield "B = curl A [%d]" % i, cA[i], B[i], pc
        yield "curl B = 0 [%d]" % i, cB[i], T.ZERO, pc
    yield "div B = 0", div(B, d), T.ZERO, pc
    yield "div A = 0 (Coulomb gauge)", div(A, d), T.ZERO, pc
    Bp = pole_b(d, o, m, MU)
    yield "pole: div B = 0 away from the pole", div(Bp, d), T.ZERO, pc
    for i in range(3):
        yield "pole: curl B = 0 [%d]" % i, curl(Bp, d)[i], T.ZERO, pc
        # the dipole is minus the directional derivative of the pole
        yield "dipole = -(o.grad) pole [%d]" % i, -sum((o[j] * T.diff(Bp[i], d[j]) for j in range(3)), T.ZERO), B[i], pc
        yield "pole at -d [%d]" % i, pole_b([-x for x in d], o, m, MU)[i], -Bp[i], pc


DIP_LEM = [Lemma("dipole lemmas", gen)]


# ------------------------------------------------------------- point currents
RHO = T.sym("rho", "real", "pos")
CUR = T.sym("cur")


def pc_v(d, rho, cur):
    return cur * rho / (4 * PI * RR(d))


def pc_e(d, rho, cur):
    return [cur * rho * d[i] / (4 * PI * RR(d) ** 3) for i in range(3)]


def pc_j(d, rho, cur):
    return [cur * d[i] / (4 * PI * RR(d) ** 3) for i in range(3)]


def whole(meth, spec):
    def scen(B):
        rho, cur, loc = B.scalar("rho", "pos"), B.scalar("cur"), B.vec("loc")
        d = B.array("d", ("p", 3))
        B.assume(T.lt(T.ZERO, R2(D())))
        xyz = B.offset(loc, d)
        o = B.build(P + "PointCurrentWholeSpace", dict(rho=rho, current=cur, location=loc), warm=lambda o: B.call(o, meth, xyz))
        w = spec(D(), RHO, CUR)
        return Eq(meth, B.call(o, meth, xyz), Want(("p", 3) if isinstance(w, list) else ("p",), w))
    return scen


PCW = [Case("PointCurrentWholeSpace." + m, [P + "PointCurrentWholeSpace." + m], whole(m, s)) for m, s in (("potential", pc_v), ("electric_field", pc_e), ("current_density", pc_j))]


def img(l):
    return [l[0], l[1], -l[2]]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def hs(spec, x, l, rho, cur):
    a, b = spec(sub(x, l), rho, cur), spec(sub(x, img(l)), rho, cur)
    return [p + q for p, q in zip(a, b)] if isinstance(a, list) else a + b


ZNEG = {k: (lambda r: -r.uniform(0.05, 3.0)) for k in ("loc.2", "a.2", "b.2", "x.2", "y.2", "loc.2'", "a.2'", "b.2'")}


def pre_hs(B, x, l):
    B.assume(T.le(l[2], T.ZERO))
    B.assume(T.le(x[2], T.ZERO))
    B.assume(T.lt(T.ZERO, R2(sub(x, l))))
    B.assume(T.lt(T.ZERO, R2(sub(x, img(l)))))


def half(meth, spec):
    def scen(B):
        rho, cur, loc = B.scalar("rho", "pos"), B.scalar("cur"), B.vec("loc")
        x = B.array("x", ("p", 3))
        pre_hs(B, V("x"), V("loc"))
        o = B.build(P + "PointCurrentHalfSpace", dict(rho=rho, current=cur, location=loc), warm=lambda o: B.call(o, meth, x))
        w = hs(spec, V("x"), V("loc"), RHO, CUR)
        return Eq(meth, B.call(o, meth, x), Want(("p", 3) if isinstance(w, list) else ("p",), w, scale="vec"))
    return scen


def diphs(meth, spec, two):
    def scen(B):
        rho, cur, a, b = B.scalar("rho", "pos"), B.scalar("cur"), B.vec("a"), B.vec("b")
        x = B.array("x", ("p", 3))
        args = [x]
        pre_hs(B, V("x"), V("a"))
        pre_hs(B, V("x"), V("b"))
        if two:
            y = B.array("y", ("p", 3))
            args.append(y)
            pre_hs(B, V("y"), V("a"))
            pre_hs(B, V("y"), V("b"))
        o = B.build(P + "DipoleHalfSpace", dict(rho=rho, current=cur, location_a=a, location_b=b), warm=lambda o: B.call(o, meth, *args))

        def f(x):
            p, q = hs(spec, x, V("a"), RHO, CUR), hs(spec, x, V("b"), RHO, CUR)
            return sub(p, q) if isinstance(p, list) else p - q
        w = f(V("x"))
        sc = f(V("x"))
        scale = sum((T.absv(c) for c in ([hs(spec, V("x"), V("a"), RHO, CUR), hs(spec, V("x"), V("b"), RHO, CUR)] if not isinstance(w, list) else hs(spec, V("x"), V("a"), RHO, CUR) + hs(spec, V("x"), V("b"), RHO, CUR))), T.ZERO)
        if two:
            w2 = f(V("y"))
            w = sub(w, w2) if isinstance(w, list) else w - w2
        return Eq(meth, B.call(o, meth, *args), Want(("p", 3) if isinstance(w, list) else ("p",), w, scale=scale))
    return scen


PCH = [Case("PointCurrentHalfSpace." + m, [P + "PointCurrentHalfSpace." + m], half(m, s), hints=ZNEG, specials=[{"loc.2": 0.0}, {"x.2": [0.0, 0.0]}]) for m, s in (("potential", pc_v), ("electric_field", pc_e), ("current_density", pc_j))]
for _t in (False, True):
    PCH += [Case("DipoleHalfSpace.%s%s" % (m, ".mn" if _t else ""), [P + "DipoleHalfSpace." + m], diphs(m, s, _t), hints=ZNEG, specials=[{"a.2": 0.0, "b.2": 0.0}])
            for m, s in (("potential", pc_v), ("electric_field", pc_e), ("current_density", pc_j))]


# domain: a point above the surface, in any position, is rejected
def reject(cls, meth, which):
    def scen(B):
        rho, cur = B.scalar("rho", "pos"), B.scalar("cur")
        x = B.array("x", ("#n", 3))
        if cls == "PointCurrentHalfSpace":
            a = B.vec("a")
            kw = dict(rho=rho, current=cur, location=a)
        else:
            a, b = B.vec("a"), B.vec("b")
            B.assume(T.le(S("b.2"), T.ZERO))
            kw = dict(rho=rho, current=cur, location_a=a, location_b=b)
        if which == "loc":
            B.assume(T.lt(T.ZERO, S("a.2")))
            return Holds("source above the surface rejected", B.raises(lambda: B.new(P + cls, **kw)) is ValueError)
        if which in ("setloc", "setb"):
            B.assume(T.le(S("a.2"), T.ZERO))
            c = B.vec("c")
            B.assume(T.lt(T.ZERO, S("c.2")))
            o = B.new(P + cls, **kw)
            at = "location" if cls == "PointCurrentHalfSpace" else "location_a" if which == "setloc" else "location_b"
            return Holds("source above the surface rejected", B.raises(lambda: B.set(o, at, c)) is ValueError)
        B.assume(T.le(S("a.2"), T.ZERO))
        B.some(T.lt(T.ZERO, S("x.2")))
        o = B.new(P + cls, **kw)
        if which == "n":
            y = B.array("y", ("#n", 3))
            B.assume(T.le(S("y.2"), T.ZERO))
            return Holds("observer above the surface rejected", B.raises(lambda: B.call(o, meth, y, x)) is ValueError)
        return Holds("observer above the surface rejected", B.raises(lambda: B.call(o, meth, x)) is ValueError)
    return scen


_pos = lambda r: r.uniform(0.05, 3.0)
for cls in ("PointCurrentHalfSpace", "DipoleHalfSpace"):
    for w in ("loc", "setloc") + (("setb",) if cls == "DipoleHalfSpace" else ()):
        h = dict(ZNEG)
        h.update({"c.2": _pos})
        if w == "loc":
            h["a.2"] = _pos
        PCH.append(Case("%s.reject.%s" % (cls, w), [P + cls + ".__init__"], reject(cls, None, w), hints=h, modes=("fresh", "int", "mixed")))
    for m in ("potential", "electric_field", "current_density"):
        for w in ("x",) + (("n",) if cls == "DipoleHalfSpace" else ()):
            h = dict(ZNEG)
            h["x.2"] = lambda r: r.uniform(-1.0, 1.0)
            PCH.append(Case("%s.%s.reject.%s" % (cls, m, w), [P + cls + "." + m], reject(cls, m, w), hints=h, modes=("fresh", "int", "mixed")))


def gen2():
    d = D()
    pc = [T.lt(T.ZERO, R2(d))]
    v, e, j = pc_v(d, RHO, CUR), pc_e(d, RHO, CUR), pc_j(d, RHO, CUR)
    for i in range(3):
        yield "E = -grad V [%d]" % i, -T.diff(v, d[i]), e[i], pc
        yield "J = E/rho [%d]" % i, e[i] / RHO, j[i], pc
    yield "div J = 0", div(j, d), T.ZERO, pc
    yield "flux through a sphere = current", dot(j, d) / RR(d) * 4 * PI * R2(d), CUR, pc
    for _s in ("x.0", "x.1", "x.2", "loc.0", "loc.1", "loc.2"):
        T.sym(_s)
    x, l = V("x"), V("loc")
    pre = [T.le(l[2], T.ZERO), T.lt(x[2], T.ZERO), T.lt(T.ZERO, R2(sub(x, l)))]
    vh = hs(pc_v, x, l, RHO, CUR)
    eh = hs(pc_e, x, l, RHO, CUR)
    for i in range(3):
        yield "half space E = -grad V [%d]" % i, -T.diff(vh, x[i]), eh[i], pre + [T.lt(T.ZERO, R2(sub(x, img(l))))]
    surf = [x[0], x[1], T.ZERO]
    yield "no current crosses the surface", hs(pc_e, surf, l, RHO, CUR)[2], T.ZERO, [T.lt(T.ZERO, R2(sub(surf, l)))]
    yield "reciprocity: V(x; source l) = V(l; source x)", hs(pc_v, l, x, RHO, CUR), vh, pre + [T.lt(T.ZERO, R2(sub(x, img(l))))]


PC_LEM = [Lemma("point current lemmas", gen2)]
CASES = DIP + PCW + PCH
LEMMAS = DIP_LEM + PC_LEM
