"""Contracts of the circular current loop."""
from engine import terms as T
from engine.harness import Case, Eq, Want, Holds, Lemma
from specs.lib import *
from specs import contracts as K

P = "geoana.em.static.CircularLoopWholeSpace"
MU, A = T.sym("mu", "real", "pos"), T.sym("a", "real", "pos")
CUR = T.sym("cur")
sin, cos = T.sin, T.cos
AX = {"X": (1, 0, 0), "y": (0, 1, 0), "Z": (0, 0, 1)}


FR = {"X": ((0, 1, 0), (0, 0, 1), (1, 0, 0)), "y": ((0, 0, 1), (1, 0, 0), (0, 1, 0)), "Z": ((1, 0, 0), (0, 1, 0), (0, 0, 1))}


def geom(d, fr):
    """local coordinates d along the frame (a, b, o): z, radial vector, o x d, rho^2, rho"""
    a, b, o = fr
    rho2 = d[0] * d[0] + d[1] * d[1]
    return d[2], [d[0] * a[i] + d[1] * b[i] for i in range(3)], [d[0] * b[i] - d[1] * a[i] for i in range(3)], rho2, T.sqrt(rho2)


def small(rho2, z):
    return T.lt(rho2 / (A ** 2 + z ** 2), T.num(1e-6))


def kk(rho, z):
    al = (A - rho) ** 2 + z ** 2
    be = (A + rho) ** 2 + z ** 2
    m = 1 - al / be
    return al, be, T.fn("ellipk", m), T.fn("ellipe", m)


def a_phi(rho, z):
    """azimuthal vector potential, away from the axis (m = k^2)"""
    al, be, K_, E_ = kk(rho, z)
    return MU * CUR / (2 * PI * rho * T.sqrt(be)) * ((A ** 2 + rho ** 2 + z ** 2) * K_ - be * E_)


def b_rho(rho, z):
    al, be, K_, E_ = kk(rho, z)
    return MU * CUR * z / (2 * PI * rho * al * T.sqrt(be)) * ((A ** 2 + rho ** 2 + z ** 2) * E_ - al * K_)


def b_z(rho, z):
    al, be, K_, E_ = kk(rho, z)
    return MU * CUR / (2 * PI * al * T.sqrt(be)) * ((A ** 2 - rho ** 2 - z ** 2) * E_ + al * K_)


def a_series(z):
    """a_phi/rho near the axis, to the order the code keeps: coefficients of rho^1, rho^3"""
    s = T.sqrt(A ** 2 + z ** 2)
    return MU * CUR * A ** 2 / (4 * s ** 3), MU * CUR * A ** 2 * 3 * (A ** 2 - 4 * z ** 2) / (32 * s ** 7)


def b_series(z):
    s = T.sqrt(A ** 2 + z ** 2)
    return 3 * MU * CUR * A ** 2 * z / (4 * s ** 5), 3 * MU * CUR * A ** 2 * z * (15 * A ** 2 - 20 * z ** 2) / (32 * s ** 9)


def spec_a(d, o):
    z, perp, c, rho2, rho = geom(d, o)
    c1, c3 = a_series(z)
    near = [(c1 + c3 * rho2) * c[i] for i in range(3)]
    far = [a_phi(rho, z) * c[i] / rho for i in range(3)]
    return [T.ite(small(rho2, z), near[i], far[i]) for i in range(3)]


def spec_b(d, o):
    z, perp, c, rho2, rho = geom(d, o)
    c1, c3 = b_series(z)
    o = o[2]
    bz = b_z(rho, z)
    near = [(c1 + c3 * rho2) * perp[i] + bz * o[i] for i in range(3)]
    br = b_rho(rho, z)
    far = [br * perp[i] / rho + bz * o[i] for i in range(3)]
    return [T.ite(small(rho2, z), near[i], far[i]) for i in range(3)]


def spec_h(d, o):
    return [x / MU for x in spec_b(d, o)]


def rounding(meth, rho, z):
    """size of the terms that cancel in the elliptic-integral formulas (times
    1e-6: with the tolerance of 2e-7 this allows 2e-13 of them)"""
    x = T.sqrt((A + rho) ** 2 + z ** 2)
    c = T.absv(CUR) / PI * T.num(1e-6)
    if meth == "vector_potential":
        return MU * c * x / rho
    return (MU if meth == "magnetic_flux_density" else 1) * c / x * (1 + T.absv(z) / rho)


def mk(meth, spec, how, coord):
    def scen(B):
        a, cur, mu = B.scalar("a", "pos"), B.scalar("cur"), B.scalar("mu", "pos")
        if how == "vec":
            oa, frv = B.frame("f", B.scalar("k", "pos"))
            fr = [[S("f.%s%d" % (c, i)) for i in range(3)] for c in "abo"]
        else:
            oa = how
            fr = [[T.num(x) for x in r] for r in FR[how]]
            frv = fr if B.symbolic else FR[how]
        kw = {} if coord is None else {"coordinates": coord}
        cyl = coord and coord.lower() == "cylindrical"
        d = D()
        if cyl:
            # the source position expressed through the (arbitrary) element; the
            # argument is per element, so the code must not mix elements
            arg = B.array("g", ("p", 3) if B.symbolic else (3,), signs={0: "pos"})
            gg = V("g")
            dd = B.vec("d")
            if B.symbolic:
                cart = B.vec("c")
                for i, t in enumerate((gg[0] * cos(gg[1]), gg[0] * sin(gg[1]), gg[2])):
                    cart.data[i] = t
                neg = B.vec("n")
                for i in range(3):
                    neg.data[i] = -d[i]
            else:
                import numpy as np
                cart = np.array([arg[0] * np.cos(arg[1]), arg[0] * np.sin(arg[1]), arg[2]])
                neg = -np.asarray(dd)
            loc = B.inframe(cart, neg, frv, "loc")
        else:
            loc = B.vec("loc")
            arg = B.inframe(loc, B.array("d", ("p", 3)), frv)
        z, perp, c, rho2, rho = geom(d, fr)
        B.assume(T.lt(T.ZERO, (A - rho) ** 2 + z ** 2))     # off the wire
        ob = B.build(P, dict(radius=a, current=cur, mu=mu, location=loc, orientation=oa), warm=lambda ob: B.call(ob, meth, arg, **kw))
        v = spec(d, fr)
        if cyl:
            c, s = cos(V("g")[1]), sin(V("g")[1])
            v = [v[0] * c + v[1] * s, v[1] * c - v[0] * s, v[2]]
        got = B.call(ob, meth, arg, **kw)
        if cyl and B.symbolic and any(T.has_op(f, "any") or T.has_op(f, "sum") for f in B.I.pc):
            from engine.interp import Unsupported
            raise Unsupported("elements are mixed")
        return Eq(meth, got, Want((3,) if cyl and not B.symbolic else ("p", 3), v, scale=rounding(meth, rho, z)))
    return scen


SP = [{"a": 2.0, "f.o0": 0.0, "f.o1": 0.0, "f.o2": 1.0, "d.0": [0.0, 1e-4, 1e-3, 0.0, 1.0], "d.1": [0.0, 0.0, 2e-4, 0.0, 0.0], "d.2": [0.5, 1.5, -0.7, 0.0, 0.0],
       "loc.0": 0.0, "loc.1": 0.0, "loc.2": 0.0}] * 2
SP += [dict(SP[0], **{"f.o2": -1.0}), dict(SP[0], **{"f.o2": -1.0, "loc.0": 1.0})]
CASES = []
for m, s in (("vector_potential", spec_a), ("magnetic_flux_density", spec_b), ("magnetic_field", spec_h)):
    for how in ("vec", "X", "y", "Z"):
        for coord in ((None, "cartesian", "Cylindrical") if how == "vec" else (None,)):
            CASES.append(Case("CircularLoop.%s.%s.%s" % (m, how, coord), [P + "." + m], mk(m, s, how, coord), contracts=K.ROT if how == "vec" else {}, specials=SP if how == "vec" and not coord else [],
                              leads=[(5,), (5,), (2, 3), ()], tol=2e-7))


def gen():
    rho, z = T.sym("rho", "real", "pos"), T.sym("z")
    pc = [T.lt(T.ZERO, (A - rho) ** 2 + z ** 2)]
    ap, br, bz = a_phi(rho, z), b_rho(rho, z), b_z(rho, z)
    yield "B = curl A, radial", -T.diff(ap, z), br, pc
    yield "B = curl A, axial", T.diff(rho * ap, rho) / rho, bz, pc
    yield "div B = 0", T.diff(rho * br, rho) / rho + T.diff(bz, z), T.ZERO, pc
    yield "curl B = 0", T.diff(br, z) - T.diff(bz, rho), T.ZERO, pc
    a1, a3 = a_series(z)
    b1, b3 = b_series(z)
    yield "near axis: b1 = -da1/dz", -T.diff(a1, z), b1, []
    yield "near axis: b3 = -da3/dz", -T.diff(a3, z), b3, []
    yield "near axis: a3 from the field equation", 8 * a3 + T.diff(T.diff(a1, z), z), T.ZERO, []
    yield "on axis: bz = 2 a1", T.subst(bz, {rho: T.ZERO}), 2 * a1, []


LEM = [Lemma("loop lemmas", gen)]
