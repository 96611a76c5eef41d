"""Contracts of geoana.em.static spheres in a uniform primary field."""
from engine import terms as T
from engine.harness import Case, Eq, Want, Holds, Lemma
from specs.lib import *

P = "geoana.em.static."
for _s in ("d.0", "d.1", "d.2", "E0.0", "E0.1", "E0.2"):
    T.sym(_s)
K0, K1, RAD = T.sym("k0", "real", "pos"), T.sym("k1", "real", "pos"), T.sym("rad", "real", "pos")


def outside(d):
    return T.lt(RAD, RR(d))


def kap():
    return (K1 - K0) / (K1 + 2 * K0)


def v_out(d, E):
    return -dot(E, d) * (1 - kap() * RAD ** 3 / RR(d) ** 3)


def v_in(d, E):
    return -dot(E, d) * 3 * K0 / (K1 + 2 * K0)


def v_tot(d, E):
    return T.ite(outside(d), v_out(d, E), v_in(d, E))


def v_pri(d, E):
    return -dot(E, d)


def e_out(d, E):
    r = RR(d)
    return [E[i] * (1 - kap() * RAD ** 3 / r ** 3) + 3 * kap() * RAD ** 3 * dot(E, d) * d[i] / r ** 5 for i in range(3)]


def e_in(d, E):
    return [3 * K0 / (K1 + 2 * K0) * E[i] for i in range(3)]


def e_tot(d, E):
    a, b = e_out(d, E), e_in(d, E)
    return [T.ite(outside(d), a[i], b[i]) for i in range(3)]


def j_tot(d, E):
    a, b = e_out(d, E), e_in(d, E)
    return [T.ite(outside(d), K0 * a[i], K1 * b[i]) for i in range(3)]


def specs(kind, d, E):
    if kind == "v":
        t, p = v_tot(d, E), v_pri(d, E)
        return {"total": t, "primary": p, "secondary": t - p}, ("p",)
    if kind == "e":
        t, p = e_tot(d, E), list(E)
    else:
        t, p = j_tot(d, E), [K0 * x for x in E]
    return {"total": t, "primary": p, "secondary": [a - b for a, b in zip(t, p)]}, ("p", 3)


def mag(kind):
    """magnitude of the primary quantity (rounding scale of the difference)"""
    E = RR(V("E0"))
    return E * RR(D()) if kind == "v" else E if kind == "e" else E * (K0 + K1)


def mk(cls, a0, a1, meth, kind, field):
    def scen(B):
        rad = B.scalar("rad", "pos")
        k1, k0 = B.scalar("k1", "pos"), B.scalar("k0", "pos")
        E0, loc = B.vec("E0"), B.vec("loc")
        d = B.array("d", ("p", 3))
        xyz = B.offset(loc, d)
        o = B.build(P + cls, {"radius": rad, a1: k1, a0: k0, "primary_field": E0, "location": loc}, warm=lambda o: B.call(o, meth, xyz))
        sp, axes = specs(kind, D(), V("E0"))
        if field is None or field == "all":
            got = B.call(o, meth, xyz) if field is None else B.call(o, meth, xyz, field="all")
            if not isinstance(got, (tuple, list)) or len(got) != 3:
                return Holds("(total, primary, secondary)", False)
            return [Eq(f, g, Want(axes, sp[f], scale=mag(kind))) for f, g in zip(("total", "primary", "secondary"), got)]
        return Eq(field, B.call(o, meth, xyz, field=field), Want(axes, sp[field], scale=mag(kind)))
    return scen


def charge(dr):
    def scen(B):
        rad = B.scalar("rad", "pos")
        k1, k0 = B.scalar("k1", "pos"), B.scalar("k0", "pos")
        E0, loc = B.vec("E0"), B.vec("loc")
        d = B.array("d", ("p", 3))
        dd = D()
        B.assume(T.lt(T.ZERO, R2(dd)))
        xyz = B.offset(loc, d)
        o = B.build(P + "ElectrostaticSphere", {"radius": rad, "sigma_sphere": k1, "sigma_background": k0, "primary_field": E0, "location": loc}, warm=lambda o: B.call(o, "charge_density", xyz))
        if dr:
            w = B.scalar("w", "nonneg")
            got = B.call(o, "charge_density", xyz, dr=w)
            w = T.sym("w", "real", "nonneg")
        else:
            got = B.call(o, "charge_density", xyz)
            w = T.num(0.05) * RAD
        r = RR(dd)
        shell = T.land(T.lt(r, RAD + w / 2), T.lt(RAD - w / 2, r))
        return Eq("charge", got, Want(("p",), T.ite(shell, EPS0 * 3 * dot(V("E0"), dd) * kap() / r, T.ZERO)))
    return scen


SP = [{"rad": 2.0, "d.0": [2.0, 0.0, 3.0], "d.1": [0.0, 0.0, 0.0], "d.2": [0.0, 0.0, 0.0], "loc.0": 0.0, "loc.1": 1.0, "loc.2": -2.0}]
ELEC, MAGN = [], []
for out, cls, a0, a1, ms in ((ELEC, "ElectrostaticSphere", "sigma_background", "sigma_sphere", (("potential", "v"), ("electric_field", "e"), ("current_density", "j"))),
                             (MAGN, "MagnetostaticSphere", "mu_background", "mu_sphere", (("potential", "v"), ("magnetic_field", "e"), ("magnetic_flux_density", "j")))):
    for m, k in ms:
        for f in (None, "all", "total", "primary", "secondary"):
            out.append(Case("%s.%s.%s" % (cls, m, f or "default"), [P + cls + "." + m], mk(cls, a0, a1, m, k, f), specials=SP, tol=1e-9))
SPC = [{"rad": 2.0, "d.0": [2.0, 0.1, 2.04, 1.96, 2.06], "d.1": [0.0] * 5, "d.2": [0.0] * 5, "loc.0": 0.0, "loc.1": 1.0, "loc.2": -2.0}] * 2
SPC.append(dict(SPC[0], w=0.0))
for w in (False, True):
    ELEC.append(Case("ElectrostaticSphere.charge_density%s" % (".dr" if w else ""), [P + "ElectrostaticSphere.charge_density"], charge(w), specials=SPC,
                     leads=[(5,), (5,), (2, 3), ()]))


def gen():
    d, E = D(), V("E0")
    for nm, v, e, k, pc in (("outside", v_out(d, E), e_out(d, E), K0, [T.lt(RAD, RR(d))]), ("inside", v_in(d, E), e_in(d, E), K1, [T.lt(RR(d), RAD)])):
        for i in range(3):
            yield "%s field = -grad potential [%d]" % (nm, i), -T.diff(v, d[i]), e[i], pc
            yield "%s curl [%d]" % (nm, i), curl(e, d)[i], T.ZERO, pc
        yield nm + " divergence", div(e, d), T.ZERO, pc
    on = [T.eq(R2(d), RAD ** 2)]
    yield "potential continuous at the surface", v_out(d, E), v_in(d, E), [T.eq(RAD, RR(d))]
    yield "normal flux continuous at the surface", K0 * dot(e_out(d, E), d), K1 * dot(e_in(d, E), d), [T.eq(RAD, RR(d))]
    co, ci = cross(d, e_out(d, E)), cross(d, e_in(d, E))
    for i in range(3):
        yield "tangential field continuous [%d]" % i, co[i], ci[i], [T.eq(RAD, RR(d))]
    for i in range(3):
        yield "no contrast, no secondary field [%d]" % i, T.subst(e_tot(d, E)[i], {K1: K0}), E[i], []
    yield "surface charge = jump of the normal field", EPS0 * (dot(e_out(d, E), d) - dot(e_in(d, E), d)) / RAD, EPS0 * 3 * dot(E, d) * kap() / RAD, [T.eq(RAD, RR(d))]


LEM = [Lemma("sphere lemmas", gen)]
CASES = ELEC + MAGN
