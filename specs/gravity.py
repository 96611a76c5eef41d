"""Contracts of geoana.gravity (point mass, sphere)."""
from engine import terms as T
from engine.harness import Case, Eq, Want, Holds
from specs.lib import *

LOC = ["loc.0", "loc.1", "loc.2"]


def point_mass(meth, spec):
    def scen(B):
        m = B.scalar("m")
        loc = B.vec("loc")
        d = B.array("d", ("p", 3))
        B.assume(T.lt(T.ZERO, R2(D())))
        xyz = B.offset(loc, d)
        o = B.build("geoana.gravity.PointMass", dict(mass=m, location=loc), warm=lambda o: B.call(o, meth, xyz))
        return Eq(meth, B.call(o, meth, xyz), spec(S("m"), D()))
    return scen


def S(n):
    return T.mk("sym", n)


def pm_potential(m, d):
    return Want(("p",), G * m / RR(d))


def pm_field(m, d):
    return Want(("p", 3), [-G * m * d[i] / RR(d) ** 3 for i in range(3)])


def pm_grad(m, d):
    r = RR(d)
    return Want(("p", 3, 3), [[-G * m * (delta(i, j) - 3 * d[i] * d[j] / r ** 2) / r ** 3 for j in range(3)] for i in range(3)])


CASES = [
    Case("point_mass.potential", ["geoana.gravity.PointMass.gravitational_potential"], point_mass("gravitational_potential", pm_potential)),
    Case("point_mass.field", ["geoana.gravity.PointMass.gravitational_field"], point_mass("gravitational_field", pm_field)),
    Case("point_mass.gradient", ["geoana.gravity.PointMass.gravitational_gradient"], point_mass("gravitational_gradient", pm_grad)),
]


def sphere(meth, spec):
    def scen(B):
        rad = B.scalar("rad", "pos")
        rho = B.scalar("dens")
        loc = B.vec("loc")
        d = B.array("d", ("p", 3))
        xyz = B.offset(loc, d)
        o = B.build("geoana.gravity.Sphere", dict(radius=rad, rho=rho, location=loc), warm=lambda o: B.call(o, meth, xyz))
        return Eq(meth, B.call(o, meth, xyz), spec(S("rad"), S("dens"), D()))
    return scen


def sp_mass(R, rho):
    return T.num(4) / 3 * T.PI * R ** 3 * rho


def outside(R, d):
    return T.lt(R, RR(d))


def sp_potential(R, rho, d):
    return Want(("p",), T.ite(outside(R, d), G * sp_mass(R, rho) / RR(d),
                              G * T.num(2) / 3 * T.PI * rho * (3 * R ** 2 - R2(d))))


def sp_field(R, rho, d):
    m = sp_mass(R, rho)
    return Want(("p", 3), [T.ite(outside(R, d), -G * m * d[i] / RR(d) ** 3, -G * T.num(4) / 3 * T.PI * rho * d[i]) for i in range(3)])


def sp_grad(R, rho, d):
    m = sp_mass(R, rho)
    r = RR(d)
    return Want(("p", 3, 3), [[T.ite(T.eq(r, R), T.NAN, T.ite(outside(R, d), -G * m * (delta(i, j) - 3 * d[i] * d[j] / r ** 2) / r ** 3,
                                     -G * T.num(4) / 3 * T.PI * rho * delta(i, j))) for j in range(3)] for i in range(3)])


def sphere_mass(B):
    """mass and density are two views of one parameter"""
    rad, rho, loc, m = B.scalar("rad", "pos"), B.scalar("dens"), B.vec("loc"), B.scalar("m")
    o = B.build("geoana.gravity.Sphere", dict(radius=rad, rho=rho, location=loc), warm=lambda o: B.get(o, "mass"))
    out = [Eq("mass of rho", B.get(o, "mass"), sp_mass(S("rad"), S("dens")))]
    B.set(o, "mass", m)
    out += [Eq("rho of mass", B.get(o, "rho"), 3 * S("m") / (4 * T.PI * S("rad") ** 3)), Eq("mass", B.get(o, "mass"), S("m")),
            Eq("radius", B.get(o, "radius"), S("rad"))]
    xyz = B.offset(loc, B.array("d", ("p", 3)))
    out.append(Eq("field after mass", B.call(o, "gravitational_field", xyz), sp_field(S("rad"), 3 * S("m") / (4 * T.PI * S("rad") ** 3), D())))
    B.set(o, "rho", rho)
    out.append(Eq("mass after rho", B.get(o, "mass"), sp_mass(S("rad"), S("dens"))))
    return out


SPH_SPECIAL = [{"rad": 2.0, "d.0": [2.0, 0.0, 3.0], "d.1": [0.0, 0.0, 0.0], "d.2": [0.0, 0.0, 0.0], "loc.0": 0.0, "loc.1": 1.0, "loc.2": -2.0}]
CASES += [
    Case("sphere.potential", ["geoana.gravity.Sphere.gravitational_potential"], sphere("gravitational_potential", sp_potential), specials=SPH_SPECIAL),
    Case("sphere.field", ["geoana.gravity.Sphere.gravitational_field"], sphere("gravitational_field", sp_field), specials=SPH_SPECIAL),
    Case("sphere.mass", ["geoana.gravity.Sphere.mass"], sphere_mass),
    Case("sphere.gradient", ["geoana.gravity.Sphere.gravitational_gradient"], sphere("gravitational_gradient", sp_grad), specials=SPH_SPECIAL),
]


def _lem():
    from engine.harness import Lemma
    d = D()
    m = T.sym("m")
    R, rho = T.sym("rad", "real", "pos"), T.sym("dens")

    def gen_pm():
        u = pm_potential(m, d).comps
        g = pm_field(m, d).comps
        t = pm_grad(m, d).comps
        pc = [T.lt(T.ZERO, R2(d))]
        for i in range(3):
            yield "g=grad U [%d]" % i, T.diff(u, d[i]), g[i], pc
            for j in range(3):
                yield "T=grad g [%d,%d]" % (i, j), T.diff(g[i], d[j]), t[i][j], pc
                yield "T symmetric [%d,%d]" % (i, j), t[i][j], t[j][i], pc
        yield "trace 0", t[0][0] + t[1][1] + t[2][2], T.ZERO, pc

    def gen_sp():
        u = sp_potential(R, rho, d).comps
        g = sp_field(R, rho, d).comps
        t = sp_grad(R, rho, d).comps
        for nm, pc in (("outside", [T.lt(R, RR(d))]), ("inside", [T.lt(RR(d), R)])):
            for i in range(3):
                yield "%s g=grad U [%d]" % (nm, i), T.diff(u, d[i]), g[i], pc
                for j in range(3):
                    yield "%s T=grad g [%d,%d]" % (nm, i, j), T.diff(g[i], d[j]), t[i][j], pc
            tr = T.ZERO if nm == "outside" else -4 * PI * G * rho
            yield nm + " trace", t[0][0] + t[1][1] + t[2][2], tr, pc
        # exterior field is the point mass of the same mass; continuity at the surface
        e = [R, T.ZERO, T.ZERO]
        m_ = sp_mass(R, rho)
        for i in range(3):
            yield "exterior = point mass [%d]" % i, g[i], pm_field(m_, d).comps[i], [T.lt(R, RR(d))]
        inside_u = G * T.num(2) / 3 * PI * rho * (3 * R ** 2 - R2(d))
        yield "U continuous", inside_u, G * m_ / RR(d), [T.eq(R, RR(d))]
        for i in range(3):
            yield "g continuous [%d]" % i, -G * T.num(4) / 3 * PI * rho * d[i], pm_field(m_, d).comps[i], [T.eq(R, RR(d))]
    return [Lemma("point mass lemmas", gen_pm), Lemma("sphere lemmas", gen_sp)]


for _s in ("d.0", "d.1", "d.2"):
    T.sym(_s)
LEMMAS = _lem()
