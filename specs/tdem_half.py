"""Contracts of the transient loop and vertical dipole on a half-space."""
from engine import terms as T
from engine.harness import Case, Eq, Want, Holds, Lemma
from specs.lib import *
from specs import contracts as K
from specs.fdem_whole import SIG, MU, CUR, exp

MOD = "geoana.em.tdem."
TIM = T.sym("t", "real", "pos")
A, NT, MOM = T.sym("arad", "real", "pos"), T.sym("turns"), T.sym("mom")
HINT = {"sig": lambda r: 10 ** r.uniform(-1, 1), "mu": lambda r: 10 ** r.uniform(-1, 1), "t": lambda r: 10 ** r.uniform(-1, 1), "arad": lambda r: 10 ** r.uniform(-0.5, 0.5), "turns": lambda r: float(r.randint(1, 5))}
HINTD = dict(HINT, t=lambda r: 10 ** r.uniform(-8, -6))
SP = T.sqrt(PI)


def th(mu):
    return T.sqrt(mu * SIG / (4 * TIM))


def hz_loop(a, mu, sig=SIG):
    x = T.sqrt(mu * sig / (4 * TIM)) * a
    return (3 / (SP * x) * exp(-x ** 2) + (1 - 3 / (2 * x ** 2)) * T.erf(x)) / (2 * a)


def dbz_loop(a, mu, sig=SIG):
    x = T.sqrt(mu * sig / (4 * TIM)) * a
    return -(3 * T.erf(x) - 2 * x / SP * (3 + 2 * x ** 2) * exp(-x ** 2)) / (sig * a ** 3)


LOOP = {"vertical_magnetic_field_horizontal_loop": hz_loop, "vertical_magnetic_flux_horizontal_loop": lambda a, mu, s=SIG: mu * hz_loop(a, mu, s),
        "vertical_magnetic_field_time_deriv_horizontal_loop": lambda a, mu, s=SIG: dbz_loop(a, mu, s) / mu, "vertical_magnetic_flux_time_deriv_horizontal_loop": dbz_loop}


def loop(name, arr, how):
    def scen(B):
        t = B.array("t", ("p",), sign="pos") if arr else B.scalar("t", "pos")
        ax = ("p",) if arr else ()
        spec = LOOP[name]
        if how == "default":
            return Eq(name, B.fn(MOD + name, t), Want(ax, spec(T.ONE, MU0, T.ONE), scale=T.ONE if "flux_time" in name else 1 / MU0 if "time" in name else MU0 if "flux" in name else T.ONE))
        kw = dict(sigma=B.scalar("sig", "pos"), mu=B.scalar("mu", "pos"), radius=B.scalar("arad", "pos"), current=B.scalar("cur"), turns=B.scalar("turns"))
        want = NT * CUR * spec(A, MU)
        sc = T.absv(NT * CUR / A ** 3 / SIG * (T.ONE if "flux_time" in name else 1 / MU if "time" in name else SIG * A ** 2 * (MU if "flux" in name else T.ONE)))
        if how == "pos":
            got = B.fn(MOD + name, t, kw["sigma"], kw["mu"], kw["radius"], kw["current"], kw["turns"])
        else:
            got = B.fn(MOD + name, t, **kw)
        return Eq(name, got, Want(ax, want, scale=sc))
    return scen


def hz_(d, mu, sig=SIG):
    r = T.sqrt(d[0] ** 2 + d[1] ** 2)
    x = T.sqrt(mu * sig / (4 * TIM)) * r
    return ((9 / (2 * x ** 2) - 1) * T.erf(x) - (9 / x + 4 * x) / SP * exp(-x ** 2)) / r ** 3


def iv(n, x):
    return T.mk("fn", "iv", T.num(n), x)


def hr_(d, mu, sig=SIG):
    r = T.sqrt(d[0] ** 2 + d[1] ** 2)
    x2 = mu * sig * r ** 2 / (4 * TIM)
    return 2 * x2 / r ** 3 * exp(-x2 / 2) * (iv(1, x2 / 2) - iv(2, x2 / 2))


def vmd(d, mu, sig=SIG):
    r = T.sqrt(d[0] ** 2 + d[1] ** 2)
    hr = hr_(d, mu, sig) / (4 * PI)
    return [hr * d[0] / r, hr * d[1] / r, hz_(d, mu, sig) / (4 * PI)]


def dvmd(d, mu, sig=SIG):
    r = T.sqrt(d[0] ** 2 + d[1] ** 2)
    x2 = mu * sig * r ** 2 / (4 * TIM)
    x = T.sqrt(mu * sig / (4 * TIM)) * r
    hr = -2 * x2 / (r ** 3 * TIM) * exp(-x2 / 2) * ((1 + x2) * iv(0, x2 / 2) - (2 + x2 + 4 / x2) * iv(1, x2 / 2))
    hz = (9 / (2 * x2) * T.erf(x) - (4 * x ** 3 + 6 * x + 9 / x) / SP * exp(-x2)) / (r ** 3 * TIM)
    return [hr * d[0] / r / (4 * PI), hr * d[1] / r / (4 * PI), hz / (4 * PI)]


VMD = {"magnetic_field_vertical_magnetic_dipole": vmd, "magnetic_field_time_deriv_magnetic_dipole": dvmd,
       "magnetic_flux_vertical_magnetic_dipole": lambda d, mu, s=SIG: [mu * x for x in vmd(d, mu, s)], "magnetic_flux_time_deriv_magnetic_dipole": lambda d, mu, s=SIG: [mu * x for x in dvmd(d, mu, s)]}


def vfn(name, arr, n, how):
    def scen(B):
        t = B.array("t", ("#f",), sign="pos") if arr else B.scalar("t", "pos")
        ax = (("#f",) if arr else ()) + ("p", 3)
        xy = B.array("d", ("p", n))
        d = D()[:2]
        r2 = d[0] * d[0] + d[1] * d[1]
        B.assume(T.lt(T.ZERO, r2))
        spec = VMD[name]
        if how == "default":
            return Eq(name, B.fn(MOD + name, t, xy), Want(ax, spec(d, MU0, T.ONE), scale=(MU0 if "flux" in name else T.ONE) * (1 / TIM if "deriv" in name else T.ONE) / (r2 * T.sqrt(r2))))
        kw = dict(sigma=B.scalar("sig", "pos"), mu=B.scalar("mu", "pos"), moment=B.scalar("mom"))
        got = B.fn(MOD + name, t, xy, **kw)
        sc = T.absv(MOM * (MU if "flux" in name else T.ONE) * (1 / TIM if "deriv" in name else T.ONE)) / (r2 * T.sqrt(r2))
        return Eq(name, got, Want(ax, [MOM * x for x in spec(d, MU)], scale=sc))
    return scen


P = MOD + "VerticalMagneticDipoleHalfSpace"
METH = {"magnetic_field": "magnetic_field_vertical_magnetic_dipole", "magnetic_flux_density": "magnetic_flux_vertical_magnetic_dipole",
        "magnetic_field_time_derivative": "magnetic_field_time_deriv_magnetic_dipole", "magnetic_flux_time_derivative": "magnetic_flux_time_deriv_magnetic_dipole"}


def cls(meth, arr, n):
    def scen(B):
        kw = dict(sigma=B.scalar("sig", "pos"), mu=B.scalar("mu", "pos"), moment=B.scalar("mom"), time=B.array("t", ("#f",), sign="pos") if arr else B.scalar("t", "pos"))
        loc = B.vec("loc")
        d = D()[:2]
        r2 = d[0] * d[0] + d[1] * d[1]
        x = B.offset(loc, B.array("d", ("p", n)))
        B.assume(T.lt(T.ZERO, r2))
        ob = B.build(P, dict(kw, location=loc), warm=lambda ob: B.call(ob, meth, x))
        sc = T.absv(MOM * (MU if "flux" in meth else T.ONE) * (1 / TIM if "deriv" in meth else T.ONE)) / (r2 * T.sqrt(r2))
        return Eq(meth, B.call(ob, meth, x), Want((("#f",) if arr else ()) + ("p", 3), [MOM * q for q in VMD[METH[meth]](d, MU)], scale=sc))
    return scen


CASES = []
for nm in LOOP:
    for arr, how in ((0, "kw"), (1, "kw"), (1, "pos"), (1, "default")):
        CASES.append(Case("tdem.%s.%s%s" % (nm, how, ".tarr" if arr else ""), [MOD + nm], loop(nm, arr, how), hints=HINTD if how == "default" else HINT, modes=("fresh", "int", "mixed")))
for nm in VMD:
    for arr, n, how in ((0, 3, "kw"), (1, 3, "kw"), (1, 2, "kw"), (0, 2, "default")):
        CASES.append(Case("tdem.%s.%s.%d%s" % (nm, how, n, ".tarr" if arr else ""), [MOD + nm], vfn(nm, arr, n, how), hints=HINTD if how == "default" else HINT, modes=("fresh", "int", "mixed"), contracts=K.ND))
for meth in METH:
    for arr, n in ((0, 2), (1, 2), (0, 3), (1, 3)):
        CASES.append(Case("tdem.VMDHalfSpace.%s.%d%s" % (meth, n, ".tarr" if arr else ""), [P + "." + meth], cls(meth, arr, n), hints=HINT, contracts=K.ND))


def gen():
    d = D()[:2]
    pc = [T.lt(T.ZERO, d[0] ** 2 + d[1] ** 2)]
    yield "loop: time derivative of Bz", T.diff(MU * hz_loop(A, MU), TIM), dbz_loop(A, MU), []
    h, g = vmd(d, MU), dvmd(d, MU)
    for i in range(3):
        yield "VMD: time derivative of H[%d]" % i, T.diff(h[i], TIM), g[i], pc
    yield "VMD: horizontal field is radial", h[0] * d[1], h[1] * d[0], pc
    # reciprocity: vertical dipole moment pi a^2 on the axis of the loop in the far field is not exact; the loop
    # is the integral of dipoles: (1/2 pi a) d/da (2 pi * integral) -> Hz(dipole) at distance a is (1/(2 pi a)) dM/da of the
    # mutual term of a loop of radius a seen from its centre
    a = A
    dd = [a, T.ZERO]
    yield "loop = superposition of dipoles", T.diff(hz_loop(a, MU) - 1 / (2 * a), a) / (2 * PI * a), hz_(dd, MU) / (4 * PI) + 1 / (4 * PI * a ** 3), []


LEM = [Lemma("half-space transient lemmas", gen)]


# the reference formulas of Ward and Hohmann
TV = T.sym("thv", "real", "pos")


def refcase(name):
    def scen(B):
        m, rho, thv = B.scalar("mom"), B.array("arad", ("p",), sign="pos"), B.scalar("thv", "pos")
        f = "geoana.em.tdem.reference." + name
        x = TV * A
        if name == "hz_from_vert_4_69a":
            return Eq(name, B.fn(f, m, thv, rho), Want(("p",), MOM / (4 * PI * A ** 3) * (9 / (2 * x ** 2) * T.erf(x) - T.erf(x) - (9 / x + 4 * x) / SP * exp(-x ** 2)), scale=T.absv(MOM) / A ** 3))
        if name == "hp_from_vert_4_72":
            return Eq(name, B.fn(f, m, thv, rho), Want(("p",), -MOM * TV ** 2 / (2 * PI * A) * exp(-x ** 2 / 2) * (iv(1, x ** 2 / 2) - iv(2, x ** 2 / 2)), scale=T.absv(MOM) / A ** 3))
        if name == "dhz_from_vert_4_70":
            s, mu = B.scalar("sig", "pos"), B.scalar("mu", "pos")
            return Eq(name, B.fn(f, m, thv, rho, s, mu), Want(("p",), -MOM / (2 * PI * MU * SIG * A ** 5) * (9 * T.erf(x) - 2 * x / SP * (9 + 6 * x ** 2 + 4 * x ** 4) * exp(-x ** 2)), scale=T.absv(MOM) / (MU * SIG * A ** 5)))
        t = B.scalar("t", "pos")
        return Eq(name, B.fn(f, m, thv, rho, t), Want(("p",), MOM * TV ** 2 / (2 * PI * A * TIM) * exp(-x ** 2 / 2) * ((1 + x ** 2) * iv(0, x ** 2 / 2) - (2 + x ** 2 + 4 / x ** 2) * iv(1, x ** 2 / 2)), scale=T.absv(MOM) / (TIM * A ** 3)))
    return scen


for nm in ("hz_from_vert_4_69a", "hp_from_vert_4_72", "dhz_from_vert_4_70", "dhp_from_vert_4_74"):
    CASES.append(Case("tdem.reference." + nm, ["geoana.em.tdem.reference." + nm], refcase(nm), hints=dict(HINT, thv=HINT["arad"]), modes=("fresh", "int", "mixed")))
