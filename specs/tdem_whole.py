"""Contracts of the transient electric dipole in a whole space."""
from engine import terms as T
from engine.harness import Case, Eq, Want, Holds, Lemma
from specs.lib import *
from specs import contracts as K
from specs.fdem_whole import SIG, MU, CUR, LEN, AX, sc, exp

P = "geoana.em.tdem.ElectricDipoleWholeSpace"
TIM = T.sym("t", "real", "pos")
IDL = CUR * LEN
HINT = {"sig": lambda r: 10 ** r.uniform(-1, 1), "mu": lambda r: 10 ** r.uniform(-1, 1), "t": lambda r: 10 ** r.uniform(-1, 1)}


def theta():
    return T.sqrt(MU * SIG / (4 * TIM))


def a_(d, o):
    r = RR(d)
    return sc(IDL / (4 * PI * r) * T.erf(theta() * r), o)


def h_(d, o):
    r = RR(d)
    tr = theta() * r
    return sc(IDL / (4 * PI * r ** 3) * (T.erf(tr) - 2 / T.sqrt(PI) * tr * exp(-tr ** 2)), cross(o, d))


def ht_(d, o):
    r = RR(d)
    tr = theta() * r
    return sc(IDL / (4 * PI * r ** 3) * (-2 * tr ** 3 / (T.sqrt(PI) * TIM) * exp(-tr ** 2)), cross(o, d))


def j_(d, o):
    r = RR(d)
    tr = theta() * r
    rh = [x / r for x in d]
    c = tr / T.sqrt(PI) * exp(-tr ** 2)
    s = 3 * T.erf(tr) - (4 * tr ** 2 + 6) * c
    q = T.erf(tr) - (4 * tr ** 2 + 2) * c
    return [IDL / (4 * PI * r ** 3) * (s * dot(rh, o) * rh[i] - q * o[i]) for i in range(3)]


TAB = {"vector_potential": a_, "electric_field": lambda d, o: sc(1 / SIG, j_(d, o)), "current_density": j_, "magnetic_field": h_,
       "magnetic_flux_density": lambda d, o: sc(MU, h_(d, o)), "magnetic_field_time_deriv": ht_, "magnetic_flux_density_time_deriv": lambda d, o: sc(MU, ht_(d, o))}


def dip(meth, spec, how, arr):
    def scen(B):
        kw = dict(sigma=B.scalar("sig", "pos"), mu=B.scalar("mu", "pos"), time=B.array("t", ("#f",), sign="pos") if arr else B.scalar("t", "pos"),
                  current=B.scalar("cur"), length=B.scalar("len", "pos"))
        loc = B.vec("loc")
        if how == "vec":
            oa, o = B.unit("o", B.scalar("k", "pos")), V("o")
        else:
            oa, o = how, [T.num(x) for x in AX[how]]
        d = D()
        x = B.offset(loc, B.array("d", ("p", 3)))
        B.assume(T.lt(T.ZERO, R2(d)))
        ob = B.build(P, dict(kw, location=loc, orientation=oa), warm=lambda ob: B.call(ob, meth, x))
        mag = IDL / (4 * PI * RR(d) ** 3) * (1 / SIG if meth == "electric_field" else MU * RR(d) if "flux" in meth else RR(d) if "magnetic" in meth else T.ONE)
        return Eq(meth, B.call(ob, meth, x), Want((("#f",) if arr else ()) + ("p", 3), spec(d, o), scale="vec" if "deriv" in meth or meth[0] == "v" else T.absv(mag)))
    return scen


CASES = []
for meth, sp in TAB.items():
    for how, arr in (("vec", False), ("vec", True), ("X", True), ("y", False), ("Z", True)):
        CASES.append(Case("tdem.ElectricDipoleWholeSpace.%s.%s%s" % (meth, how, ".tarr" if arr else ""), [P + "." + meth], dip(meth, sp, how, arr), contracts=K.ND, hints=HINT))


def gen():
    d, o = D(), V("o")
    pc = [T.lt(T.ZERO, R2(d))]
    a, e, j, h, ht = a_(d, o), TAB["electric_field"](d, o), j_(d, o), h_(d, o), ht_(d, o)
    for i in range(3):
        yield "H = curl A [%d]" % i, curl(a, d)[i], h[i], pc
        yield "curl H = J [%d]" % i, curl(h, d)[i], j[i], pc
        yield "time derivative of H [%d]" % i, T.diff(h[i], TIM), ht[i], pc
        yield "curl E = -mu dH/dt [%d]" % i, curl(e, d)[i], -MU * ht[i], pc
    yield "div H", div(h, d), T.ZERO, pc
    yield "div J", div(j, d), T.ZERO, pc


LEM = [Lemma("transient dipole lemmas", gen)]
