"""Contracts of the harmonic and the transient plane wave."""
import numpy as np
from engine import terms as T
from engine.harness import Case, Eq, Want, Holds, Lemma
from specs.lib import *
from specs import contracts as K
from specs.fdem_whole import SIG, MU, EP, exp, sc, om as _om, wav as _wav

AMP = T.sym("amp")
TIM = T.sym("t", "real", "pos")
T.sym("z")
TH = T.sym("ang")
FP = T.sym("fp", "real", "pos")
HINT = {"sig": lambda r: 10 ** r.uniform(-1, 1), "mu": lambda r: 10 ** r.uniform(-1, 1), "eps": lambda r: 10 ** r.uniform(-2, 0.5), "fp": lambda r: 10 ** r.uniform(-2, 0), "t": lambda r: 10 ** r.uniform(-1, 1)}


def om():
    return _om(FP)


def wav(qs):
    return _wav(qs, FP)


def orient(B, how):
    if how == "vec":
        k, th = B.scalar("k", "pos"), B.scalar("ang")
        if B.symbolic:
            v = B.vec("ov")
            for i, t in enumerate((S("k") * T.cos(TH), S("k") * T.sin(TH), T.ZERO)):
                v.data[i] = t
        else:
            v = np.array([k * np.cos(th), k * np.sin(th), 0.0])
        return v, [T.cos(TH), T.sin(TH), T.ZERO]
    return how, [T.num(x) for x in {"x": (1, 0, 0), "Y": (0, 1, 0)}[how]]


def h_e(o, z, qs):
    return sc(AMP * exp(I * wav(qs) * z), o)


def h_b(o, z, qs):
    # B = -(k/w) E0 e^{ikz} (o x -z)
    return sc(-AMP * wav(qs) / om() * exp(I * wav(qs) * z), [-o[1], o[0], T.ZERO])


def t_e(o, z, qs):
    return sc(-AMP * T.sqrt(MU * SIG) * z * exp(-MU * SIG * z ** 2 / (4 * TIM)) / (2 * T.sqrt(PI) * TIM * T.sqrt(TIM)), o)


def t_b(o, z, qs):
    return sc(-AMP * T.sqrt(MU * SIG / (PI * TIM)) * exp(-MU * SIG * z ** 2 / (4 * TIM)), [-o[1], o[0], T.ZERO])


FREQ = {"electric_field": h_e, "current_density": lambda o, z, q: sc(SIG, h_e(o, z, q)), "magnetic_flux_density": h_b, "magnetic_field": lambda o, z, q: sc(1 / MU, h_b(o, z, q))}
TIME = {"electric_field": t_e, "current_density": lambda o, z, q: sc(SIG, t_e(o, z, q)), "magnetic_flux_density": t_b, "magnetic_field": lambda o, z, q: sc(1 / MU, t_b(o, z, q))}


def mk(cls, meth, spec, how, arr, qs):
    def scen(B):
        kw = dict(amplitude=B.scalar("amp"), sigma=B.scalar("sig", "pos"), mu=B.scalar("mu", "pos"))
        if "fdem" in cls:
            kw.update(epsilon=B.scalar("eps", "nonneg"), quasistatic=qs, frequency=B.array("fp", ("#f",), sign="pos") if arr else B.scalar("fp", "pos"))
        else:
            kw.update(time=B.array("t", ("#f",), sign="pos") if arr else B.scalar("t", "pos"))
        kw["orientation"], o = orient(B, how)
        x = B.array("x", ("p", 3))
        ob = B.build("geoana.em." + cls, kw, warm=lambda ob: B.call(ob, meth, x), prime={"orientation": "x" if how == "Y" else "Y"})
        return Eq(meth, B.call(ob, meth, x), Want((("#f",) if arr else ()) + ("p", 3), spec(o, S("x.2"), qs), scale="vec"))
    return scen


CASES = []
for cls, tab in (("fdem.HarmonicPlaneWave", FREQ), ("tdem.TransientPlaneWave", TIME)):
    for meth, sp in tab.items():
        for how, arr, qs in (("vec", False, False), ("vec", True, True), ("x", True, False), ("Y", False, True)):
            CASES.append(Case("%s.%s.%s%s%s" % (cls, meth, how, ".arr" if arr else "", ".qs" if qs else ""), ["geoana.em." + cls + "." + meth], mk(cls, meth, sp, how, arr, qs), contracts=K.ND, hints=HINT))


def gen():
    z = S("z")
    o = [T.cos(TH), T.sin(TH), T.ZERO]
    for nm in ("x.0", "x.1", "x.2"):
        T.sym(nm)
    X = V("x")
    f = []
    for qs in (False, True):
        e, b = h_e(o, X[2], qs), h_b(o, X[2], qs)
        sh = SIG if qs else SIG + I * om() * EP
        for i in range(3):
            yield "harmonic: curl E = -i w B [%d] %s" % (i, qs), curl(e, X)[i], -I * om() * b[i], f
            yield "harmonic: curl B = mu (sigma + i w eps) E [%d] %s" % (i, qs), curl(b, X)[i], MU * sh * e[i], f
        yield "harmonic: div E %s" % qs, div(e, X), T.ZERO, f
        yield "harmonic: E.B = 0 %s" % qs, dot(e, b), T.ZERO, f
    e, b = t_e(o, X[2], 0), t_b(o, X[2], 0)
    for i in range(3):
        yield "transient: curl E = -dB/dt [%d]" % i, curl(e, X)[i], -T.diff(b[i], TIM), []
        yield "transient: curl B = mu sigma E [%d]" % i, curl(b, X)[i], MU * SIG * e[i], []


LEM = [Lemma("plane wave lemmas", gen)]
