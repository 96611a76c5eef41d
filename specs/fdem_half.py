"""Contracts of the harmonic magnetic dipole on a half-space and of the loop."""
import numpy as np
from engine import terms as T
from engine.harness import Case, Eq, Want, Holds, Lemma
from specs.lib import *
from specs import contracts as K
from specs.fdem_whole import SIG, MU, EP, exp, AX

P = "geoana.em.fdem.MagneticDipoleHalfSpace"
FP, MOM = T.sym("fp", "real", "pos"), T.sym("mom")
A, NT, CUR = T.sym("arad", "real", "pos"), T.sym("turns"), T.sym("cur")
HINT = {"sig": lambda r: 10 ** r.uniform(-1, 1), "mu": lambda r: 10 ** r.uniform(-1, 1), "eps": lambda r: 10 ** r.uniform(-10, -8), "fp": lambda r: 10 ** r.uniform(4, 6),
        "arad": lambda r: 10 ** r.uniform(-0.5, 0.5), "turns": lambda r: float(r.randint(1, 5))}
HINTL = dict(HINT, fp=lambda r: 10 ** r.uniform(-2, 0))


def wk(qs, mu=MU0, f=FP):
    w = 2 * PI * f
    sh = SIG if qs else SIG + I * w * EP
    return T.sqrt(-I * w * mu * sh)


def bes(n, x, kind):
    return T.mk("fn", kind, T.num(n), x)


def hr(r, k):
    a = I * k * r / 2
    return k ** 2 / r * (bes(1, a, "iv") * bes(1, a, "kv") - bes(2, a, "iv") * bes(2, a, "kv"))


def hz(r, k):
    ikr = I * k * r
    return 2 / (k ** 2 * r ** 5) * (9 - (9 + 9 * ikr - 4 * k ** 2 * r ** 2 - I * k ** 3 * r ** 3) * exp(-ikr))


def phi(r, k):
    ikr = I * k * r
    return 2 / (k ** 2 * r ** 4) * (3 + k ** 2 * r ** 2 - (3 + 3 * ikr - k ** 2 * r ** 2) * exp(-ikr))


def total(d, o, k):
    """H (4 pi / m) on the surface"""
    r = T.sqrt(d[0] ** 2 + d[1] ** 2)
    R = T.sym("rr", "real", "pos")
    p = phi(R, k)
    dp = T.subst(T.diff(p, R), {R: r})
    p = T.subst(p, {R: r})
    out = []
    for i in range(2):
        # minus the surface gradient of (o.d) phi / r
        v = sum((-(delta(i, j) / r - d[i] * d[j] / r ** 3) * p * o[j] - d[i] * d[j] / r ** 2 * dp * o[j] for j in range(2)), T.ZERO)
        out.append(v + o[2] * d[i] / r * hr(r, k))
    out.append(o[2] * hz(r, k) - (o[0] * d[0] + o[1] * d[1]) / r * hr(r, k))
    return out


def primary(d, o):
    r = T.sqrt(d[0] ** 2 + d[1] ** 2)
    m = o[0] * d[0] + o[1] * d[1]
    return [3 * d[0] * m / r ** 5 - o[0] / r ** 3, 3 * d[1] * m / r ** 5 - o[1] / r ** 3, -o[2] / r ** 3]


def dip(how, arr, qs, fld, n):
    def scen(B):
        kw = dict(sigma=B.scalar("sig", "pos"), epsilon=B.scalar("eps", "nonneg"), moment=B.scalar("mom"), quasistatic=qs,
                  frequency=B.array("fp", ("#f",), sign="pos") if arr else B.scalar("fp", "pos"))
        loc = B.vec("loc")
        B.pin(loc, 2, 0.0)
        if how == "vec":
            oa, o = B.unit("o", B.scalar("k", "pos")), V("o")
        else:
            oa, o = how, [T.num(x) for x in AX[how]]
        d = D()[:2]
        r2 = d[0] * d[0] + d[1] * d[1]
        x = B.offset(loc, B.array("d", ("p", n)))
        B.assume(T.lt(T.ZERO, r2))
        args = (x,) if fld is None else (x, fld)
        ob = B.build(P, dict(kw, location=loc, orientation=oa), prime=dict(orientation="Y", location=B.const(np.array([0.4, -0.3, 0.0]))), warm=lambda ob: B.call(ob, "magnetic_field", *args))
        k = wk(qs)
        w = total(d, o, k)
        if fld != "total":
            w = [a - b for a, b in zip(w, primary(d, o))]
        return Eq("magnetic_field", B.call(ob, "magnetic_field", *args), Want((("#f",) if arr else ()) + ("p", 3), [MOM / (4 * PI) * q for q in w], scale=T.absv(MOM) / (r2 * T.sqrt(r2)), squeeze=True))
    return scen


def badloc(B):
    loc = B.vec("loc")
    z = S("loc.2")
    B.assume(T.ne(z, T.ZERO))
    return Holds("source off the surface is rejected", B.raises(lambda: B.new(P, frequency=B.scalar("fp", "pos"), location=loc)) is ValueError)


CASES = []
for how, arr, qs, fld, n in (("vec", 1, 0, None, 2), ("vec", 1, 0, "total", 3), ("vec", 1, 1, "secondary", 3), ("X", 1, 1, "total", 2), ("y", 1, 0, None, 3), ("Z", 1, 1, "secondary", 2), ("vec", 0, 0, "secondary", 2), ("vec", 0, 1, "total", 3)):
    CASES.append(Case("fdem.MagneticDipoleHalfSpace.%s%s%s.%s.%d" % (how, ".farr" if arr else "", ".qs" if qs else "", fld, n), [P + ".magnetic_field"], dip(how, arr, bool(qs), fld, n), hints=HINT, tol=1e-6))
def moved(B):
    loc = B.vec("loc")
    B.assume(T.ne(S("loc.2"), T.ZERO))
    ob = B.new(P, frequency=B.scalar("fp", "pos"))
    x = B.array("d", ("p", 3))
    B.assume(T.lt(T.ZERO, S("d.0") ** 2 + S("d.1") ** 2))

    def go():
        B.set(ob, "location", loc)
        B.call(ob, "magnetic_field", x)
    return Holds("source moved off the surface is rejected", B.raises(go) is ValueError)


CASES.append(Case("fdem.MagneticDipoleHalfSpace.moved", [P + ".magnetic_field"], moved, modes=("fresh", "int", "mixed")))
CASES.append(Case("fdem.MagneticDipoleHalfSpace.location", [P + ".__init__"], badloc, modes=("fresh", "int", "mixed")))


def lhz(a, k):
    ika = I * k * a
    return -1 / (k ** 2 * a ** 3) * (3 - (3 + 3 * ika - k ** 2 * a ** 2) * exp(-ika))


def loop(name, arr, how, sec):
    def scen(B):
        f = B.array("fp", ("p",), sign="pos") if arr else B.scalar("fp", "pos")
        ax = ("p",) if arr else ()
        flux = "flux" in name
        w = 2 * PI * FP
        if how == "default":
            k = T.sqrt(-I * w * MU0)
            v = lhz(T.ONE, k) - T.num(1) / 2
            args = (f, 1.0) if flux else (f,)
            return Eq(name, B.fn("geoana.em.fdem." + name, *args), Want(ax, v * (MU0 if flux else T.ONE), scale=MU0 if flux else T.ONE))
        kw = dict(sigma=B.scalar("sig", "pos"), mu=B.scalar("mu", "pos"), radius=B.scalar("arad", "pos"), current=B.scalar("cur"), turns=B.scalar("turns"), secondary=sec)
        v = lhz(A, T.sqrt(-I * w * MU * SIG))
        if sec:
            v = v - 1 / (2 * A)
        m = MU if flux else T.ONE
        return Eq(name, B.fn("geoana.em.fdem." + name, f, **kw), Want(ax, m * NT * CUR * v, scale=T.absv(NT * CUR * m / A)))
    return scen


for nm in ("vertical_magnetic_field_horizontal_loop", "vertical_magnetic_flux_horizontal_loop"):
    for arr, how, sec in ((0, "kw", True), (1, "kw", False), (1, "kw", True), (0, "kw", False), (1, "default", True)):
        CASES.append(Case("fdem.%s.%s%s.%s" % (nm, how, ".farr" if arr else "", sec), ["geoana.em.fdem." + nm], loop(nm, arr, how, sec), hints=HINTL, modes=("fresh", "int", "mixed"), tol=1e-6))


def gen():
    r = T.sym("rr", "real", "pos")
    k = T.sym("kk", "complex")
    d, o = D()[:2], V("o")
    pc = [T.lt(T.ZERO, d[0] ** 2 + d[1] ** 2)]
    rd = T.sqrt(d[0] ** 2 + d[1] ** 2)
    h = total(d, [T.ONE, T.ZERO, T.ZERO], k)
    psi = d[0] / rd * T.subst(phi(r, k), {r: rd})
    for i in range(2):
        yield "horizontal field of the x-dipole is a surface gradient [%d]" % i, h[i], -T.diff(psi, d[i]), pc
    yield "secondary Hz of the z-dipole from the secondary potential of the x-dipole", hz(r, k) + 1 / r ** 3, -T.diff(r * (phi(r, k) - 1 / r ** 2), r) / r, []
    hx, hz3 = total(d, [T.ONE, T.ZERO, T.ZERO], k), total(d, [T.ZERO, T.ZERO, T.ONE], k)
    yield "reciprocity x/z", hx[2], -hz3[0], pc
    hy = total(d, [T.ZERO, T.ONE, T.ZERO], k)
    yield "reciprocity y/z", hy[2], -hz3[1], pc
    yield "reciprocity x/y", hx[1], hy[0], pc
    g = total(d, o, k)
    for i in range(3):
        yield "linear in the moment [%d]" % i, g[i], o[0] * hx[i] + o[1] * hy[i] + o[2] * hz3[i], pc
    p = primary(d, o)
    pr = static_h([d[0], d[1], T.ZERO], o)
    for i in range(3):
        yield "primary is the static dipole [%d]" % i, p[i], pr[i], pc
    a = A
    yield "loop = superposition of dipoles", T.diff(lhz(a, k) - 1 / (2 * a), a) / (2 * PI * a), (hz(a, k) + 1 / a ** 3) / (4 * PI), []


def static_h(d, o):
    r = T.sqrt(d[0] ** 2 + d[1] ** 2)
    m = dot(d, o)
    return [3 * d[i] * m / r ** 5 - o[i] / r ** 3 for i in range(3)]


LEM = [Lemma("harmonic half-space lemmas", gen)]
