"""Contracts of the harmonic magnetic dipole over a layered half-space."""
import numpy as np
from engine import terms as T
from engine.arrays import Arr, Dim, at_index, to_arr
from engine.interp import PyRaise, Unsupported
from engine.harness import Case, Eq, Want, Holds, Lemma
from specs.lib import *
from specs import rte as R
from specs.fdem_whole import exp, AX

P = "geoana.em.fdem.MagneticDipoleLayeredHalfSpace"
FB, W0, W1 = T.sym("key_101_2009:fb", "real", "pos"), T.sym("key_101_2009:wj0"), T.sym("key_101_2009:wj1")
MOM = T.sym("mom")
EPL = T.sym("epl", "complex")
HH = T.sym("lloc.2", "real", "nonneg")


def rte_contract(I, f, args, kw):
    """rTE_forward through its contract (cases rTE_forward.*)"""
    names = ("frequencies", "lamb", "sigma", "mu", "thicknesses")
    kw = dict(kw)
    kw.update(zip(names, args))
    fr, lam, sg, mu, th = [to_arr(kw[n]) for n in names]
    if any(len(a.axes) != n for a, n in ((fr, 1), (lam, 1), (sg, 2), (mu, 2), (th, 1))):
        return NotImplemented
    if fr.axes[0] != sg.axes[1] or mu.axes != sg.axes:
        raise PyRaise(ValueError("sizes"))
    nl = sg.axes[0]
    if isinstance(nl, int):
        if th.axes[0] != nl - 1:
            raise PyRaise(ValueError("sizes"))
        if nl != 1 or not isinstance(fr.axes[0], Dim):
            return NotImplemented
        sub = {R.FR: fr.item(), R.LAM: lam.item(), T.sym("sg.0", "complex"): sg.data[0], T.sym("mul.0", "complex"): mu.data[0]}
        e = T.subst(R.con_forward(1, R.MU0C), sub)
    else:
        if th.axes[0] != Dim(nl.name, nl.off - 1) or nl != Dim("lay"):
            raise PyRaise(ValueError("sizes"))
        _, g = R.gen_forward(R.MU0C)
        sub = {R.FR: fr.item(), R.LAM: lam.item(), R.SG: sg.item(), R.MUL: mu.item(), R.TH: th.item(),
               R.last(R.SG): at_index(sg.item(), "lay", "-1"), R.last(R.MUL): at_index(mu.item(), "lay", "-1")}
        e = T.subst(g, sub)
    return Arr((fr.axes[0], lam.axes[0]), e, "c")


CON = {R.X + "rTE_forward": rte_contract, R.M + "rTE_forward": rte_contract, R.M + "_rTE_forward": rte_contract}


def weights(d, o, lam, rho):
    """kernel coefficients (J0, J1) of the secondary field, times 4 pi / m (Ward & Hohmann 4.46, 4.119-4.121)"""
    x, y = d[0], d[1]
    c = [[T.ZERO, T.ZERO] for _ in range(3)]
    for a, oa in ((0, o[0]), (1, o[1])):
        # horizontal dipole along axis a: the horizontal field is a surface gradient
        for b in range(2):
            c[b][0] = c[b][0] + oa * d[a] * d[b] / rho ** 2 * lam ** 2
            c[b][1] = c[b][1] + oa * (delta(a, b) / rho - 2 * d[a] * d[b] / rho ** 3) * lam
        c[2][1] = c[2][1] - oa * d[a] / rho * lam ** 2
    for b in range(2):
        c[b][1] = c[b][1] + o[2] * d[b] / rho * lam ** 2
    c[2][0] = c[2][0] + o[2] * lam ** 2
    return c


def primary(d, o):
    r = T.sqrt(dot(d, d))
    m = dot(d, o)
    return [3 * d[i] * m / r ** 5 - o[i] / r ** 3 for i in range(3)]


_filter = []


def the_filter():
    if not _filter:
        import sys
        from engine import realpkg
        realpkg.prepare(ext=False)
        import libdlf
        _filter.extend([[T.num(float(x)) for x in a] for a in libdlf.hankel.key_101_2009()])
    return _filter


def secondary(B, d, o, n, sig, mu, rho):
    """components of 4 pi H / m"""
    z2 = d[2] + 2 * HH          # receiver height plus source height

    def term(fb, w0, w1):
        lam = fb / rho
        if n is None:
            g = R.gen_forward(R.MU0C)[1]
            sub = {R.LAM: lam, R.SG: sig, R.MUL: mu, R.last(R.SG): at_index(sig, "lay", "-1"), R.last(R.MUL): at_index(mu, "lay", "-1")}
        else:
            g = R.con_forward(n, R.MU0C)
            s, m, _ = R.stack(n)
            sub = {R.LAM: lam}
            sub.update(zip(s, sig))
            sub.update(zip(m, mu))
        g = T.subst(g, sub) * exp(-lam * z2)
        return [(c0 * w0 + c1 * w1) * g for c0, c1 in weights(d, o, lam, rho)]
    if B.symbolic:
        t = term(FB, W0, W1)
        return [T.sumover(Dim("flt"), x) / rho for x in t]
    tot = [T.ZERO] * 3
    for fb, a, b in zip(*the_filter()):
        tot = [x + y for x, y in zip(tot, term(fb, a, b))]
    return [x / rho for x in tot]


def scen(how, form, qs, fld, n):
    def scen(B):
        nl = n if n is not None else (None if B.symbolic else B.rng.choice([2, 3, 5]))
        fr = B.array("rf", ("#fr",), sign="pos")
        lay = "#lay" if nl is None else nl
        if nl is None:
            th = B.array("th", ("#lay",), sign="pos")
            th = Arr((Dim("lay", -1),), th.data, "f", th.buf)
            B.assume(T.le(T.num(2), R.NL))
        elif nl == 1:
            th = None
        else:
            th = B.array("th", (nl - 1,), sign="pos")
        ax = {"layer": (lay,), "full": (lay, "#fr"), "scalar": ()}[form]

        def prop(nm):
            if form == "scalar":
                return B.scalar(nm, kind="complex")
            return B.array(nm, ax, kind="complex")

        def S_(nm):
            if form == "scalar" or nl is None:
                return T.sym(nm, "complex")
            return [T.sym("%s.%d" % (nm, i), "complex") for i in range(nl)]
        sg, mu, ep = prop("sg"), prop("mul"), prop("epl")
        s_, m_, e_ = S_("sg"), S_("mul"), S_("epl")
        wrap = lambda v: v if isinstance(v, list) else [v]
        for s in wrap(s_):
            B.assume(T.lt(T.ZERO, T.fn("re", s)))
            B.assume(T.le(T.ZERO, T.fn("im", s)))
        for m in wrap(m_):
            B.assume(T.le(MU0, T.fn("re", m)))
            B.assume(T.le(T.ZERO, T.fn("im", m)))
        for e in wrap(e_):
            B.assume(T.le(T.sym("epsilon_0", "real", "pos"), T.fn("re", e)))
            B.assume(T.le(T.ZERO, T.fn("im", e)))
        loc = B.array("lloc", (3,), signs={2: "nonneg"})
        if how == "vec":
            oa, o = B.unit("o", B.scalar("k", "pos")), V("o")
        else:
            oa, o = how, [T.num(x) for x in AX[how]]
        d = D()
        rho2 = d[0] * d[0] + d[1] * d[1]
        x = B.offset(loc, B.array("d", ("#loc", 3)))
        B.assume(T.lt(T.ZERO, rho2))
        B.assume(T.le(T.ZERO, d[2] + HH))
        args = (x,) if fld is None else (x, fld)
        kw = dict(sigma=sg, mu=mu, epsilon=ep, moment=B.scalar("mom"), quasistatic=qs, location=loc, orientation=oa)
        ob = B.build(P, dict(frequency=fr, thickness=th, **kw), prime=dict(orientation="Y", location=B.const(np.array([0.4, -0.3, 1.0]))),
                     warm=lambda ob: B.call(ob, "magnetic_field", *args))
        rho = T.sqrt(rho2)
        om = 2 * PI * R.FR
        sh = [s if qs else s + I * om * e for s, e in zip(wrap(s_), wrap(e_))]
        ms = wrap(m_)
        if nl is None:
            sh, ms = sh[0], ms[0]
        elif form == "scalar":
            sh, ms = sh * nl, ms * nl
        w = secondary(B, d, o, nl, sh, ms, rho)
        if fld == "total":
            w = [a + b for a, b in zip(w, primary(d, o))]
        h = rho2 if fld != "total" else rho2
        return Eq("magnetic_field", B.call(ob, "magnetic_field", *args), Want(("#fr", "#loc", 3), [MOM / (4 * PI) * q for q in w], scale=T.absv(MOM) / (rho2 * rho), squeeze=True))
    return scen


HINT = dict(R.HINTS)
HINT.update({"epl*": lambda r: complex(8.9e-12 * r.uniform(1, 30), r.choice([0.0, 1e-11])), "lloc.2": lambda r: r.choice([0.0, r.uniform(0, 3)]), "d.2": lambda r: r.choice([0.0, r.uniform(0, 2)]), "rf*": lambda r: 10 ** r.uniform(1, 5)})
# close together and far apart, over a magnetic earth
SPEC = [{"d.0": [a * 3, a * 2, -a], "d.1": [-a * 2, a, a], "d.2": [a, 0.0, a * 2], "lloc.2": a, "mul": [6e-6] * 30, "mul.0": 6e-6, "sg": [0.3] * 30} for a in (1.7e-6, 1.3e-4, 210.0)]
CASES = []
for how, form, qs, fld, n in (("vec", "layer", 0, None, None), ("vec", "full", 0, "total", None), ("X", "scalar", 1, "secondary", None), ("y", "full", 1, "total", None), ("Z", "layer", 0, "secondary", None),
                              ("vec", "scalar", 0, "total", 1), ("vec", "full", 1, None, 1)):
    CASES.append(Case("fdem.layered.%s.%s%s.%s.%s" % (how, form, ".qs" if qs else "", fld, n or "n"), [P + ".magnetic_field"], scen(how, form, bool(qs), fld, n), hints=HINT, tol=1e-8, contracts=CON, leads=[(1,), (2,), (3,)], samples=4, ext=True, defined=False, specials=SPEC))


def bad(which):
    def scen(B):
        loc = B.array("lloc", (3,), signs={2: "nonneg"})
        x = B.array("xr", (2, 3))
        fr = B.array("rf", ("#fr",), sign="pos")
        if which == "receiver":
            B.assume(T.lt(T.sym("xr.1.2"), T.ZERO))
            ob = B.new(P, frequency=fr, thickness=None, location=loc)
            return Holds("receiver below the surface is rejected", B.raises(lambda: B.call(ob, "magnetic_field", x)) is ValueError)
        deep = B.array("deep", (3,), signs={2: "neg"})
        if which == "moved":
            ob = B.new(P, frequency=fr, thickness=None)
            y = B.array("yr", (2, 3), signs={})
            B.assume(T.le(T.ZERO, T.sym("yr.0.2")))
            B.assume(T.le(T.ZERO, T.sym("yr.1.2")))

            def go():
                B.set(ob, "location", deep)
                B.call(ob, "magnetic_field", y)
            return Holds("source moved below the surface is rejected", B.raises(go) is ValueError)
        return Holds("source below the surface is rejected", B.raises(lambda: B.new(P, frequency=fr, thickness=None, location=deep)) is ValueError)
    return scen


for w in ("receiver", "source", "moved"):
    CASES.append(Case("fdem.layered.rejects.%s" % w, [P + ".magnetic_field" if w == "receiver" else P + ".__init__"], bad(w), hints=dict(HINT, **{"xr.1.2": lambda r: -r.uniform(0.01, 2)}), modes=("fresh",), leads=[(1,), (2,), (3,)], samples=3, ext=True))


def sh(B):
    """sigma_hat has one row per layer and one column per frequency"""
    n = 3
    fr = B.array("rf", ("#fr",), sign="pos")
    sg = B.array("sg", (n,), kind="complex")
    for i in range(n):
        B.assume(T.lt(T.ZERO, T.fn("re", T.sym("sg.%d" % i, "complex"))))
        B.assume(T.le(T.ZERO, T.fn("im", T.sym("sg.%d" % i, "complex"))))
    ob = B.new(P, frequency=fr, thickness=B.array("th", (n - 1,), sign="pos"), sigma=sg)
    e0 = T.sym("epsilon_0", "real", "pos")
    return Eq("sigma_hat", B.get(ob, "sigma_hat"), Want((n, "#fr"), [T.sym("sg.%d" % i, "complex") + I * 2 * PI * R.FR * e0 for i in range(n)]))


CASES.append(Case("fdem.layered.sigma_hat", [P + ".sigma_hat"], sh, hints=HINT, modes=("fresh",), leads=[(2,), (5,)], samples=4, ext=True))


# ---- consequences of the contract
def gen():
    """the secondary field of each mode exp(-lam z) J_n(lam rho) is the gradient of a
    harmonic potential; J0' = -lam J1, J1' = lam J0 - J1/rho"""
    lam, rho, z = T.sym("lamb", "real", "pos"), T.sym("rhor", "real", "pos"), T.sym("zz")
    J0, J1 = T.sym("J0"), T.sym("J1")
    d, o = D(), V("o")
    E_ = exp(-lam * z)
    rr = rho
    s2 = lambda e: e

    def dx(f, i):
        if i == 2:
            return T.diff(f, z)
        return T.diff(f, d[i]) + d[i] / rho * (T.diff(f, rho) - lam * J1 * T.diff(f, J0) + (lam * J0 - J1 / rho) * T.diff(f, J1))
    w = weights(d, o, lam, rho)
    H = [(c0 * J0 + c1 * J1) * E_ for c0, c1 in w]
    pot = (o[2] * lam * J0 - (o[0] * d[0] + o[1] * d[1]) / rho * lam * J1) * E_
    on = {d[0]: T.sym("cph") * rho, d[1]: T.sym("sph") * rho}
    for i in range(3):
        yield "secondary field is minus a gradient [%d]" % i, H[i], -dx(pot, i)
    lap = dx(dx(pot, 0), 0) + dx(dx(pot, 1), 1) + dx(dx(pot, 2), 2)
    rel = T.diff(pot, z) * 0
    # with rho^2 = x^2 + y^2
    r2 = T.sqrt(d[0] ** 2 + d[1] ** 2)
    yield "potential is harmonic", T.subst(lap, {rho: r2}), T.ZERO, [T.lt(T.ZERO, d[0] ** 2 + d[1] ** 2)]
    hx = weights(d, [T.ONE, T.ZERO, T.ZERO], lam, rho)
    hy = weights(d, [T.ZERO, T.ONE, T.ZERO], lam, rho)
    hz = weights(d, [T.ZERO, T.ZERO, T.ONE], lam, rho)
    for k in range(2):
        yield "reciprocity x/z", hx[2][k], -hz[0][k]
        yield "reciprocity y/z", hy[2][k], -hz[1][k]
        yield "reciprocity x/y", hx[1][k], hy[0][k]
        for i in range(3):
            yield "linear in the moment [%d]" % i, w[i][k], o[0] * hx[i][k] + o[1] * hy[i][k] + o[2] * hz[i][k]


LEM = [Lemma("layered dipole lemmas", gen)]
