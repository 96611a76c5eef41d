"""Scalar quantities of the frequency- and time-domain bases."""
from engine import terms as T
from engine.harness import Case, Eq, Want, Holds, Lemma
from specs.lib import *
from specs.fdem_whole import wav, om, EP

SIG, MU = T.sym("sig", "real", "pos"), T.sym("mu", "real", "pos")
FP, TP, Z = T.sym("fp", "real", "pos"), T.sym("t", "real", "pos"), T.sym("z")
EPP = T.sym("epp", "real", "pos")
HINT = {"sig": lambda r: 10 ** r.uniform(-1, 1), "mu": lambda r: 10 ** r.uniform(-1, 1), "eps": lambda r: 10 ** r.uniform(-2, 0.5), "f": lambda r: 10 ** r.uniform(-2, 0), "fp": lambda r: 10 ** r.uniform(-2, 0),
        "t": lambda r: 10 ** r.uniform(-1, 1), "epp": lambda r: 10 ** r.uniform(-2, 0.5)}


def w_(f):
    return 2 * PI * f


def k_(f, qs, ep=EP, mu=MU):
    return T.sqrt(-I * w_(f) * mu * SIG) if qs else T.sqrt(w_(f) ** 2 * mu * ep - I * w_(f) * mu * SIG)


def sk(f, qs, ep, mu=MU):
    w = w_(f)
    if qs:
        return T.sqrt(2 / (w * SIG * mu))
    return T.sqrt(mu * ep / 2 * (T.sqrt(1 + SIG ** 2 / (w * ep) ** 2) - 1)) / w


def sh(f, qs, ep=EP):
    return SIG if qs else SIG + I * w_(f) * ep


def fdem(prop, qs, arr):
    pos = prop == "skin_depth"

    def scen(B):
        f, ep = ("fp", "epp") if pos else ("f", "eps")
        sg = "pos" if pos else "nonneg"
        kw = dict(sigma=B.scalar("sig", "pos"), mu=B.scalar("mu", "pos"), epsilon=B.scalar(ep, sg),
                  frequency=B.array(f, ("#f",), sign=sg) if arr else B.scalar(f, sg), quasistatic=qs)
        ob = B.build("geoana.em.fdem.BaseFDEM", kw, warm=lambda ob: B.get(ob, prop))
        f, ep = S(f), S(ep)
        w = {"omega": w_(f), "wavenumber": k_(f, qs), "skin_depth": sk(f, qs, ep), "sigma_hat": sh(f, qs)}[prop]
        got = B.get(ob, prop)
        shp = ("#f",) if arr and not (prop == "sigma_hat" and qs) else ()
        return Eq(prop, got, Want(shp, w))
    return scen


def fn(name, qs, arr, default):
    pos = name == "skin_depth"

    def scen(B):
        f, ep = ("fp", "epp") if pos else ("f", "eps")
        sg = "pos" if pos else "nonneg"
        fr = B.array(f, ("p",), sign=sg) if arr else B.scalar(f, sg)
        f = S(f)
        if name == "omega":
            return Eq(name, B.fn("geoana.em.fdem.omega", fr), Want(("p",) if arr else (), w_(f)))
        kw = {}
        mu, e = MU0, EPS0
        if not default:
            if name != "sigma_hat":
                kw["mu"] = B.scalar("mu", "pos")
                mu = MU
            kw["epsilon"] = B.scalar(ep, sg)
            e = S(ep)
        kw["quasistatic"] = qs
        got = B.fn("geoana.em.fdem." + name, fr, B.scalar("sig", "pos"), **kw)
        w = {"wavenumber": k_(f, qs, e, mu), "skin_depth": sk(f, qs, e, mu), "sigma_hat": sh(f, qs, e)}[name]
        return Eq(name, got, Want(("p",) if arr and not (name == "sigma_hat" and qs) else (), w))
    return scen


CASES = []
for prop in ("omega", "wavenumber", "skin_depth", "sigma_hat"):
    for qs in (False, True):
        for arr in (False, True):
            CASES.append(Case("BaseFDEM.%s%s%s" % (prop, ".qs" if qs else "", ".arr" if arr else ""), ["geoana.em.fdem.BaseFDEM." + prop], fdem(prop, qs, arr), hints=HINT,
                              specials=[{"f": [0.0, 1.0, 2.0]}] if arr else []))
            for default in (False, True):
                if prop == "omega" and (qs or default):
                    continue
                CASES.append(Case("fdem.%s%s%s%s" % (prop, ".qs" if qs else "", ".arr" if arr else "", ".default" if default else ""), ["geoana.em.fdem." + prop], fn(prop, qs, arr, default), hints=HINT, modes=("fresh",)))


def tdem(prop, arr):
    def scen(B):
        kw = dict(sigma=B.scalar("sig", "pos"), mu=B.scalar("mu", "pos"), time=B.array("t", ("#f",), sign="pos") if arr else B.scalar("t", "pos"))
        if prop == "peak_time":
            z = B.array("z", ("p",))
            ob = B.build("geoana.em.tdem.BaseTDEM", kw, warm=lambda ob: B.call(ob, prop, z))
            return Eq(prop, B.call(ob, prop, z), Want(("p",), MU * SIG * Z ** 2 / 6))
        ob = B.build("geoana.em.tdem.BaseTDEM", kw, warm=lambda ob: B.get(ob, prop))
        w = {"diffusion_distance": T.sqrt(2 * TP / (MU * SIG)), "theta": T.sqrt(MU * SIG / (4 * TP))}[prop]
        return Eq(prop, B.get(ob, prop), Want(("#f",) if arr else (), w))
    return scen


def tfn(name, arr, default):
    def scen(B):
        mu = MU0 if default else MU
        kw = {} if default else {"mu": B.scalar("mu", "pos")}
        sig = B.scalar("sig", "pos")
        ax = ("p",) if arr else ()
        if name == "peak_time":
            z = B.array("z", ("p",)) if arr else B.scalar("z")
            return Eq(name, B.fn("geoana.em.tdem.peak_time", z, sig, **kw), Want(ax, mu * SIG * Z ** 2 / 6))
        t = B.array("t", ("p",), sign="pos") if arr else B.scalar("t", "pos")
        w = {"diffusion_distance": T.sqrt(2 * TP / (mu * SIG)), "theta": T.sqrt(mu * SIG / (4 * TP))}[name]
        return Eq(name, B.fn("geoana.em.tdem." + name, t, sig, **kw), Want(ax, w))
    return scen


for prop in ("peak_time", "diffusion_distance", "theta"):
    for arr in (False, True):
        CASES.append(Case("BaseTDEM.%s%s" % (prop, ".arr" if arr else ""), ["geoana.em.tdem.BaseTDEM." + prop], tdem(prop, arr), hints=HINT))
        for de in (False, True):
            CASES.append(Case("tdem.%s%s%s" % (prop, ".arr" if arr else "", ".default" if de else ""), ["geoana.em.tdem." + prop], tfn(prop, arr, de), hints=HINT, modes=("fresh",)))


# rho <-> sigma
def rho(order):
    def scen(B):
        s, r = B.scalar("sig", "pos"), B.scalar("rh", "pos")
        ob = B.new("geoana.em.base.BaseEM", sigma=s)
        out = [Eq("rho = 1/sigma", B.get(ob, "rho"), Want((), 1 / SIG))]
        B.set(ob, "rho", r)
        R = T.sym("rh", "real", "pos")
        return out + [Eq("sigma after rho", B.get(ob, "sigma"), Want((), 1 / R)), Eq("rho", B.get(ob, "rho"), Want((), R))]
    return scen


CASES.append(Case("BaseEM.rho", ["geoana.em.base.BaseEM.rho"], rho(0), modes=("fresh",)))


def _decay(B):
    """a plane wave decays by 1/e over one skin depth: delta = -1/Im(k)"""
    got = B.fn("geoana.em.fdem.skin_depth", B.scalar("fp", "pos"), B.scalar("sig", "pos"), mu=B.scalar("mu", "pos"), epsilon=B.scalar("epp", "pos"), quasistatic=False)
    w = w_(FP)
    return Eq("decay", got, Want((), 1 / (w * T.sqrt(MU * EPP / 2 * (T.sqrt(1 + SIG ** 2 / (w * EPP) ** 2) - 1)))))


CASES.append(Case("fdem.skin_depth.decay", ["geoana.em.fdem.skin_depth"], _decay, modes=("fresh",), hints=HINT))


def gen():
    w = w_(FP)
    k = T.sqrt(w ** 2 * MU * EPP - I * w * MU * SIG)
    yield "k^2 = -i w mu sigma_hat", k ** 2, -I * w * MU * (SIG + I * w * EPP), []
    yield "theta * diffusion distance = sqrt(1/2)", T.sqrt(MU * SIG / (4 * TP)) ** 2 * T.sqrt(2 * TP / (MU * SIG)) ** 2, T.num(1) / 2, []
    yield "quasistatic |k|^2 delta^2 = 2", (w * MU * SIG) * sk(FP, True, EPP) ** 2, T.num(2), []
    zz = T.sqrt(6 * TP / (MU * SIG))
    yield "peak time inverse", MU * SIG * zz ** 2 / 6, TP, []


LEM = [Lemma("scalar quantities", gen)]
