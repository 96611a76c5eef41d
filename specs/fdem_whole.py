"""Contracts of the frequency-domain whole-space sources."""
from engine import terms as T
from engine.harness import Case, Eq, Want, Holds, Lemma
from specs.lib import *
from specs import contracts as K

P = "geoana.em.fdem."
SIG, MU, EP = T.sym("sig", "real", "pos"), T.sym("mu", "real", "pos"), T.sym("eps", "real", "nonneg")
CUR, LEN, MOM = T.sym("cur"), T.sym("len", "real", "pos"), T.sym("m")
FRE = T.sym("f", "real", "nonneg")
for _s in ("d.0", "d.1", "d.2", "o.0", "o.1", "o.2"):
    T.sym(_s)
exp = T.exp
AX = {"X": (1, 0, 0), "y": (0, 1, 0), "Z": (0, 0, 1)}
HINT = {"sig": lambda r: 10 ** r.uniform(-1, 1), "mu": lambda r: 10 ** r.uniform(-1, 1), "eps": lambda r: 10 ** r.uniform(-2, 0.5), "f": lambda r: 10 ** r.uniform(-2, 0)}


def om(f=FRE):
    return 2 * PI * f


def wav(qs, f=FRE):
    w = om(f)
    return T.sqrt(-I * w * MU * SIG) if qs else T.sqrt(w ** 2 * MU * EP - I * w * MU * SIG)


def _sym(d, o, k):
    r = RR(d)
    kr = k * r
    ikr = I * kr
    rh = [x / r for x in d]
    c = dot(rh, o)
    return [exp(-ikr) / (4 * PI * r ** 3) * (c * (-kr ** 2 + 3 * ikr + 3) * rh[i] + (kr ** 2 - ikr - 1) * o[i]) for i in range(3)]


def _crs(d, o, k):
    r = RR(d)
    ikr = I * k * r
    c = cross(o, d)
    return [(ikr + 1) * exp(-ikr) / (4 * PI * r ** 3) * c[i] for i in range(3)]


def _pot(d, o, k):
    r = RR(d)
    return [exp(-I * k * r) / (4 * PI * r) * o[i] for i in range(3)]


def sc(a, v):
    return [a * x for x in v]


IDL = CUR * LEN
IWM = I * om() * MU * MOM
ED = {"vector_potential": lambda d, o, k: sc(IDL, _pot(d, o, k)),
      "electric_field": lambda d, o, k: sc(IDL / SIG, _sym(d, o, k)),
      "current_density": lambda d, o, k: sc(IDL, _sym(d, o, k)),
      "magnetic_field": lambda d, o, k: sc(IDL, _crs(d, o, k)),
      "magnetic_flux_density": lambda d, o, k: sc(MU * IDL, _crs(d, o, k))}
MD = {"vector_potential": lambda d, o, k: sc(IWM, _pot(d, o, k)),
      "electric_field": lambda d, o, k: sc(-IWM, _crs(d, o, k)),
      "current_density": lambda d, o, k: sc(-SIG * IWM, _crs(d, o, k)),
      "magnetic_field": lambda d, o, k: sc(MOM, _sym(d, o, k)),
      "magnetic_flux_density": lambda d, o, k: sc(MU * MOM, _sym(d, o, k))}


def freq(B, arr):
    return B.array("f", ("#f",), sign="nonneg") if arr else B.scalar("f", "nonneg")


def dip(cls, meth, spec, how, arr, qs):
    def scen(B):
        kw = dict(sigma=B.scalar("sig", "pos"), mu=B.scalar("mu", "pos"), epsilon=B.scalar("eps", "nonneg"), frequency=freq(B, arr), quasistatic=qs)
        if cls == "ElectricDipoleWholeSpace":
            kw.update(current=B.scalar("cur"), length=B.scalar("len", "pos"))
        else:
            kw.update(moment=B.scalar("m"))
        loc = B.vec("loc")
        if how == "vec":
            oa, o = B.unit("o", B.scalar("k", "pos")), V("o")
        else:
            oa, o = how, [T.num(x) for x in AX[how]]
        d = D()
        x = B.offset(loc, B.array("d", ("p", 3)))
        B.assume(T.lt(T.ZERO, R2(d)))
        ob = B.build(P + cls, dict(kw, location=loc, orientation=oa), warm=lambda ob: B.call(ob, meth, x))
        return Eq(meth, B.call(ob, meth, x), Want((("#f",) if arr else ()) + ("p", 3), spec(d, o, wav(qs)), scale="vec"))
    return scen


CASES = []
for cls, tab in (("ElectricDipoleWholeSpace", ED), ("MagneticDipoleWholeSpace", MD)):
    for meth, sp in tab.items():
        for how, arr, qs in (("vec", False, False), ("vec", True, False), ("vec", True, True), ("X", False, True), ("y", True, False), ("Z", False, False)):
            CASES.append(Case("fdem.%s.%s.%s%s%s" % (cls, meth, how, ".farr" if arr else "", ".qs" if qs else ""), [P + cls + "." + meth], dip(cls, meth, sp, how, arr, qs), contracts=K.ND, hints=HINT, specials=[{"f": [0.0, 1.0, 0.1]}] if arr else []))
# full Ampere-Maxwell law with displacement current (not satisfied: known finding)
CASES.append(Case("fdem.ElectricDipoleWholeSpace.ampere-maxwell", [P + "ElectricDipoleWholeSpace.electric_field"],
                  dip("ElectricDipoleWholeSpace", "electric_field", lambda d, o, k: sc(IDL / (SIG + I * om() * EP), _sym(d, o, k)), "vec", False, False), contracts=K.ND, hints=HINT))


def gen():
    d, o = D(), V("o")
    pc = [T.lt(T.ZERO, R2(d))]
    k = T.sym("kk", "complex")
    s = T.sym("s", "complex")
    G_, C_, S_ = _pot(d, o, k), _crs(d, o, k), _sym(d, o, k)
    cg, cc = curl(G_, d), curl(C_, d)
    for i in range(3):
        yield "curl (g o) [%d]" % i, cg[i], C_[i], pc
        yield "curl curl (g o) [%d]" % i, cc[i], S_[i], pc
        yield "Helmholtz [%d]" % i, lap(G_[i], d) + k ** 2 * G_[i], T.ZERO, pc
        yield "curl of the symmetric field = k^2 * cross field [%d]" % i, curl(S_, d)[i], k ** 2 * C_[i], pc
    yield "div of the symmetric field", div(S_, d), T.ZERO, pc
    yield "div of the cross field", div(C_, d), T.ZERO, pc
    # electric dipole: J = curl H exactly; Faraday's law curl E = -i w mu H when k^2 = -i w mu sigma
    for i in range(3):
        e, h = ED["electric_field"](d, o, k), ED["magnetic_field"](d, o, k)
        yield "electric dipole: curl H = sigma E [%d]" % i, curl(h, d)[i], SIG * e[i], pc
        kq = wav(True)
        yield "electric dipole, quasistatic: curl E = -i w mu H [%d]" % i, curl(ED["electric_field"](d, o, kq), d)[i], -I * om() * MU * ED["magnetic_field"](d, o, kq)[i], pc
        for qs in (False, True):
            kk = wav(qs)
            em, hm = MD["electric_field"](d, o, kk), MD["magnetic_field"](d, o, kk)
            yield "magnetic dipole: curl E = -i w mu H [%d] %s" % (i, qs), curl(em, d)[i], -I * om() * MU * hm[i], pc
            sh = SIG if qs else SIG + I * om() * EP
            yield "magnetic dipole: curl H = (sigma + i w eps) E [%d] %s" % (i, qs), curl(hm, d)[i], sh * em[i], pc
            yield "magnetic dipole: E = -curl F [%d] %s" % (i, qs), -curl(MD["vector_potential"](d, o, kk), d)[i], em[i], pc


LEM = [Lemma("harmonic dipole lemmas", gen)]
