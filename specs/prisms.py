"""Contracts of the rectangular prisms (gravity, magnetics)."""
from engine import terms as T
from engine.harness import Case, Eq, Want, Holds, Lemma
from specs.lib import *
from specs import prism_kernels as PK

GP = "geoana.gravity.Prism"
MP = "geoana.em.static.MagneticPrism"
PMIN, SZ, Q, M = V("pmin"), V("sz"), V("q"), V("mag")
RHO = T.sym("dens")
for _s in ("pmin", "q", "mag"):
    for _i in range(3):
        T.sym("%s.%d" % (_s, _i))
for _i in range(3):
    T.sym("sz.%d" % _i, "real", "pos")


def corners():
    """(sign, [x, y, z]) of the eight corners relative to the observation point"""
    for i in (0, 1):
        for j in (0, 1):
            for k in (0, 1):
                c = [PMIN[a] - Q[a] + (SZ[a] if b else T.ZERO) for a, b in enumerate((i, j, k))]
                yield (-1) ** (i + j + k + 1), c


def csum(kern, axes=(0, 1, 2)):
    r = T.ZERO
    for s, c in corners():
        r = r + s * PK.CANON[kern](*[c[a] for a in axes])
    return r


def cabs(kern, axes=(0, 1, 2)):
    r = T.ZERO
    for s, c in corners():
        r = r + T.absv(PK.CANON[kern](*[c[a] for a in axes]))
    return r


OTH = {0: (1, 2), 1: (2, 0), 2: (0, 1)}


def d1(i, how=csum):
    a, b = OTH[i]
    return how("fz", (a, b, i))


def d2(i, j, how=csum):
    if i == j:
        a, b = OTH[i]
        return how("fzz", (a, b, i))
    m = 3 - i - j
    return how("fzx", (i, m, j))        # depends on the remaining axis and r only


def d3(i, j, k, how=csum):
    s = sorted((i, j, k))
    if s == [0, 1, 2]:
        return how("fxyz")
    if s[0] == s[2]:
        a, b = OTH[i]
        return how("fzzz", (a, b, i))
    ii = s[1]
    jj = s[0] if s[2] == ii else s[2]
    return how("fxxy", (ii, jj, 3 - ii - jj))


def g_pot():
    return Want(("p",), -G * RHO * csum("f"), scale=G * T.absv(RHO) * cabs("f"))


def vec_scale(*ts):
    r = T.ZERO
    for t in ts:
        r = r + t
    return r


def g_field():
    return Want(("p", 3), [-G * RHO * d1(i) for i in range(3)], scale=G * T.absv(RHO) * vec_scale(*[d1(i, cabs) for i in range(3)]))


def g_grad():
    return Want(("p", 3, 3), [[-G * RHO * d2(i, j) for j in range(3)] for i in range(3)],
                scale=G * T.absv(RHO) * vec_scale(*[d2(i, j, cabs) for i in range(3) for j in range(3)]))


MS = T.absv(M[0]) + T.absv(M[1]) + T.absv(M[2])


def m_pot():
    return Want(("p",), -sum((d1(i) * M[i] for i in range(3)), T.ZERO) / (4 * PI), scale=MS * vec_scale(*[d1(i, cabs) for i in range(3)]))


def hfield():
    return [-sum((d2(i, j) * M[j] for j in range(3)), T.ZERO) / (4 * PI) for i in range(3)]


HS = MS * vec_scale(*[d2(i, j, cabs) for i in range(3) for j in range(3)])


def m_h():
    return Want(("p", 3), hfield(), scale=HS)


def inside():
    return T.land(*[T.land(T.le(PMIN[a], Q[a]), T.le(Q[a], PMIN[a] + SZ[a])) for a in range(3)])


def m_b():
    h = hfield()
    return Want(("p", 3), [MU0 * (h[i] + T.ite(inside(), M[i], T.ZERO)) for i in range(3)], scale=MU0 * HS)


def m_grad():
    return Want(("p", 3, 3), [[-sum((d3(i, j, k) * M[k] for k in range(3)), T.ZERO) / (4 * PI) for j in range(3)] for i in range(3)],
                scale=MS * vec_scale(*[d3(i, j, k, cabs) for i in range(3) for j in range(3) for k in range(3)]))


def shape(B):
    pmin = B.vec("pmin")
    sz = B.vec("sz", sign="pos")
    pmax = B.offset(pmin, sz, "pmax", dname="sz")
    return pmin, pmax


PRIME = dict(min_location=[0.0, 0.0, 0.0], max_location=[1.0, 2.0, 3.0])


def prime1(B, kw):
    return dict(min_location=B.shifted(kw["min_location"], -1), max_location=B.shifted(kw["max_location"], 1))


def mk(cls, meth, spec):
    def scen(B):
        pmin, pmax = shape(B)
        kw = dict(min_location=pmin, max_location=pmax)
        if cls is GP:
            kw["rho"] = B.scalar("dens")
        else:
            kw["magnetization"] = B.vec("mag")
        q = B.array("q", ("p", 3))
        o = B.build(cls, kw, warm=lambda o: B.call(o, meth, q), prime=PRIME, prime1=prime1(B, kw))
        return Eq(meth, B.call(o, meth, q), spec())
    return scen


# outside, inside, faces, edges, corners of the box [0,2]x[0,3]x[-1,1], lines through edges
PTS = [(5, 4, 3), (1, 1, 0), (0, 1, 0.5), (2, 1, 0.5), (1, 0, 0.25), (1, 3, 0.25), (1, 1, -1), (1, 2, 1), (0, 0, 0.5), (2, 3, 0.25), (1, 0, 1), (0, 0, -1), (2, 3, 1), (0, 0, 4), (0, -2, -1), (-3, 0, 1), (2, 3, -5)]
SP = []
for i in range(0, len(PTS), 6):
    ch = PTS[i:i + 6]
    SP.append({"pmin.0": 0.0, "pmin.1": 0.0, "pmin.2": -1.0, "sz.0": 2.0, "sz.1": 3.0, "sz.2": 2.0,
               "q.0": [float(p[0]) for p in ch], "q.1": [float(p[1]) for p in ch], "q.2": [float(p[2]) for p in ch]})
SP = SP + [SP[0], SP[1]]
LEADS_ = [(6,), (6,), (6,), (2, 3), (), (1,)]
GRAV, MAGN = [], []
for m, s in (("gravitational_potential", g_pot), ("gravitational_field", g_field), ("gravitational_gradient", g_grad)):
    for nm, fail, ext in (("python", ("geoana.kernels._extensions.potential_field_prism",), False), ("compiled", (), True)):
        GRAV.append(Case("Prism.%s.%s" % (m, nm), [GP + "." + m, "geoana.shapes.BasePrism._eval_def_int"], mk(GP, m, s), contracts=PK.CONTRACTS, specials=SP, leads=LEADS_,
                         ext=ext, interp_kw=dict(import_fail=fail), modes=("fresh", "set", "int") if ext else ("fresh",)))
for m, s in (("scalar_potential", m_pot), ("magnetic_field", m_h), ("magnetic_flux_density", m_b), ("magnetic_field_gradient", m_grad)):
    for nm, fail, ext in (("python", ("geoana.kernels._extensions.potential_field_prism",), False), ("compiled", (), True)):
        MAGN.append(Case("MagneticPrism.%s.%s" % (m, nm), [MP + "." + m, "geoana.shapes.BasePrism._eval_def_int"], mk(MP, m, s), contracts=PK.CONTRACTS, specials=SP, leads=LEADS_,
                         ext=ext, interp_kw=dict(import_fail=fail), modes=("fresh", "set", "int") if ext else ("fresh",)))


def attrs(cls):
    def scen(B):
        pmin, pmax = shape(B)
        kw = dict(min_location=pmin, max_location=pmax)
        if cls is GP:
            kw["rho"] = B.scalar("dens")
        else:
            kw["magnetization"] = B.vec("mag")
        extra = "mass" if cls is GP else "moment"
        o = B.build(cls, kw, warm=lambda o: [B.get(o, "volume"), B.get(o, "location"), B.get(o, extra)], prime=PRIME, prime1=prime1(B, kw))
        vol = SZ[0] * SZ[1] * SZ[2]
        out = [Eq("volume", B.get(o, "volume"), Want((), vol)),
               Eq("location", B.get(o, "location"), Want((3,), [PMIN[i] + SZ[i] / 2 for i in range(3)], scale="vec")),
               Eq("min_location", B.get(o, "min_location"), Want((3,), PMIN)),
               Eq("max_location", B.get(o, "max_location"), Want((3,), [PMIN[i] + SZ[i] for i in range(3)], scale="vec"))]
        if cls is GP:
            out.append(Eq("mass", B.get(o, "mass"), Want((), vol * RHO)))
            out.append(Eq("rho", B.get(o, "rho"), Want((), RHO)))
        else:
            out.append(Eq("moment", B.get(o, "moment"), Want((3,), [vol * M[i] for i in range(3)])))
            out.append(Eq("magnetization", B.get(o, "magnetization"), Want((3,), M)))
        return out
    return scen


def degenerate(cls, ax):
    """max <= min along any axis is rejected"""
    def scen(B):
        pmin, pmax = shape(B)
        gap = B.scalar("gap", "nonneg")
        if B.symbolic:
            pmax.data[ax] = pmin.data[ax] - gap
        else:
            pmax = pmax.copy()
            pmax[ax] = pmin[ax] - gap
        return Holds("rejected", B.raises(lambda: B.new(cls, pmin, pmax)) is ValueError)
    return scen


def default_mag(B):
    pmin, pmax = shape(B)
    o = B.new(MP, pmin, pmax)
    r = B.new(GP, pmin, pmax)
    return [Eq("default magnetization", B.get(o, "magnetization"), Want((3,), [T.ZERO, T.ZERO, T.ONE])), Eq("default rho", B.get(r, "rho"), Want((), T.ONE))]


for cls, L in ((GP, GRAV), (MP, MAGN)):
    n = cls.rsplit(".", 1)[1]
    L.append(Case(n + ".attributes", [cls, "geoana.shapes.BasePrism.volume", "geoana.shapes.BasePrism.location"], attrs(cls), modes=("fresh", "set")))
    for ax in range(3):
        L.append(Case("%s.degenerate.%d" % (n, ax), ["geoana.shapes.BasePrism.__init__"], degenerate(cls, ax), modes=("fresh", "int", "mixed"), samples=3, specials=[{"gap": 0.0}]))
    L.append(Case(n + ".defaults", [cls + ".__init__"], default_mag, modes=("fresh", "int", "mixed"), samples=2))
CASES = GRAV + MAGN


def gen_corner():
    """terms that miss one coordinate cancel over the corners"""
    for miss in range(3):
        keep = [a for a in range(3) if a != miss]
        r = T.ZERO
        for s, c in corners():
            r = r + s * T.fn("g2", *[c[a] for a in keep])
        yield "free of %s" % "xyz"[miss], r, T.ZERO, []


LEM = [Lemma("corner cancellation", gen_corner)]
