"""Contracts of the polyline current."""
from engine import terms as T
from engine.arrays import Dim, SHIFT
from engine.harness import Case, Eq, Want, Holds, Lemma
from specs.lib import *
from specs import contracts as K, prism_kernels as PK

P = "geoana.em.static.LineCurrentWholeSpace"
MU, SIG, LEN = T.sym("mu", "real", "pos"), T.sym("sig", "real", "pos"), T.sym("len", "real", "pos")
CUR = T.sym("cur")
for _n in ("p", "d", "q"):
    for _i in range(3):
        T.sym("%s.%d" % (_n, _i))
NSEG = T.sym("#seg", "int", "pos")


# ---- one segment, in the frame (a, b, o) attached to it; o along the current
def a_seg(d, l, o):
    c = PK.CANON["fzy"](d[2] - l, d[0], d[1]) - PK.CANON["fzy"](d[2], d[0], d[1])
    return [MU * CUR / (4 * PI) * c * x for x in o]


def b_seg(d, l, a, b):
    rho2 = d[0] * d[0] + d[1] * d[1]
    r0, r1 = RR(d), RR([d[0], d[1], d[2] - l])
    c = T.ite(T.lt(T.ZERO, rho2), (d[2] / r0 - (d[2] - l) / r1) / rho2, T.ZERO)
    return [MU * CUR / (4 * PI) * c * (d[0] * b[i] - d[1] * a[i]) for i in range(3)]


def off_wire(d, l):
    """not on the closed segment"""
    rho2 = d[0] * d[0] + d[1] * d[1]
    return T.lor(T.lt(T.ZERO, rho2), T.lt(d[2], T.ZERO), T.lt(l, d[2]))


# ---- the same from the nodes (concrete polylines)
def loc(p0, p1, q):
    lv = [p1[i] - p0[i] for i in range(3)]
    l = T.sqrt(R2(lv))
    o = [x / l for x in lv]
    r = [q[i] - p0[i] for i in range(3)]
    return lv, l, o, r, dot(r, o)


def a_plain(p0, p1, q):
    lv, l, o, r, s = loc(p0, p1, q)
    r1 = [q[i] - p1[i] for i in range(3)]
    R0, R1 = T.sqrt(R2(r)), T.sqrt(R2(r1))
    # log((R0 + R1 + l) / (R0 + R1 - l)): the classical closed form
    c = T.log((R0 + R1 + l) / (R0 + R1 - l))
    return [MU * CUR / (4 * PI) * c * x for x in o]


def b_plain(p0, p1, q):
    lv, l, o, r, s = loc(p0, p1, q)
    r1 = [q[i] - p1[i] for i in range(3)]
    R0, R1 = T.sqrt(R2(r)), T.sqrt(R2(r1))
    c = (R0 + R1) / (R0 * R1 * (R0 * R1 + dot(r, r1)))
    x = cross(lv, r)
    return [MU * CUR / (4 * PI) * c * t for t in x]


def nodes_of(n):
    return [[S("nd.%d.%d" % (i, k)) for k in range(3)] for i in range(n)]


def concrete(B):
    """a concrete polyline, possibly closed"""
    n = B.special.get("!n") or B.rng.choice([1, 2, 3, 4, 5])
    ends = [[B.env.get(T.sym("p.%d[%d]" % (k, e))) for k in range(3)] for e in (0, -1)]
    if any(x is not None for e in ends for x in e):
        # the verifier's counterexample names the first and the last node
        n = max(n, 2)
        for i, e in zip((0, n - 1), ends):
            for k in range(3):
                if e[k] is not None:
                    B.env[S("nd.%d.%d" % (i, k))] = e[k]
    nd = B.array("nd", (n, 3))
    closed = n > 2 and not B.special and not B.env and B.rng.random() < 0.3
    if closed:
        import numpy as np
        nd = np.array(nd)
        nd[-1] = nd[0]
        for k in range(3):
            B.vals[S("nd.%d.%d" % (n - 1, k))] = B.vals[S("nd.0.%d" % k)]
    q = B.array("q", ("p", 3))
    N = nodes_of(n)
    Qs = V("q")
    for i in range(n):
        B.assume(T.lt(T.ZERO, R2([Qs[k] - N[i][k] for k in range(3)])))
    return n, nd, q, N, Qs


def mk_mag(meth, seg, plain, fac):
    def scen(B):
        cur, mu = B.scalar("cur"), B.scalar("mu", "pos")
        if B.symbolic:
            _, fr = B.frame("f")
            l = B.scalar("len", "pos")
            p = B.array("p", ("#seg", 3))
            o = fr[2]
            SHIFT[("seg", 1)] = {p.data[k]: p.data[k] + l * o[k] for k in range(3)}
            B.inputs.pop  # the node after p is p + len * o
            d = B.array("d", ("p", 3))
            base = B.vec("base")
            for k in range(3):
                base.data[k] = p.data[k]
            q = B.inframe(base, d, fr, "q")
            B.assume(off_wire(D(), LEN))
            ob = B.build(P, dict(nodes=p, current=cur, mu=mu), warm=lambda ob: B.call(ob, meth, q), prime=dict(nodes=[[0.0, 0.0, 0.0], [0.0, 0.0, 1.0]]))
            got = B.call(ob, meth, q)
            v = seg(D(), LEN, *fr)
            return Eq(meth, got, Want(("p", 3), [fac(T.sumover(Dim("seg", -1), x)) for x in v]))
        n, nd, q, N, Qs = concrete(B)
        for i in range(n - 1):
            B.assume(T.lt(T.ZERO, R2([N[i + 1][k] - N[i][k] for k in range(3)])))
            # off the wire
            lv, rv = [N[i + 1][k] - N[i][k] for k in range(3)], [Qs[k] - N[i][k] for k in range(3)]
            B.assume(T.lor(T.lt(T.ZERO, R2(cross(lv, rv))), T.lt(dot(lv, rv), T.ZERO), T.lt(R2(lv), dot(lv, rv))))
        ob = B.build(P, dict(nodes=nd, current=cur, mu=mu), warm=lambda ob: B.call(ob, meth, q))
        got = B.call(ob, meth, q)
        v = [T.ZERO] * 3
        sc = T.ZERO
        for i in range(n - 1):
            w = plain(N[i], N[i + 1], Qs)
            v = [v[k] + fac(w[k]) for k in range(3)]
            sc = sc + T.absv(w[0]) + T.absv(w[1]) + T.absv(w[2])
        return Eq(meth, got, Want(("p", 3), v, scale=fac(sc)))
    return scen


idt = lambda x: x
SQ = [[-1.0, -1.0, 0.0], [1.0, -1.0, 0.0], [1.0, 1.0, 0.0], [-1.0, 1.0, 0.0], [-1.0, -1.0, 0.0]]
SP = [dict({"nd.%d.%d" % (i, k): SQ[i][k] for i in range(5) for k in range(3)},
           **{"q.0": [3.0, -1.0, 1.0, 0.0, 5.0], "q.1": [1.0, -4.0, 2.5, 0.0, -1.0], "q.2": [0.0, 0.0, 0.0, 0.0, 0.0], "cur": 2.0, "mu": 1.5, "!n": 5})] * 2         # collinear observers of a square loop
CASES = []
for m, sg, pl, fc in (("vector_potential", lambda d, l, a, b, o: a_seg(d, l, o), a_plain, idt),
                      ("magnetic_flux_density", lambda d, l, a, b, o: b_seg(d, l, a, b), b_plain, idt),
                      ("magnetic_field", lambda d, l, a, b, o: b_seg(d, l, a, b), b_plain, lambda x: x / MU)):
    c = dict(K.ROT)
    c.update(PK.CONTRACTS)
    CASES.append(Case("LineCurrent." + m, [P + "." + m], mk_mag(m, sg, pl, fc), contracts=c, leads=[(5,), (5,), (2, 3), (), (1,)], samples=12, thorough_samples=120, tol=1e-6, specials=SP))


def mk_few(meth, seg, fac, n):
    """one or two (collinear) segments with everything else symbolic: unlike in
    the case of any number of segments, the body may branch on the geometry"""
    def scen(B):
        cur, mu = B.scalar("cur"), B.scalar("mu", "pos")
        _, fr = B.frame("f")
        ls = [B.scalar("len", "pos")] + ([B.scalar("len2", "pos")] if n == 2 else [])
        base = B.vec("base")
        ds = [D(), [S("d.0"), S("d.1"), S("d.2") - LEN]]
        Ls = [LEN, T.sym("len2", "real", "pos")]
        d = B.array("d", ("p", 3))
        q = B.inframe(base, d, fr, "q")
        rows, off = [], [0]
        for x in ls:
            off.append(off[-1] + x)
        if B.symbolic:
            nd = [[S("base.%d" % k) + off[i] * fr[2][k] for k in range(3)] for i in range(n + 1)]
        else:
            import numpy as np
            o = np.array([float(x) for x in fr[2]])
            nd = np.array([np.asarray(base) + off[i] * o for i in range(n + 1)])
        for i in range(n):
            B.assume(off_wire(ds[i], Ls[i]))
            if not B.symbolic:
                # rounding of the node coordinates must not matter
                B.assume(T.lt(T.num(1e-3), ds[i][0] * ds[i][0] + ds[i][1] * ds[i][1]))
        ob = B.build(P, dict(nodes=nd, current=cur, mu=mu), warm=lambda ob: B.call(ob, meth, q), prime=dict(nodes=[[0.0, 0.0, 0.0], [0.0, 0.0, 1.0]]))
        got = B.call(ob, meth, q)
        v, sc = [T.ZERO] * 3, T.ZERO
        for i in range(n):
            w = seg(ds[i], Ls[i], *[[S("f.%s%d" % (c, k)) for k in range(3)] for c in "abo"])
            v = [v[k] + fac(w[k]) for k in range(3)]
            sc = sc + sum((T.absv(fac(x)) for x in w), T.ZERO)
        return Eq(meth, got, Want(("p", 3), v, scale=sc))
    return scen


for m, sg, fc in (("vector_potential", lambda d, l, a, b, o: a_seg(d, l, o), idt),
                  ("magnetic_flux_density", lambda d, l, a, b, o: b_seg(d, l, a, b), idt),
                  ("magnetic_field", lambda d, l, a, b, o: b_seg(d, l, a, b), lambda x: x / MU)):
    c = dict(K.ROT)
    c.update(PK.CONTRACTS)
    for n, nm in ((1, ".one"), (2, ".two")):
        CASES.append(Case("LineCurrent." + m + nm, [P + "." + m], mk_few(m, sg, fc, n), contracts=c, samples=8, tol=1e-6))


def mk_elec(meth, one):
    """one(r): contribution of a unit point source at offset r (without I/4 pi sigma)"""
    def scen(B):
        cur, sig = B.scalar("cur"), B.scalar("sig", "pos")
        Qs = V("q")
        if B.symbolic:
            nd = B.array("p", ("#seg", 3))
            q = B.array("q", ("p", 3))
            A = [T.sym("p.%d[-1]" % k) for k in range(3)]
            Bn = [T.sym("p.%d[0]" % k) for k in range(3)]
            single = T.eq(NSEG, T.ONE)
            for E in (A, Bn):
                B.assume(T.lt(T.ZERO, R2([Qs[k] - E[k] for k in range(3)])))
            B.assume(T.implies(single, T.land(*[T.eq(A[k], Bn[k]) for k in range(3)])))
        else:
            n, nd, q, N, Qs = concrete(B)
            A, Bn = N[-1], N[0]
            single = T.TRUE if n == 1 else T.FALSE
        ob = B.build(P, dict(nodes=nd, current=cur, sigma=sig), warm=lambda ob: B.call(ob, meth, q), prime=dict(nodes=[[0.0, 0.0, 0.0], [0.0, 0.0, 1.0]]) if B.symbolic else None)
        got = B.call(ob, meth, q)
        ra = [Qs[k] - A[k] for k in range(3)]
        rb = [Qs[k] - Bn[k] for k in range(3)]
        va, vb = one(ra), one(rb)
        f = CUR / (4 * PI) / (T.ONE if meth == "current_density" else SIG)
        v = [f * T.ite(single, vb[i], va[i] - vb[i]) for i in range(len(va))]
        sc = f * sum((T.absv(x) for x in va + vb), T.ZERO)
        if meth == "scalar_potential":
            return Eq(meth, got, Want(("p",), v[0], scale=sc), tol=1e-12)
        return Eq(meth, got, Want(("p", 3), v, scale=sc), tol=1e-12)
    return scen


ELEC = []
# ends that are close to each other but not the same node
NEAR = [{"nd.0.0": 1.0, "nd.0.1": -1.0, "nd.0.2": 0.5, "nd.1.0": 1.0 + h, "nd.1.1": -1.0, "nd.1.2": 0.5, "!n": 2} for h in (1e-3, 1e-6, 1e-8)]
for m, f in (("scalar_potential", lambda r: [1 / RR(r)]), ("electric_field", lambda r: [x / RR(r) ** 3 for x in r]), ("current_density", lambda r: [x / RR(r) ** 3 for x in r])):
    ELEC.append(Case("LineCurrent." + m, [P + "." + m], mk_elec(m, f), samples=10, specials=NEAR, leads=[(5,), (2, 3), (), (1,)]))
CASES += ELEC
def gen():
    d, a, b, o = D(), [T.ONE, T.ZERO, T.ZERO], [T.ZERO, T.ONE, T.ZERO], [T.ZERO, T.ZERO, T.ONE]
    rho2 = d[0] * d[0] + d[1] * d[1]
    pc = [T.lt(T.ZERO, rho2)]
    r0, r1 = RR(d), RR([d[0], d[1], d[2] - LEN])
    az = MU * CUR / (4 * PI) * (T.log(d[2] + r0) - T.log(d[2] - LEN + r1))
    B_ = b_seg(d, LEN, a, b)
    C = curl([T.ZERO, T.ZERO, az], d)
    for i in range(3):
        yield "B = curl A [%d]" % i, C[i], B_[i], pc
    yield "div B = 0", div(B_, d), T.ZERO, pc
    # displacement-free Ampere: curl B = mu * (radial current of the two end points)
    cb = curl(B_, d)
    e1 = [d[0], d[1], d[2] - LEN]
    for i in range(3):
        j = CUR / (4 * PI) * (e1[i] / r1 ** 3 - d[i] / r0 ** 3)
        yield "curl B = mu J [%d]" % i, cb[i], MU * j, pc
    v = CUR / (4 * PI * SIG) * (1 / r1 - 1 / r0)
    for i in range(3):
        yield "E = -grad V [%d]" % i, -T.diff(v, d[i]), CUR / (4 * PI * SIG) * (e1[i] / r1 ** 3 - d[i] / r0 ** 3), pc
    # the arguments of the logarithms of both closed forms have the same ratio
    yield "closed form of A", (d[2] + r0) * (r0 + r1 - LEN), (d[2] - LEN + r1) * (r0 + r1 + LEN), pc


LEM = [Lemma("segment lemmas", gen)]
