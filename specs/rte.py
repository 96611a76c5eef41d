"""Contracts of the layered-earth TE reflection coefficient and its gradient
(Python kernel, Cython wrapper and C++ kernel)."""
from engine import terms as T
from engine.arrays import Dim, register_generic
from engine.harness import Case, Eq, Want, Holds, Lemma
from specs.lib import *

M = "geoana.kernels.tranverse_electric_reflections."
X = "geoana.kernels._extensions.rTE."
MU0C = T.num(4.0e-7) * PI           # the constant of the compiled kernel
FR, LAM = T.sym("rf", "real", "pos"), T.sym("lam", "real", "pos")
SG, MUL, TH = T.sym("sg", "complex"), T.sym("mul", "complex"), T.sym("th", "real", "pos")
W = 2 * PI * FR
NEXT = T.sym("Yn", "complex")       # surface admittance of the layer below
NL = T.sym("#lay", "int", "pos")
KIX = T.sym("#ix:lay", "int", "nonneg")


def u_(sig, mu):
    return T.sqrt(LAM * LAM + I * W * mu * sig)


def adm(sig, mu):
    """intrinsic admittance"""
    return u_(sig, mu) / (I * W * mu)


def step(sig, mu, h, nxt):
    """surface admittance of a layer on top of one with surface admittance nxt"""
    y, t = adm(sig, mu), T.fn("tanh", u_(sig, mu) * h)
    return y * (nxt + y * t) / (y + nxt * t)


def refl(y0, yh):
    return (y0 - yh) / (y0 + yh)


def last(s):
    kind, sign = T.SYM_ATTR[s.args[0]]
    return T.sym(s.args[0] + "[-1]", kind, sign)


def y0_(mu0):
    return LAM / (I * W * mu0)


def gen_forward(mu0):
    """for any number of layers: the recurrence as a term"""
    S_ = T.rec("lay", -1, -1, NEXT, step(SG, MUL, TH, NEXT), adm(last(SG), last(MUL)))
    return S_, refl(y0_(mu0), T.recat(S_, "at", 0))


def gen_gradient(mu0):
    """derivatives by the chain rule, from the derivatives of one step"""
    S_, _ = gen_forward(mu0)
    y0 = y0_(mu0)
    s0 = T.recat(S_, "at", 0)
    Z = T.sym("Zz", "complex")
    g0 = T.subst(T.diff(refl(y0, Z), Z), {Z: s0})
    below = T.recat(S_, "sh", 1)
    at = lambda e: T.subst(e, {NEXT: below})
    one = step(SG, MUL, TH, NEXT)
    P_ = T.sym("Gp", "complex")
    G_ = T.rec("lay", -1, 1, P_, P_ * at(T.diff(one, NEXT)), g0)
    gl = T.recat(G_, "at", -1)
    sl, ml = last(SG), last(MUL)
    bot = adm(sl, ml)
    inner = T.lt(KIX, NL - 1)
    ds = T.ite(inner, G_ * at(T.diff(one, SG)), gl * T.diff(bot, sl))
    dm = T.ite(inner, G_ * at(T.diff(one, MUL)), gl * T.diff(bot, ml))
    dh = G_ * at(T.diff(one, TH))
    return ds, dh, dm


# ---- the same for a concrete stack
def stack(n):
    return [T.sym("sg.%d" % i, "complex") for i in range(n)], [T.sym("mul.%d" % i, "complex") for i in range(n)], [T.sym("th.%d" % i, "real", "pos") for i in range(n - 1)]


def con_forward(n, mu0):
    s, m, h = stack(n)
    y = adm(s[-1], m[-1])
    for k in range(n - 2, -1, -1):
        y = step(s[k], m[k], h[k], y)
    return refl(y0_(mu0), y)


def inputs(B, n):
    fr = B.array("rf", ("#fr",), sign="pos")
    lam = B.array("lam", ("#flt",), sign="pos")
    if n is None:
        sg = B.array("sg", ("#lay", "#fr"), kind="complex")
        mu = B.array("mul", ("#lay", "#fr"), kind="complex")
        th = B.array("th", ("#lay",), sign="pos")
        th = type(th)((Dim("lay", -1),), th.data, "f", th.buf)
        B.assume(T.le(T.num(2), NL))
    else:
        sg = B.array("sg", (n, "#fr"), kind="complex")
        mu = B.array("mul", (n, "#fr"), kind="complex")
        th = B.array("th", (n - 1,), sign="pos") if n > 1 else B.array("th", (0,), sign="pos")
    return fr, lam, sg, mu, th


def hint(rng):
    return complex(rng.uniform(0.05, 2), rng.choice([0.0, rng.uniform(0, 0.5)]))


HINTS = {"sg*": lambda r: complex(10 ** r.uniform(-3, 1), r.choice([0.0, 10 ** r.uniform(-4, -1)])), "mul*": lambda r: complex(r.uniform(1, 3) * 1.25663706212e-6, r.choice([0.0, r.uniform(0, 1e-6)])),
         "th*": lambda r: 10 ** r.uniform(-1, 1.5), "rf*": lambda r: 10 ** r.uniform(-1, 5), "lam*": lambda r: 10 ** r.uniform(-3, 1)}


def mk_fwd(path, mu0):
    def scen(B):
        n = None if B.symbolic else B.rng.choice([1, 2, 3, 4, 6])
        n = {"one": 1, "two": 2, "three": 3}.get(B.case.cid.split(".")[-1], n)
        a = inputs(B, n)
        got = B.fn(path, *a)
        want = gen_forward(mu0)[1] if n is None else con_forward(n, mu0)
        # |rTE| <= 1 for passive media: errors are measured against 1
        return Eq("rTE", got, Want(("#fr", "#flt"), want, scale=T.ONE))
    return scen


def mk_grad(path, mu0):
    def scen(B):
        n = None if B.symbolic else B.rng.choice([1, 2, 3, 4, 6])
        n = {"one": 1, "two": 2, "three": 3}.get(B.case.cid.split(".")[-1], n)
        a = inputs(B, n)
        got = B.fn(path, *a)
        if n is None:
            ds, dh, dm = gen_gradient(mu0)
            return [Eq("d/dsigma", got[0], Want(("#lay", "#fr", "#flt"), ds)), Eq("d/dthickness", got[1], Want((Dim("lay", -1), "#fr", "#flt"), dh)), Eq("d/dmu", got[2], Want(("#lay", "#fr", "#flt"), dm))]
        te = con_forward(n, mu0)
        s, m, h = stack(n)
        out = []
        # errors are measured against the whole sensitivity vector, and against
        # rounding of one ulp of a coefficient of size one
        big = sum((T.absv(x * T.diff(te, x)) for x in s + m + h), T.num(1e-6))
        for lab, g, v in (("d/dsigma", got[0], s), ("d/dthickness", got[1], h), ("d/dmu", got[2], m)):
            if v:
                out.append(Eq(lab, g, Want((len(v), "#fr", "#flt"), [T.diff(te, x) for x in v], scale=big * sum((1 / T.absv(x) for x in v), T.ZERO))))
            else:
                out.append(Holds(lab + " shape", B.shape(g)[0] == 0))
        return out
    return scen


LEADS = [(1,), (2,), (3,)]
kw = dict(modes=("fresh", "int", "mixed"), hints=HINTS, leads=LEADS)
FWD_PY = [Case("rTE_forward.python", [M + "_rTE_forward"], mk_fwd(M + "_rTE_forward", MU0), tol=1e-9, samples=20, **kw),
          Case("rTE_forward.python.one", [M + "_rTE_forward"], mk_fwd(M + "_rTE_forward", MU0), tol=1e-9, samples=0, real=False, **kw)]
GRAD_PY = [Case("rTE_gradient.python", [M + "_rTE_gradient"], mk_grad(M + "_rTE_gradient", MU0), tol=1e-6, samples=20, **kw),
           Case("rTE_gradient.python.one", [M + "_rTE_gradient"], mk_grad(M + "_rTE_gradient", MU0), tol=1e-6, samples=0, real=False, **kw)]
CASES = FWD_PY + GRAD_PY
FWD_C = [Case("rTE_forward.compiled", [X + "rTE_forward", "funcs::rTE"], mk_fwd(X + "rTE_forward", MU0C), tol=1e-9, samples=24, ext=True, forms=("array", "fortran", "strided", "list"), **kw),
         Case("rTE_forward.compiled.one", [X + "rTE_forward", "funcs::rTE"], mk_fwd(X + "rTE_forward", MU0C), tol=1e-9, samples=0, real=False, **kw)]
GRAD_C = [Case("rTE_gradient.compiled", [X + "rTE_gradient", "funcs::rTEgrad"], mk_grad(X + "rTE_gradient", MU0C), tol=1e-6, samples=24, ext=True, forms=("array", "fortran", "strided", "list"), **kw),
          Case("rTE_gradient.compiled.one", [X + "rTE_gradient", "funcs::rTEgrad"], mk_grad(X + "rTE_gradient", MU0C), tol=1e-6, samples=0, real=False, **kw)]
FWD_PY += [Case("rTE_forward.python.%s" % n, FWD_PY[0].functions, mk_fwd(M + "_rTE_forward", MU0), tol=1e-9, samples=2, **kw) for n in ("two", "three")]
GRAD_PY += [Case("rTE_gradient.python.%s" % n, GRAD_PY[0].functions, mk_grad(M + "_rTE_gradient", MU0), tol=1e-6, samples=2, **kw) for n in ("two",)]
FWD_C += [Case("rTE_forward.compiled.%s" % n, FWD_C[0].functions, mk_fwd(X + "rTE_forward", MU0C), tol=1e-9, samples=2, ext=True, **kw) for n in ("two", "three")]
GRAD_C += [Case("rTE_gradient.compiled.%s" % n, GRAD_C[0].functions, mk_grad(X + "rTE_gradient", MU0C), tol=1e-6, samples=2, ext=True, **kw) for n in ("two",)]
CASES = FWD_PY + FWD_C + GRAD_PY + GRAD_C


def mk_bad(path, which):
    """inconsistent sizes are rejected, not read past the end of a buffer"""
    def scen(B):
        fr = B.array("rf", ("#fr",), sign="pos")
        lam = B.array("lam", ("#flt",), sign="pos")
        n = 3
        sg = B.array("sg", (n, "#fr"), kind="complex")
        mu = B.array("mul", (n, "#fr"), kind="complex")
        th = B.array("th", (n - 1,), sign="pos")
        if which == "frequency":
            fr = B.array("rf4", (4,), sign="pos")
            sg = B.array("sg3", (n, 3), kind="complex")
            mu = B.array("mul3", (n, 3), kind="complex")
        elif which == "thickness":
            th = B.array("th1", (n - 2,), sign="pos")
        elif which == "thicker":
            th = B.array("th3", (n,), sign="pos")
        else:
            mu = B.array("mul2", (n - 1, "#fr"), kind="complex")
        return Holds("rejected", B.raises(lambda: B.fn(path, fr, lam, sg, mu, th)) is ValueError)
    return scen


BAD_F = [Case("rTE_forward.rejects.%s" % w, [X + "rTE_forward"], mk_bad(X + "rTE_forward", w), samples=2, ext=True, **kw) for w in ("frequency", "thickness", "thicker", "mu")]
BAD_G = [Case("rTE_gradient.rejects.%s" % w, [X + "rTE_gradient"], mk_bad(X + "rTE_gradient", w), samples=2, ext=True, **kw) for w in ("frequency", "thickness", "thicker", "mu")]
# the name users import
PUB_F = [Case("rTE_forward.public", [M + "rTE_forward"], mk_fwd(M + "rTE_forward", MU0C), tol=1e-9, samples=8, ext=True, **kw)]
PUB_G = [Case("rTE_gradient.public", [M + "rTE_gradient"], mk_grad(M + "rTE_gradient", MU0C), tol=1e-6, samples=8, ext=True, **kw)]
FWD, GRAD = FWD_PY + FWD_C + PUB_F + BAD_F, GRAD_PY + GRAD_C + PUB_G + BAD_G
CASES = FWD + GRAD


# ---- consequences of the contract
def gen():
    th0 = T.ZERO
    yield "a layer of the material below it is invisible", step(SG, MUL, TH, adm(SG, MUL)), adm(SG, MUL)
    yield "a layer of zero thickness is invisible", step(SG, MUL, th0, NEXT), NEXT
    yield "air over air does not reflect", refl(y0_(MU0), adm(T.ZERO, MU0)), T.ZERO
    ta, tb = T.sym("ta", "complex"), T.sym("tb", "complex")
    y = T.sym("Yl", "complex")
    st = lambda t, nxt: y * (nxt + y * t) / (y + nxt * t)
    # tanh(a + b) = (tanh a + tanh b) / (1 + tanh a tanh b): splitting a layer changes nothing
    yield "a layer may be split in two", st(ta, st(tb, NEXT)), st((ta + tb) / (1 + ta * tb), NEXT)
    # a stack inserted with the same properties
    yield "derivative of one step, below", T.diff(step(SG, MUL, TH, NEXT), NEXT), adm(SG, MUL) ** 2 * (1 - T.fn("tanh", u_(SG, MUL) * TH) ** 2) / (adm(SG, MUL) + NEXT * T.fn("tanh", u_(SG, MUL) * TH)) ** 2


LEM = [Lemma("layer step lemmas", gen)]
