"""Contracts of the prism integration kernels (compiled and Python forms)."""
from engine import terms as T
from engine.harness import Case, Eq, Want, Holds, Lemma
from specs.lib import *

X, Y, Z = T.sym("x"), T.sym("y"), T.sym("z")
nz = lambda a: T.ne(a, T.ZERO)
on = lambda c, a: T.ite(c, a, T.ZERO)
log, atan = T.log, T.atan


def rr(x, y, z):
    return T.sqrt(x * x + y * y + z * z)


def K_f(x, y, z):
    r = rr(x, y, z)
    v = T.ZERO
    for a, b, c in ((x, y, z), (y, z, x), (z, x, y)):
        v = v + on(T.land(nz(a), nz(b)), -a * b * log(c + r)) + on(nz(a), a * a * atan(b * c / (a * r)) / 2)
    return v


def K_fz(x, y, z):
    r = rr(x, y, z)
    return on(nz(x), x * log(y + r)) + on(nz(y), y * log(x + r)) - on(nz(z), z * atan(x * y / (z * r)))


def K_fzz(x, y, z):
    return on(nz(z), atan(x * y / (z * rr(x, y, z))))


def _lg(a, r):
    """-log(a + r), with the singular part dropped on the half-line a + r = 0"""
    return T.ite(T.lt(T.ZERO, a + r), -log(a + r), T.ite(T.lt(a, T.ZERO), log(-2 * a), T.ZERO))


def K_fzx(x, y, z):
    return _lg(y, rr(x, y, z))


def K_fzy(x, y, z):
    return _lg(x, rr(x, y, z))


def K_fzzz(x, y, z):
    r = rr(x, y, z)
    a, b = x * x + z * z, y * y + z * z
    return on(nz(x * y), x * y / r * (1 / a + 1 / b))


def K_fxxy(x, y, z):
    return on(nz(x), -x * z / ((x * x + y * y) * rr(x, y, z)))


def K_fxxz(x, y, z):
    return on(nz(x), -x * y / ((x * x + z * z) * rr(x, y, z)))


def K_fxyz(x, y, z):
    r = rr(x, y, z)
    return on(nz(r), 1 / r)


KERN = dict(f=K_f, fz=K_fz, fzz=K_fzz, fzx=K_fzx, fzy=K_fzy, fzzz=K_fzzz, fxxy=K_fxxy, fxxz=K_fxxz, fxyz=K_fxyz)
PY = "geoana.kernels.potential_field_prism._prism_"
CY = "geoana.kernels._extensions.potential_field_prism.prism_"
PUB = "geoana.kernels.potential_field_prism.prism_"


def scen(path, spec, axes):
    def s(B):
        if axes == ():
            x, y, z = (B.scalar(n) for n in "xyz")
        else:
            x, y, z = (B.array(n, axes) for n in "xyz")
        return Eq("value", B.fn(path, x, y, z), Want(axes, spec(X, Y, Z), scale=1 + X * X + Y * Y + Z * Z))
    return s


ZS = [{"x": [0.0, 0.0, 1.5, 0.0, -2.0, 0.0, 3.0], "y": [0.0, 2.0, 0.0, 0.0, 1.0, -1.5, 0.0], "z": [0.0, 0.0, 0.0, 2.5, 0.0, 1.0, -1.0]},
      {"x": [0.0, 0.0, -1.5, 0.0, -2.0, 0.0, -3.0], "y": [0.0, -2.0, 0.0, 0.0, -1.0, -1.5, 0.0], "z": [0.0, 0.0, 0.0, -2.5, 0.0, -1.0, -1.0]}]
CASES = []
for k, sp in KERN.items():
    CASES.append(Case("python.prism_" + k, [PY + k], scen(PY + k, sp, ("p",)), modes=("fresh", "int", "mixed"), specials=ZS, leads=[(7,), (7,), (7,), (2, 3)]))
    CASES.append(Case("compiled.prism_" + k, [CY + k], scen(CY + k, sp, ()), modes=("fresh", "int", "mixed"), ext=True, specials=[{n: v[i] for n, v in z.items()} for z in ZS for i in range(7)]))
    # through the public name, on arrays of any shape
    CASES.append(Case("public.prism_" + k, [PUB + k], scen(PUB + k, sp, ("p",)), modes=("fresh", "int", "mixed"), ext=True, specials=ZS, leads=[(7,), (7,), (7,), (2, 3), ()]))


# ------------------------------------------------- contracts for callers
# at call sites the kernels are opaque functions with exactly these symmetries
# (lemma "symmetries"); values come from the closed forms proved above
CANON = {
    "f": lambda x, y, z: T.fn("prism_f", x, y, z),
    "fz": lambda x, y, z: T.fn("prism_fz", x, y, z),
    "fzz": lambda x, y, z: T.fn("prism_fzz", x, y, z),
    "fzx": lambda x, y, z: T.fn("prism_fzx", x, y, z),
    "fzy": lambda x, y, z: T.fn("prism_fzx", y, x, z),
    "fzzz": lambda x, y, z: T.fn("prism_fzzz", x, y, z),
    "fxxy": lambda x, y, z: T.fn("prism_fxxy", x, y, z),
    "fxxz": lambda x, y, z: T.fn("prism_fxxy", x, z, y),
    "fxyz": lambda x, y, z: T.fn("prism_fxyz", x, y, z),
}
ALL6 = [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)]
SYM = {"f": ALL6, "fz": [(0, 1, 2), (1, 0, 2)], "fzz": [(0, 1, 2), (1, 0, 2)], "fzx": [(0, 1, 2), (2, 1, 0)], "fzzz": [(0, 1, 2), (1, 0, 2)], "fxxy": [(0, 1, 2)], "fxyz": ALL6}


def _install():
    from engine import nf, numeric
    for k, pm in SYM.items():
        nf.SYMMETRY["prism_" + k] = pm

        def ev(x, y, z, t=KERN[k](X, Y, Z)):
            return numeric.evaluate(t, {X: x, Y: y, Z: z})
        numeric.EXTRA["prism_" + k] = ev


_install()


def _contract(k):
    from engine.arrays import elementwise, to_arr
    from engine.npmodel import unwrap

    def h(I, f, args, kw):
        if kw or len(args) != 3:
            return NotImplemented
        return unwrap(elementwise(CANON[k], *[to_arr(a) for a in args], dtype="f"))
    return h


CONTRACTS = {}
for _k in KERN:
    CONTRACTS[PY + _k] = CONTRACTS[CY + _k] = _contract(_k)


def gen_sym():
    for k, pms in SYM.items():
        for pm in pms[1:]:
            yield "%s%r" % (k, pm), KERN[k](X, Y, Z), KERN[k](*[(X, Y, Z)[i] for i in pm]), []
    yield "fzy is fzx swapped", K_fzy(X, Y, Z), K_fzx(Y, X, Z), []
    yield "fxxz is fxxy swapped", K_fxxz(X, Y, Z), K_fxxy(X, Z, Y), []


def gen():
    pc = [nz(X), nz(Y), nz(Z)]
    S_ = lambda k: T.subst(KERN[k](X, Y, Z), {})
    at = lambda k, *a: KERN[k](*a)
    d = T.diff
    zx, zy, xy = X * X + Z * Z, Y * Y + Z * Z, X * X + Y * Y
    # each kernel is minus the derivative of the one above it, up to functions
    # of at most two of the coordinates (these cancel over the eight corners)
    yield "dz f = -fz", d(K_f(X, Y, Z), Z), -K_fz(X, Y, Z) - Z * Z * (Y / zy + X / zx), pc
    yield "dxdydz f = -1/r", d(d(d(K_f(X, Y, Z), X), Y), Z), -1 / rr(X, Y, Z), pc
    yield "dz fz = -fzz", d(K_fz(X, Y, Z), Z), -K_fzz(X, Y, Z) + Z * X / zx + Z * Y / zy, pc
    yield "dx fz = -fzx", d(K_fz(X, Y, Z), X), -K_fzx(X, Y, Z) + X * X / zx, pc
    yield "dy fz = -fzy", d(K_fz(X, Y, Z), Y), -K_fzy(X, Y, Z) + Y * Y / zy, pc
    yield "dz fzz = -fzzz", d(K_fzz(X, Y, Z), Z), -K_fzzz(X, Y, Z), pc
    yield "dx fzx = -fxxz", d(K_fzx(X, Y, Z), X), -K_fxxz(X, Y, Z) - X / zx, pc
    yield "dx fyx = -fxxy", d(K_fzx(X, Z, Y), X), -K_fxxy(X, Y, Z) - X / xy, pc
    yield "dz fyx = -fxyz", d(K_fzx(X, Z, Y), Z), -K_fxyz(X, Y, Z), pc
    yield "fzx, fzy swap", K_fzx(X, Y, Z), K_fzy(Y, X, Z), []
    tr = K_fzz(X, Y, Z) + K_fzz(Y, Z, X) + K_fzz(Z, X, Y)
    for s in (X, Y, Z):
        yield "trace is locally constant (%s)" % T.show(s), d(tr, s), T.ZERO, pc


LEM = [Lemma("kernel calculus", gen), Lemma("symmetries", gen_sym)]
