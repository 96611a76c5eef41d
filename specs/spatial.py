"""Contracts of geoana.spatial: coordinate transforms, rotations, vector helpers."""
import numpy as np
from engine import terms as T
from engine.harness import Case, Eq, Want, Holds, Lemma
from specs.lib import *

M = "geoana.spatial."
sin, cos = T.sin, T.cos


def _g(n):
    return V("g", n)


def _tr(fname, spec, ncol=3, vec=False, sign0=None, alias=None):
    def scen(B):
        g = B.array("g", ("p", ncol))
        args = [g]
        if vec:
            args.append(B.array("v", ("p", ncol)))
        got = B.fn(M + (alias or fname), *args)
        return Eq(fname, got, Want(("p", ncol), spec(_g(ncol), V("v", ncol) if vec else None)))
    return scen


def cyl2cart(g, v):
    r, t = g[0], g[1]
    if v is None:
        return [r * cos(t), r * sin(t)] + g[2:]
    return [v[0] * cos(t) - v[1] * sin(t), v[0] * sin(t) + v[1] * cos(t)] + v[2:]


def cart2cyl(g, v):
    rho = T.sqrt(g[0] * g[0] + g[1] * g[1])
    t = T.atan2(g[1], g[0])
    if v is None:
        return [rho, t] + g[2:]
    return [cos(t) * v[0] + sin(t) * v[1], -sin(t) * v[0] + cos(t) * v[1]] + v[2:]


def _sphbasis(phi, th):
    return ([sin(th) * cos(phi), sin(th) * sin(phi), cos(th)],
            [-sin(phi), cos(phi), T.ZERO],
            [cos(th) * cos(phi), cos(th) * sin(phi), -sin(th)])


def sph2cart(g, v):
    r, phi, th = g
    er, ep, et = _sphbasis(phi, th)
    if v is None:
        return [r * e for e in er]
    return [v[0] * er[i] + v[1] * ep[i] + v[2] * et[i] for i in range(3)]


def cart2sph(g, v):
    rho = T.sqrt(g[0] * g[0] + g[1] * g[1])
    phi, th = T.atan2(g[1], g[0]), T.atan2(rho, g[2])
    if v is None:
        return [RR(g), phi, th]
    er, ep, et = _sphbasis(phi, th)
    return [dot(v, er), dot(v, ep), dot(v, et)]


AXPTS = [{"g.0": [0.0, 0.0, -1.0], "g.1": [0.0, 0.0, 0.0], "g.2": [0.0, -2.0, 0.0]}, {"g.0": [0.0, -2.0, 1.0], "g.1": [3.0, -1.0, 0.0]}]
CASES = []
for name, sp in (("cylindrical_to_cartesian", cyl2cart), ("cartesian_to_cylindrical", cart2cyl)):
    for nc in (2, 3):
        for vec in (False, True):
            CASES.append(Case("%s.%d%s" % (name, nc, ".vec" if vec else ""), [M + name], _tr(name, sp, nc, vec), specials=AXPTS, modes=("fresh", "int", "mixed")))
for name, sp in (("spherical_to_cartesian", sph2cart), ("cartesian_to_spherical", cart2sph)):
    for vec in (False, True):
        CASES.append(Case("%s%s" % (name, ".vec" if vec else ""), [M + name], _tr(name, sp, 3, vec), specials=AXPTS, modes=("fresh", "int", "mixed")))
for old, name, sp in (("cylindrical_2_cartesian", "cylindrical_to_cartesian", cyl2cart), ("cartesian_2_cylindrical", "cartesian_to_cylindrical", cart2cyl),
                      ("spherical_2_cartesian", "spherical_to_cartesian", sph2cart), ("cartesian_2_spherical", "cartesian_to_spherical", cart2sph)):
    for vec in (False, True):
        CASES.append(Case("%s%s" % (old, ".vec" if vec else ""), [M + old], _tr(name, sp, 3, vec, alias=old), modes=("fresh", "int", "mixed")))


def _round(f1, f2, ncol, vec):
    """f2 after f1 is the identity on points (f1: from Cartesian)"""
    def scen(B):
        g = B.array("g", ("p", ncol))
        if not vec:
            return Eq("round trip", B.fn(M + f2, B.fn(M + f1, g)), Want(("p", ncol), _g(ncol), scale="vec"))
        v = B.array("v", ("p", ncol))
        c = B.fn(M + f1, g, v)
        gc = B.fn(M + f1, g)
        return Eq("round trip", B.fn(M + f2, gc, c), Want(("p", ncol), V("v", ncol), scale="vec"))
    return scen


for nc in (2, 3):
    for vec in (False, True):
        CASES.append(Case("roundtrip.cylindrical.%d%s" % (nc, ".vec" if vec else ""), [M + "cartesian_to_cylindrical", M + "cylindrical_to_cartesian"],
                          _round("cartesian_to_cylindrical", "cylindrical_to_cartesian", nc, vec), specials=AXPTS, modes=("fresh", "int", "mixed"), tol=1e-12))
for vec in (False, True):
    CASES.append(Case("roundtrip.spherical%s" % (".vec" if vec else ""), [M + "cartesian_to_spherical", M + "spherical_to_cartesian"],
                      _round("cartesian_to_spherical", "spherical_to_cartesian", 3, vec), specials=AXPTS, modes=("fresh", "int", "mixed"), tol=1e-12))


# ------------------------------------------------------------------ helpers
def _mag(B):
    v = B.array("v", ("p", 3))
    return Eq("vector_magnitude", B.fn(M + "vector_magnitude", v), Want(("p",), RR(V("v"))))


def _vd(B):
    x = B.array("x", ("#n", 3))
    o = B.vec("o")
    return [Eq("vector_distance", B.fn(M + "vector_distance", x, o), Want(("#n", 3), [S("x.%d" % i) - S("o.%d" % i) for i in range(3)])),
            Eq("default origin", B.fn(M + "vector_distance", x), Want(("#n", 3), V("x")))]


def _dist(B):
    x = B.array("x", ("#n", 3))
    o = B.vec("o")
    return [Eq("distance", B.fn(M + "distance", x, o), Want(("#n",), RR([S("x.%d" % i) - S("o.%d" % i) for i in range(3)]))),
            Eq("default origin", B.fn(M + "distance", x), Want(("#n",), RR(V("x"))))]


def _vdot(B):
    x = B.array("x", ("#n", 3))
    o = B.vec("o")
    return Eq("vector_dot", B.fn(M + "vector_dot", x, o), Want(("#n",), dot(V("x"), V("o"))))


def _rep(dim):
    def scen(B):
        s = B.array("s", ("#n",))
        kw = {} if dim is None else {"dim": dim}
        return Eq("repeat_scalar", B.fn(M + "repeat_scalar", s, **kw), Want(("#n", dim or 3), [S("s")] * (dim or 3)))
    return scen


HELP = [Case("vector_magnitude", [M + "vector_magnitude"], _mag, modes=("fresh", "int", "mixed")),
        Case("vector_distance", [M + "vector_distance"], _vd, modes=("fresh", "int", "mixed")),
        Case("distance", [M + "distance"], _dist, modes=("fresh", "int", "mixed")),
        Case("vector_dot", [M + "vector_dot"], _vdot, modes=("fresh", "int", "mixed")),
        Case("repeat_scalar", [M + "repeat_scalar"], _rep(None), modes=("fresh", "int", "mixed")),
        Case("repeat_scalar.2", [M + "repeat_scalar"], _rep(2), modes=("fresh", "int", "mixed"))]


# ------------------------------------------------------------------ rotation
def _mat(B, R):
    """entries of a 3x3 result"""
    if B.symbolic:
        from engine.arrays import to_arr
        a = to_arr(R)
        if a.axes != (3, 3):
            return None
        return [[a.data[i, j] for j in range(3)] for i in range(3)]
    R = np.asarray(R)
    return [[float(R[i, j]) for j in range(3)] for i in range(3)]


def _rot(kind):
    def scen(B):
        v0 = B.unit("v0", B.scalar("k0", "pos"))
        v1 = B.unit("v1", B.scalar("k1", "pos"))
        a, b = V("v0"), V("v1")
        c = cross(a, b)
        # the (anti)parallel case is decided separately
        B.assume(T.lt(T.num(1e-39), R2(c)))
        return _rotpost(B, B.fn(M + "rotation_matrix_from_normals", v0, v1), a, b, c)
    return scen


def _rotpost(B, R, a, b, c):
    m = _mat(B, R)
    if m is None:
        return Holds("3x3 result", False)
    out = []
    if B.symbolic:
        for i in range(3):
            out.append(Eq("R v0 || v1 [%d]" % i, dot(m[i], a), b[i]))
            if c is not None:
                out.append(Eq("R fixes the axis v0 x v1 [%d]" % i, dot(m[i], c), c[i]))
            for j in range(i, 3):
                out.append(Eq("R R^T [%d,%d]" % (i, j), dot(m[i], m[j]), T.num(delta(i, j))))
        cr = cross(m[0], m[1])
        for i in range(3):
            out.append(Eq("det R = 1 [%d]" % i, cr[i], m[2][i]))
        return out
    ms = [[T.num(x) for x in r] for r in m]
    ev = lambda t: Want((), t, tol=1e-9)
    import numpy as _np
    mm = _np.array(m)
    out.append(Holds("orthogonal", _np.allclose(mm @ mm.T, _np.eye(3), atol=1e-9)))
    out.append(Holds("det", abs(_np.linalg.det(mm) - 1) < 1e-9))
    va = _np.array([float(B.vals[x][()]) for x in V("v0")])
    vb = _np.array([float(B.vals[x][()]) for x in V("v1")])
    va, vb = va / _np.linalg.norm(va), vb / _np.linalg.norm(vb)
    out.append(Holds("R v0 || v1", _np.allclose(mm @ va, vb, atol=1e-7)))
    ca = _np.cross(va, vb)
    if _np.linalg.norm(ca) > 1e-3:
        out.append(Holds("R fixes the axis v0 x v1", _np.allclose(mm @ ca, ca, atol=1e-7)))
    return out


def _par(sgn):
    """v1 = +-k v0"""
    def scen(B):
        v0 = B.vec("v0")
        k = B.scalar("k", "pos")
        a = V("v0")
        B.assume(T.lt(T.ZERO, R2(a)))
        if B.symbolic:
            from engine.arrays import Arr
            d = np.empty((3,), dtype=object)
            for i in range(3):
                d[i] = sgn * S("k") * a[i]
            v1 = Arr((3,), d, "f")
            R = B.fn(M + "rotation_matrix_from_normals", v0, v1)
            m = _mat(B, R)
            out = []
            for i in range(3):
                out.append(Eq("R v0 = +-v0 [%d]" % i, dot(m[i], a), sgn * a[i]))
                for j in range(i, 3):
                    out.append(Eq("R R^T [%d,%d]" % (i, j), dot(m[i], m[j]), T.num(delta(i, j))))
                if sgn > 0:
                    for j in range(3):
                        out.append(Eq("identity [%d,%d]" % (i, j), m[i][j], T.num(delta(i, j))))
            cr = cross(m[0], m[1])
            for i in range(3):
                out.append(Eq("det R = 1 [%d]" % i, cr[i], m[2][i]))
            return out
        pass
        mm = np.asarray(B.fn(M + "rotation_matrix_from_normals", v0, sgn * k * np.asarray(v0)))
        va = np.asarray(v0, dtype=float)
        return [Holds("orthogonal", np.allclose(mm @ mm.T, np.eye(3), atol=1e-9)), Holds("det", abs(np.linalg.det(mm) - 1) < 1e-9),
                Holds("R v0 = +-v0", np.allclose(mm @ va, sgn * va, rtol=1e-7, atol=1e-9)), Holds("identity", sgn < 0 or np.allclose(mm, np.eye(3)))]
    return scen


PARSP = [{"v0.0": 0.0, "v0.1": 0.0, "v0.2": 1.0}, {"v0.0": 0.0, "v0.1": 0.0, "v0.2": -2.0}, {"v0.0": 1.0, "v0.1": 0.0, "v0.2": 0.0}, {"v0.0": 0.0, "v0.1": 3.0, "v0.2": 0.0}]
def _asrot(B):
    """as_matrix=False is the same rotation"""
    v0 = B.unit("v0", B.scalar("k0", "pos"))
    v1 = B.unit("v1", B.scalar("k1", "pos"))
    a, b = V("v0"), V("v1")
    c = cross(a, b)
    B.assume(T.lt(T.num(1e-39), R2(c)))
    r = B.fn(M + "rotation_matrix_from_normals", v0, v1, as_matrix=False)
    return _rotpost(B, B.call(r, "as_matrix"), a, b, c)


def _rotpts(org):
    def scen(B):
        """points move rigidly about x0 with the rotation taking n0 to n1"""
        x = B.array("x", ("#n", 3))
        kw = {}
        if org:
            kw["x0"] = B.vec("c")
        v0 = B.unit("v0", B.scalar("k0", "pos"))
        v1 = B.unit("v1", B.scalar("k1", "pos"))
        cc = V("c") if org else [T.ZERO] * 3
        a, b = V("v0"), V("v1")
        ax = cross(a, b)
        co = dot(a, b)
        B.assume(T.lt(T.num(1e-9), R2(ax)))
        x_ = [S("x.%d" % i) - cc[i] for i in range(3)]
        cx = cross(ax, x_)
        # Rodrigues: R x = x cos + (a x b) x x + axis (axis.x)/(1+cos)
        want = [x_[i] * co + cx[i] + ax[i] * dot(ax, x_) / (1 + co) + cc[i] for i in range(3)]
        return Eq("rotated points", B.fn(M + "rotate_points_from_normals", x, v0, v1, **kw), Want(("#n", 3), want, scale="vec"))
    return scen


ROT = [
    Case("rotation.object", [M + "rotation_matrix_from_normals"], _asrot, modes=("fresh", "int", "mixed")),
    Case("rotate_points", [M + "rotate_points_from_normals"], _rotpts(True), modes=("fresh", "int", "mixed")),
    Case("rotate_points.origin", [M + "rotate_points_from_normals"], _rotpts(False), modes=("fresh", "int", "mixed")),
    Case("rotation.generic", [M + "rotation_matrix_from_normals"], _rot("matrix"), modes=("fresh", "int", "mixed")),
    Case("rotation.parallel", [M + "rotation_matrix_from_normals"], _par(1), modes=("fresh", "int", "mixed"), specials=PARSP),
    Case("rotation.antiparallel", [M + "rotation_matrix_from_normals"], _par(-1), modes=("fresh", "int", "mixed"), specials=PARSP),
]
CASES_ALL = CASES + HELP + ROT
