"""Contracts used at call sites in place of the callee's body.  Each one is a
consequence of postconditions proved for the callee itself (see the named
cases), so a caller is checked against the contract only."""
import mpmath as mp
from engine import terms as T, numeric, solve
from engine.arrays import Arr, to_arr
from engine.interp import Unsupported, PyRaise
from engine.npmodel import RotVal, rot_matrix
from engine.ctx import CTX
from engine.nf import NF
from engine.harness import frame_fix

_rots = {}


def _evalv(v, env):
    memo = {}
    return [numeric.evaluate(x, env, memo) for x in v]


def rotation_from_normals(I, f, args, kw):
    """requires v0 != 0, v1 = +e_k; ensures R orthogonal, det R = 1, R v0/|v0| = e_k
    (cases rotation.generic / .parallel / .antiparallel)"""
    kw = dict(kw)
    names = ("v0", "v1", "tol", "as_matrix")
    for n, a in zip(names, args):
        kw[n] = a
    try:
        v0, v1 = to_arr(kw["v0"]), to_arr(kw["v1"])
    except Exception:
        return NotImplemented
    if v0.axes != (3,) or v1.axes != (3,) or "tol" in kw:
        return NotImplemented
    if not all(T.isnum(x) for x in v1.data):
        return NotImplemented
    e = [T.val(x) for x in v1.data]
    if sorted(map(abs, e)) [:2] != [0, 0] or sum(e) <= 0:
        return NotImplemented
    k = [i for i in range(3) if e[i] != 0][0]
    as_matrix = kw.get("as_matrix", True)
    if not isinstance(as_matrix, bool):
        return NotImplemented
    o = [v0.data[i] for i in range(3)]
    n2 = o[0] * o[0] + o[1] * o[1] + o[2] * o[2]
    # obligation of the caller
    if solve.check(list(I.pc) + [T.eq(n2, T.ZERO)]) != "unsat":
        raise Unsupported("rotation_matrix_from_normals: cannot establish v0 != 0")
    n = T.sqrt(n2)
    u = [x / n for x in o]
    fr = None
    nf = NF(CTX.rules)
    for name, (fa, fb, fo) in CTX.frames.items():
        try:
            if all(nf.is_zero(u[i] - fo[i]) for i in range(3)):
                fr = (fa, fb, fo)
                break
        except Exception:
            pass
    if fr is None:
        # any rotation with the proved postconditions: fresh completion of u
        key = ("rot", k) + tuple(id(x) for x in o)
        _keep.append(o)
        tag = "R%d" % _rots.setdefault(key, len(_rots))
        a = [T.sym("%s.a%d" % (tag, i)) for i in range(3)]
        b = [T.sym("%s.b%d" % (tag, i)) for i in range(3)]
        syms = T.symbols(*o)

        def fixer(env, u=u, a=a, b=b, syms=syms):
            if any(x in env for x in a + b) and all(s in env for s in syms):
                try:
                    e = dict(zip(T_O, _evalv(u, env)))
                    frame_fix(e, a, b, T_O)
                    for x in a + b:
                        env[x] = e[x]
                except Exception:
                    pass
        CTX.add(key, [], fixer)
        fr = (a, b, u)
    rows = [None, None, None]
    rows[k], rows[(k + 1) % 3], rows[(k + 2) % 3] = fr[2], fr[0], fr[1]
    R = RotVal([list(r) for r in rows])
    return rot_matrix(R) if as_matrix else R


T_O = [T.sym("!o%d" % i) for i in range(3)]
_keep = []
ROT = {"geoana.spatial.rotation_matrix_from_normals": rotation_from_normals}


def _rank_parts(n):
    """n = sum of pack ranks + constant -> ([names], c)"""
    if isinstance(n, bool):
        raise Unsupported("rank")
    if isinstance(n, int):
        return [], n
    if not isinstance(n, T.Node):
        raise Unsupported("rank")
    syms = [s for s in T.symbols(n) if s.args[0].startswith("rank:")]
    nf = NF()
    r = n
    names = []
    for s in syms:
        names.append(s.args[0][5:])
        r = r - s
    if T.isnum(r):
        c = T.val(r)
    else:
        q = nf.norm(r)
        if q.d or any(m for m in q.n):
            raise Unsupported("rank %s" % T.show(n))
        c = q.n.get((), 0)
    if c != int(c) or c < 0:
        raise Unsupported("rank")
    return names, int(c)


def append_ndim(I, f, args, kw):
    """ensures result = arr with ndim trailing axes of length one (case append_ndim)"""
    from engine.arrays import OnesPack
    kw = dict(kw)
    for n, a in zip(("arr", "ndim"), args):
        kw[n] = a
    from engine.npmodel import np_asarray
    arr = to_arr(np_asarray(kw["arr"]))
    names, c = _rank_parts(kw["ndim"])
    if len(names) > 1:
        raise Unsupported("ranks")
    ax = tuple(arr.axes) + tuple(OnesPack(n) for n in names) + (1,) * c
    return Arr(ax, arr.data.reshape(arr.data.shape + (1,) * c), arr.dtype, arr.buf)


ND = {"geoana.utils.append_ndim": append_ndim}
