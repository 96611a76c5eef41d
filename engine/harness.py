"""Contracts as cases: one scenario + postcondition, run by two back ends.

SymB  executes the real source symbolically for all inputs; the postcondition
      is proved on every path (deciding step).
RealB executes the built package on concrete inputs with the same
      postcondition, evaluated at 40 digits (replay of counterexamples and the
      labelled bounded stand-in)."""
import itertools
import json
import math
import random
import sys
import time
import traceback
import numpy as np
import mpmath as mp
from . import terms as T
from . import solve, numeric, prover
from .arrays import Arr, Pack, Dim, OnesPack, to_arr, register_generic, is_formula, index_sym, dimlen
from . import npmodel
from .interp import Interp, PyRaise, Unsupported, Infeasible, Obj, ShapeTuple, Opaque
from .nf import TooBig
from . import realpkg
from .ctx import CTX


class Skip(Exception):
    """concrete input outside the precondition"""


class Want:
    """specified array: axes names/ints and one term per concrete component"""

    def __init__(self, axes, comps, exact=False, tol=None, scale=None, squeeze=False):
        self.squeeze = squeeze  # documented as squeezed: shape compared after dropping unit axes
        self.axes = tuple(axes)
        self.comps = comps      # nested lists following the int axes
        self.tol = tol
        self.scale = scale      # 'vec': compare relative to the norm of the element

    def items(self):
        shape = tuple(a for a in self.axes if isinstance(a, int))
        for ix in np.ndindex(*shape):
            c = self.comps
            for i in ix:
                c = c[i]
            yield ix, T.num(c) if not isinstance(c, (bool,)) else (T.TRUE if c else T.FALSE)


class Eq:
    def __init__(self, label, got, want, tol=None, pre=()):
        self.label, self.got, self.want, self.tol, self.pre = label, got, want, tol, tuple(pre)


class Holds:
    """a formula (symbolic) / python bool (real)"""

    def __init__(self, label, cond):
        self.label, self.cond = label, cond


def ax(a):
    return a


class Case:
    def __init__(self, cid, functions, scenario, hints=None, rules=None, contracts=None, assume=(), expect="return",
                 modes=("fresh", "set", "int"), samples=6, specials=(), tol=1e-7, leads=None, timeout=120, budget=400,
                 defined=True, real=True, symbolic=True, pkg=True, thorough_samples=60, ext=False, bounded_note="",
                 forms=("array",), interp_kw=None, warm=None, frame=True, batch=True, singles=True):
        self.cid = cid
        self.functions = functions
        self.scenario = scenario
        self.hints = hints or {}
        self.rules = rules or ()
        self.contracts = contracts or {}
        self.modes = modes
        self.samples = samples
        self.thorough_samples = thorough_samples
        self.specials = list(specials)
        self.tol = tol
        self.leads = leads
        self.timeout = timeout
        self.budget = budget
        self.defined = defined
        self.real = real
        self.symbolic = symbolic
        self.ext = ext
        self.bounded_note = bounded_note
        self.forms = forms
        self.interp_kw = interp_kw or {}
        self.frame = frame
        self.singles = singles
        self.batch = batch


# ======================================================================== base
class Backend:
    symbolic = False
    warming = False

    def _args(self, args, kw):
        if self.warming:
            p = lambda v: v if isinstance(v, (bool, str, int)) or v is None else self.primed(v)
            return [p(a) for a in args], {k: p(v) for k, v in kw.items()}
        return list(args), kw

    def __init__(self, case):
        self.case = case
        self.inputs = {}        # node -> axes tuple
        self.pre = []
        self.prime = 0
        self.mixed = {}
        self.attrs = []         # attributes a history may assign

    # -- input declarations ------------------------------------------------
    def _declare(self, node, axes):
        self.inputs[node] = tuple(axes)

    def build(self, path, kw, warm=None, ctor=None, order=None, pos=(), prime=None, prime1=None):
        """construct; in mode 'set' construct with other values, use the object
        once, then assign every attribute: answers must depend on the current
        attribute values only"""
        mode = getattr(self, "mode", "fresh")
        self.attrs += [k for k in (order or list(kw)) if not (ctor and k in ctor) and k not in self.attrs]
        if mode.startswith("set:"):
            # history in which exactly one attribute is assigned between two uses
            k = mode[4:]
            if k not in kw or ctor and k in ctor:
                return self.new(path, *pos, **kw)
            self.enter_prime(kw[k])
            if prime1 and k in prime1:
                pv = prime1[k]
            elif prime and k in prime:
                pv = prime[k]
            else:
                pv = self.primed(kw[k])
            o = self.new(path, *pos, **dict(kw, **{k: pv}))
            if warm is not None:
                warm(o)
            self.set(o, k, kw[k])
            return o
        if mode != "set":
            return self.new(path, *pos, **kw)
        self.enter_prime()
        pk = {k: prime[k] if prime and k in prime else self.primed(v) for k, v in kw.items()}
        o = self.new(path, *[self.primed(v) for v in pos], **pk)
        if warm is not None:
            # used once at other arguments, then at the same ones
            self.warming = True
            try:
                warm(o)
            finally:
                self.warming = False
            warm(o)
        for k in (order or list(kw)):
            if ctor and k in ctor:
                continue
            self.set(o, k, kw[k])
        if warm is not None and not self.symbolic:
            # used once more, with other values in the same arrays
            self.warming = True
            try:
                warm(o)
            finally:
                self.warming = False
        return o

    def integral(self, name):
        """modes 'int' and 'mixed': all (every other) array arguments hold integers"""
        mode = getattr(self, "mode", "fresh")
        if mode == "int":
            return True
        if mode != "mixed":
            return False
        base = name.split(".")[0]
        if base not in self.mixed:
            self.mixed[base] = len(self.mixed) % 2 == 0
        return self.mixed[base]

    def primed(self, v):
        if isinstance(v, bool):
            return not v
        if isinstance(v, str):
            t = {"x": "y", "y": "z", "z": "x"}
            return t.get(v) or t.get(v.lower(), v.lower()).upper() if v.lower() in t else v
        if v is None:
            return v
        return self._primed(v)

    def name(self, n):
        return n + "'" * self.prime if self.prime else n

    def S(self, name, sign=None, kind="real", axes=()):
        nm = self.name(name)
        s = T.sym(nm, kind, sign)
        self._declare(s, axes)
        return s


def _syms(v):
    if isinstance(v, T.Node):
        return set(T.symbols(v))
    if isinstance(v, Arr):
        return set().union(*[_syms(x) for x in v.data.ravel()]) if v.data.size else set()
    if isinstance(v, (list, tuple)):
        return set().union(*[_syms(x) for x in v]) if len(v) else set()
    return set()


AXN = {}


def symaxis(a):
    if isinstance(a, (int, Dim)):
        return a
    if isinstance(a, tuple):            # several axes flattened together, C order
        return npmodel.Prod(tuple(symaxis(x) for x in a))
    if isinstance(a, str) and a.startswith("1:"):
        return OnesPack(a[2:])          # as many unit axes as the pack has axes
    if isinstance(a, str) and a.startswith("#"):
        return Dim(a[1:])
    return Pack(a)


def _register(axes, s):
    for a in axes:
        if isinstance(a, str) and a.startswith("#"):
            register_generic(a[1:], [s])


def frame_rules(a, b, o):
    r = []
    for p, q in ((a, a), (a, b), (a, o), (b, b), (b, o), (o, o)):
        r.append((p[2] * q[2], (T.ONE if p is q else T.ZERO) - p[0] * q[0] - p[1] * q[1]))
    return r


def frame_fix(env, a, b, o):
    if not any(x in env for x in a + b + o):
        return
    u = [mp.mpmathify(env.get(x, 0)) if not hasattr(env.get(x, 0), "denominator") or isinstance(env.get(x, 0), int) else mp.mpf(int(env[x].numerator)) / int(env[x].denominator) for x in o]
    n = mp.sqrt(sum(x * x for x in u))
    if n == 0:
        u, n = [mp.mpf(1), mp.mpf(0), mp.mpf(0)], mp.mpf(1)
    u = [x / n for x in u]
    t = mp.mpf(float(env.get(a[0], 0)))
    w = [mp.mpf("0.3"), mp.mpf("-0.8"), mp.mpf("0.5") + t / 7]
    d = sum(x * y for x, y in zip(w, u))
    aa = [x - d * y for x, y in zip(w, u)]
    na = mp.sqrt(sum(x * x for x in aa))
    aa = [x / na for x in aa]
    bb = [u[1] * aa[2] - u[2] * aa[1], u[2] * aa[0] - u[0] * aa[2], u[0] * aa[1] - u[1] * aa[0]]
    for x, y in zip(a + b + o, aa + bb + u):
        env[x] = y


class SymB(Backend):
    symbolic = True

    def __init__(self, case, I):
        Backend.__init__(self, case)
        self.I = I
        self.arrs = []

    def assume(self, f):
        self.pre.append(f)
        self.I.assume(f)

    def some(self, f):
        """some element satisfies f: the generic element is that one"""
        self.assume(f)

    def ghost(self, name, term, sign=None, axes=(), neg=False):
        """a ghost variable defined by `term` (over inputs and earlier ghosts)"""
        g = self.S(name, sign, "real", axes)
        del self.inputs[g]
        if g in CTX.gdefs:
            return g
        full = T.subst(term, CTX.gdefs)
        CTX.gdefs[g] = full
        env = CTX.ghost_env
        if not env:
            smp = prover.Sampler(self.case.hints, seed=11)
            for s_ in T.symbols(full):
                env[s_] = mp.mpf(smp.value(s_))
        smp = prover.Sampler(self.case.hints, seed=12 + len(env))
        for s_ in list(T.symbols(full)) + list(self.inputs):
            if s_ not in env:
                env[s_] = mp.mpf(smp.value(s_)) if T.SYM_ATTR[s_.args[0]][0] != "complex" else mp.mpc(smp.value(s_))
        env[g] = numeric.evaluate(full, env, {})
        CTX.ghosts.append((full, env[g], g))
        if neg:
            CTX.ghosts.append((T.neg(full), -env[g], T.neg(g)))

        def fixer(e, g=g, full=full):
            for s_ in T.symbols(full):
                if s_ not in e:
                    e[s_] = mp.mpf(smp.value(s_))
            e[g] = numeric.evaluate(full, e, {})
        CTX.add(("ghost", name), (), fixer)
        return g

    def enter_prime(self, only=None):
        self.pmap = {}
        keep = None if only is None else _syms(only)
        for s in list(self.inputs):
            if keep is not None and s not in keep:
                continue
            kind, sign = T.SYM_ATTR[s.args[0]]
            self.pmap[s] = T.sym(s.args[0] + "'", kind, sign)
        for f in self.pre:
            g = T.subst(f, self.pmap)
            if g is not f:
                self.I.assume(g)

    def _primed(self, v):
        if isinstance(v, T.Node):
            return T.subst(v, self.pmap)
        if isinstance(v, (int, float, complex)):
            return v * 1.5
        if isinstance(v, (list, tuple)):
            return type(v)(self._primed(x) for x in v)
        if isinstance(v, Arr):
            d = np.empty(v.data.shape, dtype=object)
            for ix in np.ndindex(*d.shape):
                d[ix] = T.subst(v.data[ix], self.pmap)
            return Arr(v.axes, d, v.dtype)
        return v

    def scalar(self, name, sign=None, kind="real"):
        return self.S(name, sign, kind)

    def vec(self, name, n=3, sign=None, kind="real"):
        d = np.empty((n,), dtype=object)
        for i in range(n):
            d[i] = self.S("%s.%d" % (name, i), sign, kind)
        a = Arr((n,), d, "c" if kind == "complex" else "i" if self.integral(name) else "f")
        a.buf.owner = "caller:" + name
        self.arrs.append((name, a))
        return a

    def array(self, name, axes, sign=None, kind="real", signs=None):
        """axes: ints, 'p' (arbitrary leading shape), '#n' (one symbolic axis)"""
        shape = tuple(a for a in axes if isinstance(a, int))
        sy = [a for a in axes if not isinstance(a, int)]
        d = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            nm = name + "".join(".%d" % i for i in ix)
            s = self.S(nm, (signs or {}).get(ix[0] if ix else None, sign), kind, sy)
            _register(sy, s)
            d[ix] = s
        a = Arr(tuple(symaxis(x) for x in axes), d, "c" if kind == "complex" else "i" if self.integral(name) else "f")
        a.buf.owner = "caller:" + name
        self.arrs.append((name, a))
        return a

    def unit(self, name, scale=None):
        """a unit vector (times an optional positive scalar)"""
        u = [self.S("%s.%d" % (name, i)) for i in range(3)]
        u2 = u[0] * u[0] + u[1] * u[1] + u[2] * u[2]

        def fixer(env, u=u):
            if all(x in env for x in u):
                n = mp.sqrt(sum(mp.mpf(float(env[x])) ** 2 if not isinstance(env[x], mp.mpf) else env[x] ** 2 for x in u))
                if n == 0:
                    env[u[0]], n = mp.mpf(1), mp.mpf(1)
                for x in u:
                    env[x] = mp.mpmathify(env[x] if not hasattr(env[x], "denominator") or isinstance(env[x], int) else mp.mpf(int(env[x].numerator)) / int(env[x].denominator)) / n
            elif any(x in env for x in u):
                # partially substituted (special orientation): complete if possible
                pass
        CTX.add(("unit", name), [(u[2] ** 2, T.ONE - u[0] ** 2 - u[1] ** 2)], fixer)
        self.assume(T.eq(u2, T.ONE))
        d = np.empty((3,), dtype=object)
        for i in range(3):
            d[i] = u[i] if scale is None else scale * u[i]
        a = Arr((3,), d, "f")
        a.buf.owner = "caller:" + name
        self.arrs.append((name, a))
        return a

    def frame(self, name, scale=None):
        """a right-handed orthonormal frame (a, b, o), arbitrary; returns the
        vector scale*o as handed to the code and the three component lists"""
        a = [self.S("%s.a%d" % (name, i)) for i in range(3)]
        b = [self.S("%s.b%d" % (name, i)) for i in range(3)]
        o = [self.S("%s.o%d" % (name, i)) for i in range(3)]
        CTX.add(("frame", name), frame_rules(a, b, o), lambda env: frame_fix(env, a, b, o))
        CTX.frames[name] = (a, b, o)
        self.assume(T.eq(o[0] * o[0] + o[1] * o[1] + o[2] * o[2], T.ONE))
        d = np.empty((3,), dtype=object)
        for i in range(3):
            d[i] = o[i] if scale is None else scale * o[i]
        arr = Arr((3,), d, "f")
        arr.buf.owner = "caller:" + name
        self.arrs.append((name, arr))
        return arr, (a, b, o)

    def inframe(self, base, d, fr, name="xyz"):
        """base + d.0 a + d.1 b + d.2 o, handed to the code"""
        d = to_arr(d)
        base = to_arr(base)
        out = np.empty((3,), dtype=object)
        for i in range(3):
            out[i] = base.data[i] + d.data[0] * fr[0][i] + d.data[1] * fr[1][i] + d.data[2] * fr[2][i]
        a = Arr(d.axes, out, "f")
        a.buf.owner = "caller:" + name
        self.arrs.append((name, a))
        return a

    def offset(self, base, d, name="xyz", dname="d"):
        """base + d, handed to the code as a caller-owned array"""
        from .arrays import elementwise
        base, d = to_arr(base), to_arr(d)
        if base.axes == (3,) and d.axes[-1] == 2:
            base = Arr((2,), base.data[:2], base.dtype)
        a = elementwise(T.add, base, d)
        a = Arr(a.axes, a.data.copy(), a.dtype)
        a.buf.owner = "caller:" + name
        self.arrs.append((name, a))
        return a

    def pin(self, a, i, v):
        """fix one component of an input vector"""
        a.data[i] = T.num(v)
        for nm, x in list(self.arrs):
            if x is a:
                self.arrs.append((nm, a))
                break

    def ndim(self, a):
        return self.I.getattr(a, "ndim")

    def shape(self, a):
        return to_arr(a).axes

    def comp(self, a, *ix):
        """term of a concrete component of an array input"""
        v = to_arr(a).data[ix] if ix else to_arr(a).data[()]
        return v

    # -- program ------------------------------------------------------------
    def _resolve(self, path):
        parts = path.split(".")
        for k in range(len(parts), 0, -1):
            nm = ".".join(parts[:k])
            try:
                m = self.I.load(nm)
            except PyRaise:
                continue
            o = m
            for p in parts[k:]:
                o = self.I.getattr(o, p)
            return o
        raise Unsupported("cannot resolve " + path)

    def new(self, path, *args, **kw):
        return self.I.call(self._resolve(path), list(args), kw)

    def fn(self, path, *args, **kw):
        return self.I.call(self._resolve(path), list(args), kw)

    def call(self, obj, meth, *args, **kw):
        args, kw = self._args(args, kw)
        return self.I.call(self.I.getattr(obj, meth), args, kw)

    def get(self, obj, attr):
        return self.I.getattr(obj, attr)

    def set(self, obj, attr, v):
        self.I.setattr(obj, attr, v)

    def shifted(self, v, by):
        return Arr(v.axes, np.array([x + by for x in v.data.ravel()] + [None], dtype=object)[:-1].reshape(v.data.shape), v.dtype)

    def const(self, v):
        """a literal argument"""
        if isinstance(v, np.ndarray):
            a = to_arr(v.tolist())
            return Arr(a.axes, a.data.copy(), "i" if v.dtype.kind == "i" else "b" if v.dtype.kind == "b" else "f")
        if isinstance(v, float):
            return T.num(v)
        return v

    def raises(self, thunk):
        try:
            thunk()
        except PyRaise as e:
            return type(e.exc)
        return None


class RealB(Backend):
    def __init__(self, case, dims, rng, env=None, form="array", hints=None):
        Backend.__init__(self, case)
        self.dims = dims
        self.rng = rng
        self.env = env or {}
        self.vals = {}
        self.form = form
        self.sampler = prover.Sampler(hints or case.hints)
        self.sampler.rng = rng
        self.passed = []
        self.exists = []
        self.special = {}
        self.offsets = False
        self.near = 0
        self.coarse = rng.random() < 0.6        # short binary fractions, or all the digits of a double

    def assume(self, f):
        # evaluated on every element by check_pre
        self.pre.append(f)

    def some(self, f):
        self.exists.append(f)

    def ghost(self, name, term, sign=None, axes=(), neg=False):
        s = self.S(name, sign, "real", axes)
        v = np.empty(self._shape(axes))
        self.vals.pop(s, None)
        for at, env in self.envs(axes):
            v[tuple(i for a in axes for i in at[a])] = float(numeric.evaluate(term, env, {}))
        self.vals[s] = v
        return s

    def enter_prime(self, only=None):
        pass

    def _primed(self, v):
        if not self.warming and not isinstance(v, (int, list, tuple)):
            w = self._known_prime(v)
            if w is not None:
                return w
            if self.near:
                return v * (1 + self.near)
        if isinstance(v, (int, float, complex)):
            return v * 1.5
        if isinstance(v, np.ndarray):
            return v * 1.5 + (0.25 * np.sign(v) if not self.warming and v.ndim and v.dtype.kind != "c" and (v < 0).any() else 0)
        if isinstance(v, (list, tuple)):
            return type(v)(self._primed(x) for x in v)
        return v

    def _known_prime(self, v):
        """the earlier value of an attribute in the counterexample being replayed"""
        ps = {s.args[0][:-1]: x for s, x in self.env.items() if s.args[0].endswith("'")}
        if not ps:
            return None
        if not isinstance(v, np.ndarray):
            nm = [s.args[0] for s, x in self.vals.items() if np.ndim(x) == 0 and s.args[0] in ps and x == v]
            return type(v)(ps[nm[0]]) if len(nm) == 1 else None
        nm = [n for n, a, _ in self.passed if a is v]
        if not nm:
            return None
        if v.ndim == 0 or nm[0] in ps and v.size:
            if nm[0] not in ps:
                return None
            w = v.astype(v.dtype if v.dtype.kind == "c" else float) * 1.5
            w[(0,) * v.ndim] = ps[nm[0]]
            return w
        got = [k for k in range(v.shape[0]) if "%s.%d" % (nm[0], k) in ps]
        if v.ndim != 1 or len(got) != v.shape[0]:
            return None
        return np.array([ps["%s.%d" % (nm[0], k)] for k in got])

    def _shape(self, axes):
        out = ()
        for a in axes:
            if isinstance(a, tuple):
                n = 1
                for x in self._shape(a):
                    n *= x
                out += (n,)
            elif isinstance(a, str) and a.startswith("1:"):
                out += (1,) * len(self.dims[a[2:]])
            else:
                out += tuple(self.dims[a]) if isinstance(a, str) else (a,)
        return out

    def _shape_list(self, a):
        return tuple(n for x in a for n in self.dims[x])

    def ndim(self, a):
        return np.ndim(a)

    def _draw(self, s):
        sh = self._shape(self.inputs[s])
        kind = T.SYM_ATTR[s.args[0]][0]
        v = np.empty(sh, dtype=complex if kind == "complex" else float)
        base = self.env.get(s)
        it = list(np.ndindex(*sh))
        for ix in it:
            x = self.sampler.value(s)
            if isinstance(x, float) and abs(x) > 1e-3 and self.coarse:
                x = round(x * 4096) / 4096.0 or 1.0 / 4096
            v[ix] = x
        if base is not None and it:
            first = it[0]
            b = complex(base) if kind == "complex" else float(base)
            v[first] = b
        nm = s.args[0]
        if self.form == "cluster" and len(it) > 1 and kind != "int":
            # elements that are (nearly) the same
            h = self.rng.choice([0.0, 4e-6, 3e-3, None])
            if h is not None:
                for k, ix in enumerate(it[1:]):
                    v[ix] = v[it[0]] * (1 + h * ((k % 3) - 1.5) / 2)
        if self.form == "map" and nm in MAP:
            # a source given in map coordinates: the offsets stay what they are
            v = np.round(v * 16) / 16 + MAP[nm]
        if nm in self.special and it:
            sv = self.special[nm]
            if isinstance(sv, (list, tuple)):
                for k, x in enumerate(sv):
                    if k < len(it) and x is not None:
                        v[it[k]] = x
            else:
                v[it[0]] = sv
        if kind == "real" and (self.form == "int" or self.integral(nm)):
            v = np.where(np.round(v) == 0, np.sign(v) + (v == 0), np.round(v))
        self.vals[s] = v
        return v

    def scalar(self, name, sign=None, kind="real"):
        s = self.S(name, sign, kind)
        if kind == "int":
            v = int(round(float(self._draw(s)[()])))
            self.vals[s] = np.asarray(v)
            return v
        v = self._draw(s)[()]
        return complex(v) if kind == "complex" else float(v)

    def _pass(self, arr, nm=""):
        a = arr
        if self.form == "list":
            return a.tolist()
        if (self.form == "int" or self.integral(nm)) and a.dtype.kind == "f" and np.all(a == np.round(a)):
            a = a.astype(int)
        elif self.form == "fortran":
            a = np.asfortranarray(a)
        elif self.form == "strided":
            b = np.zeros(tuple(2 * n for n in a.shape), dtype=a.dtype)
            sl = tuple(slice(None, None, 2) for _ in a.shape)
            b[sl] = a
            a = b[sl]
        elif self.form == "readonly":
            a = a.copy()
            a.setflags(write=False)
        else:
            a = a.copy()
        if isinstance(a, np.ndarray):
            self.passed.append((nm, a, a.copy()))
        return a

    def vec(self, name, n=3, sign=None, kind="real"):
        v = [self._draw(self.S("%s.%d" % (name, i), sign, kind))[()] for i in range(n)]
        return self._pass(np.array(v), name)

    def unit(self, name, scale=None):
        ss = [self.S("%s.%d" % (name, i)) for i in range(3)]
        v = np.array([float(self._draw(s)[()]) for s in ss])
        n = np.linalg.norm(v)
        if n == 0:
            v, n = np.array([1.0, 0, 0]), 1.0
        v = v / n
        # exact direction of the floating-point vector, at high precision
        m = mp.sqrt(sum(mp.mpf(float(x)) ** 2 for x in v))
        for s, x in zip(ss, v):
            self.vals[s] = np.array(mp.mpf(float(x)) / m, dtype=object)
        if scale is not None:
            v = v * scale
        return self._pass(v, name)

    def frame(self, name, scale=None):
        ss = [[self.S("%s.%s%d" % (name, c, i)) for i in range(3)] for c in "abo"]
        v = np.array([float(self._draw(s)[()]) for s in ss[2]])
        n = np.linalg.norm(v)
        if n == 0:
            v, n = np.array([1.0, 0, 0]), 1.0
        v = v / n
        env = {s: mp.mpf(float(x)) for s, x in zip(ss[2], v)}
        env[ss[0][0]] = mp.mpf(self.rng.uniform(-1, 1))
        frame_fix(env, *ss)
        for row in ss:
            for s in row:
                self.vals[s] = np.array(env[s], dtype=object)
        fr = [[env[s] for s in row] for row in ss]
        if scale is not None:
            v = v * scale
        return self._pass(v, name), fr

    def inframe(self, base, d, fr, name="xyz"):
        d = np.asarray(d, dtype=float)
        base = np.asarray(base, dtype=float)
        out = np.empty(d.shape)
        for ix in np.ndindex(*d.shape[:-1]):
            for i in range(3):
                out[ix + (i,)] = float(mp.mpf(float(base[i])) + sum(mp.mpf(float(d[ix + (j,)])) * fr[j][i] for j in range(3)))
        return self._pass(out, name)

    def array(self, name, axes, sign=None, kind="real", signs=None):
        shape = tuple(a for a in axes if isinstance(a, int))
        sy = [a for a in axes if not isinstance(a, int)]
        full = np.empty(self._shape(axes), dtype=complex if kind == "complex" else float)
        pos = []
        k = 0
        for a in axes:
            n = len(self.dims[a]) if isinstance(a, str) else 1
            pos.append((k, n))
            k += n
        for ix in np.ndindex(*shape):
            s = self.S(name + "".join(".%d" % i for i in ix), (signs or {}).get(ix[0] if ix else None, sign), kind, sy)
            v = self._draw(s)
            sl, j = [], 0
            for a, (p, n) in zip(axes, pos):
                if isinstance(a, int):
                    sl.append(ix[j])
                    j += 1
                else:
                    sl.extend([slice(None)] * n)
            full[tuple(sl)] = v
        return self._pass(full, name)

    def offset(self, base, d, name="xyz", dname="d"):
        self.offsets = True
        base, d = np.asarray(base, dtype=float), np.asarray(d, dtype=float)
        if base.shape == (3,) and d.shape[-1] == 2:
            base = base[:2]
        a = base + d
        # the offset the code can actually see after rounding
        eff = a - base
        for s, v in list(self.vals.items()):
            nm = s.args[0]
            if nm.rsplit(".", 1)[0] == dname and nm.rsplit(".", 1)[-1].isdigit():
                self.vals[s] = np.asarray(eff[..., int(nm.rsplit(".", 1)[1])])
        return self._pass(a, name)

    def pin(self, a, i, v):
        a[i] = v
        self.passed = [(n, x, x.copy() if x is a else c) for n, x, c in self.passed]

    def shape(self, a):
        return np.shape(a)

    def comp(self, a, *ix):
        raise RuntimeError("comp is symbolic only")

    def _resolve(self, path):
        import importlib
        parts = path.split(".")
        for k in range(len(parts), 0, -1):
            try:
                o = importlib.import_module(".".join(parts[:k]))
            except ModuleNotFoundError:
                continue
            for p in parts[k:]:
                o = getattr(o, p)
            return o
        raise RuntimeError(path)

    def new(self, path, *args, **kw):
        return self._resolve(path)(*args, **kw)

    fn = new

    def call(self, obj, meth, *args, **kw):
        if self.warming:
            # the earlier use saw other values in the very same array objects
            own = [a for a in list(args) + list(kw.values()) if isinstance(a, np.ndarray) and a.flags.writeable and a.flags.owndata]
            old = [a.copy() for a in own]
            try:
                for a in own:
                    a[...] = self.primed(a)
                p = lambda v: v if any(v is a for a in own) or isinstance(v, (bool, str, int)) or v is None else self.primed(v)
                r = getattr(obj, meth)(*[p(a) for a in args], **{k: p(v) for k, v in kw.items()})
                # ... and its caller went on to use the answer as scratch space
                for x in r if isinstance(r, (list, tuple)) else [r]:
                    if isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind in "fc" and not any(np.shares_memory(x, a) for a in list(args) + list(kw.values()) if isinstance(a, np.ndarray)):
                        x[...] = np.nan
                return r
            finally:
                for a, o in zip(own, old):
                    a[...] = o
        return getattr(obj, meth)(*args, **kw)

    def get(self, obj, attr):
        return getattr(obj, attr)

    def set(self, obj, attr, v):
        setattr(obj, attr, v)

    def shifted(self, v, by):
        return np.asarray(v) + by

    def const(self, v):
        if isinstance(v, np.ndarray):
            return v.copy()
        return v

    def raises(self, thunk):
        try:
            thunk()
        except Exception as e:
            return type(e)
        return None

    def envs(self, axes):
        """(index, env) for every element of a result with the given axes"""
        names = [x for a in axes for x in (a if isinstance(a, tuple) else (a,)) if isinstance(x, str) and not x.startswith("1:")]
        shapes = [tuple(self.dims[a]) for a in names]
        for ix in itertools.product(*[list(np.ndindex(*s)) for s in shapes]):
            at = dict(zip(names, ix))
            env = {}
            for s, sax in self.inputs.items():
                v = self.vals.get(s)
                if v is None:
                    continue
                try:
                    sub = tuple(i for a in sax for i in at[a])
                except KeyError:
                    sub = tuple(0 for a in sax for i in self.dims[a])
                env[s] = v[sub].item() if not (v.dtype == object) else v[sub] if v.ndim else v[()]
            for a, i in at.items():
                if a.startswith("#"):
                    env[index_sym(a[1:])] = i[0]
                    env[dimlen(Dim(a[1:]))] = self.dims[a][0]
            env.update(CONSTS())
            yield at, env


_consts = {}


def CONSTS():
    if not _consts:
        import scipy.constants as sc
        from . import npmodel
        for k, n in npmodel.CONST_SYMS.items():
            _consts[n] = getattr(sc, k)
    return _consts


class Result:
    """one obligation"""

    def __init__(self, case, label, status, how="", env=None, detail="", model=None):
        self.case, self.label, self.status, self.how, self.env, self.detail = case, label, status, how, env, detail
        self.model = model

    def row(self):
        return dict(case=self.case, label=self.label, status=self.status, how=self.how, detail=self.detail[:300],
                    env=None if self.env is None else {k.args[0]: str(v) for k, v in self.env.items()})


def as_items(v):
    return v if isinstance(v, list) else [v]


# ================================================================= symbolic run
def run_symbolic(case):
    """-> (results, functions called).  Raises Unsupported when the code is
    outside the interpreter's reach."""
    results = []
    called = {}
    cover = False
    CTX.reset()
    modes = list(case.modes)
    case.memo = {}
    for mode in modes:
        I = Interp(realpkg.REPO, contracts=dict(case.contracts), **case.interp_kw)

        def scen(I_, mode=mode):
            T._fresh[0] = 0
            npmodel.SQUEEZED.clear()
            b = SymB(case, I_)
            b.mode = mode
            I_.backend = b
            r = case.scenario(b)
            return (b, as_items(r))
        outs = I.explore(scen)
        for k, v in I.called.items():
            called[k] = called.get(k, 0) + v
        if not outs:
            results.append(Result(case.cid, "reachable", "vacuous", "no feasible path"))
            continue
        for oi, o in enumerate(outs):
            pre = "%s/path%d" % (mode, oi)
            feas = solve.check(o.pc, timeout=3000)
            if feas == "unsat":
                continue
            if o.kind == "raise":
                m = prover.sample_refute(T.ZERO, T.ONE, o.pc, case.hints)
                results.append(Result(case.cid, pre + "/no-exception", "refuted" if m else "unknown",
                                      "raises %s: %s" % (type(o.value).__name__, str(o.value)[:120]), m[0] if m else None,
                                      "; ".join(T.show(f)[:80] for f in o.pc[-4:])))
                continue
            cover = True
            b, items = o.value
            if mode == "set" and case.singles:
                for k in b.attrs:
                    if "set:" + k not in modes:
                        modes.append("set:" + k)
            for it in items:
                results.extend(_prove_item(case, b, it, o.pc, pre))
    if not cover and not any(r.status == "refuted" for r in results):
        results.append(Result(case.cid, "cover", "vacuous", "no path returns"))
    return results, called


def _prove_item(case, b, it, pc, pre):
    if isinstance(it, Holds):
        c = it.cond
        lab = pre + "/" + it.label
        if isinstance(c, (bool, np.bool_)):
            if c:
                return [Result(case.cid, lab, "proved", "direct")]
            m = prover.sample_refute(T.ZERO, T.ONE, pc, case.hints)
            return [Result(case.cid, lab, "refuted", "condition false on this path", m[0] if m else {})]
        if isinstance(c, Arr):
            c = c.data[()] if not c.data.shape else T.land(*c.data.ravel())
        v = prover.prove(c, pc, case.hints)
        return [Result(case.cid, lab, v.status, v.how, v.env, v.detail)]
    if isinstance(it, Result):
        it.label = pre + "/" + it.label
        return [it]
    got, want = it.got, it.want
    if npmodel.SQUEEZED and isinstance(want, Want) and not want.squeeze:
        raise Unsupported("squeeze of symbolic axes")
    lab0 = pre + "/" + it.label
    if isinstance(want, Want):
        try:
            g = to_arr(got)
        except Exception:
            m = prover.sample_refute(T.ZERO, T.ONE, pc, case.hints)
            return [Result(case.cid, lab0 + "/array", "refuted", "returns %s, not an array" % type(got).__name__, m[0] if m else None)]
        wax = tuple(symaxis(a) for a in want.axes)
        if want.squeeze and g.axes != wax and tuple(a for a in g.axes if a != 1) == tuple(a for a in wax if a != 1):
            g = Arr(wax, g.data.reshape(tuple(a for a in wax if isinstance(a, int))), g.dtype)
        if g.axes != wax:
            m = prover.sample_refute(T.ZERO, T.ONE, pc, case.hints)
            st = "refuted"
            return [Result(case.cid, lab0 + "/shape", st, "result axes %r, contract %r" % (g.axes, wax), m[0] if m else None)]
        out = [Result(case.cid, lab0 + "/shape", "proved", "direct")]
        # the generic index lies in the axis
        pc = list(pc) + [T.lt(index_sym(a.name), dimlen(a)) for a in wax if isinstance(a, Dim)]
        for ix, w in want.items():
            v = g.data[ix]
            lab = lab0 + ("[%s]" % ",".join(map(str, ix)) if ix else "")
            CTX.scale = want.scale if isinstance(want.scale, T.Node) else None
            r = _eq(case, lab, v, w, list(pc) + list(it.pre))
            CTX.scale = None
            if r.status == "refuted":
                r.track = (it.label, ix, v)
            out.append(r)
        return out
    if isinstance(got, Arr) and got.scalar:
        got = got.item()
    if isinstance(want, T.Node) or isinstance(want, (int, float, complex)) and not isinstance(want, bool):
        if isinstance(got, (T.Node, int, float, complex)):
            return [_eq(case, lab0, got, want, list(pc) + list(it.pre))]
        m = prover.sample_refute(T.ZERO, T.ONE, pc, case.hints)
        return [Result(case.cid, lab0, "refuted", "returns %r" % (got,), m[0] if m else None)]
    ok = got is want or got == want
    m = None if ok else prover.sample_refute(T.ZERO, T.ONE, pc, case.hints)
    return [Result(case.cid, lab0, "proved" if ok else "refuted", "%r vs %r" % (got, want), m[0] if m else None)]


def _eq(case, lab, v, w, pc):
    v = T.num(v) if not isinstance(v, bool) else (T.TRUE if v else T.FALSE)
    if any(x.args[0].startswith("!poison") for x in T.symbols(v)):
        raise Unsupported("value left over from a symbolic loop")
    if is_formula(v) or is_formula(w):
        if is_formula(v) and is_formula(w):
            r = prover.prove(T.iff(v, w), pc, case.hints)
            return Result(case.cid, lab, r.status, r.how, r.env, r.detail)
        return Result(case.cid, lab, "unknown", "formula/term mix")
    w = T.num(w)
    key = (v, w, frozenset(pc))
    r = case.memo.get(key)
    if r is None:
        r = case.memo[key] = prover.prove_eq(v, w, pc, case.rules, case.hints, budget=case.budget, defined=case.defined)
    res = Result(case.cid, lab, r.status, r.how, r.env, r.detail)
    u = getattr(r, "undef", None)
    if u:
        res.undef = u
    return res


# ===================================================================== real run
LEADS = [(), (3,), (2, 3), (1,), (5,), (1, 2), (2, 1, 2), (7,)]


def run_real_once(case, dims, rng, env=None, form="array", mode="fresh", special=None, track=None):
    """-> list of failure dicts; raises Skip if outside the precondition"""
    b = RealB(case, dims, rng, env, form)
    if mode.endswith("~"):
        # the earlier attribute values differ by a few parts in a million
        mode, b.near = mode[:-1], 4e-6
    b.mode = mode
    if special:
        b.special = special
    with np.errstate(all="ignore"):
        try:
            items = as_items(case.scenario(b))
            exc = None
        except Skip:
            raise
        except Exception as e:
            exc = e
            items = None
    # precondition on every element
    names = sorted({a for s, sax in b.inputs.items() for a in sax})
    for f in b.pre:
        for at, env_ in b.envs(names):
            try:
                if not numeric.evaluate(f, env_):
                    raise Skip()
            except numeric.EvalError:
                pass
    for f in b.exists:
        if not any(numeric.evaluate(f, env_) for at, env_ in b.envs(names)):
            raise Skip()
    desc = dict(form=form, mode=mode, dims={k: list(v) for k, v in dims.items()},
                inputs={s.args[0]: (np.asarray(v, dtype=float).tolist() if np.asarray(v).dtype == object else np.asarray(v).tolist()) if np.asarray(v).dtype.kind != "c" else str(np.asarray(v).tolist())
                        for s, v in b.vals.items()})
    if exc is not None:
        return [dict(desc, what="exception", label="no-exception",
                     got="%s: %s" % (type(exc).__name__, exc), want="a value")], b
    fails = []
    for it in items:
        if isinstance(it, Holds):
            if not np.all(np.asarray(it.cond)):
                fails.append(dict(desc, what="condition", label=it.label, got="False", want="True"))
            continue
        if isinstance(it, Result):
            continue
        fails.extend(_check_item(case, b, it, desc, track if track and track[0] == it.label else None))
    return fails, b


def _check_item(case, b, it, desc, track=None):
    got, want = it.got, it.want
    tol = b.special.get("!tol") or it.tol or (want.tol if isinstance(want, Want) and want.tol else None) or case.tol
    fails = []
    if not isinstance(want, Want):
        if isinstance(want, T.Node):
            want = Want((), want)
        else:
            ok = got is want or bool(np.all(got == want)) if not isinstance(want, float) else np.allclose(got, want, rtol=tol)
            if not ok:
                fails.append(dict(desc, what="value", label=it.label, got=repr(got)[:200], want=repr(want)[:200]))
            return fails
    g = np.asarray(got)
    sh = b._shape(want.axes)
    if want.squeeze:
        if g.shape != tuple(x for x in sh if x != 1):
            return [dict(desc, what="shape", label=it.label, got=str(g.shape), want="%s squeezed" % (sh,))]
        g = g.reshape(sh)
    if g.shape != sh:
        return [dict(desc, what="shape", label=it.label, got=str(g.shape), want=str(sh))]
    if g.dtype == object:
        return [dict(desc, what="dtype", label=it.label, got=str(g.dtype), want="numeric")]
    for at, env in b.envs(want.axes):
        skip = False
        for f in it.pre:
            try:
                if not numeric.evaluate(f, env):
                    skip = True
            except numeric.EvalError:
                skip = True
        if skip:
            continue
        memo = {}
        rows = []
        for ix, w in want.items():
            sl, j = [], 0
            for a in want.axes:
                if isinstance(a, int):
                    sl.append(ix[j])
                    j += 1
                elif isinstance(a, tuple):
                    sl.append(int(np.ravel_multi_index(tuple(i for x in a for i in at[x]), b._shape_list(a))))
                elif a.startswith("1:"):
                    sl.extend([0] * len(b.dims[a[2:]]))
                else:
                    sl.extend(at[a])
            gv = g[tuple(sl)]
            try:
                wv = numeric.evaluate(w, env, memo)
            except numeric.EvalError:
                continue
            except (ZeroDivisionError, ValueError, OverflowError):
                continue
            rows.append((ix, tuple(sl), gv, wv))
        scale = mp.mpf(0)
        for _, _, gv, wv in rows:
            if not isinstance(wv, bool) and not numeric._isnan(wv) and not mp.isinf(wv):
                scale = max(scale, abs(wv))
        if isinstance(want.scale, T.Node):
            try:
                scale = max(scale, abs(numeric.evaluate(want.scale, env, memo)))
            except (numeric.EvalError, ZeroDivisionError, ValueError, OverflowError):
                pass
        for ix, sl, gv, wv in rows:
            bad = False
            if isinstance(wv, bool):
                bad = bool(gv) != wv
            elif numeric._isnan(wv):
                bad = not np.isnan(gv)
            elif not np.isfinite(gv):
                bad = True
            else:
                d = abs(mp.mpmathify(complex(gv) if np.iscomplexobj(gv) else float(gv)) - wv)
                ref = scale if want.scale is not None else abs(wv) + scale * mp.mpf(10) ** (-6)
                bad = d > tol * ref + mp.mpf(10) ** (-290)
                if not bad and track and track[1] == ix and want.scale != "vec":
                    bad = _follows(track[2], gv, wv, env, scale)
            if bad:
                fails.append(dict(desc, what="value", label=it.label + str(list(ix)), index=[int(i) for i in sl],
                                  got=repr(gv), want=mp.nstr(wv, 17) if not isinstance(wv, bool) else str(wv)))
                if len(fails) > 5:
                    return fails
    return fails


def _follows(term, gv, wv, env, scale):
    """the verifier's computed value (refuted) differs from the contract and
    the real code returns that computed value and not the contract's: the two
    differ by a margin (1e-6 of the contract's value, and above rounding of the
    whole) that the double result resolves a thousandfold"""
    try:
        cv = numeric.evaluate(T.num(term), env, {})
    except Exception:
        return False
    if isinstance(cv, bool) or numeric._isnan(cv) or mp.isinf(cv):
        return False
    g = mp.mpmathify(complex(gv) if np.iscomplexobj(gv) else float(gv))
    return abs(wv) > 0 and abs(cv - wv) > max(abs(wv) * mp.mpf(10) ** (-6), scale * mp.mpf(10) ** (-13)) and abs(g - cv) < abs(cv - wv) / 1000


MAP = {"loc.0": 706216.0, "loc.1": 4269238.0, "lloc.0": 706216.0, "lloc.1": 4269238.0}


class Ones(dict):
    """every axis of length one: the counterexample's element is the array"""

    def __missing__(self, a):
        self[a] = (1,)
        return self[a]


def dims_for(case, k):
    """cycle through leading shapes; '#': 1-d axes"""
    leads = case.leads or LEADS

    class D(dict):
        def __missing__(self, a):
            if a.startswith("#"):
                v = ([3, 1, 4, 2, 5][(k + len(self)) % 5],)
            else:
                v = leads[k % len(leads)]
            self[a] = v
            return v
    return D()


def run_real(case, n, seed, extra_envs=(), deadline=None, track=None, clusters=0):
    """bounded run-time contract checking; -> (evaluations, fails)"""
    rng = random.Random(seed * 7919 + sum(map(ord, case.cid)))
    ev = 0
    fails = []
    jobs = []
    for env in extra_envs:
        for mode in case.modes:
            jobs.append((dims_for(case, 1), env, "array", mode, None))
            if case.leads is None or (1,) in case.leads:
                jobs.append((Ones(), env, "array", mode, None))
    for i, sp in enumerate(case.specials):
        jobs.append((dims_for(case, 1 + (i % 2)), None, "array", case.modes[i % len(case.modes)], sp))
    for i in range(n):
        jobs.append((dims_for(case, i), None, case.forms[i % len(case.forms)], case.modes[i % len(case.modes)], None))
    for i in range(clusters):
        jobs.append((dims_for(case, i), None, "cluster", "fresh" if "fresh" in case.modes else case.modes[0], None))
    skipped = 0
    one = "set" in case.modes and n
    far = n
    for dims, env, form, mode, sp in jobs:
        if deadline and time.time() > deadline:
            break
        for attempt in range(6):
            try:
                f, b = run_real_once(case, dims, rng, env, form, mode, sp, track)
            except Skip:
                skipped += 1
                continue
            ev += 1
            if one and b.attrs:
                jobs.extend((dims_for(case, 1 + i), None, "array", "set:" + k + t, None) for i, k in enumerate(b.attrs) for t in ("", "~"))
                one = False
            if far and b.offsets:
                jobs.extend((dims_for(case, i), None, "map", case.modes[0], None) for i in range(2))
                far = False
            if f:
                fails.extend(f)
            break
        if fails:
            break
    return ev, fails, skipped


# ===================================================================== lemmas
class Lemma:
    """statement over the specification functions alone: a property as a
    consequence of the contracts"""

    def __init__(self, lid, gen, hints=None, rules=()):
        self.lid, self.gen, self.hints, self.rules = lid, gen, hints or {}, rules

    def run(self):
        out = []
        CTX.reset()
        for item in self.gen():
            label, lhs, rhs, pc = (tuple(item) + ((),))[:4]
            if rhs is None:
                v = prover.prove(lhs, pc, self.hints)
            else:
                v = prover.prove_eq(lhs, rhs, list(pc), self.rules, self.hints, defined=False)
            out.append(Result(self.lid, label, v.status, v.how, v.env, v.detail))
        return out
