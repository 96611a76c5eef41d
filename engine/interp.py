"""Symbolic interpreter for the real Python source of geoana.

Modules are re-parsed from the repository on every run and executed function by
function over terms.  Branches on symbolic conditions fork paths; array code is
executed on generic elements (arrays.py); loops over symbolic sequences are
summarised by an inferred and checked invariant; calls to functions that carry
a contract are replaced by the contract, other calls are executed.
"""
import ast
import builtins as _bi
import os
import numpy as np
from fractions import Fraction
from . import terms as T
from . import solve, numeric
import mpmath as mp
from .ctx import CTX
from .nf import NF
from .terms import Node, TRUE, FALSE
from .nf import Unsupported
from .arrays import *
from .arrays import is_formula
from . import indexing as IX


class PyRaise(Exception):
    """an exception raised by the interpreted program"""

    def __init__(self, exc):
        self.exc = exc
        super().__init__(repr(exc))


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Infeasible(Exception):
    pass


class Bad:
    """a caller value that is not convertible to a number / array"""

    def __init__(self, what="object"):
        self.what = what

    def __repr__(self):
        return "<bad %s>" % self.what


class FnVal:
    def __init__(self, node, env, module, interp, cls=None, qual=None):
        self.node, self.env, self.module, self.interp, self.cls = node, env, module, interp, cls
        self.name = getattr(node, "name", "<lambda>")
        self.qual = qual or self.name
        self.defaults = []
        self.kw_defaults = []
        self.attrs = {}

    def __repr__(self):
        return "<fn %s>" % self.qual


class UfuncVal:
    def __init__(self, fn):
        self.fn = fn


class BoundM:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class ClassVal:
    def __init__(self, name, bases, ns, module):
        self.name, self.ns, self.module = name, ns, module
        self.bases = bases
        py = []
        for b in bases:
            if isinstance(b, ClassVal):
                py.append(b.pytype)
            elif isinstance(b, type):
                py.append(b)
            else:
                raise Unsupported("base class %r" % (b,))
        self.pytype = type(name, tuple(py) or (object,), {})
        self.pytype._cv = self
        self.qual = module + "." + name

    def mro(self):
        return [t.__dict__.get("_cv", t) if t is not object else object for t in self.pytype.__mro__]

    def lookup(self, name, after=None):
        seen = after is None
        for c in self.mro():
            if not seen:
                if c is after:
                    seen = True
                continue
            if isinstance(c, ClassVal) and name in c.ns:
                return c.ns[name], c
        return None, None

    def __repr__(self):
        return "<class %s>" % self.name


class PropVal:
    def __init__(self, fget=None, fset=None):
        self.fget, self.fset = fget, fset


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class Obj:
    def __init__(self, cls):
        self.cls = cls
        self.fields = {}
        self.writes = []

    def __repr__(self):
        return "<%s %s>" % (self.cls.name, self.fields)


class SuperVal:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Module:
    def __init__(self, name, ns=None):
        self.name = name
        self.ns = ns if ns is not None else {}

    def __repr__(self):
        return "<module %s>" % self.name


class SymRange:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class SymSeq:
    """iteration over a symbolic axis: yields one generic item per index"""

    def __init__(self, axis, item):
        self.axis, self.item = axis, item


class ShapeTuple(tuple):
    """shape of an array with symbolic axes; items are ints/terms/Pack markers"""


class Env:
    __slots__ = ("vars", "parent", "globs")

    def __init__(self, parent=None, globs=None):
        self.vars = {}
        self.parent = parent
        self.globs = globs


BUILTIN_EXC = {n: getattr(_bi, n) for n in dir(_bi) if isinstance(getattr(_bi, n), type) and issubclass(getattr(_bi, n), BaseException)}


def ghost_of(n):
    if n.op in ("num", "sym") or is_formula(n):
        return n
    try:
        x = numeric.evaluate(n, CTX.ghost_env, {})
    except Exception:
        return n
    for term, val, sym in CTX.ghosts:
        if abs(x - val) <= abs(val) * mp.mpf(10) ** -25:
            if n is term:
                return sym
            try:
                if NF(CTX.rules).is_zero(T.subst(n, CTX.gdefs) - term):
                    return sym
            except Exception:
                pass
    return n


class Interp:
    def __init__(self, root, overrides=None, contracts=None, import_fail=(), ext=None):
        self.root = root              # directory that contains geoana/
        self.modules = {}
        self.contracts = contracts or {}
        self.import_fail = set(import_fail) | {"numba", "numba.extending"}
        self.ext = ext or {}          # module name -> python AST source (extracted)
        self.pc = []
        self.prefix = []
        self.ptr = 0
        self.trace = []
        self.alts = []
        self.called = {}
        self.depth = 0
        self.steps = 0
        self.max_steps = 400000
        self.maxdepth = 60
        from . import npmodel
        npmodel.install(self)

    # ------------------------------------------------------------ paths
    def assume(self, f):
        if f is TRUE:
            return
        if f is FALSE:
            raise Infeasible()
        self.pc.append(f)

    def simp_any(self, f):
        """an existential over a symbolic axis is false when the facts known of
        every element (path conditions are about scalars or about all
        elements) contradict its body"""
        if not T.has_op(f, "any"):
            return f
        if f.op == "any":
            body = f.args[1]
            if body.op == "any" and self.simp_any(body) is FALSE:
                return FALSE
            if solve.check(self.pc + [body]) == "unsat":
                return FALSE
            return f
        if f.op == "not":
            return T.lnot(self.simp_any(f.args[0]))
        if f.op == "and":
            return T.land(*[self.simp_any(x) for x in f.args])
        return f

    def ghost(self, v):
        """a value equal to the definition of a ghost variable is named by it"""
        if isinstance(v, Node):
            return ghost_of(v)
        if isinstance(v, Arr) and v.dtype in "fc" and v.data.size <= 3:
            for ix in np.ndindex(*v.data.shape):
                v.data[ix] = ghost_of(v.data[ix])
        return v

    def decide(self, f):
        if isinstance(f, T.Node):
            f = self.simp_any(f)
        if f is True or f is TRUE:
            return True
        if f is False or f is FALSE:
            return False
        nf_ = T.lnot(f)
        if f in self.pc:
            return True
        if nf_ in self.pc:
            return False
        a = solve.check(self.pc + [f])
        if a == "unsat":
            b = "sat"
        else:
            b = solve.check(self.pc + [nf_])
        if a == "unsat":
            self.pc.append(nf_)
            return False
        if b == "unsat":
            self.pc.append(f)
            return True
        if self.ptr < len(self.prefix):
            d = self.prefix[self.ptr]
        else:
            d = True
            self.alts.append(self.trace + [False])
        self.ptr += 1
        self.trace.append(d)
        self.pc.append(f if d else nf_)
        return d

    def explore(self, scenario, maxpaths=400):
        """run scenario(interp) over all feasible paths; yields outcomes"""
        work = [[]]
        outs = []
        while work:
            pre = work.pop()
            self.prefix, self.ptr, self.trace, self.alts = pre, 0, [], []
            self.pc = []
            self.steps = 0
            try:
                v = scenario(self)
                out = ("return", v)
            except PyRaise as e:
                out = ("raise", e.exc)
            except Infeasible:
                out = None
            if out is not None:
                outs.append(Outcome(list(self.pc), out[0], out[1]))
            work.extend(self.alts)
            if len(outs) > maxpaths:
                raise Unsupported("too many paths")
        return outs

    # ------------------------------------------------------------ modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.import_fail:
            raise PyRaise(ImportError(name))
        if name in self.ext:
            tree = self.ext[name]
            m = Module(name)
            self.modules[name] = m
            m.ns["__name__"] = name
            self.exec_module(m, tree)
            return m
        if name.split(".")[0] == "geoana":
            rel = name.replace(".", "/")
            p1 = os.path.join(self.root, rel + ".py")
            p2 = os.path.join(self.root, rel, "__init__.py")
            p3 = os.path.join(self.root, rel + ".pyx")
            path = p1 if os.path.exists(p1) else p2
            if not os.path.exists(path):
                path = p3
            if not os.path.exists(path):
                raise PyRaise(ImportError(name))
            parent = None
            if "." in name:
                # as in CPython: the package first
                parent = self.load(name.rsplit(".", 1)[0])
                if name in self.modules:
                    return self.modules[name]
            if path == p3:
                from . import pyx
                tree = pyx.load(path)
            else:
                with open(path) as fh:
                    src = fh.read()
                tree = ast.parse(src)
            m = Module(name)
            m.path = path
            m.is_pkg = path == p2
            self.modules[name] = m
            m.ns["__name__"] = name
            self.exec_module(m, tree)
            if parent is not None:
                parent.ns.setdefault(name.rsplit(".", 1)[1], m)
            return m
        if name in self.models:
            return self.models[name]
        return Module(name, {"__opaque__": True})

    def exec_module(self, m, tree):
        env = Env(None, m.ns)
        saved = self.pc
        for st in tree.body:
            if m.name == "geoana" and isinstance(st, (ast.Import, ast.ImportFrom, ast.Try)):
                # package __init__ re-exports: not needed for the deductive part
                continue
            self.exec_stmt(st, env, m.name)
        self.pc = saved

    def _resolve_from(self, modname, node):
        if node.level == 0:
            return node.module
        m = self.modules.get(modname)
        parts = modname.split(".")
        if not getattr(m, "is_pkg", False):
            parts = parts[:-1]
        parts = parts[: len(parts) - (node.level - 1)]
        if node.module:
            parts += node.module.split(".")
        return ".".join(parts)

    # ------------------------------------------------------------ statements
    def exec_block(self, body, env, mod):
        for st in body:
            self.exec_stmt(st, env, mod)

    def exec_stmt(self, st, env, mod):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported("step budget")
        t = type(st).__name__
        f = getattr(self, "s_" + t, None)
        if f is None:
            raise Unsupported("statement " + t)
        return f(st, env, mod)

    def s_Expr(self, st, env, mod):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, env, mod)

    def s_Pass(self, st, env, mod):
        pass

    def s_Import(self, st, env, mod):
        for a in st.names:
            m = self.load(a.name)
            if a.asname:
                self.bind(a.asname, m, env)
            else:
                top = a.name.split(".")[0]
                self.bind(top, self.load(top), env)

    def s_ImportFrom(self, st, env, mod):
        base = self._resolve_from(mod, st)
        m = self.load(base)
        for a in st.names:
            if a.name == "*":
                for k, v in m.ns.items():
                    if not k.startswith("_"):
                        self.bind(k, v, env)
                continue
            if a.name in m.ns:
                v = m.ns[a.name]
            elif base.startswith("geoana"):
                v = self.load(base + "." + a.name)
            else:
                v = Opaque(base + "." + a.name)
            self.bind(a.asname or a.name, v, env)

    def s_FunctionDef(self, st, env, mod):
        self.bind(st.name, self.make_fn(st, env, mod), env)

    def make_fn(self, st, env, mod, cls=None):
        f = FnVal(st, env, mod, self, cls, qual=mod + "." + (cls + "." if isinstance(cls, str) else "") + getattr(st, "name", "<lambda>"))
        a = st.args
        f.defaults = [self.ev(d, env, mod) for d in a.defaults]
        f.kw_defaults = [None if d is None else self.ev(d, env, mod) for d in a.kw_defaults]
        r = f
        for dec in reversed(getattr(st, "decorator_list", [])):
            r = self.decorate(dec, r, env, mod)
        return r

    def decorate(self, dec, f, env, mod):
        d = self.ev(dec, env, mod)
        if d is property:
            return PropVal(f)
        if isinstance(d, tuple) and d[0] == "setter":
            return PropVal(d[1].fget, f)
        if d is staticmethod:
            return StaticM(f)
        if d is classmethod:
            return ClassM(f)
        if isinstance(d, Opaque):
            return Opaque("decorated")
        return self.call(d, [f], {})

    def s_ClassDef(self, st, env, mod):
        bases = [self.ev(b, env, mod) for b in st.bases]
        bases = [b for b in bases if b is not object]
        if any(isinstance(b, Opaque) for b in bases):
            self.bind(st.name, Opaque(st.name), env)
            return
        cenv = Env(env if env.globs is None or env.parent is not None else env, None)
        cenv = ClassEnv(env)
        cv = ClassVal(st.name, bases, cenv.vars, mod)
        cenv.vars["__cv__"] = cv
        for s in st.body:
            if isinstance(s, (ast.FunctionDef,)):
                f = FnVal(s, env, mod, self, cv, qual=mod + "." + st.name + "." + s.name)
                f.defaults = [self.ev(d, cenv, mod) for d in s.args.defaults]
                f.kw_defaults = [None if d is None else self.ev(d, cenv, mod) for d in s.args.kw_defaults]
                r = f
                for dec in reversed(s.decorator_list):
                    r = self.decorate(dec, r, cenv, mod)
                cenv.vars[s.name] = r
            else:
                self.exec_stmt(s, cenv, mod)
        del cenv.vars["__cv__"]
        r = cv
        for dec in reversed(st.decorator_list):
            r = self.decorate(dec, r, env, mod)
        self.bind(st.name, r, env)

    def s_Return(self, st, env, mod):
        raise _Return(None if st.value is None else self.ev(st.value, env, mod))

    def s_Raise(self, st, env, mod):
        if st.exc is None:
            cur = getattr(self, "_handling", None)
            raise PyRaise(cur or RuntimeError())
        e = self.ev(st.exc, env, mod)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = e()
        if isinstance(e, BaseException):
            raise PyRaise(e)
        raise Unsupported("raise %r" % (e,))

    def s_Assert(self, st, env, mod):
        if not self.truth(self.ev(st.test, env, mod)):
            raise PyRaise(AssertionError())

    def s_Assign(self, st, env, mod):
        v = self.ev(st.value, env, mod)
        if CTX.ghosts:
            v = self.ghost(v)
        for t in st.targets:
            self.assign(t, v, env, mod)

    def s_AnnAssign(self, st, env, mod):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env, mod), env, mod)

    def s_AugAssign(self, st, env, mod):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env, mod)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, mod)
            cur = self.getattr(o, t.attr)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, mod)
            k = self.ev_index(t.slice, env, mod)
            cur = self.getitem(o, k)
        else:
            raise Unsupported("augassign target")
        v = self.ev(st.value, env, mod)
        if isinstance(cur, Arr) and not (isinstance(t, ast.Subscript)):
            new = self.binop(type(st.op).__name__, cur, v)
            self.inplace(cur, new)
            new = cur
        elif isinstance(cur, list) and isinstance(st.op, ast.Add):
            cur.extend(self.iterate(v))
            new = cur
        else:
            new = self.binop(type(st.op).__name__, cur, v)
        if isinstance(t, ast.Name):
            self.bind(t.id, new, env, aug=True)
        elif isinstance(t, ast.Attribute):
            self.setattr(o, t.attr, new)
        else:
            self.setitem(o, k, new)

    def inplace(self, arr, new):
        """arr op= ... : writes into the existing buffer"""
        n = to_arr(new)
        if arr.dtype == "i" and n.dtype == "f" or arr.dtype in "if" and n.dtype == "c":
            raise PyRaise(TypeError("cannot cast in-place result"))
        try:
            IX.setitem(arr, Ellipsis, n)
        except ShapeError as e:
            raise PyRaise(ValueError(str(e)))

    def s_Delete(self, st, env, mod):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env, mod)
                if isinstance(o, Obj) and t.attr in o.fields:
                    del o.fields[t.attr]
                    o.writes.append(t.attr)
                else:
                    raise PyRaise(AttributeError(t.attr))
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env, mod)
                k = self.ev_index(t.slice, env, mod)
                if isinstance(o, (dict, list)):
                    try:
                        del o[k]
                    except (KeyError, IndexError) as e:
                        raise PyRaise(e)
                else:
                    raise Unsupported("del")
            else:
                raise Unsupported("del")

    def s_If(self, st, env, mod):
        if self.truth(self.ev(st.test, env, mod)):
            self.exec_block(st.body, env, mod)
        else:
            self.exec_block(st.orelse, env, mod)

    def s_While(self, st, env, mod):
        n = 0
        while self.truth(self.ev(st.test, env, mod)):
            n += 1
            if n > 200:
                raise Unsupported("while bound")
            try:
                self.exec_block(st.body, env, mod)
            except _Break:
                break
            except _Continue:
                continue
        else:
            self.exec_block(st.orelse, env, mod)

    def s_Break(self, st, env, mod):
        raise _Break()

    def s_Continue(self, st, env, mod):
        raise _Continue()

    def s_Global(self, st, env, mod):
        raise Unsupported("global")

    def s_Nonlocal(self, st, env, mod):
        raise Unsupported("nonlocal")

    def s_With(self, st, env, mod):
        for item in st.items:
            c = self.ev(item.context_expr, env, mod)
            if not (isinstance(c, Opaque) and ("errstate" in c.name or "warnings" in c.name)):
                raise Unsupported("with")
            if item.optional_vars is not None:
                self.assign(item.optional_vars, c, env, mod)
        self.exec_block(st.body, env, mod)

    def s_Try(self, st, env, mod):
        try:
            try:
                self.exec_block(st.body, env, mod)
            except PyRaise as e:
                for h in st.handlers:
                    if h.type is None:
                        match = True
                    else:
                        ty = self.ev(h.type, env, mod)
                        tys = ty if isinstance(ty, tuple) else (ty,)
                        match = isinstance(e.exc, tuple(x for x in tys if isinstance(x, type)))
                    if match:
                        if h.name:
                            self.bind(h.name, e.exc, env)
                        old = getattr(self, "_handling", None)
                        self._handling = e.exc
                        try:
                            self.exec_block(h.body, env, mod)
                        finally:
                            self._handling = old
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, env, mod)
        finally:
            if st.finalbody:
                self.exec_block(st.finalbody, env, mod)

    def s_For(self, st, env, mod):
        it = self.ev(st.iter, env, mod)
        seq = self.iterate(it, allow_sym=True)
        if isinstance(seq, (SymRange, SymSeq)):
            from . import loops
            loops.summarise(self, st, seq, env, mod)
            return
        for v in seq:
            self.assign(st.target, v, env, mod)
            try:
                self.exec_block(st.body, env, mod)
            except _Break:
                break
            except _Continue:
                continue
        else:
            self.exec_block(st.orelse, env, mod)

    # ------------------------------------------------------------ names
    def bind(self, name, v, env, aug=False):
        if isinstance(env, ClassEnv):
            env.vars[name] = v
        elif env.parent is None and env.globs is not None:
            env.globs[name] = v
        else:
            env.vars[name] = v

    def lookup(self, name, env, mod):
        e = env
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            if e.parent is None and e.globs is not None and name in e.globs:
                return e.globs[name]
            e = e.parent
        g = self.modules[mod].ns
        if name in g:
            return g[name]
        if name in self.builtins:
            return self.builtins[name]
        if name in BUILTIN_EXC:
            return BUILTIN_EXC[name]
        raise PyRaise(NameError(name))

    def assign(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            self.bind(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(self.iterate(v))
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(vs) < len(t.elts) - 1:
                    raise PyRaise(ValueError("unpack"))
                for x, y in zip(t.elts[:i], vs[:i]):
                    self.assign(x, y, env, mod)
                self.assign(t.elts[i].value, vs[i: len(vs) - after], env, mod)
                for x, y in zip(t.elts[i + 1:], vs[len(vs) - after:]):
                    self.assign(x, y, env, mod)
                return
            if len(vs) != len(t.elts):
                raise PyRaise(ValueError("unpack"))
            for x, y in zip(t.elts, vs):
                self.assign(x, y, env, mod)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env, mod), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, mod)
            k = self.ev_index(t.slice, env, mod)
            self.setitem(o, k, v)
        else:
            raise Unsupported("assign target")

    # ------------------------------------------------------------ iteration
    def iterate(self, v, allow_sym=False):
        if isinstance(v, ShapeTuple):
            if any(isinstance(x, (Pack, OnesPack)) for x in v):
                raise Unsupported("iterating a symbolic shape")
            return list(v)
        if isinstance(v, (list, tuple, range, str, set, frozenset)):
            return list(v)
        if isinstance(v, dict):
            return list(v.keys())
        if type(v).__name__ in ("dict_items", "dict_keys", "dict_values", "zip", "enumerate", "map", "generator", "list_iterator", "reversed"):
            return list(v)
        if isinstance(v, Arr):
            if not v.axes:
                raise PyRaise(TypeError("iteration over a 0-d array"))
            if isinstance(v.axes[0], int):
                return [self.getitem(v, i) for i in range(v.axes[0])]
            if isinstance(v.axes[0], Dim) and allow_sym:
                return SymSeq(v.axes[0], self.drop_axis(v))
        if isinstance(v, (SymRange, SymSeq)):
            if allow_sym:
                return v
            raise Unsupported("symbolic iteration")
        if v is None or isinstance(v, (int, Node, Bad)):
            raise PyRaise(TypeError("not iterable"))
        raise Unsupported("iterate %r" % (type(v),))

    def drop_axis(self, v):
        """generic item along the leading symbolic axis"""
        a = Arr(v.axes[1:], v.data, v.dtype, v.buf)
        return a if a.axes else a.item()

    # ------------------------------------------------------------ truth
    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, str, list, tuple, dict, range, set)):
            if isinstance(v, ShapeTuple) and any(isinstance(x, Pack) for x in v):
                raise Unsupported("truth of symbolic shape")
            return bool(v)
        if isinstance(v, Node):
            if is_formula(v):
                return self.decide(v)
            return self.decide(T.ne(v, T.ZERO))
        if isinstance(v, Arr):
            if v.axes and not all(a == 1 for a in v.axes):
                if any(not isinstance(a, int) for a in v.axes):
                    raise Unsupported("truth of symbolic array")
                raise PyRaise(ValueError("truth value of an array is ambiguous"))
            x = v.data.reshape(-1)[0]
            return self.truth(x)
        if isinstance(v, (Obj, FnVal, ClassVal, Module, Opaque, type)):
            return True
        if isinstance(v, BaseException):
            return True
        raise Unsupported("truth %r" % (type(v),))

    # ------------------------------------------------------------ expressions
    def ev(self, e, env, mod):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported("step budget")
        f = getattr(self, "e_" + type(e).__name__, None)
        if f is None:
            raise Unsupported("expression " + type(e).__name__)
        return f(e, env, mod)

    def e_Constant(self, e, env, mod):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, (int, str, bytes)) or v is Ellipsis:
            return v
        if isinstance(v, (float, complex)):
            return T.num(v)
        raise Unsupported("constant")

    def e_Name(self, e, env, mod):
        return self.lookup(e.id, env, mod)

    def e_Tuple(self, e, env, mod):
        out = []
        shapey = False
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env, mod)
                if isinstance(v, ShapeTuple):
                    out.extend(v)
                    shapey = True
                else:
                    out.extend(self.iterate(v))
            else:
                out.append(self.ev(x, env, mod))
        return ShapeTuple(out) if shapey else tuple(out)

    def e_List(self, e, env, mod):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, env, mod)))
            else:
                out.append(self.ev(x, env, mod))
        return out

    def e_Set(self, e, env, mod):
        return set(self.ev(x, env, mod) for x in e.elts)

    def e_Dict(self, e, env, mod):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, env, mod))
            else:
                d[self.ev(k, env, mod)] = self.ev(v, env, mod)
        return d

    def e_JoinedStr(self, e, env, mod):
        # evaluate for effects, text content is not observed
        return SymStr("fstring")

    def e_Attribute(self, e, env, mod):
        return self.getattr(self.ev(e.value, env, mod), e.attr)

    def e_Subscript(self, e, env, mod):
        o = self.ev(e.value, env, mod)
        k = self.ev_index(e.slice, env, mod)
        return self.getitem(o, k)

    def ev_index(self, s, env, mod):
        if isinstance(s, ast.Tuple):
            out = []
            for x in s.elts:
                if isinstance(x, ast.Starred):
                    out.extend(self.iterate(self.ev(x.value, env, mod)))
                else:
                    out.append(self.ev_index(x, env, mod))
            return tuple(out)
        if isinstance(s, ast.Slice):
            return slice(*[None if x is None else self.ev(x, env, mod) for x in (s.lower, s.upper, s.step)])
        return self.ev(s, env, mod)

    def e_Slice(self, s, env, mod):
        return self.ev_index(s, env, mod)

    def e_UnaryOp(self, e, env, mod):
        v = self.ev(e.operand, env, mod)
        op = type(e.op).__name__
        if op == "Not":
            if isinstance(v, Node) and is_formula(v):
                return self.pybool(T.lnot(v))
            if isinstance(v, Arr) and v.scalar and v.dtype == "b":
                return self.pybool(T.lnot(v.item()))
            return not self.truth(v)
        return self.unary(op, v)

    def unary(self, op, v):
        if op == "USub":
            if isinstance(v, bool):
                return -int(v)
            if isinstance(v, int):
                return -v
            if isinstance(v, Node):
                return T.neg(v)
            if isinstance(v, Arr):
                if v.dtype == "b":
                    raise PyRaise(TypeError("numpy boolean negative"))
                return elementwise(T.neg, v)
        if op == "UAdd":
            return v
        if op == "Invert":
            if isinstance(v, Arr):
                if v.dtype != "b":
                    raise Unsupported("invert")
                return elementwise(T.lnot, v)
            if isinstance(v, Node) and is_formula(v):
                return self.pybool(T.lnot(v), True)
            if isinstance(v, bool):
                return ~v
            if isinstance(v, int):
                return ~v
        raise Unsupported("unary %s %r" % (op, type(v)))

    def pybool(self, f, np_=False):
        if f is TRUE:
            return True
        if f is FALSE:
            return False
        return f

    def e_BinOp(self, e, env, mod):
        a = self.ev(e.left, env, mod)
        b = self.ev(e.right, env, mod)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        from . import npmodel
        return npmodel.binop(self, op, a, b)

    def e_BoolOp(self, e, env, mod):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.ev(x, env, mod)
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, Node) else False
            if not isand and t:
                return v if not (isinstance(v, Node) and is_formula(v)) else True
        return v if not (isinstance(v, Node) and is_formula(v)) else (isand or t)

    def e_Compare(self, e, env, mod):
        left = self.ev(e.left, env, mod)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, env, mod)
            c = self.compare(type(op).__name__, left, right)
            if res is None:
                res = c
            else:
                if not self.truth(res):
                    return False
                res = c
            left = right
        return res

    def compare(self, op, a, b):
        from . import npmodel
        return npmodel.compare(self, op, a, b)

    def e_IfExp(self, e, env, mod):
        if self.truth(self.ev(e.test, env, mod)):
            return self.ev(e.body, env, mod)
        return self.ev(e.orelse, env, mod)

    def e_Lambda(self, e, env, mod):
        f = FnVal(e, env, mod, self, None, qual=mod + ".<lambda>")
        f.defaults = [self.ev(d, env, mod) for d in e.args.defaults]
        f.kw_defaults = [None if d is None else self.ev(d, env, mod) for d in e.args.kw_defaults]
        return f

    def _comp(self, gens, env, mod, emit):
        def rec(i, cenv):
            if i == len(gens):
                emit(cenv)
                return
            g = gens[i]
            for v in self.iterate(self.ev(g.iter, cenv, mod)):
                self.assign(g.target, v, cenv, mod)
                if all(self.truth(self.ev(c, cenv, mod)) for c in g.ifs):
                    rec(i + 1, cenv)
        rec(0, Env(env))

    def e_ListComp(self, e, env, mod):
        if len(e.generators) == 1:
            it = self.iterate(self.ev(e.generators[0].iter, env, mod), allow_sym=True)
            if isinstance(it, SymSeq):
                cenv = Env(env)
                self.assign(e.generators[0].target, it.item, cenv, mod)
                if e.generators[0].ifs:
                    raise Unsupported("filter over symbolic axis")
                return SymSeq(it.axis, self.ev(e.elt, cenv, mod))
        out = []
        self._comp(e.generators, env, mod, lambda c: out.append(self.ev(e.elt, c, mod)))
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, env, mod):
        return set(self.e_ListComp(e, env, mod))

    def e_DictComp(self, e, env, mod):
        out = {}
        def emit(c):
            out[self.ev(e.key, c, mod)] = self.ev(e.value, c, mod)
        self._comp(e.generators, env, mod, emit)
        return out

    def e_NamedExpr(self, e, env, mod):
        v = self.ev(e.value, env, mod)
        self.bind(e.target.id, v, env)
        return v

    def e_Starred(self, e, env, mod):
        raise Unsupported("starred")

    def e_Call(self, e, env, mod):
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            try:
                self.lookup("super", env, mod)
            except PyRaise:
                pass
            if not e.args:
                cls = self._find(env, "__class__")
                obj = self._find(env, "__self__")
                return SuperVal(cls, obj)
            return SuperVal(self.ev(e.args[0], env, mod), self.ev(e.args[1], env, mod))
        f = self.ev(e.func, env, mod)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                args.extend(self.iterate(self.ev(x.value, env, mod)))
            else:
                args.append(self.ev(x, env, mod))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.ev(k.value, env, mod))
            else:
                kw[k.arg] = self.ev(k.value, env, mod)
        if f is LOCALS:
            return dict(env.vars)
        return self.call(f, args, kw)

    def _find(self, env, name):
        e = env
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            e = e.parent
        raise Unsupported("super outside method")

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        if isinstance(f, BoundM):
            return self.call(f.fn, [f.self_] + list(args), kw)
        if isinstance(f, FnVal):
            h = self.contracts.get(f.qual)
            if h is not None and not getattr(self, "_nocontract", None) == f.qual:
                r = h(self, f, args, kw)
                if r is not NotImplemented:
                    self.called[f.qual] = self.called.get(f.qual, 0) + 1
                    return r
            return self.call_fn(f, args, kw)
        if isinstance(f, ClassVal):
            return self.construct(f, args, kw)
        if isinstance(f, UfuncVal):
            return self.call_ufunc(f, args, kw)
        if isinstance(f, StaticM):
            return self.call(f.f, args, kw)
        if isinstance(f, Opaque):
            return Opaque(f.name + "()")
        if isinstance(f, Obj):
            m, _ = f.cls.lookup("__call__")
            if m is not None:
                return self.call(m, [f] + list(args), kw)
            raise PyRaise(TypeError("not callable"))
        if isinstance(f, type) and issubclass(f, BaseException):
            return f(*[a if isinstance(a, str) else "?" for a in args])
        if callable(f):
            try:
                return f(*args, **kw)
            except ShapeError as e:
                raise PyRaise(ValueError(str(e)))
            except IX.PyIndexError as e:
                raise PyRaise(IndexError(str(e)))
            except (PyRaise, Unsupported, Infeasible, _Return):
                raise
            except ZeroDivisionError as e:
                raise PyRaise(e)
            except RecursionError:
                raise
            except Exception as e:
                raise Unsupported("model %r: %s: %s" % (getattr(f, "__name__", f), type(e).__name__, e))
        raise PyRaise(TypeError("not callable: %r" % (f,)))

    def call_ufunc(self, u, args, kw):
        """compiled scalar kernel applied elementwise (numpy ufunc protocol)"""
        f = u.fn
        if kw or len(args) != len(f.node.args.args):
            raise Unsupported("ufunc keywords")
        h = self.contracts.get(f.qual)
        arrs = [to_arr(a) for a in args]
        for a in arrs:
            if a.dtype == "c":
                raise PyRaise(TypeError("ufunc %s not supported for complex input" % f.name))
        if h is not None:
            self.called[f.qual] = self.called.get(f.qual, 0) + 1
            return h(self, f, arrs, kw)
        if all(a.scalar for a in arrs):
            return self.call_fn(f, [a.item() for a in arrs], {})

        def one(*xs):
            return self.local(lambda: self.call_fn(f, list(xs), {}))
        try:
            return elementwise(one, *arrs, dtype="f")
        except ShapeError as e:
            raise PyRaise(ValueError(str(e)))

    def local(self, thunk, maxpaths=120):
        """evaluate thunk over all its paths under the current path condition;
        merge the returned terms with ite"""
        saved = self.prefix, self.ptr, self.trace, self.alts, self.pc
        base = list(self.pc)
        outs, work = [], [[]]
        try:
            while work:
                pre = work.pop()
                self.prefix, self.ptr, self.trace, self.alts = pre, 0, [], []
                self.pc = list(base)
                try:
                    v = thunk()
                    outs.append((self.pc[len(base):], to_arr(v).item()))
                except Infeasible:
                    pass
                except PyRaise as e:
                    raise Unsupported("exception inside an elementwise kernel: %r" % (e.exc,))
                work.extend(self.alts)
                if len(outs) > maxpaths:
                    raise Unsupported("too many paths in a kernel")
        finally:
            self.prefix, self.ptr, self.trace, self.alts, self.pc = saved
        if not outs:
            raise Infeasible()
        r = outs[-1][1]
        for c, v in reversed(outs[:-1]):
            r = T.ite(T.land(*c), v, r)
        return r

    def bind_args(self, f, args, kw):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        if len(args) > len(pos):
            if a.vararg is None:
                raise PyRaise(TypeError("%s: too many arguments" % f.name))
            out[a.vararg.arg] = tuple(args[len(pos):])
            args = args[: len(pos)]
        elif a.vararg is not None:
            out[a.vararg.arg] = ()
        for n, v in zip(pos, args):
            out[n] = v
        kw = dict(kw)
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                if n in out:
                    raise PyRaise(TypeError("%s: multiple values for %s" % (f.name, n)))
                out[n] = kw.pop(n)
        if kw:
            if a.kwarg is None:
                raise PyRaise(TypeError("%s: unexpected keyword %s" % (f.name, list(kw))))
        if a.kwarg is not None:
            out[a.kwarg.arg] = kw
        nd = len(f.defaults)
        for n, d in zip(pos[len(pos) - nd:], f.defaults):
            out.setdefault(n, d)
        for x, d, has in zip(a.kwonlyargs, f.kw_defaults, a.kw_defaults):
            if has is not None:
                out.setdefault(x.arg, d)
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if n not in out:
                raise PyRaise(TypeError("%s: missing argument %s" % (f.name, n)))
        return out

    def call_fn(self, f, args, kw):
        self.called[f.qual] = self.called.get(f.qual, 0) + 1
        self.depth += 1
        if self.depth > self.maxdepth:
            self.depth -= 1
            raise Unsupported("recursion")
        try:
            vals = self.bind_args(f, args, kw)
            env = Env(f.env if f.env is not None else None)
            if f.env is not None and f.env.parent is None and f.env.globs is not None:
                env = Env(f.env)
            env.vars.update(vals)
            if f.cls is not None:
                env.vars["__class__"] = f.cls
                a = f.node.args
                p = a.posonlyargs + a.args
                if p:
                    env.vars["__self__"] = vals[p[0].arg]
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env, f.module)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
                raise Unsupported("generator")
            try:
                self.exec_block(f.node.body, env, f.module)
            except _Return as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def construct(self, cls, args, kw):
        if issubclass(cls.pytype, BaseException):
            return cls.pytype()
        o = Obj(cls)
        init, owner = cls.lookup("__init__")
        if init is not None:
            self.call(init, [o] + list(args), kw)
        elif args or kw:
            raise PyRaise(TypeError("object takes no arguments"))
        return o

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        if isinstance(o, Obj):
            if name in ("__class__",):
                return o.cls
            if name == "__dict__":
                return o.fields
            v, owner = o.cls.lookup(name)
            if isinstance(v, PropVal):
                return self.call(v.fget, [o], {})
            if name in o.fields:
                return o.fields[name]
            if v is None:
                g, _ = o.cls.lookup("__getattr__")
                if g is not None:
                    return self.call(g, [o, name], {})
                raise PyRaise(AttributeError(name))
            if isinstance(v, FnVal):
                return BoundM(v, o)
            if isinstance(v, StaticM):
                return v.f
            if isinstance(v, ClassM):
                return BoundM(v.f, o.cls)
            if isinstance(v, Opaque):
                return v
            return v
        if isinstance(o, SuperVal):
            cls = o.obj.cls if isinstance(o.obj, Obj) else o.obj
            v, owner = cls.lookup(name, after=o.cls)
            if v is None:
                if name == "__init__":
                    return _object_init
                if name == "__setattr__":
                    return lambda k, val: self.raw_setattr(o.obj, k, val)
                raise PyRaise(AttributeError(name))
            if isinstance(v, PropVal):
                return self.call(v.fget, [o.obj], {})
            if isinstance(v, FnVal):
                return BoundM(v, o.obj)
            if isinstance(v, StaticM):
                return v.f
            return v
        if isinstance(o, Module):
            if name in o.ns:
                return o.ns[name]
            if o.ns.get("__opaque__") or not o.name.startswith("geoana"):
                if o.name in ("numpy",):
                    raise Unsupported("numpy." + name)
                return Opaque(o.name + "." + name)
            try:
                return self.load(o.name + "." + name)
            except PyRaise:
                raise PyRaise(AttributeError(name))
        if isinstance(o, ClassVal):
            if name == "__name__":
                return o.name
            v, owner = o.lookup(name)
            if v is None:
                raise PyRaise(AttributeError(name))
            if isinstance(v, StaticM):
                return v.f
            if isinstance(v, ClassM):
                return BoundM(v.f, o)
            return v
        if isinstance(o, PropVal):
            if name == "setter":
                return ("setter", o)
            if name == "fget":
                return o.fget
            if name == "fset":
                return o.fset
            if name == "getter":
                raise Unsupported("getter")
        if isinstance(o, UfuncVal):
            if name == "__name__":
                return o.fn.name
            raise Unsupported("ufunc attribute " + name)
        if isinstance(o, FnVal):
            if name in ("__name__",):
                return o.name
            if name in o.attrs:
                return o.attrs[name]
            if name == "__doc__":
                return None
            raise PyRaise(AttributeError(name))
        if isinstance(o, Opaque):
            return Opaque(o.name + "." + name)
        if isinstance(o, BaseException):
            return getattr(o, name)
        from . import npmodel
        return npmodel.getattr_(self, o, name)

    def raw_setattr(self, o, name, v):
        o.fields[name] = v
        o.writes.append(name)

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            d, owner = o.cls.lookup(name)
            if isinstance(d, PropVal):
                if d.fset is None:
                    raise PyRaise(AttributeError("can't set attribute " + name))
                self.call(d.fset, [o, v], {})
                return
            sa, owner = o.cls.lookup("__setattr__")
            if sa is not None:
                self.call(sa, [o, name, v], {})
                return
            self.raw_setattr(o, name, v)
            return
        if isinstance(o, SuperVal):
            raise Unsupported("super setattr")
        if isinstance(o, FnVal):
            o.attrs[name] = v
            return
        if isinstance(o, (ClassVal,)):
            raise Unsupported("class attribute store")
        if isinstance(o, Arr) and name == "shape":
            raise Unsupported("shape assignment")
        raise Unsupported("setattr on %r" % (type(o),))

    def getitem(self, o, k):
        if isinstance(o, Arr):
            try:
                return IX.getitem(o, k, self)
            except IX.PyIndexError as e:
                raise PyRaise(IndexError(str(e)))
            except ShapeError as e:
                raise PyRaise(IndexError(str(e)))
        if isinstance(o, ShapeTuple):
            return shape_item(o, k)
        if isinstance(o, (list, tuple, str, range)):
            if isinstance(k, slice):
                parts = [None if x is None else IX._as_int(x) for x in (k.start, k.stop, k.step)]
                for x, y in zip((k.start, k.stop, k.step), parts):
                    if x is not None and y is None:
                        raise Unsupported("symbolic slice of a list")
                return o[slice(*parts)]
            i = IX._as_int(k) if not isinstance(k, bool) else int(k)
            if i is None:
                if isinstance(k, Node):
                    raise Unsupported("symbolic index of a list")
                raise PyRaise(TypeError("list indices"))
            try:
                return o[i]
            except IndexError as e:
                raise PyRaise(e)
        if isinstance(o, dict):
            try:
                return o[k]
            except KeyError as e:
                raise PyRaise(e)
        if isinstance(o, Opaque):
            return Opaque(o.name + "[]")
        if isinstance(o, Node):
            if is_formula(o) or True:
                # numpy scalars accept [...] / [()] / [..., None]
                a = to_arr(o)
                if k is Ellipsis or k == ():
                    return o
                try:
                    return IX.getitem(a, k, self)
                except IX.PyIndexError as e:
                    raise PyRaise(IndexError(str(e)))
        if isinstance(o, (int, Bad)) or o is None:
            raise PyRaise(TypeError("not subscriptable"))
        from . import npmodel
        return npmodel.getitem_(self, o, k)

    def setitem(self, o, k, v):
        if isinstance(o, Arr):
            try:
                IX.setitem(o, k, v, self)
                return
            except IX.PyIndexError as e:
                raise PyRaise(IndexError(str(e)))
            except ShapeError as e:
                raise PyRaise(ValueError(str(e)))
        if isinstance(o, (dict,)):
            o[k] = v
            return
        if isinstance(o, list):
            i = IX._as_int(k)
            if i is None:
                raise Unsupported("list store")
            try:
                o[i] = v
            except IndexError as e:
                raise PyRaise(e)
            return
        raise Unsupported("setitem on %r" % (type(o),))


def _object_init(*a, **kw):
    if a or kw:
        raise PyRaise(TypeError("object.__init__() takes exactly one argument"))


def shape_item(o, k):
    if isinstance(k, slice):
        st = [None if x is None else IX._as_int(x) for x in (k.start, k.stop, k.step)]
        # Pack occupies an unknown number of positions
        packs = [i for i, x in enumerate(o) if isinstance(x, (Pack, OnesPack))]
        if packs:
            p = packs[0]
            if st[2] not in (None, 1):
                raise Unsupported("shape slice")
            if st[0] is not None and not (0 <= st[0] <= p or (st[0] < 0 and len(o) + st[0] > p)):
                raise Unsupported("shape slice")
            if st[1] is not None and not (0 <= st[1] <= p or (st[1] < 0 and len(o) + st[1] > p)):
                raise Unsupported("shape slice")
        return ShapeTuple(tuple.__getitem__(o, slice(*st)))
    i = IX._as_int(k)
    if i is None:
        raise Unsupported("shape index")
    packs = [j for j, x in enumerate(o) if isinstance(x, (Pack, OnesPack))]
    if packs:
        p = packs[0]
        if i >= 0 and i >= p:
            raise Unsupported("shape index into a pack")
        if i < 0 and len(o) + i <= packs[-1]:
            raise Unsupported("shape index into a pack")
    try:
        v = tuple.__getitem__(o, i)
    except IndexError as e:
        raise PyRaise(e)
    return v


class ClassEnv(Env):
    def __init__(self, parent):
        Env.__init__(self, parent, None)


class Opaque:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<opaque %s>" % self.name


class SymStr(str):
    """text whose content is irrelevant"""


LOCALS = object()


class Outcome:
    def __init__(self, pc, kind, value):
        self.pc, self.kind, self.value = pc, kind, value

    def __repr__(self):
        return "<%s %r if %s>" % (self.kind, self.value, self.pc)
