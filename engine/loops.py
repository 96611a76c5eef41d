"""Loops over symbolic ranges: the invariant is inferred from one generic
iteration and checked by induction; anything else is Unsupported (which makes
the contract bounded, never proved)."""
import ast
import itertools
import numpy as np
from . import terms as T, indexing as IX
from .arrays import Arr, Dim, Pack, OnesPack, to_arr, dimlen
from .nf import NF, Unsupported
from .terms import Node

_n = itertools.count()


def summarise(I, st, seq, env, mod):
    from .interp import SymRange, SymSeq
    if st.orelse:
        raise Unsupported("for-else over a symbolic range")
    for x in ast.walk(ast.Module(st.body, [])):
        if isinstance(x, (ast.Break, ast.Return, ast.Yield, ast.Global, ast.Nonlocal)):
            raise Unsupported("control flow in a symbolic loop")
    if isinstance(seq, SymRange):
        ax = axis_range(seq)
        if ax is not None:
            return axis_loop(I, st, ax, env, mod)
        return rank_loop(I, st, seq, env, mod)
    return sum_loop(I, st, seq, env, mod)


def _uses(st, name):
    return any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load) for b in st.body for x in ast.walk(b))


class _NoFork:
    """no path split inside the generic iteration"""

    def __init__(self, I):
        self.I = I

    def __enter__(self):
        self.alts, self.trace, self.npc = list(self.I.alts), list(self.I.trace), len(self.I.pc)

    def __exit__(self, et, ev, tb):
        if et is None and (len(self.I.trace) != len(self.trace)):
            raise Unsupported("branch inside a symbolic loop")


def _run(I, st, env, mod, item=None):
    from .interp import _Continue, PyRaise
    with _NoFork(I):
        if item is not None:
            I.assign(st.target, item, env, mod)
        try:
            I.exec_block(st.body, env, mod)
        except _Continue:
            pass
        except PyRaise:
            raise Unsupported("exception inside a symbolic loop")


# ------------------------------------------------------------------ rank
def _ones(ax):
    return ax == 1 or isinstance(ax, OnesPack)


def _grown(a0, a1, extra):
    """a1 = a0 with the unit axes `extra` added in one place; returns the place"""
    if isinstance(a0, (int, float, complex, Node)):
        a0 = to_arr(a0)
    if not isinstance(a0, Arr) or not isinstance(a1, Arr):
        return None
    n = len(extra)
    if len(a1.axes) != len(a0.axes) + n:
        return None
    for i in range(len(a0.axes), -1, -1):
        if a0.axes[:i] == a1.axes[:i] and a0.axes[i:] == a1.axes[i + n:] and sorted(map(str, a1.axes[i:i + n])) == sorted(map(str, extra)):
            d0, d1 = a0.data.ravel(), a1.data.ravel()
            if len(d0) == len(d1) and all(x is y for x, y in zip(d0, d1)):
                return i
    return None


def _insert(a, i, axes):
    data = a.data
    k = sum(1 for x in a.axes[:i] if isinstance(x, int))
    for x in axes:
        if x == 1:
            data = np.expand_dims(data, k)
    return Arr(a.axes[:i] + tuple(axes) + a.axes[i:], data, a.dtype, a.buf)


def rank_loop(I, st, seq, env, mod):
    """for _ in range(rank(p) + c): invariant  x_k = x_0 with k extra unit axes"""
    if not (seq.start == 0 and seq.step == 1):
        raise Unsupported("symbolic range")
    from specs.contracts import _rank_parts
    names, c = _rank_parts(seq.stop)
    if len(names) != 1:
        raise Unsupported("symbolic range")
    if not isinstance(st.target, ast.Name) or _uses(st, st.target.id):
        raise Unsupported("loop variable used")
    assigned = sorted({x.id for b in st.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
    for b in st.body:
        for x in ast.walk(b):
            if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, ast.Store) or isinstance(x, ast.AugAssign):
                raise Unsupported("store in a rank loop")
    if any(v not in env.vars for v in assigned):
        raise Unsupported("local in a rank loop")
    before = {v: env.vars[v] for v in assigned}
    _run(I, st, env, mod)
    for v in assigned:
        if env.vars[v] is not before[v] and isinstance(before[v], (int, float, complex, Node)) and not isinstance(before[v], bool):
            before[v] = to_arr(before[v])
    place = {}
    for v in assigned:
        if env.vars[v] is before[v]:
            place[v] = None
            continue
        i = _grown(before[v], env.vars[v], (1,))
        if i is None:
            raise Unsupported("rank loop invariant")
        place[v] = i
    q = OnesPack("!loop%d" % next(_n))
    hyp = {v: before[v] if place[v] is None else _insert(before[v], place[v], (q,)) for v in assigned}
    env.vars.update(hyp)
    _run(I, st, env, mod)
    for v in assigned:
        if place[v] is None:
            if env.vars[v] is not before[v]:
                raise Unsupported("rank loop invariant")
        else:
            a = env.vars[v]
            base = before[v]
            ok = isinstance(a, Arr) and len(a.axes) == len(base.axes) + 2 and any(
                base.axes[:i] == a.axes[:i] and base.axes[i:] == a.axes[i + 2:] and set(a.axes[i:i + 2]) == {q, 1} and (i == place[v] or all(_ones(x) for x in base.axes[min(i, place[v]):max(i, place[v])]))
                for i in range(len(base.axes) + 1)) and all(x is y for x, y in zip(a.data.ravel(), base.data.ravel()))
            if not ok:
                raise Unsupported("rank loop invariant (step)")
    fin = (OnesPack(names[0]),) + (1,) * c
    for v in assigned:
        env.vars[v] = before[v] if place[v] is None else _insert(before[v], place[v], fin)


# ------------------------------------------------------------------ sums
def _base(d):
    while isinstance(d.base, np.ndarray):
        d = d.base
    return d


def _arrs(I, env):
    out = {}

    def visit(v, depth=0):
        if isinstance(v, Arr):
            b = _base(v.data)
            out[id(b)] = b
        elif isinstance(v, (list, tuple)) and depth < 3:
            for x in v:
                visit(x, depth + 1)
        elif isinstance(v, dict) and depth < 3:
            for x in v.values():
                visit(x, depth + 1)
        elif type(v).__name__ == "Obj" and depth < 3:
            for x in v.fields.values():
                visit(x, depth + 1)
    e = env
    while e is not None:
        for v in e.vars.values():
            visit(v)
        e = e.parent
    return list(out.values())


def _containers(env):
    out = []
    for k, v in env.vars.items():
        if isinstance(v, list):
            out.append((v, list(v)))
        elif isinstance(v, dict):
            out.append((v, dict(v)))
        elif type(v).__name__ == "Obj":
            out.append((v.fields, dict(v.fields)))
    return out


def _mentions(t, names):
    return isinstance(t, Node) and any(s in names for s in T.symbols(t))


def _linear(t, x):
    """(c, r) with t = c * x + r and c, r free of x, or None"""
    if t is x:
        return T.ONE, T.ZERO
    if not _mentions(t, {x}):
        return T.ZERO, t
    if t.op == "add":
        c, r = T.ZERO, T.ZERO
        for a in t.args:
            l = _linear(a, x)
            if l is None:
                return None
            c, r = c + l[0], r + l[1]
        return c, r
    if t.op == "mul":
        dep = [a for a in t.args if _mentions(a, {x})]
        if len(dep) != 1:
            return None
        l = _linear(dep[0], x)
        if l is None:
            return None
        k = T.ONE
        for a in t.args:
            if a is not dep[0]:
                k = k * a
        return k * l[0], k * l[1]
    return None


def sum_loop(I, st, seq, env, mod):
    """for x in <symbolic axis>: every carried element is left alone, overwritten
    in every iteration, or incremented by an amount that does not depend on any
    carried value; the latter end as  initial + sum over the axis"""
    assigned = {x.id for b in [st.target] + st.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    arrs = _arrs(I, env)
    init = [b.copy() for b in arrs]
    cont = _containers(env)
    pre = {v: env.vars[v] for v in assigned if v in env.vars}
    tgt = {x.id for x in ast.walk(st.target) if isinstance(x, ast.Name)}
    pre = {k: v for k, v in pre.items() if k not in tgt}
    npc = len(I.pc)

    def restore():
        for b, c in zip(arrs, init):
            b[...] = c
        for v in assigned:
            env.vars.pop(v, None)
        env.vars.update(pre)

    def step():
        _run(I, st, env, mod, seq.item)
        for v, c in cont:
            if v != c:
                raise Unsupported("container changed in a symbolic loop")

    # trial: which elements change
    step()
    chg = [{ix for ix in np.ndindex(b.shape) if b[ix] is not c[ix]} for b, c in zip(arrs, init)]
    names = {}
    for v, old in pre.items():
        new = env.vars.get(v)
        if new is old:
            continue
        if isinstance(new, (int, float, Node, Arr)) and isinstance(old, (int, float, Node, Arr)) and not isinstance(new, bool):
            names[v] = to_arr(new).axes
        else:
            raise Unsupported("loop-carried %s" % v)
    for _ in range(6):
        restore()
        del I.pc[npc:]
        hv = {}
        cur = []
        for b, c, s in zip(arrs, init, chg):
            for ix in s:
                k = T.sym("!hv%d" % next(_n), "complex" if T.is_complex(c[ix]) else "real")
                b[ix] = k
                hv[k] = True
        for v, ax in names.items():
            o = to_arr(pre[v])
            shape = tuple(x for x in ax if isinstance(x, int))
            d = np.empty(shape, dtype=object)
            for ix in np.ndindex(*shape):
                d[ix] = T.sym("!hv%d" % next(_n), "real")
                hv[d[ix]] = True
            env.vars[v] = Arr(ax, d, o.dtype) if ax or isinstance(pre[v], Arr) else d[()]
        start = [b.copy() for b in arrs]
        nstart = {v: to_arr(env.vars[v]) for v in names}
        step()
        more = False
        for b, s, z in zip(arrs, start, chg):
            for ix in np.ndindex(b.shape):
                if ix not in z and b[ix] is not s[ix]:
                    z.add(ix)
                    more = True
        for v, old in pre.items():
            if v not in names and env.vars.get(v) is not old:
                raise Unsupported("loop-carried %s" % v)
        for v, ax in list(names.items()):
            a = to_arr(env.vars[v])
            if a.axes != ax:
                names[v] = a.axes
                more = True
        if not more:
            break
    else:
        raise Unsupported("loop invariant")
    nf = NF()

    def delta(new, old):
        if not _mentions(new, hv):
            return "over"
        d = T.add(new, T.neg(old))
        if not _mentions(d, hv):
            return d
        # linear in the accumulator
        lin = _linear(new, old)
        if lin is not None and not _mentions(lin[1], hv) and (lin[0] is T.ONE or NF().is_zero(lin[0] - T.ONE)):
            return lin[1]
        d = nf.simp(d)
        if not _mentions(d, hv):
            return d
        co = T.subst(new, {old: T.ZERO})
        if not _mentions(co, hv) and NF().is_zero(d - co):
            return co
        raise Unsupported("loop-carried dependency")
    from .arrays import ShapeError
    fin = []
    for b, s, c, z in zip(arrs, start, init, chg):
        f = c.copy()
        for ix in z:
            d = delta(b[ix], s[ix])
            f[ix] = T.sym("!poison%d" % next(_n)) if d == "over" else T.add(c[ix], T.sumover(seq.axis, d))
        fin.append(f)
    nfin = {}
    for v, ax in names.items():
        a, s, o = to_arr(env.vars[v]), nstart[v], to_arr(pre[v])
        if o.axes != ax:
            # value before the loop has another shape: at least one iteration needed
            from . import solve
            if solve.check(list(I.pc) + [T.le(dimlen(seq.axis), T.ZERO)]) != "unsat":
                raise Unsupported("shape depends on the number of iterations")
        shape = a.data.shape
        from .arrays import align
        od = np.broadcast_to(align(o, ax), shape)
        d = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            e = delta(a.data[ix], s.data[ix])
            d[ix] = T.sym("!poison%d" % next(_n)) if e == "over" else T.add(od[ix], T.sumover(seq.axis, e))
        nfin[v] = Arr(ax, d, a.dtype) if ax or isinstance(pre[v], Arr) else d[()]
    restore()
    del I.pc[npc:]
    for b, f in zip(arrs, fin):
        b[...] = f
    for v in assigned:
        if v not in pre:
            env.vars[v] = T.sym("!poison%d" % next(_n))
    env.vars.update(nfin)


# ------------------------------------------------------------ loops with an index
def _dim_of(n):
    """n = #A + c -> (A, c)"""
    names = [s.args[0][1:] for s in T.symbols(n) if s.args[0].startswith("#") and ":" not in s.args[0]]
    if len(set(names)) != 1:
        return None
    c = IX.diff_dim(n, names[0])
    return None if c is None else (names[0], c)


def axis_range(seq):
    """(axis, off, direction) of range(n+off) or its reverse"""
    a, b, s = seq.start, seq.stop, seq.step
    if s == 1 and isinstance(a, int) and a == 0 and isinstance(b, Node):
        d = _dim_of(b)
        return d and (d[0], d[1], 1)
    if s == -1 and isinstance(a, Node) and isinstance(b, int) and b == -1:
        d = _dim_of(a)
        return d and (d[0], d[1] + 1, -1)
    return None


class Carried:
    """one loop-carried element"""

    def __init__(self, ph, init, axes):
        self.ph, self.init, self.axes = ph, init, axes
        self.new = None
        self.kind = None        # over | sum | rec


def placeholder(axes, cplx=True):
    from .arrays import register_generic
    s = T.sym("!ph%d" % next(_n), "complex" if cplx else "real")
    return s


def resolve(states, outputs, axis, off, direction):
    """classify the carried states; returns (substitution for placeholders inside
    an iteration, {state: final value})"""
    phs = {c.ph: c for c in states}

    def own(t, ok=()):
        bad = [s for s in T.symbols(t) if s.args[0].startswith(("!ph", "!poison")) and s not in ok]
        if bad:
            raise Unsupported("loop-carried dependency")
    used = set()
    for t in outputs:
        used |= {s for s in T.symbols(t) if s in phs}
    # overwritten in every iteration, the old value never read
    read = lambda c, ex: any(c.ph in T.symbols(x.new) for x in states if x not in ex)
    dead = [c for c in states if not _mentions(c.new, phs) and c.ph not in used]
    for c in states:
        if c not in dead and not c.ph in used and not read(c, ()):
            dead.append(c)
    for c in dead:
        c.kind = "over"
    for c in states:
        if not _mentions(c.new, phs):
            c.kind = "over"
    for c in states:
        if c.kind:
            continue
        used |= {s for s in T.symbols(c.new) if s in phs and s is not c.ph}
    sub, fin = {}, {}
    dim = Dim(axis, off)
    for c in states:
        if c.kind == "over":
            # overwritten in every iteration: nothing is carried, and the value
            # after the loop counts as unknown
            fin[c] = T.sym("!poison%d" % next(_n))
            continue
        lin = _linear(c.new, c.ph)
        if lin is not None and (lin[0] is T.ONE or not T.has_op(lin[0], "ite") and NF().is_zero(lin[0] - T.ONE)) and c.ph not in used:
            own(lin[1])
            c.kind = "sum"
            fin[c] = T.add(c.init, T.sumover(dim, lin[1]))
            continue
        own(c.new, (c.ph,))
        c.kind = "rec"
        bound = T.sym("%%b%d" % next(_n), "complex")
        r = T.rec(axis, off, direction, bound, T.subst(c.new, {c.ph: bound}), c.init)
        c.rec = r
        sub[c.ph] = r if direction > 0 else T.recat(r, "sh", 1)
        fin[c] = T.recat(r, "at", 0 if direction < 0 else off)
    return sub, fin


def axis_loop(I, st, ax, env, mod):
    from .arrays import index_sym, at_index, shift_index
    from . import solve
    axis, off, direction = ax
    if not isinstance(st.target, ast.Name):
        raise Unsupported("loop target")
    if solve.check(list(I.pc) + [T.le(T.ONE, dimlen(Dim(axis, off)))]) == "unsat":
        return
    assigned = {x.id for b in st.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    if st.target.id in assigned:
        raise Unsupported("loop variable assigned")
    pre = {v: env.vars[v] for v in assigned if v in env.vars}
    for v, x in pre.items():
        if not isinstance(x, (int, float, complex, Node, Arr)) or isinstance(x, bool):
            raise Unsupported("loop-carried %s" % v)
    arrs = _arrs(I, env)
    init = [b.copy() for b in arrs]
    cont = _containers(env)
    npc = len(I.pc)
    names = {}              # carried variable -> axes
    written = {}
    ip = index_sym(axis)

    def restore():
        for b, c in zip(arrs, init):
            b[...] = c
        for v in assigned:
            env.vars.pop(v, None)
        env.vars.update(pre)

    for _ in range(8):
        restore()
        del I.pc[npc:]
        I.pc.append(T.lt(ip, dimlen(Dim(axis, off))))
        f = IX.Frame(axis, off, direction)
        f.written.update(written)
        astates = {}
        for k, (b, c) in written.items():
            d = np.empty(b.shape, dtype=object)
            for ix in np.ndindex(b.shape):
                d[ix] = placeholder(())
                astates[(k, ix)] = Carried(d[ix], None, None)
            f.prev[k] = d
            b[...] = T.sym("!poison%d" % next(_n))
        states = {}
        for v, vax in names.items():
            o = to_arr(pre[v])
            shape = tuple(x for x in vax if isinstance(x, int))
            d = np.empty(shape, dtype=object)
            from .arrays import align
            od = np.broadcast_to(align(o, vax), shape)
            for ix in np.ndindex(*shape):
                d[ix] = placeholder(vax)
                states[(v, ix)] = Carried(d[ix], od[ix], vax)
            env.vars[v] = Arr(vax, d, "c") if vax or isinstance(pre[v], Arr) else d[()]
        before = {v: env.vars.get(v) for v in pre}
        start = [b.copy() for b in arrs]
        IX.FRAMES.append(f)
        try:
            _run(I, st, env, mod, ip)
        finally:
            IX.FRAMES.remove(f)
        for v, c in cont:
            if v != c:
                raise Unsupported("container changed in a symbolic loop")
        for b, s in zip(arrs, start):
            if any(b[ix] is not s[ix] for ix in np.ndindex(b.shape)):
                raise Unsupported("array changed in an indexed loop")
        more = False
        for k in f.cur:
            if k not in written:
                b = f.written[k][0]
                j = [i for i, x in enumerate(arrs) if x is b]
                if not j:
                    raise Unsupported("array created in the loop")
                written[k] = (b, init[j[0]])
                more = True
        for v in pre:
            x = env.vars.get(v)
            if x is not before[v]:
                a = to_arr(x).axes
                if names.get(v) != a:
                    names[v] = a
                    more = True
        if not more:
            break
    else:
        raise Unsupported("loop invariant")
    outs = []
    for (v, ix), c in states.items():
        c.new = to_arr(env.vars[v]).data[ix]
    boundary = 0 if direction > 0 else off
    astate_used = []
    for (k, ix), c in astates.items():
        cur = f.cur.get(k)
        if cur is None:
            raise Unsupported("array written on some iterations only")
        c.new = cur[ix]
    mentioned = set()
    for c in list(states.values()) + list(astates.values()):
        mentioned |= {s for s in T.symbols(c.new)}
    rstates = list(states.values())
    for (k, ix), c in astates.items():
        if c.ph in mentioned:
            # the neighbour of the first index visited was written before the loop
            if direction > 0:
                raise Unsupported("forward array recurrence")
            c.init = at_index(written[k][1][ix], axis, str(off))
            rstates.append(c)
    plain = [c for c in astates.values() if c not in rstates]
    sub, fin = resolve(rstates, [c.new for c in plain] + [c.new for c in astates.values() if c in rstates and not _mentions(c.new, {c.ph})], axis, off, direction)
    if any(c.kind == "over" and c in astates.values() for c in rstates):
        raise Unsupported("loop-carried array access")
    n = dimlen(Dim(axis, off))
    final = {}
    for (k, ix), c in astates.items():
        b, old = written[k]
        if c.kind == "rec":
            # S(n+off) = what was there before; later indices keep their content
            val = c.rec
            whole = None
            for a in _owners(I, env, b):
                whole = a.axes[0].off == off + 1 if whole is None else whole and a.axes[0].off == off + 1
            if not whole:
                raise Unsupported("recurrence on part of an axis")
        else:
            val = T.subst(c.new, sub)
            if any(s.args[0].startswith(("!ph", "!poison")) for s in T.symbols(val)):
                raise Unsupported("loop-carried dependency")
            offs = {a.axes[0].off for a in _owners(I, env, b)}
            if len(offs) != 1:
                raise Unsupported("views of an array written in a loop")
            if offs.pop() != off:
                val = IX._ite(T.lt(ip, n), val, old[ix])
        final[(k, ix)] = val
    nv = {}
    for v, vax in names.items():
        shape = tuple(x for x in vax if isinstance(x, int))
        d = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            d[ix] = T.subst(fin[states[(v, ix)]], sub)
        nv[v] = Arr(vax, d, to_arr(env.vars[v]).dtype) if vax or isinstance(pre[v], Arr) else d[()]
        if to_arr(pre[v]).axes != vax and solve.check(list(I.pc[:npc]) + [T.le(n, T.ZERO)]) != "unsat":
            raise Unsupported("shape depends on the number of iterations")
    restore()
    del I.pc[npc:]
    for (k, ix), val in final.items():
        written[k][0][ix] = val
    for v in assigned:
        if v not in pre:
            env.vars[v] = T.sym("!poison%d" % next(_n))
    env.vars.pop(st.target.id, None)
    env.vars.update(nv)


def _owners(I, env, base):
    out = []
    e = env
    while e is not None:
        for v in e.vars.values():
            if isinstance(v, Arr) and v.data is base:
                out.append(v)
        e = e.parent
    if not out:
        raise Unsupported("array not held by a local")
    return out
