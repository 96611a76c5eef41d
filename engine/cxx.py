"""Symbolic execution of the repository's C++ kernels, from clang's AST of the
current source (redone on every run).

Modelled: double / std::complex<double> arithmetic as exact arithmetic, size_t
arithmetic as integers (concrete values wrap modulo 2^64), pointers as (buffer,
element offset) into arrays of known layout, std::vector of symbolic length,
calls to functions defined in the same file.  Loops whose bound is a symbolic
length are summarised from one generic iteration (induction variables, values
overwritten in every iteration, recurrences); everything else is Unsupported.
"""
import re
import itertools
import json
import os
import subprocess
import numpy as np
from . import terms as T, indexing as IX, solve
from .arrays import Arr, Dim, dimlen, index_sym, at_index, shift_index
from .nf import NF, Unsupported
from .terms import Node
from .loops import _dim_of, Carried, placeholder, resolve, _n

U64 = 1 << 64
_PTRFREE = object()


class Undef:
    def __repr__(self):
        return "<uninitialised>"


UNDEF = Undef()


class Cell:
    __slots__ = ("v", "name", "typ")

    def __init__(self, v, name="", typ=""):
        self.v, self.name, self.typ = v, name, typ

    def get(self):
        if self.v is UNDEF:
            raise Unsupported("uninitialised %s" % self.name)
        return self.v

    def set(self, v):
        self.v = v


class Ptr:
    """buffer + element offset; axes laid out with the first axis fastest"""

    def __init__(self, arr, off, order="F"):
        self.arr, self.off, self.order = arr, off, order


class MemCell:
    def __init__(self, X, arr, order, off):
        self.X, self.arr, self.order, self.off = X, arr, order, off

    def get(self):
        return self.X.load(self.arr, self.order, self.off)

    def set(self, v):
        self.X.store(self.arr, self.order, self.off, v)


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cnt(Exception):
    pass


class LFrame:
    def __init__(self, axis, off, direction):
        self.axis, self.off, self.direction = axis, off, direction
        self.saved = {}         # id(arr) -> (arr, content before the loop), arrays indexed by this axis
        self.free = {}          # arrays written but not indexed by this axis
        self.prev = {}
        self.known = set()
        self.nbr = set()


_asts = {}


def decls(path, name, extra=()):
    """FunctionDecls with a body called `name` in the file"""
    key = (path, name)
    if key not in _asts:
        p = subprocess.run(["clang++", "-std=c++17", "-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + name, path],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=os.path.dirname(path))
        out = []
        dec = json.JSONDecoder()
        s, i = p.stdout, 0
        while i < len(s):
            while i < len(s) and s[i].isspace():
                i += 1
            if i >= len(s):
                break
            o, i = dec.raw_decode(s, i)
            out.append(o)
        _asts[key] = (out, p.stderr[-300:] if p.returncode else "")
    objs, err = _asts[key]
    if err:
        raise Unsupported("clang: " + err)
    return [o for o in objs if o.get("kind") == "FunctionDecl" and o.get("name") == name and any(x.get("kind") == "CompoundStmt" for x in o.get("inner", []))]


def _t(n):
    return n.get("type", {}).get("qualType", "")


def _du(n):
    t = n.get("type", {})
    return t.get("desugaredQualType", t.get("qualType", ""))


def _isint(v):
    return isinstance(v, int) and not isinstance(v, bool)


def _jumps(n):
    """kinds of the jump statements that leave this statement"""
    k = n.get("kind")
    if k in ("ContinueStmt", "BreakStmt", "ReturnStmt"):
        return {k}
    out = set()
    for x in n.get("inner", []):
        out |= _jumps(x)
    if k in ("ForStmt", "WhileStmt", "DoStmt", "SwitchStmt"):
        out &= {"ReturnStmt"}
    return out


def defined_here(path, nm):
    """Does the file itself define a function of this name (rather than the standard library)?"""
    with open(path) as f:
        text = f.read()
    return re.search(r"^[ \t]*[A-Za-z_][\w:<>&* \t]*\b" + re.escape(nm) + r"\s*\([^;{}()]*\)\s*\{", text, re.M) is not None


class Cxx:
    def __init__(self, path, I=None):
        self.path, self.I = path, I
        self.scopes = []
        self.frames = []
        self.trial = 0
        self.bufs = {}
        self.depth = 0
        self.body = None
        self.assumed = []       # conditions of the data-dependent branches being executed

    def pc(self):
        return list(self.I.pc) if self.I is not None else []

    # ------------------------------------------------------------ memory
    def _lens(self, arr):
        return [a if isinstance(a, int) else dimlen(a) for a in arr.axes]

    def locate(self, arr, order, off):
        """per-axis indices of a linear offset: int | ("ix", o) | ("at", k)"""
        lens = self._lens(arr)
        idx = list(range(len(lens)))
        if order == "C":
            idx.reverse()
        strides = [None] * len(lens)
        s = T.ONE
        for j in idx:
            strides[j] = s
            s = T.mul(s, T.num(lens[j]))
        off = T.num(off)
        cands = []
        for a in arr.axes:
            c = []
            if isinstance(a, int):
                c = [(k, T.num(k)) for k in range(a)]
            elif isinstance(a, Dim):
                if any(f.axis == a.name for f in self.frames):
                    ix = index_sym(a.name)
                    c += [(("ix", o), T.add(ix, T.num(o))) for o in (0, 1, -1)]
                c += [(("at", -1 + a.off), T.add(dimlen(a), T.num(-1))), (("at", 0), T.ZERO)]
            else:
                raise Unsupported("pointer into %r" % (arr.axes,))
            cands.append(c)
        nf = NF()
        tgt = nf.norm(off)
        for combo in itertools.product(*cands):
            e = T.ZERO
            for (_, v), st in zip(combo, strides):
                e = T.add(e, T.mul(st, v))
            if nf.ratzero(nf.radd(tgt, nf.rmul(nf.rconst(-1), nf.norm(e)))):
                return [k for k, _ in combo]
        return None

    def _buf(self, arr):
        self.bufs[id(arr)] = arr

    def load(self, arr, order, off):
        self._buf(arr)
        if not arr.axes and (off == 0 or off is T.ZERO):
            return arr.data[()]
        where = self.locate(arr, order, off)
        if where is None:
            if self.trial:
                return T.sym("!poison%d" % next(_n), "complex")
            raise Unsupported("address")
        ints = tuple(k for k in where if _isint(k))
        v = arr.data[ints]
        for k, a in zip(where, arr.axes):
            if _isint(k):
                continue
            kind, o = k
            if kind == "at":
                v = at_index(v, a.name, str(o))
            else:
                f = [x for x in self.frames if x.axis == a.name][-1]
                if o:
                    if not (0 <= o and f.off + o <= a.off):
                        raise Unsupported("index leaves the axis")
                    if id(arr) in f.known or id(arr) in f.saved:
                        if o != -f.direction:
                            raise Unsupported("loop-carried array access")
                        f.nbr.add(id(arr))
                        if id(arr) not in f.prev:
                            return T.sym("!poison%d" % next(_n), "complex")
                        v = f.prev[id(arr)][ints]
                    else:
                        v = shift_index(v, a.name, o)
        v = self.prune(v)
        if v.op == "undef":
            raise Unsupported("uninitialised memory")
        return v

    def bounds(self):
        return self.pc() + self.assumed + [T.lt(index_sym(f.axis), dimlen(Dim(f.axis, f.off))) for f in self.frames]

    def prune(self, v):
        """resolve conditions on the loop index that the loop bounds decide"""
        while v.op == "ite" and any(s.args[0].startswith("#ix:") for s in T.symbols(v.args[0])):
            b = self.bounds()
            if solve.check(b + [v.args[0]]) == "unsat":
                v = v.args[2]
            elif solve.check(b + [T.lnot(v.args[0])]) == "unsat":
                v = v.args[1]
            else:
                break
        return v

    def store(self, arr, order, off, val):
        self._buf(arr)
        where = self.locate(arr, order, off)
        if where is None:
            if self.trial:
                return
            raise Unsupported("address of a store")
        ints = tuple(k for k in where if _isint(k))
        cond = T.TRUE
        names = {}
        for k, a in zip(where, arr.axes):
            if _isint(k):
                continue
            names[a.name] = k
            kind, o = k
            if kind == "at":
                pos = T.num(o) if o >= 0 else T.add(T.sym("#" + a.name, "int", "pos"), T.num(o))
                cond = T.land(cond, T.eq(index_sym(a.name), pos))
        for f in self.frames:
            if f.axis in names:
                if names[f.axis] != ("ix", 0):
                    if self.trial:
                        return
                    raise Unsupported("store to a fixed index inside a loop over it")
                f.saved.setdefault(id(arr), (arr, arr.data.copy()))
            else:
                f.free.setdefault(id(arr), arr)
        arr.data[ints] = IX._ite(cond, T.num(val), arr.data[ints])

    # ------------------------------------------------------------ functions
    def call(self, name, args):
        fs = decls(self.path, name)
        fs = [f for f in fs if len([x for x in f["inner"] if x["kind"] == "ParmVarDecl"]) == len(args)]
        if len(fs) != 1:
            raise Unsupported("C++ function %s" % name)
        return self.run(fs[0], args)

    def run(self, f, args):
        self.depth += 1
        if self.depth > 20:
            raise Unsupported("recursion in C++")
        params = [x for x in f["inner"] if x["kind"] == "ParmVarDecl"]
        sc = {}
        for p, a in zip(params, args):
            ref = _t(p).rstrip().endswith("&")
            if ref and isinstance(a, (Cell, MemCell)):
                sc[p["id"]] = a
            else:
                sc[p["id"]] = Cell(a.get() if isinstance(a, (Cell, MemCell)) else a, p.get("name", ""), _t(p))
        saved = self.scopes
        # cells of the callers stay visible to the loop rule, not to the callee
        self.scopes = saved + [{"!barrier": None}, sc]
        try:
            body = [x for x in f["inner"] if x["kind"] == "CompoundStmt"][0]
            try:
                self.stmt(body)
            except _Ret as r:
                return r.v
            return None
        finally:
            self.scopes = saved
            self.depth -= 1

    def lookup(self, did):
        for s in reversed(self.scopes):
            if did in s:
                return s[did]
            if "!barrier" in s:
                break
        raise Unsupported("C++ name")

    # ------------------------------------------------------------ statements
    def stmt(self, n):
        k = n.get("kind")
        m = getattr(self, "s_" + str(k), None)
        if m is not None:
            return m(n)
        if k is None:
            return
        self.ev(n)

    def s_CompoundStmt(self, n):
        self.scopes.append({})
        try:
            xs = n.get("inner", [])
            for i, x in enumerate(xs):
                if x.get("kind") == "IfStmt":
                    if self.if_stmt(x, xs[i + 1:], n):
                        return
                else:
                    self.stmt(x)
        finally:
            self.scopes.pop()

    def s_NullStmt(self, n):
        pass

    def s_DeclStmt(self, n):
        for d in n.get("inner", []):
            if d["kind"] != "VarDecl":
                if d["kind"] in ("TypedefDecl", "UsingDecl", "TypeAliasDecl", "StaticAssertDecl"):
                    continue
                raise Unsupported("C++ declaration " + d["kind"])
            v = UNDEF
            if d.get("storageClass") == "static":
                raise Unsupported("static local")
            if d.get("inner"):
                if _t(d).rstrip().endswith("&"):
                    c = self.lv(d["inner"][0])
                    self.scopes[-1][d["id"]] = c
                    continue
                v = self.ev(d["inner"][0])
                if isinstance(v, Ptr) and getattr(v, "vec", False) and "*" not in _t(d) and "vec" in _du(d):
                    pass
            c = Cell(v, d.get("name", ""), _du(d))
            if v is not UNDEF:
                c.v = self.conv(v, _du(d))
            self.scopes[-1][d["id"]] = c

    def s_ReturnStmt(self, n):
        raise _Ret(self.ev(n["inner"][0]) if n.get("inner") else None)

    def s_BreakStmt(self, n):
        raise _Brk()

    def s_ContinueStmt(self, n):
        raise _Cnt()

    def s_IfStmt(self, n):
        self.if_stmt(n, [], n)

    def if_stmt(self, n, rest, block):
        """-> True if the rest of the block has been executed as well"""
        inner = n["inner"]
        if n.get("hasInit") or n.get("hasVar"):
            raise Unsupported("if with declaration")
        c = self.ev(inner[0])
        t = self.truth(c, split=True)
        if t is not None:
            if t:
                self.stmt(inner[1])
            elif len(inner) > 2:
                self.stmt(inner[2])
            return False
        # both branches, joined by the condition
        jumps = _jumps(inner[1]) | (_jumps(inner[2]) if len(inner) > 2 else set())
        if jumps - {"ContinueStmt"}:
            raise Unsupported("jump under a data-dependent condition")

        def side(xs):
            def run():
                try:
                    for x in xs:
                        self.stmt(x)
                    if jumps:
                        for x in rest:
                            self.stmt(x)
                except _Cnt:
                    return True
                return False
            return run
        k1, k2 = self.split(c, side(inner[1:2]), side(inner[2:3]))
        if not jumps:
            return False
        if k1 and k2:
            raise _Cnt()
        if (k1 or k2) and block is not self.body:
            raise Unsupported("continue under a data-dependent condition")
        return True

    def split(self, c, f1, f2):
        snap = self.snapshot()
        self.assumed.append(c)
        try:
            r1 = f1()
        finally:
            self.assumed.pop()
        after = self.snapshot()
        self.restore(snap)
        self.assumed.append(T.lnot(c))
        try:
            r2 = f2()
        finally:
            self.assumed.pop()
        for cell, v in after[0]:
            if cell.v is v or type(v) is type(cell.v) and _isint(v) and v == cell.v:
                continue
            if v is UNDEF or cell.v is UNDEF:
                cell.v = UNDEF
                continue
            num = lambda x: isinstance(x, Node) or _isint(x) or isinstance(x, float)
            if isinstance(v, Ptr) and isinstance(cell.v, Ptr) and v.arr is cell.v.arr and T.num(v.off) is T.num(cell.v.off):
                continue
            if not (num(v) and num(cell.v)):
                raise Unsupported("pointer chosen by data")
            cell.v = T.ite(c, T.num(v), T.num(cell.v))
        for a, d in after[1]:
            for i in np.ndindex(*d.shape):
                if a.data[i] is not d[i]:
                    a.data[i] = IX._ite(c, T.num(d[i]), T.num(a.data[i]))
        return r1, r2

    def truth(self, c, split=False):
        if isinstance(c, bool):
            return c
        if _isint(c):
            return c != 0
        if c is None:
            return False
        if isinstance(c, Ptr):
            return True
        if c is T.TRUE or c is T.FALSE:
            return c is T.TRUE
        pc = self.bounds()
        if solve.check(pc + [c]) == "unsat":
            return False
        if solve.check(pc + [T.lnot(c)]) == "unsat":
            return True
        if split:
            return None
        raise Unsupported("C++ branch on data")

    def s_WhileStmt(self, n):
        self.loop(None, n["inner"][0], None, n["inner"][1])

    def s_ForStmt(self, n):
        init, cv, cond, inc, body = n["inner"]
        if cv.get("kind"):
            raise Unsupported("for with declaration in condition")
        self.scopes.append({})
        try:
            if init.get("kind"):
                self.stmt(init)
            self.loop(init, cond if cond.get("kind") else None, inc if inc.get("kind") else None, body)
        finally:
            self.scopes.pop()

    # ------------------------------------------------------------ loops
    def loop(self, init, cond, inc, body):
        if cond is None:
            raise Unsupported("endless loop")
        if not self.is_symbolic(cond):
            for _ in range(10000):
                if not self.truth(self.ev(cond)):
                    return
                outer = self.body
                self.body = body
                try:
                    self.stmt(body)
                except _Brk:
                    return
                except _Cnt:
                    pass
                finally:
                    self.body = outer
                if inc is not None:
                    self.ev(inc)
            raise Unsupported("long loop")
        self.sym_loop(cond, inc, body)

    def is_symbolic(self, cond):
        snap = self.snapshot()
        try:
            c = self.ev(cond)
        finally:
            self.restore(snap)
        return isinstance(c, Node) and c not in (T.TRUE, T.FALSE)

    def cells(self):
        out = {}
        for s in self.scopes:
            for c in s.values():
                if isinstance(c, Cell):
                    out[id(c)] = c
        return list(out.values())

    def snapshot(self):
        cs = self.cells()
        for c in cs:
            if isinstance(c.v, Ptr):
                self._buf(c.v.arr)
        return [(c, c.v) for c in cs], [(a, a.data.copy()) for a in self.bufs.values()]

    def restore(self, snap):
        for c, v in snap[0]:
            c.v = v
        for a, d in snap[1]:
            a.data[...] = d

    def strip(self, n):
        while n.get("kind") in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups"):
            n = n["inner"][0]
        return n

    def range_of(self, cond, inc):
        """(cell, axis, off, direction, predecrement)"""
        c = self.strip(cond)
        if c.get("kind") != "BinaryOperator":
            raise Unsupported("loop condition")
        l, r = c["inner"]
        op = c["opcode"]
        ls = self.strip(l)
        if ls.get("kind") == "UnaryOperator" and ls["opcode"] == "--" and ls.get("isPostfix") and inc is None:
            # while (k-- > 0)
            if op not in (">", "!=") or self.ev(r) not in (0,):
                raise Unsupported("loop condition")
            cell = self.lv(ls["inner"][0])
            d = _dim_of(T.num(cell.get()))
            if d is None:
                raise Unsupported("loop range")
            return cell, d[0], d[1], -1, True
        if op in (">", ">=") and self.strip(r).get("kind") == "DeclRefExpr" and self.strip(l).get("kind") != "DeclRefExpr":
            l, r, op = r, l, {">": "<", ">=": "<="}[op]
        if self.strip(l).get("kind") != "DeclRefExpr":
            raise Unsupported("loop condition")
        cell = self.lv(self.strip(l))
        if not isinstance(cell, Cell):
            raise Unsupported("loop variable")
        start = cell.get()
        uns = "unsigned" in cell.typ or "size_t" in cell.typ
        bound = self.ev(r)
        # the increment
        snap = self.snapshot()
        h = T.sym("!step", "int", "nonneg")
        cell.v = h
        if inc is None:
            self.restore(snap)
            raise Unsupported("while loop")
        self.ev(inc)
        st = NF().norm(T.add(T.num(cell.v), T.neg(h)))
        self.restore(snap)
        step = None if st.d or set(st.n) - {()} else int(st.n.get((), 0))
        if step == 1:
            if op == "<=":
                bound = T.add(T.num(bound), T.ONE)
                op = "<"
            if op not in ("<", "!=") or start not in (0, T.ZERO) or not isinstance(bound, Node):
                raise Unsupported("loop range")
            d = _dim_of(bound)
            if d is None:
                raise Unsupported("loop range")
            return cell, d[0], d[1], 1, False
        if step == -1:
            d = _dim_of(T.num(start))
            if d is None:
                raise Unsupported("loop range")
            if uns and op == "<":
                # size_t k = m-1; k < m; --k   runs m-1 .. 0 and stops at wrap-around
                b = _dim_of(T.num(bound))
                if b != (d[0], d[1] + 1):
                    raise Unsupported("loop range")
            elif not uns and op == ">=" and bound in (0, T.ZERO) or not uns and op == ">" and bound in (-1, T.num(-1)):
                pass
            else:
                raise Unsupported("loop range")
            return cell, d[0], d[1] + 1, -1, False
        raise Unsupported("loop step")

    def sym_loop(self, cond, inc, body):
        cell, axis, off, direction, predec = self.range_of(cond, inc)
        if any(f.axis == axis for f in self.frames):
            raise Unsupported("nested loops over the same axis")
        n = dimlen(Dim(axis, off))
        if solve.check(self.pc() + [T.le(T.ONE, n)]) == "unsat":
            cell.v = T.sym("!poison%d" % next(_n))
            return
        if solve.check(self.pc() + [T.le(n, T.num(-1))]) != "unsat":
            raise Unsupported("possibly negative loop count")
        ix = index_sym(axis)
        snap0 = self.snapshot()
        start = {id(c): v for c, v in snap0[0]}
        carried = {}            # id(cell) -> cell
        ind = {}                # id(cell) -> constant step per iteration
        known, free = {}, {}
        self.trial += 1
        try:
            for it in range(10):
                final = False
                f, states, more = self.iteration(cell, axis, off, direction, ix, body, inc, snap0, start, carried, ind, known, free)
                if not more:
                    break
            else:
                raise Unsupported("loop invariant")
        finally:
            self.trial -= 1
            self.restore(snap0)
        if not self.trial:
            f, states, more = self.iteration(cell, axis, off, direction, ix, body, inc, snap0, start, carried, ind, known, free)
            if more:
                raise Unsupported("loop invariant")
        # ---- close the loop
        poison = lambda: T.sym("!poison%d" % next(_n), "complex")
        arec = {}
        rstates = list(states.values())
        plain = []
        for k, (arr, old) in f.saved.items():
            if k in f.nbr:
                if direction > 0:
                    raise Unsupported("forward array recurrence")
                d = [a for a in arr.axes if isinstance(a, Dim) and a.name == axis][0]
                if d.off != off + 1:
                    raise Unsupported("recurrence on part of an axis")
                for i in np.ndindex(*arr.data.shape):
                    c = Carried(f.prev[k][i] if k in f.prev else poison(), at_index(old[i], axis, str(off)), None)
                    c.new = arr.data[i]
                    arec[(k, i)] = c
                    rstates.append(c)
            else:
                plain.append((arr, old))
        outs = [a.data[i] for a, _ in plain for i in np.ndindex(*a.data.shape)]
        try:
            sub, fin = resolve(rstates, outs, axis, off, direction)
        except Unsupported:
            if not self.trial:
                raise
            sub, fin = {}, {c: poison() for c in rstates}
            for c in rstates:
                c.kind = "over"
        new_bufs = []
        for arr, old in plain:
            d = [a for a in arr.axes if isinstance(a, Dim) and a.name == axis][0]
            out = arr.data.copy()
            for i in np.ndindex(*out.shape):
                v = T.subst(out[i], sub)
                if any(s.args[0].startswith(("!ph", "!poison")) for s in T.symbols(v)) and not self.trial:
                    raise Unsupported("loop-carried dependency")
                if d.off != off:
                    v = IX._ite(T.lt(ix, n), v, old[i])
                out[i] = v
            new_bufs.append((arr, out))
        for (k, i), c in arec.items():
            arr = f.saved[k][0]
            if c.kind != "rec":
                if self.trial:
                    arr.data[i] = poison()
                    continue
                raise Unsupported("loop-carried array access")
            arr.data[i] = c.rec
        for arr, out in new_bufs:
            arr.data[...] = out
        for k, arr in f.free.items():
            for i in np.ndindex(*arr.data.shape):
                arr.data[i] = poison()
        touched = {id(a) for a, _ in plain} | {k for k, _ in arec} | set(f.free)
        for a, d in snap0[1]:
            if id(a) not in touched:
                a.data[...] = d
        for cid, c in carried.items():
            if c is cell:
                continue
            if cid in ind:
                c.v = T.add(T.num(start[cid]), T.mul(n, ind[cid])) if direction > 0 else poison()
            elif cid in states:
                c.v = T.subst(fin[states[cid]], sub)
            else:
                c.v = poison()
        cell.v = poison() if direction < 0 else n

    def iteration(self, cell, axis, off, direction, ix, body, inc, snap0, start, carried, ind, known, free):
        """one generic iteration from a havocked state"""
        self.restore(snap0)
        f = LFrame(axis, off, direction)
        f.known = set(known)
        states = {}
        for cid, c in carried.items():
            if c is cell:
                continue
            v0 = start[cid]
            if cid in ind:
                c.v = T.add(T.num(v0), T.mul(ix, ind[cid]))
            elif v0 is UNDEF or isinstance(v0, (Ptr, type(None))):
                c.v = UNDEF
            else:
                st = Carried(placeholder(()), T.num(v0), None)
                states[cid] = st
                c.v = st.ph
        for k, arr in known.items():
            d = np.empty(arr.data.shape, dtype=object)
            for i in np.ndindex(*d.shape):
                d[i] = placeholder(())
            f.prev[k] = d
        for k, arr in free.items():
            for i in np.ndindex(*arr.data.shape):
                arr.data[i] = T.sym("!poison%d" % next(_n), "complex")
        cell.v = ix
        before = [(c, c.v) for c in self.cells()]
        self.frames.append(f)
        try:
            outer = self.body
            self.body = body
            try:
                self.stmt(body)
            except _Cnt:
                pass
            except (_Brk, _Ret):
                raise Unsupported("jump out of a symbolic loop")
            finally:
                self.body = outer
            if inc is not None:
                cell.v = ix
                self.ev(inc)
        finally:
            self.frames.pop()
        more = False
        for c, v in before:
            if c is cell or c.v is v:
                continue
            if id(c) not in carried:
                carried[id(c)] = c
                more = True
        for k, (arr, old) in f.saved.items():
            if k not in known:
                known[k] = arr
                more = True
        for k, arr in f.free.items():
            if k not in free and k not in f.saved:
                free[k] = arr
                more = True
        # induction variables
        for cid, st in list(states.items()):
            c = carried[cid]
            st.new = T.num(c.v) if isinstance(c.v, (int, Node)) and not isinstance(c.v, bool) else None
            if st.new is None:
                raise Unsupported("loop-carried %s" % c.name)
            if cid in ind or direction < 0 or not ("int" in c.typ or "long" in c.typ or "size_t" in c.typ):
                continue
            d = NF().norm(T.add(st.new, T.neg(st.ph)))
            e = T.add(st.new, T.neg(st.ph))
            e = NF().simp(e)
            if not any(s.args[0].startswith(("!", "#ix")) for s in T.symbols(e)):
                ind[cid] = e
                more = True
        return f, states, more

    # ------------------------------------------------------------ expressions
    def conv(self, v, typ):
        if "unsigned" in typ or "size_t" in typ:
            if _isint(v):
                return v % U64
        return v

    def lv(self, n):
        k = n["kind"]
        if k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr"):
            return self.lv(n["inner"][0])
        if k == "ImplicitCastExpr" and n.get("castKind") in ("NoOp", "ArrayToPointerDecay"):
            return self.lv(n["inner"][0])
        if k == "DeclRefExpr":
            return self.lookup(n["referencedDecl"]["id"])
        if k == "ArraySubscriptExpr":
            p, i = self.ev(n["inner"][0]), self.ev(n["inner"][1])
            if isinstance(i, Ptr):
                p, i = i, p
            return self.elem(p, i)
        if k == "UnaryOperator" and n["opcode"] == "*":
            return self.elem(self.ev(n["inner"][0]), 0)
        if k == "UnaryOperator" and n["opcode"] in ("++", "--") and not n.get("isPostfix"):
            self.ev(n)
            return self.lv(n["inner"][0])
        if k == "CXXOperatorCallExpr":
            op, args = self.opcall(n)
            if op == "[]":
                return self.elem(self.ev(args[0]), self.ev(args[1]))
            self.ev(n)
            return self.lv(args[0])
        if k in ("BinaryOperator", "CompoundAssignOperator") and (n["opcode"].endswith("=") and n["opcode"] not in ("==", "!=", "<=", ">=")):
            self.ev(n)
            return self.lv(n["inner"][0])
        raise Unsupported("C++ lvalue " + k)

    def elem(self, p, i):
        if not isinstance(p, Ptr):
            raise Unsupported("null or unknown pointer")
        o = p.off + i if _isint(p.off) and _isint(i) else T.add(T.num(p.off), T.num(i))
        return MemCell(self, p.arr, p.order, o)

    def opcall(self, n):
        callee = self.strip(n["inner"][0])
        nm = callee.get("referencedDecl", {}).get("name", "")
        if not nm.startswith("operator"):
            raise Unsupported("C++ operator call")
        return nm[8:], n["inner"][1:]

    def ev(self, n):
        k = n.get("kind")
        m = getattr(self, "e_" + str(k), None)
        if m is None:
            raise Unsupported("C++ " + str(k))
        return m(n)

    def e_ParenExpr(self, n):
        return self.ev(n["inner"][0])

    e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_ConstantExpr = e_SubstNonTypeTemplateParmExpr = e_ParenExpr

    def e_ImplicitCastExpr(self, n):
        ck = n.get("castKind")
        if ck == "NullToPointer":
            return None
        v = self.ev(n["inner"][0])
        if ck in ("FloatingToIntegral",):
            raise Unsupported("float to int")
        if ck == "IntegralToBoolean" or ck == "PointerToBoolean":
            return self.truth(v)
        if ck == "IntegralToFloating":
            return T.num(v)
        if ck == "IntegralCast":
            return self.conv(v, _du(n))
        return v

    e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_ImplicitCastExpr

    def e_DeclRefExpr(self, n):
        c = self.lookup(n["referencedDecl"]["id"])
        return c.get()

    def e_ArraySubscriptExpr(self, n):
        return self.lv(n).get()

    def e_IntegerLiteral(self, n):
        return int(n["value"])

    def e_FloatingLiteral(self, n):
        v = float(n["value"])
        import math
        if v == math.pi:
            return T.PI
        return T.num(v)

    def e_CXXBoolLiteralExpr(self, n):
        return bool(n["value"])

    def e_GNUNullExpr(self, n):
        return None

    e_CXXNullPtrLiteralExpr = e_GNUNullExpr

    def e_CXXDefaultArgExpr(self, n):
        return _PTRFREE

    def e_CXXConstructExpr(self, n):
        t = _du(n) + " " + _t(n)
        args = [self.ev(x) for x in n.get("inner", [])]
        args = [a for a in args if a is not _PTRFREE]
        if "vector" in t or "vec" in t:
            if len(args) == 1 and isinstance(args[0], Ptr):
                return args[0]
            if not args:
                raise Unsupported("empty vector")
            ln = args[0]
            fill = T.ZERO if len(args) < 2 else T.num(args[1])
            if _isint(ln):
                d = np.empty((ln,), dtype=object)
                d[...] = fill
                a = Arr((ln,), d, "c")
            else:
                dm = _dim_of(T.num(ln))
                if dm is None:
                    raise Unsupported("vector length")
                d = np.empty((), dtype=object)
                d[()] = fill
                a = Arr((Dim(*dm),), d, "c")
            self._buf(a)
            p = Ptr(a, 0, "F")
            p.vec = True
            return p
        if "complex" in t:
            if not args:
                return T.ZERO
            if len(args) == 1:
                return T.num(args[0])
            if len(args) == 2:
                return T.add(T.num(args[0]), T.mul(T.I, T.num(args[1])))
        raise Unsupported("constructor of " + t)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_InitListExpr(self, n):
        xs = n.get("inner", [])
        if len(xs) == 1:
            return self.ev(xs[0])
        raise Unsupported("initialiser list")

    def e_ConditionalOperator(self, n):
        c, a, b = n["inner"]
        c = self.ev(c)
        t = self.truth(c, split=True)
        if t is not None:
            return self.ev(a if t else b)
        x, y = self.split(c, lambda: self.ev(a), lambda: self.ev(b))
        if isinstance(x, Ptr) or isinstance(y, Ptr) or x is None or y is None:
            raise Unsupported("pointer chosen by data")
        return T.ite(c, T.num(x), T.num(y))

    def logical(self, op, l, r):
        a = self.ev(l)
        t = self.truth(a, split=True)
        if t is not None:
            if t is (op == "||"):
                return t
            b = self.ev(r)
            tb = self.truth(b, split=True)
            return b if tb is None else tb
        snap = self.snapshot()
        b = self.ev(r)
        if any(c.v is not v for c, v in snap[0]):
            raise Unsupported("side effect in a condition")
        tb = self.truth(b, split=True)
        b = b if tb is None else (T.TRUE if tb else T.FALSE)
        return T.land(a, b) if op == "&&" else T.lor(a, b)

    def e_UnaryOperator(self, n):
        op = n["opcode"]
        x = n["inner"][0]
        if op in ("++", "--"):
            c = self.lv(x)
            old = c.get()
            s = 1 if op == "++" else -1
            if isinstance(old, Ptr):
                new = Ptr(old.arr, self.arith("+", old.off, s, "long"), old.order)
            else:
                new = self.arith("+", old, s, _du(x))
            c.set(new)
            return old if n.get("isPostfix") else new
        if op == "&":
            c = self.lv(x)
            if isinstance(c, MemCell):
                return Ptr(c.arr, c.off, c.order)
            raise Unsupported("address of a local")
        if op == "*":
            return self.lv(n).get()
        v = self.ev(x)
        if op == "-":
            return self.conv(-v, _du(n)) if _isint(v) else T.neg(v)
        if op == "+":
            return v
        if op == "!":
            t = self.truth(v, split=True)
            return T.lnot(v) if t is None else not t
        raise Unsupported("C++ unary " + op)

    def arith(self, op, a, b, typ=""):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == "+":
                p, i = (a, b) if isinstance(a, Ptr) else (b, a)
                return Ptr(p.arr, self.arith("+", p.off, i), p.order)
            if op == "-" and isinstance(a, Ptr) and not isinstance(b, Ptr):
                return Ptr(a.arr, self.arith("-", a.off, b), a.order)
            raise Unsupported("pointer arithmetic")
        if a is UNDEF or b is UNDEF or a is None or b is None:
            raise Unsupported("undefined operand")
        if _isint(a) and _isint(b):
            if op == "/":
                if b == 0:
                    raise Unsupported("division by zero")
                r = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            elif op == "%":
                r = a % b
            else:
                r = {"+": a + b, "-": a - b, "*": a * b}[op]
            return self.conv(r, typ)
        if op == "%" or op == "/" and ("int" in typ or "long" in typ):
            raise Unsupported("integer division")
        a, b = T.num(a), T.num(b)
        return {"+": lambda: T.add(a, b), "-": lambda: T.add(a, T.neg(b)), "*": lambda: T.mul(a, b), "/": lambda: T.div(a, b)}[op]()

    def compare(self, op, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr) or a is None or b is None:
            if (a is None or b is None) and op in ("==", "!="):
                same = a is None and b is None
                return same if op == "==" else not same
            raise Unsupported("pointer comparison")
        if _isint(a) and _isint(b):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
        a, b = T.num(a), T.num(b)
        return {"<": lambda: T.lt(a, b), "<=": lambda: T.le(a, b), ">": lambda: T.lt(b, a), ">=": lambda: T.le(b, a), "==": lambda: T.eq(a, b), "!=": lambda: T.lnot(T.eq(a, b))}[op]()

    def e_BinaryOperator(self, n):
        op = n["opcode"]
        l, r = n["inner"]
        if op == "=":
            v = self.ev(r)
            self.lv(l).set(self.conv(v, _du(l)))
            return v
        if op == ",":
            self.ev(l)
            return self.ev(r)
        if op in ("&&", "||"):
            return self.logical(op, l, r)
        a, b = self.ev(l), self.ev(r)
        if op in ("<", "<=", ">", ">=", "==", "!="):
            return self.compare(op, a, b)
        if op in "+-*/%":
            return self.arith(op, a, b, _du(n))
        raise Unsupported("C++ operator " + op)

    def e_CompoundAssignOperator(self, n):
        op = n["opcode"][:-1]
        l, r = n["inner"]
        v = self.ev(r)
        c = self.lv(l)
        c.set(self.arith(op, c.get(), v, _du(l)))
        return c.get()

    def e_CXXOperatorCallExpr(self, n):
        op, args = self.opcall(n)
        if op == "[]":
            return self.lv(n).get()
        if op == "=":
            v = self.ev(args[1])
            self.lv(args[0]).set(v if isinstance(v, Ptr) else T.num(v))
            return v
        if op in ("+=", "-=", "*=", "/="):
            v = self.ev(args[1])
            c = self.lv(args[0])
            c.set(self.arith(op[0], T.num(c.get()), T.num(v)))
            return c.get()
        vs = [self.ev(a) for a in args]
        if len(vs) == 1:
            if op == "-":
                return T.neg(T.num(vs[0]))
            if op == "+":
                return vs[0]
        if len(vs) == 2:
            if op in "+-*/":
                return self.arith(op, T.num(vs[0]), T.num(vs[1]))
            if op in ("==", "!="):
                return self.compare(op, vs[0], vs[1])
        raise Unsupported("C++ operator" + op)

    FN = {"sqrt": T.sqrt, "exp": T.exp, "log": T.log, "tanh": lambda x: T.fn("tanh", x), "sin": T.sin, "cos": T.cos,
          "sinh": lambda x: T.fn("sinh", x), "cosh": lambda x: T.fn("cosh", x), "conj": lambda x: T.fn("conj", x) if T.is_complex(x) else x,
          "real": lambda x: T.fn("re", x) if T.is_complex(x) else x, "imag": lambda x: T.fn("im", x) if T.is_complex(x) else T.ZERO, "abs": T.absv, "fabs": T.absv}

    def e_CallExpr(self, n):
        callee = self.strip(n["inner"][0])
        if callee.get("kind") != "DeclRefExpr":
            raise Unsupported("C++ call")
        nm = callee["referencedDecl"]["name"]
        args = n["inner"][1:]
        if nm in self.FN and len(args) == 1 and not defined_here(self.path, nm):
            return self.FN[nm](T.num(self.ev(args[0])))
        if nm == "pow" and len(args) == 2:
            return T.power(T.num(self.ev(args[0])), T.num(self.ev(args[1])))
        fs = decls(self.path, nm)
        fs = [f for f in fs if len([x for x in f["inner"] if x["kind"] == "ParmVarDecl"]) == len(args)]
        if len(fs) != 1:
            raise Unsupported("C++ function " + nm)
        params = [x for x in fs[0]["inner"] if x["kind"] == "ParmVarDecl"]
        vs = []
        for p, a in zip(params, args):
            t = _t(p).rstrip()
            if t.endswith("&") and not t.startswith("const"):
                vs.append(self.lv(a))
            else:
                vs.append(self.ev(a))
        return self.run(fs[0], vs)

    def e_CXXMemberCallExpr(self, n):
        me = self.strip(n["inner"][0])
        if me.get("kind") != "MemberExpr":
            raise Unsupported("C++ member call")
        nm = me.get("name")
        v = self.ev(me["inner"][0])
        if nm == "size" and isinstance(v, Ptr):
            return self._lens(v.arr)[0]
        if nm == "data" and isinstance(v, Ptr):
            return Ptr(v.arr, 0, v.order)
        if nm in ("real", "imag") and len(n["inner"]) == 1:
            return self.FN[nm](T.num(v))
        raise Unsupported("C++ member " + str(nm))
