"""differential test of the interpreter's model of Python/numpy: small functions
are executed symbolically and the resulting terms, evaluated at random points,
compared with numpy's own answer.  Run by hand: python3-vt tools/modeltest.py"""
import ast
import os
import random
import sys
import textwrap
import numpy as np
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from engine import terms as T, numeric, npmodel  # noqa
from engine.arrays import Arr, Pack, to_arr, packrank  # noqa
from engine.interp import Interp, Unsupported  # noqa
from engine.ctx import CTX  # noqa

HEAD = "import numpy as np\nimport math\nfrom scipy.spatial.transform import Rotation\n"
# each: body of f(x, v, a) with x (..., 3) points, v a 3-vector, a > 0 a scalar
SNIPS = open(os.path.join(HERE, "tools", "modeltest_snippets.txt")).read().split("\n---\n")


def run(src, verbose):
    body = textwrap.dedent(src).strip("\n")
    code = HEAD + "def f(x, v, a):\n" + textwrap.indent(body, "    ") + "\n"
    ns = {}
    exec(code, ns)
    CTX.reset()
    I = Interp("/repo", ext={"snip": ast.parse(code)})
    xs = [T.sym("x.%d" % i) for i in range(3)]
    vs = [T.sym("v.%d" % i) for i in range(3)]
    a = T.sym("a", "real", "pos")

    def arr(axes, s):
        d = np.empty(3, dtype=object)
        d[:] = s
        return Arr(axes, d, "f")

    def scen(I_):
        T._fresh[0] = 0
        m = I_.load("snip")
        return I_.call(m.ns["f"], [arr((Pack("p"), 3), xs), arr((3,), vs), a], {})
    outs = I.explore(scen)
    rng = random.Random(3)
    for shape in [(), (1,), (4,), (2, 3)]:
        for rep in range(4):
            x = np.array([rng.choice([rng.uniform(-2, 2), rng.uniform(-2, 2), float(rng.randint(-1, 1))]) for _ in range(3 * int(np.prod(shape)))]).reshape(shape + (3,))
            v = np.array([rng.uniform(-2, 2) for _ in range(3)])
            av = rng.uniform(0.2, 2)
            exc = None
            x0 = x.copy()
            try:
                with np.errstate(all="ignore"):
                    want = np.asarray(ns["f"](x.copy(), v.copy(), av))
            except Exception as e:
                exc = e
            for ix in np.ndindex(*shape):
                env = {xs[i]: x0[ix][i] for i in range(3)}
                env.update({vs[i]: v[i] for i in range(3)})
                env[a] = av
                env[packrank("p")] = len(shape)
                hit = []
                for o in outs:
                    try:
                        if all(numeric.evaluate(c, env) for c in o.pc):
                            hit.append(o)
                    except numeric.EvalError:
                        if len(outs) == 1 or not shape or shape == (1,):
                            raise
                        hit = None
                        break
                if hit is None:
                    continue
                if len(hit) != 1:
                    return "PATHS %d" % len(hit)
                o = hit[0]
                if (o.kind == "raise") != (exc is not None):
                    return "EXC model=%r numpy=%r shape=%r" % (o.value, exc, shape)
                if exc is not None:
                    continue
                r = to_arr(o.value)
                tail = [q for q in r.axes if isinstance(q, int)]
                npk = any(isinstance(q, Pack) for q in r.axes)
                w = want[ix] if npk and r.axes and isinstance(r.axes[0], Pack) else want
                if npk and not isinstance(r.axes[0], Pack):
                    k = sum(1 for q in r.axes[:[isinstance(q, Pack) for q in r.axes].index(True)])
                    w = want[(slice(None),) * k + ix]
                if list(np.shape(w)) != tail:
                    return "SHAPE model %r numpy %r (batch %r)" % (r.axes, want.shape, shape)
                for j in np.ndindex(*r.data.shape):
                    g = r.data[j]
                    try:
                        g = numeric.evaluate(g, env) if not isinstance(g, (int, float, bool)) else g
                    except (numeric.EvalError, ZeroDivisionError):
                        if np.isfinite(w[j]):
                            return "UNDEF %r" % (w[j],)
                        continue
                    if not np.isfinite(w[j]):
                        continue
                    if abs(complex(g) - complex(w[j])) > 1e-9 * (1 + abs(complex(w[j]))):
                        return "VALUE model %s numpy %s at %r %r" % (g, w[j], x0[ix], v)
    return "ok"


def main():
    bad = 0
    for s in SNIPS:
        if not s.strip():
            continue
        if len(sys.argv) > 1 and not any(q in s for q in sys.argv[1:]):
            continue
        try:
            r = run(s, False)
        except Unsupported as e:
            r = "unsupported: %s" % e
        except Exception as e:
            r = "CRASH %s: %s" % (type(e).__name__, str(e)[:200])
            if len(sys.argv) > 1:
                raise
        if r != "ok":
            bad += 1
            print(r, "<<", s.strip().replace("\n", " ; ")[:150])
    print("%d snippets, %d not ok" % (len(SNIPS), bad))


main()
