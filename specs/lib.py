from engine import terms as T
from engine.npmodel import CONST_SYMS

G = CONST_SYMS["G"]
MU0 = CONST_SYMS["mu_0"]
EPS0 = CONST_SYMS["epsilon_0"]
PI = T.PI
I = T.I


def S(n):
    return T.mk("sym", n)


def V(name, n=3):
    return [S("%s.%d" % (name, i)) for i in range(n)]


def D(name="d"):
    return V(name)


def delta(i, j):
    return 1 if i == j else 0


def R2(d):
    return d[0] * d[0] + d[1] * d[1] + d[2] * d[2]


def RR(d):
    return T.sqrt(R2(d))


def dot(a, b):
    r = a[0] * b[0]
    for x, y in zip(a[1:], b[1:]):
        r = r + x * y
    return r


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def grad(f, d):
    return [T.diff(f, x) for x in d]


def div(v, d):
    return T.diff(v[0], d[0]) + T.diff(v[1], d[1]) + T.diff(v[2], d[2])


def curl(v, d):
    return [T.diff(v[2], d[1]) - T.diff(v[1], d[2]), T.diff(v[0], d[2]) - T.diff(v[2], d[0]), T.diff(v[1], d[0]) - T.diff(v[0], d[1])]


def lap(f, d):
    return sum((T.diff(T.diff(f, x), x) for x in d), T.ZERO)
