"""Validated attributes: every physical parameter is checked when the object is
built and when it is assigned; what is accepted reads back unchanged, what is
rejected raises and leaves the object as it was."""
import numpy as np
from engine import terms as T
from engine.arrays import Arr
from engine.harness import Case, Eq, Want, Holds
from engine.interp import Obj
from specs.lib import *
from specs import frame as F

ST, FD, TD, GR = "geoana.em.static.", "geoana.em.fdem.", "geoana.em.tdem.", "geoana.gravity."
EMP = [("sigma", "pos"), ("mu", "pos"), ("epsilon", "nonneg")]
DIP = [("location", "vec"), ("orientation", "unit")]
ELE = DIP + [("length", "pos"), ("current", "real")]
MAG = DIP + [("moment", "real")]
FRQ = [("frequency", "freq")]
TIM = [("time", "freq")]
PW = [("amplitude", "real"), ("orientation", "xy")]
one = np.array([1.0, 2.0, 3.0])


def c(B):
    return {}


# class -> (required constructor arguments, attributes)
TABLE = {
    "geoana.em.base.BaseEM": ({}, EMP),
    ST + "MagneticDipoleWholeSpace": ({}, EMP + MAG),
    ST + "MagneticPoleWholeSpace": ({}, EMP + MAG),
    ST + "CircularLoopWholeSpace": ({}, EMP + DIP + [("radius", "pos"), ("current", "real")]),
    ST + "LineCurrentWholeSpace": (dict(nodes=np.array([[0.0, 0.0, 0.0], [1.0, 2.0, 3.0]])), EMP + [("nodes", "nodes"), ("current", "real")]),
    ST + "PointCurrentWholeSpace": (dict(rho=2.0), [("current", "real"), ("location", "vec"), ("rho", "rho")]),
    ST + "PointCurrentHalfSpace": (dict(rho=2.0), [("rho", "pos"), ("current", "real"), ("location", "below")]),
    ST + "DipoleHalfSpace": (dict(rho=2.0), [("rho", "pos"), ("current", "real"), ("location_a", "below"), ("location_b", "below")]),
    ST + "ElectrostaticSphere": (dict(radius=2.0, sigma_sphere=3.0, sigma_background=0.5), [("radius", "nonneg"), ("sigma_sphere", "pos"), ("sigma_background", "pos"), ("primary_field", "vec"), ("location", "vec")]),
    ST + "MagnetostaticSphere": (dict(radius=2.0, mu_sphere=3.0, mu_background=0.5), [("radius", "nonneg"), ("mu_sphere", "pos"), ("mu_background", "pos"), ("primary_field", "vec"), ("location", "vec")]),
    ST + "MagneticPrism": (dict(min_location=-one, max_location=one), [("magnetization", "vec"), ("min_location", "vec*"), ("max_location", "vec*")]),
    GR + "PointMass": ({}, [("mass", "real"), ("location", "vec")]),
    GR + "Sphere": (dict(radius=2.0, rho=3.0), [("radius", "nonneg"), ("rho", "real"), ("location", "vec")]),
    GR + "Prism": (dict(min_location=-one, max_location=one), [("rho", "real"), ("min_location", "vec*"), ("max_location", "vec*")]),
    FD + "BaseFDEM": (dict(frequency=2.0), FRQ + EMP),
    FD + "ElectricDipoleWholeSpace": (dict(frequency=2.0), FRQ + EMP + ELE),
    FD + "MagneticDipoleWholeSpace": (dict(frequency=2.0), FRQ + EMP + MAG),
    FD + "HarmonicPlaneWave": (dict(frequency=2.0), FRQ + EMP + PW),
    FD + "MagneticDipoleHalfSpace": (dict(frequency=2.0), FRQ + EMP + MAG[1:]),
    FD + "MagneticDipoleLayeredHalfSpace": (dict(frequency=2.0, thickness=np.array([1.0, 2.0])), [("frequency", "freqs"), ("thickness", "thick"), ("sigma", "lpos"), ("mu", "lmu"), ("epsilon", "leps")] + MAG[1:]),
    TD + "BaseTDEM": (dict(time=2.0), TIM + EMP),
    TD + "ElectricDipoleWholeSpace": (dict(time=2.0), TIM + EMP + ELE),
    TD + "TransientPlaneWave": (dict(time=2.0), TIM + EMP + PW),
    TD + "VerticalMagneticDipoleHalfSpace": (dict(time=2.0), TIM + EMP + [("location", "vec"), ("moment", "real")]),
}
EQK = "geoana.earthquake.oksar."
_eq = dict(data=np.array([1.0, 2.0, 3.0, 4.0]), title="t", location=np.array([1.0, 2.0]), location_UTM_zone=35, shape=(2, 2), pixel_size=np.array([3.0, 4.0]), ref=np.array([5.0, 6.0]),
           ref_incidence=20.0, satellite_azimuth=190.0, satellite_altitude=8e5, processed_by="p")
_ok = dict(O=np.array([1.0, 2.0]), U=np.array([5.0, 0.0]), V=np.array([0.0, 5.0]), center=np.array([2.0, 3.0]), depth_top=1.0)
TABLE[EQK + "EarthquakeInterferogram"] = (_eq, [("location", "vec2"), ("pixel_size", "vec2"), ("ref", "vec2")] + [(a, "real") for a in (
    "ref_incidence", "scaling", "satellite_fringe_interval", "satellite_azimuth", "satellite_altitude", "local_earth_radius", "local_rigidity")])
TABLE[EQK + "Oksar"] = (_ok, [("O", "vec2"), ("U", "vec2"), ("V", "vec2"), ("center", "vec2"), ("depth_top", "0:10000"), ("depth_bottom", "deeper"), ("strike", "0:360"), ("dip", "0:90"), ("rake", "-180:180"),
                              ("slip", "nonneg"), ("length", "nonneg"), ("beta", "real"), ("mu", "real")])
DEPEND = {("rho", "sigma"), ("sigma", "rho"), ("rho", "mass"), ("radius", "mass"), ("location", "nodes"), ("nodes", "location")}


def base(B, req):
    return {k: B.const(v) for k, v in req.items()}


VALID = {"real": lambda B: B.scalar("v"), "pos": lambda B: B.scalar("vp", "pos"), "nonneg": lambda B: B.scalar("vn", "nonneg")}


def good(B, kind):
    """-> list of (value to assign, what must read back)"""
    if kind == "real":
        return B.scalar("v"), Want((), S("v"))
    if kind in ("pos", "rho"):
        return B.scalar("vp", "pos"), Want((), S("vp"))
    if kind == "nonneg":
        return B.scalar("vn", "nonneg"), Want((), S("vn"))
    if kind == "vec":
        return B.vec("vec"), Want((3,), V("vec"))
    if kind == "vec2":
        return B.vec("w", 2), Want((2,), [S("w.0"), S("w.1")])
    if kind == "deeper":
        return B.const(1.0) + B.scalar("vn", "nonneg"), Want((), 1 + S("vn"))
    if ":" in kind:
        lo, hi = (T.num(int(b)) for b in kind.split(":"))
        v = B.scalar("v")
        B.assume(T.le(lo, S("v")))
        B.assume(T.le(S("v"), hi))
        return v, Want((), S("v"))
    if kind == "vec*":
        return B.vec("vec"), Want((3,), V("vec"))
    if kind == "below":
        return B.array("vb", (3,), signs={2: "neg"}), Want((3,), V("vb"))
    if kind == "unit":
        return B.unit("o", B.scalar("k", "pos")), Want((3,), V("o"), scale="vec", tol=1e-12)
    if kind == "xy":
        o = B.vec("vxy")
        B.pin(o, 2, 0.0)
        x, y = S("vxy.0"), S("vxy.1")
        B.assume(T.lt(T.ZERO, x * x + y * y))
        r = T.sqrt(x * x + y * y)
        return o, Want((3,), [x / r, y / r, T.ZERO], scale="vec", tol=1e-12)
    if kind == "nodes":
        return B.array("nd", ("#n", 3)), Want(("#n", 3), V("nd"))
    if kind in ("freq", "freqs", "thick"):
        return B.array("fr", ("#f",), sign="nonneg"), Want(("#f",), S("fr"))
    if kind in ("lpos", "lmu", "leps"):
        lo = {"lpos": T.ZERO, "lmu": MU0, "leps": EPS0}[kind]
        v = B.array("lv", (3,), kind="complex")
        for i in range(3):
            r = T.fn("re", S("lv.%d" % i))
            B.assume(T.lt(lo, r) if kind == "lpos" else T.le(lo, r))
            B.assume(T.le(T.ZERO, T.fn("im", S("lv.%d" % i))))
        return v, Want((3,), V("lv"))
    raise KeyError(kind)


BAD = {
    "real": ["str", "none"], "pos": ["str", "none", "nonpos"], "rho": ["str", "none", "neg"], "nonneg": ["str", "none", "neg"],
    "vec": ["strs", "len2", "len4", "scalar"], "vec*": ["strs", "len2", "len4", "scalar", "mat"], "below": ["strs", "len2", "len4", "scalar", "above"],
    "unit": ["strs", "len2", "len4", "scalar", "mat", "letter"], "xy": ["strs", "len2", "len4", "scalar", "mat", "letter", "zletter", "updown"],
    "nodes": ["strs", "n2", "n4", "scalar", "rank3"], "freq": ["str", "someneg", "rank2", "neg"], "freqs": ["str", "someneg", "rank2", "neg"], "thick": ["str", "someneg", "neg"],
}
BAD["vec2"] = ["strs", "len3", "len4", "scalar", "mat"]
BAD["deeper"] = ["str", "none", "shallower"]
BAD["0:10000"] = ["str", "none", "below"]
BAD["0:360"] = BAD["0:90"] = BAD["-180:180"] = ["str", "none", "below", "beyond"]
for _k, _lo in (("lpos", "zero"), ("lmu", "mu_0"), ("leps", "epsilon_0")):
    BAD[_k] = ["str", "lenn", "rank3", "lshape", "lneg", "limag", "sneg"]


def bad(B, kind, which):
    if which == "str":
        return "abc"
    if which == "none":
        return None
    if which == "strs":
        return ["a", "b", "c"]
    if which == "neg":
        return B.scalar("vneg", "neg")
    if which == "nonpos":
        v = B.scalar("v")
        B.assume(T.le(S("v"), T.ZERO))
        return v
    if which == "scalar":
        return B.scalar("v")
    if which == "len2":
        return B.vec("v2", 2)
    if which == "len3":
        return B.vec("v3", 3)
    if which == "shallower":
        v = B.scalar("v")
        B.assume(T.lt(S("v"), T.ONE))
        return v
    if which in ("below", "beyond"):
        lo, hi = (T.num(int(b)) for b in kind.split(":"))
        v = B.scalar("v")
        B.assume(T.lt(S("v"), lo) if which == "below" else T.lt(hi, S("v")))
        return v
    if which == "len4":
        return B.vec("v4", 4)
    if which == "mat":
        return B.array("vm", (2, 3))
    if which == "n2":
        return B.array("v2", ("#n", 2))
    if which == "n4":
        return B.array("v4", ("#n", 4))
    if which == "rank3":
        return B.array("r3", ("#n", 2, 3))
    if which == "rank2":
        return B.array("r2", ("#n", 3), sign="pos")
    if which == "letter":
        return "W"
    if which == "zletter":
        return "Z"
    if which == "above":
        v = B.vec("vec")
        B.assume(T.lt(T.ZERO, S("vec.2")))
        return v
    if which == "updown":
        v = B.vec("vec")
        B.assume(T.ne(S("vec.2"), T.ZERO))
        return v
    if which == "someneg":
        v = B.array("fs", ("#f",))
        B.some(T.lt(S("fs"), T.ZERO))
        return v
    # layered properties: 3 layers, 1 frequency
    lo = {"lpos": T.ZERO, "lmu": MU0, "leps": EPS0}[kind]
    if which == "lenn":
        return B.array("l4", (4,), sign="pos")
    if which == "lshape":
        return B.array("l33", (3, 2), sign="pos")
    if which == "lneg":
        v = B.array("lv", (3,), kind="complex")
        r = T.fn("re", S("lv.1"))
        B.assume(T.le(r, lo) if kind == "lpos" else T.lt(r, lo))
        return v
    if which == "limag":
        v = B.array("lv", (3,), kind="complex")
        B.assume(T.lt(T.fn("im", S("lv.1")), T.ZERO))
        return v
    if which == "sneg":
        return B.scalar("vneg", "neg")
    raise KeyError(which)


def same_state(B, before, after, skip=()):
    return all(n in after and F.same(before[n], after[n]) for n in before if n not in skip)


def accept(path, req, attr, kind, how):
    def scen(B):
        kw = base(B, req)
        v, want = good(B, kind)
        if how == "ctor":
            if attr == "min_location":
                kw["max_location"] = B.const(np.array([1e9, 1e9, 1e9])) if not B.symbolic else B.vec("hi")
            o = B.new(path, **dict(kw, **{attr: v}))
            items = []
        else:
            o = B.new(path, **kw)
            before = F.state(B, o)
            B.set(o, attr, v)
            after = F.state(B, o)
            skip = {attr} | {b for a, b in DEPEND if a == attr}
            items = [Holds("setting %s changes nothing else" % attr, same_state(B, before, after, skip))]
        got = B.get(o, attr)
        if want is not None:
            items.append(Eq(attr, got, want))
        return items
    return scen


def reject(path, req, attr, kind, which):
    def scen(B):
        kw = base(B, req)
        v = bad(B, kind, which)
        items = []
        if kind != "rho" or which in ("str", "none", "neg"):
            e = B.raises(lambda: B.new(path, **dict(kw, **{attr: v})))
            items.append(Holds("constructor rejects", e is not None and issubclass(e, (TypeError, ValueError, ZeroDivisionError))))
        o = B.new(path, **kw)
        before = F.state(B, o)
        e = B.raises(lambda: B.set(o, attr, v))
        items.append(Holds("assignment rejects", e is not None and issubclass(e, (TypeError, ValueError, ZeroDivisionError))))
        items.append(Holds("rejected assignment leaves the object as it was", same_state(B, before, F.state(B, o))))
        return items
    return scen


def letter(path, req, let):
    def scen(B):
        o = B.new(path, **dict(base(B, req), orientation=let))
        want = [T.num(1 if let.upper() == a else 0) for a in "XYZ"]
        return Eq("orientation %s" % let, B.get(o, "orientation"), Want((3,), want))
    return scen


NEG = lambda r: -10 ** r.uniform(-2, 2)
HINTS = {"lv*": lambda r: complex(r.uniform(0.1, 3), r.choice([0.0, 0.5])), "vneg": NEG, "vec.2": lambda r: r.choice([-1, 1]) * r.uniform(0.1, 3)}
CASES = []
for path, (req, attrs) in TABLE.items():
    n = path.split("geoana.")[1]
    for attr, kind in attrs:
        fn = [path + "." + attr]
        if True:
            hows = ["set"] if kind in ("vec*", "thick") else ["ctor", "set"]
            ha = dict(HINTS)
            if ":" in kind:
                lo, hi = (int(b) for b in kind.split(":"))
                ha["v"] = lambda r, lo=lo, hi=hi: r.choice([lo, hi, r.uniform(lo, hi)])
            for how in hows:
                CASES.append(Case("%s.%s.accepts.%s" % (n, attr, how), fn, accept(path, req, attr, kind, how), modes=("fresh",), samples=3, hints=ha, forms=("array", "list", "int") if kind[0] != "l" else ("array", "list")))
        for which in BAD[kind]:
            h = dict(HINTS)
            if which == "nonpos":
                h["v"] = lambda r: r.choice([0.0, -1.0, -3.5])
            if ":" in kind:
                lo, hi = (int(b) for b in kind.split(":"))
                h["v"] = (lambda r, lo=lo: lo - 10 ** r.uniform(-3, 2)) if which == "below" else (lambda r, hi=hi: hi + 10 ** r.uniform(-3, 2))
            if which == "above":
                h["vec.2"] = lambda r: r.uniform(0.01, 3)
            if which == "lneg":
                h["lv.1"] = lambda r: complex(-r.uniform(0, 2), 0.0)
            if which == "limag":
                h["lv.1"] = lambda r: complex(r.uniform(1, 2), -1e-3)
            CASES.append(Case("%s.%s.rejects.%s" % (n, attr, which), fn, reject(path, req, attr, kind, which), modes=("fresh",), samples=3, hints=h, specials=[{"v": 0.0}] if which == "nonpos" else ()))
        if kind == "unit" or kind == "xy":
            for let in ("XYZ" if kind == "unit" else "XY") + ("xyz" if kind == "unit" else "xy"):
                CASES.append(Case("%s.orientation.%s" % (n, let), fn, letter(path, req, let), modes=("fresh",), samples=1))


ZERO3 = [T.ZERO] * 3
E1 = [T.ONE, T.ZERO, T.ZERO]
DEF = {"sigma": T.ONE, "mu": MU0, "epsilon": EPS0, "length": T.ONE, "current": T.ONE, "moment": T.ONE, "location": ZERO3, "orientation": E1, "amplitude": T.ONE, "mass": T.ONE}
SPECIAL = {(ST + "CircularLoopWholeSpace", "radius"): T.sqrt(1 / PI), (ST + "DipoleHalfSpace", "location_a"): [-T.ONE, T.ZERO, T.ZERO], (ST + "DipoleHalfSpace", "location_b"): E1,
           (ST + "ElectrostaticSphere", "primary_field"): E1, (ST + "MagnetostaticSphere", "primary_field"): E1}


for _a, _v in dict(strike=0, dip=45, rake=90, slip=0.5, length=1e4, beta=3e10, mu=3e10, depth_bottom=1e4).items():
    SPECIAL[(EQK + "Oksar", _a)] = T.num(_v)
for _a, _v in dict(scaling=1, satellite_fringe_interval=0.028333, local_earth_radius=6371000, local_rigidity=3e10).items():
    SPECIAL[(EQK + "EarthquakeInterferogram", _a)] = T.num(_v)


def defaults(path, req, attrs):
    def scen(B):
        o = B.new(path, **base(B, req))
        out = []
        for a, k in attrs:
            w = SPECIAL.get((path, a), DEF.get(a))
            if a in req or w is None or k[0] == "l":
                continue
            out.append(Eq("default " + a, B.get(o, a), Want((3,), w) if isinstance(w, list) else Want((), w), tol=1e-12))
        return out
    return scen


for path, (req, attrs) in TABLE.items():
    if "Prism" not in path and "Layered" not in path:
        CASES.append(Case(path.split("geoana.")[1] + ".defaults", [path + ".__init__"], defaults(path, req, attrs), modes=("fresh",), samples=1))


def text(path, req, attr):
    def scen(B):
        if attr in req:
            o = B.new(path, **dict(base(B, req), **{attr: "one"}))
        else:
            o = B.new(path, **base(B, req), **{attr: "one"})
        items = [Holds("constructor keeps " + attr, B.get(o, attr) == "one")]
        before = F.state(B, o)
        B.set(o, attr, "two")
        items.append(Holds("assignment keeps " + attr, B.get(o, attr) == "two"))
        items.append(Holds("setting %s changes nothing else" % attr, same_state(B, before, F.state(B, o), {attr})))
        return items
    return scen


_EQ = EQK + "EarthquakeInterferogram"
for attr in ("title", "processed_by", "description", "event_country", "event_name", "copyright", "data_source", "satellite_name", "event_gcmt_id"):
    CASES.append(Case("earthquake.oksar.EarthquakeInterferogram.%s.text" % attr, [_EQ + "." + attr], text(_EQ, _eq, attr), modes=("fresh",), samples=1))
