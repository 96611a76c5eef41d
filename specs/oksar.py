"""Surface displacement of a rectangular dislocation (Okada 1985) and the
satellite line of sight."""
import numpy as np
from engine import terms as T, numeric
from engine.arrays import Arr, index_sym, dimlen, Dim
from engine.harness import Case, Eq, Want, Holds, symaxis
from engine.npmodel import AxLen
from engine.ctx import CTX
from specs.lib import *

P = "geoana.earthquake.oksar."
OK = P + "Oksar"
CASES = []
DEG = T.num(0.017453292519943)          # the module's constant
GRID = ("#m", "#n")

HINT = {"O.0": (-9, 9), "O.1": (-9, 9), "U.0": (5, 20), "U.1": (-6, 6), "V.0": (-6, 6), "V.1": (5, 20), "c.0": (-5, 5), "c.1": (-5, 5),
        "top": (0.5, 3), "thick": (1, 4), "strike": (1, 359), "dip": (10, 80), "rake": (-170, 170), "slip": (0.2, 3), "L": (2, 9),
        "beta": (1, 4), "shear": (1, 4)}
HINT = {k: (lambda r, v=v: r.uniform(*v)) for k, v in HINT.items()}


PRIME = dict(strike=10.0, dip=33.0, rake=20.0)


def size(B, a):
    return AxLen(Dim(a[1:])) if B.symbolic else int(B.dims[a][0])


def domain(B):
    n, m = size(B, "#n"), size(B, "#m")
    if B.symbolic:
        for k in (n, m):
            B.assume(T.le(T.num(2), k))
    else:
        n, m = max(n, 2), max(m, 2)
        B.dims["#n"], B.dims["#m"] = (n,), (m,)
    return (n, m)


def params(B, rake=None, dip=None, top=None, zero=None):
    kw = dict(O=B.vec("O", 2), U=B.vec("U", 2), V=B.vec("V", 2), center=B.vec("c", 2))
    tp = kw["depth_top"] = B.scalar("top", "pos") if top is None else B.const(float(top))
    kw["depth_bottom"] = tp + B.scalar("thick", "pos")
    kw["strike"] = B.scalar("strike", "pos")
    B.assume(T.le(S("strike"), T.num(360)))
    if dip is None:
        kw["dip"] = B.scalar("dip", "pos")
        B.assume(T.lt(S("dip"), T.num(90)))
    else:
        kw["dip"] = B.const(float(dip))
    if rake is None:
        kw["rake"] = B.scalar("rake")
        B.assume(T.le(S("rake"), T.num(180)))
        B.assume(T.le(T.num(-180), S("rake")))
    else:
        kw["rake"] = B.const(float(rake))
    kw["slip"] = B.scalar("slip", "pos") if zero is None else 0.0
    kw["length"] = B.scalar("L", "pos")
    kw["beta"] = B.scalar("beta", "pos")
    kw["mu"] = B.scalar("shear", "pos")
    kw["shape"] = domain(B)
    return kw


def unitgrid(B):
    f = lambda a: index_sym(a[1:]) / (dimlen(Dim(a[1:])) - 1)
    return f("#n"), f("#m")


def grid(B):
    kw = params(B)
    ob = B.build(OK, kw, warm=lambda o: B.get(o, "simulation_grid"), prime={k: B.const(v) for k, v in PRIME.items()}, prime1=dict(depth_top=kw["depth_top"] * 0.5, depth_bottom=kw["depth_bottom"] + 1.0))
    s, t = unitgrid(B)
    return Eq("simulation_grid", B.get(ob, "simulation_grid"),
              Want((GRID, 2), [S("O.%d" % i) + s * S("U.%d" % i) + t * S("V.%d" % i) for i in range(2)]))


CASES.append(Case("Oksar.simulation_grid", [OK + ".simulation_grid"], grid, hints=HINT))


# ------------------------------------------------------------------- Okada
def corner(xi, et, q, sd, cd, al, vertical):
    """integrands of Okada (1985) eqs 25, 26, 28, 29 before Chinnery's signs"""
    R = T.sqrt(xi * xi + et * et + q * q)
    yt, dt = et * cd + q * sd, et * sd - q * cd
    Xq = T.sqrt(xi * xi + q * q)
    th = T.fn("atan", xi * et / (q * R))
    if vertical:
        I1 = -al / 2 * xi * q / (R + dt) ** 2
        I3 = al / 2 * (et / (R + dt) + yt * q / (R + dt) ** 2 - T.fn("log", R + et))
        I4 = -al * q / (R + dt)
        I5 = -al * xi * sd / (R + dt)
    else:
        I5 = al * 2 / cd * T.fn("atan", (et * (Xq + q * cd) + Xq * (R + Xq) * sd) / (xi * (R + Xq) * cd))
        I4 = al / cd * (T.fn("log", R + dt) - sd * T.fn("log", R + et))
        I3 = al * (yt / cd / (R + dt) - T.fn("log", R + et)) + sd / cd * I4
        I1 = al * (-xi / cd / (R + dt)) - sd / cd * I5
    # R + d = R -/+ eta on a vertical plane: ln(R + eta) = +/-ln(R + d) up to a term without eta, which the signs cancel
    I2 = (-al * T.fn("log", R + et) if not vertical else -al * sd * T.fn("log", R + dt)) - I3
    ss = [xi * q / (R * (R + et)) + th + I1 * sd,
          yt * q / (R * (R + et)) + q * cd / (R + et) + I2 * sd,
          dt * q / (R * (R + et)) + q * sd / (R + et) + I4 * sd]
    ds = [q / R - I3 * sd * cd,
          yt * q / (R * (R + xi)) + cd * th - I1 * sd * cd,
          dt * q / (R * (R + xi)) + sd * th - I5 * sd * cd]
    return ss, ds


def disp(rake=None, dip=None, top=None):
    def scen(B):
        kw = params(B, rake, dip, top)
        ax = list(GRID)
        pts = [B.S("pt.%d" % i, axes=ax) for i in range(2)]
        if not B.symbolic:
            s = B._shape(GRID)
            O, U, V = (np.asarray(kw[k]) for k in "OUV")
            a, b = np.linspace(0, 1, s[1]), np.linspace(0, 1, s[0])
            for i in range(2):
                B.vals[pts[i]] = O[i] + U[i] * a[None, :] + V[i] * b[:, None]
        top_ = S("top") if top is None else T.num(top)
        bot = top_ + S("thick")
        # ghost variables: fault coordinates of the observation point and of the corners
        th = (S("strike") + 90) * DEG
        ct, st = B.ghost("ct", T.cos(th)), B.ghost("st", T.sin(th))
        if dip is None:
            sdip, cdip = B.ghost("sdip", T.sin(S("dip") * DEG), "pos", neg=True), B.ghost("cdip", T.cos(S("dip") * DEG), "pos")
            CTX.add("pythagoras", [(sdip * sdip, 1 - cdip * cdip)])
        else:
            sdip, cdip = T.num(1), T.num(0)
        sw = sdip if dip is None else T.sin(T.num(dip) * DEG)
        sd, cd = -sdip, cdip
        X = (T.cos(th) * (pts[0] - S("c.0")) - T.sin(th) * (pts[1] - S("c.1")))
        Y = (T.sin(th) * (pts[0] - S("c.0")) + T.cos(th) * (pts[1] - S("c.1")))
        q = B.ghost("q", -Y * sdip, axes=ax)
        xis = [B.ghost("xi1", X + S("L") / 2, axes=ax), B.ghost("xi2", X - S("L") / 2, axes=ax)]
        ets = [B.ghost("et1", Y * cdip - top_ / sw, axes=ax), B.ghost("et2", Y * cdip - bot / sw, axes=ax)]
        al = S("shear") / (S("beta") + S("shear"))
        slip = S("slip")
        if rake == -90:
            U1, U2 = T.num(0), slip
        else:
            rr = ((S("rake") if rake is None else T.num(rake)) + 90) * DEG
            U1, U2 = B.ghost("us", -slip * T.sin(rr)), B.ghost("ud", slip * T.cos(rr))
        tot = [T.ZERO] * 3
        guards = []
        for i, xi in enumerate(xis):
            for j, et in enumerate(ets):
                ss, ds = corner(xi, et, q, sd, cd, al, dip is not None)
                sg = 1 if i == j else -1
                for k in range(3):
                    tot[k] = tot[k] - sg * (U1 * ss[k] + U2 * ds[k]) / (2 * PI)
                R = T.sqrt(xi * xi + et * et + q * q)
                guards += [R + et, R + et * sd - q * cd]
        # domain: off the planes through the fault edges (the code's own tolerance, with some room)
        reach = B.scalar("reach", "pos")
        if not B.symbolic:
            B.vals[reach_(B)] = np.asarray(60.0)
        for v in (q,) + tuple(xis + ets):
            B.assume(T.le(T.absv(v), S("reach")))
            B.assume(T.le(T.num(2e-6) * (1 + S("reach")), T.absv(v)))
        for g in guards:
            B.assume(T.le(T.num(1e-13), g))
        if dip is None:
            B.assume(T.le(T.num(2e-6), cdip))
        if B.symbolic:
            from engine.npmodel import BOUNDS
            d = np.empty((2,), dtype=object)
            d[0], d[1] = pts
            B.I.grid_points = Arr((symaxis(GRID), 2), d, "f")
            BOUNDS[:] = [S("reach")]
        ob = B.build(OK, kw, warm=lambda o: B.get(o, "displacement_vector") if not B.symbolic else None, prime={k: B.const(v) for k, v in PRIME.items()}, prime1=dict(depth_top=kw["depth_top"] * 0.5, depth_bottom=kw["depth_bottom"] + 1.0))
        want = [ct * tot[0] + st * tot[1], ct * tot[1] - st * tot[0], tot[2]]
        return Eq("displacement_vector", B.get(ob, "displacement_vector"), Want((GRID, 3), want, scale="vec"))
    return scen


def reach_(B):
    return [s for s in B.inputs if s.args[0] == "reach"][0]


def grid_contract(I, f, args, kw):
    return I.grid_points


CON = {OK + ".simulation_grid": grid_contract}
for nm, k in (("", {}), (".normal", dict(rake=-90)), (".vertical", dict(dip=90)), (".outcrop", dict(top=0))):
    # steep and flat faults: inside the general formula, where a wider vertical or horizontal special case would show
    steep = [] if "dip" in k else [{"dip": 88.0, "!tol": 1e-6}, {"dip": 2.0, "!tol": 1e-6}, {"dip": 89.9, "!tol": 1e-5}]
    CASES.append(Case("Oksar.displacement_vector" + nm, [OK + ".displacement_vector", OK + "._dc3d3"], disp(**k), hints=HINT, contracts=CON, singles=False, specials=steep))


# ------------------------------------------------------------- line of sight
EQ = P + "EarthquakeInterferogram"


def _utm(k):
    def f(e, n, z):
        import utm
        import mpmath as mp
        return mp.mpf(float(utm.to_latlon(float(e), float(n), int(abs(z)), northern=bool(z > 0))[k]))
    return f


for k, nm in enumerate(("utm_lat", "utm_lon")):
    numeric.EXTRA[nm] = _utm(k)

HLOS = {"ref.0": (4e5, 6e5), "ref.1": (3e6, 5e6), "inc": (15, 50), "az": (1, 359), "alt": (5e5, 9e5), "Re": (6.3e6, 6.4e6), "pix.0": (10, 90), "pix.1": (10, 90)}
for i in range(3):
    HLOS.update({"l%d.0" % i: (3e5, 7e5), "l%d.1" % i: (3e6, 5e6), "l%d.2" % i: (-9, 9)})
HLOS = {k: (lambda r, v=v: r.uniform(*v)) for k, v in HLOS.items()}


def rad(x):
    return x * PI / 180


def lla(e, n, z):
    """geocentric unit vector and longitude, latitude of a UTM point"""
    lat, lon = (rad(T.mk("fn", f, e, n, T.num(z))) for f in ("utm_lat", "utm_lon"))
    return lat, lon, [T.cos(lon) * T.cos(lat), T.sin(lon) * T.cos(lat), T.sin(lat)]


def interferogram(B, zone):
    kw = dict(data=B.array("data", ("#k",)), title="t", location=B.vec("loc", 2), location_UTM_zone=zone, shape=(2, 3),
              pixel_size=B.vec("pix", 2), ref=B.vec("ref", 2), ref_incidence=B.scalar("inc", "pos"), satellite_azimuth=B.scalar("az", "pos"),
              satellite_altitude=B.scalar("alt", "pos"), processed_by="p", local_earth_radius=B.scalar("Re", "pos"))
    B.assume(T.lt(S("inc"), T.num(90)))
    return kw


def los(zone, n, dim):
    def scen(B):
        kw = interferogram(B, zone)
        pts = [B.vec("l%d" % i, dim) for i in range(n or 1)]
        arg = pts if n else pts[0]
        call = lambda o: B.call(o, "get_LOS_vector", arg if not isinstance(arg, list) else list(arg))
        ob = B.build(EQ, kw, warm=None if B.symbolic else (lambda o: None), prime=dict(ref_incidence=B.const(20.0), ref=kw["ref"], shape=(3, 4), location_UTM_zone=17), order=[k for k in kw])
        rat = S("Re") / (S("Re") + S("alt"))
        al = rad(S("inc"))
        beta = al - T.fn("asin", rat * T.sin(al))
        az = rad(S("az"))
        la, lo, c0 = lla(S("ref.0"), S("ref.1"), zone)
        # unit normal of the satellite's great circle: cos(az) east - sin(az) north at the reference point
        east = [-T.sin(lo), T.cos(lo), T.num(0)]
        north = [-T.sin(la) * T.cos(lo), -T.sin(la) * T.sin(lo), T.cos(la)]
        N = [T.cos(az) * e - T.sin(az) * m for e, m in zip(east, north)]
        cols = []
        for i in range(n or 1):
            c = lla(S("l%d.0" % i), S("l%d.1" % i), zone)[2]
            b2 = beta - (T.fn("acos", dot(N, c)) - PI / 2)
            a2 = T.fn("atan", T.sin(b2) / (T.cos(b2) - rat))
            cols.append([-T.cos(az) * T.sin(a2), T.sin(az) * T.sin(a2), T.cos(a2)])
        want = [[c[k] for c in cols] if (n or 1) > 1 else cols[0][k] for k in range(3)]
        return Eq("get_LOS_vector", call(ob), Want((3, n) if (n or 1) > 1 else (3,), want))
    return scen


for zone, n, dim in ((35, 0, 2), (35, 0, 3), (35, 1, 2), (-18, 2, 2), (35, 3, 3)):
    CASES.append(Case("EarthquakeInterferogram.get_LOS_vector.%d.%d.%d" % (zone, n, dim), [EQ + ".get_LOS_vector", EQ + "._ang_to_gc"], los(zone, n, dim), hints=HLOS, tol=1e-6))
