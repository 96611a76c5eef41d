"""property id -> contracts (cases) and lemmas"""
import importlib

PROPS = {}


def _get(refs):
    out = []
    for r in refs:
        m, a = r.split(":")
        v = getattr(importlib.import_module("specs." + m), a)
        out.extend(v)
    return out


def prop(pid, cases, lemmas=(), ext=False, select=None, assumptions=()):
    def c():
        return [x for x in _get(cases) if select is None or select(x)]

    def l():
        return _get(lemmas)
    PROPS[pid] = dict(cases=c, lemmas=l, ext=ext, assumptions=list(assumptions))


prop("C01", ["gravity:CASES"], ["gravity:LEMMAS"])
prop("C10", ["static_sphere:ELEC"], ["static_sphere:LEM"])
prop("C11", ["static_sphere:MAGN"], ["static_sphere:LEM"])
prop("C06", ["static_point:DIP"], ["static_point:DIP_LEM"])
prop("C07", ["static_loop:CASES"], ["static_loop:LEM"])
prop("C09", ["static_point:PCW", "static_point:PCH"], ["static_point:PC_LEM"])
prop("C21", ["spatial:CASES"])
prop("C22", ["spatial:ROT"])
prop("C12", ["fdem_whole:CASES"], ["fdem_whole:LEM"])
prop("C13", ["planewave:CASES"], ["planewave:LEM"])
prop("C14", ["embase:CASES"], ["embase:LEM"])
prop("C15", ["tdem_whole:CASES"], ["tdem_whole:LEM"])

prop("C16", ["tdem_half:CASES"], ["tdem_half:LEM"])
prop("C17", ["fdem_half:CASES"], ["fdem_half:LEM"], assumptions=["MagneticDipoleHalfSpace: mu left at its default (the code uses mu_0 throughout)"])

prop("C03", ["prisms:GRAV"], ["prisms:LEM"])
prop("C04", ["prisms:MAGN"], ["prisms:LEM"])
prop("C05", ["prism_kernels:CASES"], ["prism_kernels:LEM"])
prop("C08", ["line_current:CASES"], ["line_current:LEM"])
RTE_ASSUME = ["the compiled kernel uses mu_0 = 4e-7*pi, the Python one scipy.constants.mu_0 (relative difference below 1e-9); each is proved against its own constant",
              "rTE kernels: double and std::complex arithmetic treated as exact; size_t products do not overflow"]
prop("C19", ["rte:FWD"], ["rte:LEM"], ext=True, assumptions=RTE_ASSUME)
prop("C20", ["rte:GRAD"], ext=True, assumptions=RTE_ASSUME)
prop("C18", ["layered:CASES"], ["layered:LEM"], ext=True, assumptions=["the Hankel transform is decided up to the digital filter: libdlf's abscissae and weights are arbitrary in the proof; their quadrature error is not bounded here",
      "no layer stack is resonant with the air (denominators of the admittance recurrence are non-zero)", "mu_0 of the compiled rTE kernel is 4e-7*pi"])
prop("C23", ["frame:CASES"], ext=True)
PROPS["C23"]["frame"] = False
prop("C24", ["attrs:CASES"], ext=True)
PROPS["C24"]["frame"] = False
prop("C25", ["forms:CASES"], ext=True)
PROPS["C25"]["frame"] = False
prop("C26", ["utils_:CASES", "spatial:HELP"])
prop("C27", ["oksar:CASES"], assumptions=["utm.to_latlon is an arbitrary function of easting, northing and zone", "lists of 1 to 3 locations; grids with at least 2 points each way",
      "observation points at least 2e-6 (1 + reach) off the planes where the code's tolerance branches switch (the fault edges, the trace and the axis)"])
