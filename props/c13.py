"""influence functions: shape, support and selection by name"""
from fractions import Fraction
from dv.sym import INLINE
from .common import *

Z, HZ = sym("zeta"), sym("horizon")
TU = "/verif/drivers/influence.cpp"
MU = "src/materials/material_utilities.cxx"
CPP = "src/core/Peridigm_InfluenceFunction.cpp"


def value(spec):
    def value(O):
        return [eq("value of the profile", O.ret(), spec())]
    return value


def one():
    return ONE


def parabola():
    s = Z / HZ
    return (1 - ind("lt", HZ - Z)) * ite(ind("lt", s - Fraction(1, 2)), ONE, 4 * s - 4 * s * s)


def gauss():
    return fn("exp", -Z * Z / (P(float(0.4)) * P(float(0.4)) * HZ * HZ))


HN = [(re.compile("scalarInfluenceFunction"), lambda ex, n, a, i: INLINE)] + [h for h in classes.HANDLERS if "InfluenceFunction" not in h[0].pattern]


def k(name, **kw):
    return Kernel(TU, name, [Real("zeta", gen=lambda r: r.choice([r.uniform(0.0, 0.9), r.uniform(0.0, 3.0)])), Real("horizon", pos=True)], ret="d", handlers=HN, setup=lambda ex: setattr(ex, "fresh_statics", True),
                  extra_tus=[CPP, MU], link=[CPP, MU], **kw)


UT = [("value = 2.0*zeta + horizon*horizon", lambda z, h, v: 2 * z + h * h), ("value = zeta*zeta - horizon", lambda z, h, v: z * z - h)]


def fix(rng, c):
    for t, f in UT:
        c.funcs["rtc:value:" + t] = f


def user(t):
    """the text of the input, compiled, at (zeta, horizon)"""
    return fn("rtc:value:" + UT[t][0], Z, HZ, ZERO)


F = [ind("lt", -HZ)]
CONTRACTS = [
    Contract(k("vfOne"), value(one), name="One"),
    Contract(k("vfParabolic"), value(parabola), name="Parabolic Decay", facts=F),
    Contract(k("vfGaussian"), value(gauss), name="Gaussian", facts=F),
    Contract(k("vfPreOne"), value(one), name="One, predefined"),
    Contract(k("vfPreParabolic"), value(parabola), name="Parabolic Decay, predefined", facts=F),
    Contract(k("vfPreGaussian"), value(gauss), name="Gaussian, predefined", facts=F),
    Contract(k("vfDefault"), value(one), name="default"),
    Contract(k("vfLast"), value(parabola), name="the last selection is the one in force", facts=F),
    Contract(k("vfUsed"), value(parabola), name="evaluation by the materials", facts=F),
    Contract(k("vfUsedAgain"), value(gauss), name="every evaluation by the materials", facts=F),
    Contract(k("vfUser", fix=fix), value(lambda: user(0)), name="user-defined"),
    Contract(k("vfUserShort", fix=fix), value(lambda: user(1)), name="user-defined, without assignment"),
]
