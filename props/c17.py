"""contact: short-range repulsion with friction"""
from .common import *

C = "src/contact/"
CF, VEL = "Contact_Force_Density@NP1", "Velocity@NP1"
MU = par("Friction Coefficient")
P4 = {"present": {"Contact Radius": 1, "Spring Constant": 1, "Friction Coefficient": 1, "Horizon": 1}}
P3 = {"present": {"Contact Radius": 1, "Spring Constant": 1, "Horizon": 1}, "values": {"Friction Coefficient": 0.0}}
BODY = "value = 0.5 + 0.1*t"
PT = {"present": {"Contact Radius": 1, "Spring Constant": 1, "Horizon": 1}, "values": {"Friction Coefficient": BODY, "Contact Model": "Time-Dependent Short-Range Force"}}
for n in ("Contact Radius", "Spring Constant", "Horizon", "Friction Coefficient"):
    T.NONNEG.add("p:" + n)
T.NONNEG.add(VOL)


def rest(rng, c):
    """sometimes all points move together, so that nothing slips"""
    if rng.random() < 0.25:
        v = c.arrays[VEL]
        v[:] = v[:3] * (len(v) // 3)


def near(rng, c, out):
    """contact radius about the spacing of the points, so that some pairs touch and others do not"""
    out["Contact Radius"] = c.scalars["p:Contact Radius"] = rng.uniform(0.8, 1.8)


short = lambda conf=P4, **k: Model_("ShortRangeForceContactModel", [C + "Peridigm_ShortRangeForceContactModel.cpp"], conf, calls=("computeForce",),
                                    base={"own": lambda idx: idx}, mkparams=near, fix=rest, name="ShortRangeForceContactModel", **k)
EVAL = ("evaluateParserFriction", "&cur &prev &t1 &t0")
CODE = ('if(c == "evaluateParserFriction"){ double a = 0, b = 0; obj.evaluateParserFriction(a, b, 0.7, 0.6); } if(c == "computeForce") obj.computeForce(dt, N, &own[0], &lst[0], dm);')


def at_time(rng, c):
    rest(rng, c)
    c.scalars["t1"] = 0.7
    c.funcs["rtc:value:" + BODY] = lambda t, v: 0.5 + 0.1 * t


timed = lambda **k: Model_("UserDefinedTimeDependentShortRangeForceContactModel", [C + "Peridigm_UserDefinedTimeDependentShortRangeForceContactModel.cpp"], PT,
                           calls=(EVAL, "computeForce"), callcode=CODE, fix=at_time, base={"own": lambda idx: idx}, mkparams=near,
                           name="UserDefinedTimeDependentShortRangeForceContactModel", **k)


def repulsion(i, j):
    """force density per volume of the partner, along the line of centres"""
    h, R = par("Horizon"), par("Contact Radius")
    return 9 * par("Spring Constant") / (sym("pi") * h ** 4) * (R - length(Y, i, j)) / h


def touching(i, j):
    d = diff(Y, i, j)
    return ind("lt", dot(d, d) - par("Contact Radius") ** 2)


def slip(i, j):
    """half the tangential velocity of i relative to j"""
    d = diff(Y, i, j)
    L = norm(d)
    n = [x / L for x in d]
    v = [rd(VEL, 3 * i + c) - rd(VEL, 3 * P(j) + c) for c in range(3)]
    s = dot(v, n)
    return [(v[c] - s * n[c]) / 2 for c in range(3)]


def law(mu):
    def law(O):
        """force = repulsion along the line of centres, and friction of size mu times the normal force against the slip"""
        def at(i):
            def g(j, b):
                d = diff(Y, i, j)
                L = norm(d)
                t = repulsion(i, j)
                Fi = [-t * rd(VOL, j) * d[c] / L for c in range(3)]
                Fj = [t * rd(VOL, i) * d[c] / L for c in range(3)]
                if mu is not None:
                    s = slip(i, j)
                    z = norm(s)
                    moving = 1 - ind("eq", z)
                    ni, nj = norm(Fi), norm(Fj)
                    Fi = [Fi[c] - moving * mu * ni * s[c] / z for c in range(3)]
                    Fj = [Fj[c] + moving * mu * nj * s[c] / z for c in range(3)]
                r = ZERO
                for c in range(3):
                    r = r + w_any(3 * i + c) * Fi[c] + w_any(3 * j + c) * Fj[c]
                return touching(i, j) * r
            return over_bonds(i, g)
        return [eq("contact force", O.tot(CF, w_any), over_points(at))]
    return law


CONTRACTS = [
    Contract(short(P3), law(None), balance(CF, VOL), balance_ang(CF, VOL, Y), name="short range, frictionless", frame=[CF]),
    Contract(short(P4), law(MU), balance(CF, VOL), name="short range", frame=[CF]),
    Contract(timed(), law(fn("rtc:value:" + BODY, sym("t1"), ZERO)), balance(CF, VOL), name="time dependent friction", frame=[CF]),
]
