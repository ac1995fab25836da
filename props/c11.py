"""stress updates of the correspondence models"""
from fractions import Fraction
from .common import *

K, G, SY = par("Bulk Modulus"), par("Shear Modulus"), par("Yield Stress")
DT = sym("dt")
R9 = range(9)
AB = ["XX", "XY", "XZ", "YX", "YY", "YZ", "ZX", "ZY", "ZZ"]
DIAG = (0, 4, 8)
T.NONNEG.update(["p:Bulk Modulus", "p:Shear Modulus", "p:Yield Stress", "p:Hardening Modulus",
                 "Equivalent_Plastic_Strain@N", "Bond_Equivalent_Plastic_Strain@N"])


class Point:
    """tensors stored per point"""
    own, what = "N", "point"
    vm, eqps = "Von_Mises_Stress", "Equivalent_Plastic_Strain"

    @staticmethod
    def index(O):
        return O.idx("i", NPT)

    @staticmethod
    def at(name, step, i, k):
        return name + step, 9 * i + k


class Bond:
    """tensors stored per bond, one field per component"""
    what = "bond"
    vm, eqps = "Bond_Von_Mises_Stress", "Bond_Equivalent_Plastic_Strain"

    @staticmethod
    def index(O):
        i = O.idx("i", NPT)
        return B_("L", i) + O.idx("n", NN_("L", i))

    @staticmethod
    def at(name, step, b, k):
        return name + "_" + AB[k] + step, b


class State:
    """elastic trial state of a point or bond"""

    def __init__(self, O, S, i, thermal=False, free=False):
        base = by_trial(S) if free else {}

        def read(r, idx):
            return base[r](P(idx)) if r in base else rd(r, idx)
        D = [DT * read(*S.at("Unrotated_Rate_Of_Deformation", "", i, k)) for k in R9]
        self.sN = [read(*S.at("Unrotated_Cauchy_Stress", "@N", i, k)) for k in R9]
        self.s = [O(*S.at("Unrotated_Cauchy_Stress", "@NP1", i, k)) for k in R9]
        tr = D[0] + D[4] + D[8]
        vol = tr
        if thermal:
            vol = tr - 3 * par("Thermal Expansion Coefficient") * (rd("Temperature_Change@NP1", i) - rd("Temperature_Change@N", i))
        self.dev_strain = [D[k] - (tr / 3 if k in DIAG else 0) for k in R9]
        self.trial = [self.sN[k] + 2 * G * self.dev_strain[k] + (K * vol if k in DIAG else 0) for k in R9]
        self.p = (self.trial[0] + self.trial[4] + self.trial[8]) / 3
        self.dev = [self.trial[k] - (self.p if k in DIAG else 0) for k in R9]
        self.J = dots(self.dev)
        self.mag = sqrt_(self.J)
        self.vm = sqrt_(self.J * 3 / 2)


def by_trial(S):
    """every rate of deformation and previous stress, written in terms of the deviatoric and volumetric strain increment and the trial stress"""
    def t(name, i, k):
        return -rd(name, 9 * i) - rd(name, 9 * i + 4) if k == 8 else rd(name, 9 * i + k)

    def rate(i, k):
        return (t("free:strain", i, k) + (rd("free:volume", i) if k in DIAG else 0)) / DT

    def stress(i, k):
        return t("free:trial", i, k) - 2 * G * t("free:strain", i, k) + (rd("free:pressure", i) - 3 * K * rd("free:volume", i) if k in DIAG else 0)

    D, SG = "Unrotated_Rate_Of_Deformation", "Unrotated_Cauchy_Stress"
    if S is Point:
        return {D: lambda idx: rate(*split3_(idx, 9)), SG + "@N": lambda idx: stress(*split3_(idx, 9))}
    r = {}
    for k in R9:
        r[D + "_" + AB[k]] = lambda idx, k=k: rate(idx, k)
        r[SG + "_" + AB[k] + "@N"] = lambda idx, k=k: stress(idx, k)
    return r


def dots(a):
    r = ZERO
    for x in a:
        r = r + x * x
    return r


def elastic(S, thermal=False, vm=False):
    def stress(O):
        i = S.index(O)
        st = State(O, S, i, thermal)
        gs = [eq("linear isotropic increment, entry %s of a %s" % (AB[k], S.what), st.s[k], st.trial[k]) for k in R9]
        if vm:
            gs.append(eq("equivalent stress of a %s" % S.what, O(S.vm, i), st.vm))
        return gs
    return stress


# constants of a real material: well above the guards against division by zero
FACTS = [ind("lt", P(Fraction(1, 10**15)) - SY), ind("lt", -G), ind("lt", -K)]


def perfect(S):
    def stress(O):
        i = S.index(O)
        st = State(O, S, i)
        y = ind("lt", SY - st.vm)
        f = ite(y, sqrt_(P(2) / 3) * SY / st.mag, ONE)
        return [eq("radial return onto the yield surface, entry %s of a %s" % (AB[k], S.what), st.s[k], f * st.dev[k] + (st.p if k in DIAG else 0), FACTS)
                for k in R9]
    return stress


def hardening(S, law, free=True):
    """radial return onto the surface found by law(st, e0, yield stress) -> (size of the updated surface, size when elastic)"""
    def stress(O):
        i = S.index(O)
        st = State(O, S, i, free=free)
        e0 = rd(S.eqps + "@N", i)
        dn = [st.sN[k] - ((st.sN[0] + st.sN[4] + st.sN[8]) / 3 if k in DIAG else 0) for k in R9]
        first, size, more = law(st, e0, i, sqrt_(dots(dn)))
        inside, out = ind("lt", st.vm - first), ind("lt", size - st.vm)
        f = sqrt_(P(2) / 3) * size / st.mag
        gs = []
        for k in R9:
            v = "entry %s of a %s" % (AB[k], S.what)
            gs.append(zero("elastic inside the yield surface, " + v, inside * (st.s[k] - st.trial[k]), FACTS + more, probe=st.s[k]))
            gs.append(zero("radial return onto the hardened surface, " + v,
                           (1 - inside) * out * (st.s[k] - f * st.dev[k] - (st.p if k in DIAG else 0)), FACTS + more, probe=st.s[k]))
        tr = st.s[0] + st.s[4] + st.s[8]
        gs.append(eq("elastic hydrostatic part of a %s" % S.what, tr / 3, st.p, FACTS + more))
        return gs
    return stress


def flawed(i):
    d2 = ZERO
    for k in range(3):
        d2 = d2 + (rd("Model_Coordinates", 3 * i + k) - par("Flaw Location " + "XYZ"[k])) ** 2
    return SY * (1 - par("Flaw Magnitude") * fn("exp", -d2 / par("Flaw Size") ** 2))


def linear_flawed(st, e0, i, mN):
    """linear hardening with the yield stress reduced around a flaw"""
    return linear_law(st, e0, i, mN, flawed(i))


def linear_law(st, e0, i, mN, SY=SY):
    """linear hardening"""
    H = par("Hardening Modulus")
    proj = ZERO
    for k in R9:
        proj = proj + st.dev[k] * st.dev_strain[k]
    lam = (6 * G * proj / st.mag + 3 * mN - sqrt_(P(6)) * SY) / (2 * (H + 3 * G))
    return SY, SY + H * (e0 + sqrt_(P(2) / 3) * lam), [ind("lt", -H)]


def power(b, e):
    return fn("pow", b, e)


def power_law(st, e0, i, mN):
    """power-law hardening with the averaged tangent"""
    c, n = par("Hardening Characteristic Strain"), par("Hardening Exponent")
    first = SY * power(1 + e0 / c, n)
    proj = ZERO
    for k in R9:
        proj = proj + st.dev[k] * st.dev_strain[k]
    top = 6 * G * proj / st.mag - sqrt_(P(6)) * first + 3 * mN

    def tangent(e):
        return SY * n / c * power(1 + e / c, n - 1)

    def strain(H):
        return e0 + sqrt_(P(2) / 3) * top / (2 * (H + 3 * G))
    H0 = tangent(e0)
    e1 = strain((H0 + tangent(strain(H0))) / 2)
    return first, SY * power(1 + e1 / c, n), []


def flow(S, free=False, law=None, mono=True):
    def flow(O):
        i = S.index(O)
        st = State(O, S, i, free=free)
        e1, e0 = O(S.eqps + "@NP1", i), rd(S.eqps + "@N", i)
        first = law(st, e0, i, ZERO)[0] if law else SY
        gs = [le("the plastic strain of a %s never decreases" % S.what, e0, e1)] if mono else []
        return gs + [zero("no plastic strain of a %s inside the yield surface" % S.what, ind("lt", st.vm - first) * (e1 - e0), probe=e1)]
    return flow


def carried(S):
    """perfect plasticity: stresses and the increment of the plastic strain do not depend on the plastic strain so far"""
    def carried(O):
        i = S.index(O)
        W = O.twin()
        e1, e0 = S.eqps + "@NP1", rd(S.eqps + "@N", i)
        return [eq("the plastic strain of a %s accumulates" % S.what, W(e1, i), O(e1, i) + e0)] + \
               [eq("history does not enter the stress, entry %s of a %s" % (AB[k], S.what), W(*S.at("Unrotated_Cauchy_Stress", "@NP1", i, k)), O(*S.at("Unrotated_Cauchy_Stress", "@NP1", i, k))) for k in (0, 1)]
    return carried


def twice(S, u):
    e = S.eqps + "@N"
    return Twin(u, {e: lambda i: 2 * rd(e, i)})


def mk(cls, cxx, bs, conf, sig, **k):
    return material(cls + "CorrespondenceMaterial", ["correspondence"] + cxx, conf, bases=[bs], calls=["computeCauchyStress"], sig=sig, **k)


S1, S2 = "dt N DM", "dt N L DM"
EL = ["elastic_correspondence"]
EP = ["elastic_plastic_correspondence"]
IH = ["isotropic_hardening_correspondence"]
BA = "BondAssociatedCorrespondenceMaterial"
HY = "HypoelasticCorrespondenceMaterial"
CO = "CorrespondenceMaterial"
FREE = {"Flying_Point_Flag@N": lambda idx: P(-1), "Flying_Point_Flag@NP1": lambda idx: P(-1)}
YS, HM = "Yield Stress", "Hardening Modulus"
CONTRACTS = [
    Contract(mk("Elastic", EL, CO, cfg(), S1), elastic(Point), name="elastic"),
    Contract(mk("Elastic", EL, CO, cfg("Thermal Expansion Coefficient"), S1), elastic(Point, True), name="elastic with thermal strain"),
]
for nm, base, fr in [("BondAssociated", BA, {}), ("Hypoelastic", HY, FREE)]:
    for S in (Point, Bond):
        CONTRACTS.append(Contract(mk("Elastic" + nm, EL, base, cfg(), S2, base=fr), elastic(S, vm=True), name="elastic, %s, %ss" % (nm, S.what)))
        CONTRACTS.append(Contract(mk("ElasticPlastic" + nm, EP, base, cfg(YS), S2, base=fr), perfect(S), flow(S), name="perfectly plastic, %s, %ss" % (nm, S.what), tiny=1e-18))
        CONTRACTS.append(Contract(twice(S, mk("ElasticPlastic" + nm, EP, base, cfg(YS), S2, base=fr)), carried(S), name="perfectly plastic, %s, history of %ss" % (nm, S.what), tiny=1e-18))
CONTRACTS += [
    Contract(mk("ElasticPlastic", EP, CO, cfg(YS), S1), perfect(Point), flow(Point), name="perfectly plastic", tiny=1e-18),
    Contract(twice(Point, mk("ElasticPlastic", EP, CO, cfg(YS), S1)), carried(Point), name="perfectly plastic, history", tiny=1e-18),
]

CONTRACTS += [
    Contract(mk("IsotropicHardeningPlastic", IH, CO, cfg(YS, HM), S1, base=by_trial(Point)), hardening(Point, linear_law), flow(Point, True), name="linear hardening", limits=(12, 6000), tiny=1e-18),
]
FL = cfg(YS, HM, "Enable Flaw", "Flaw Location X", "Flaw Location Y", "Flaw Location Z", "Flaw Size", "Flaw Magnitude", values={"Enable Flaw": True})
CONTRACTS += [
    Contract(mk("IsotropicHardeningPlastic", IH, CO, FL, S1, base=by_trial(Point)), hardening(Point, linear_flawed), flow(Point, True, linear_flawed, mono=False),
             name="linear hardening with a flaw", limits=(12, 6000), tiny=1e-18),
]
HYP = cfg(YS, "Hardening Characteristic Strain", "Hardening Exponent")
for S in (Point, Bond):
    CONTRACTS.append(Contract(mk("IsotropicHardeningPlasticHypoelastic", IH, HY, HYP, S2, base=dict(FREE, **by_trial(S))),
                              hardening(S, power_law), flow(S, True, power_law), name="power-law hardening, Hypoelastic, %ss" % S.what, limits=(12, 6000), tiny=1e-18))


# the return mapping solved by iteration: read on bounded runs only
def saturation(e):
    y0, y1, a, b = (par(x) for x in ("Initial Yield Stress", "Saturated Yield Stress", "Exponential Constant", "Linear Constant"))
    return y0 + (y1 - y0) * (1 - fn("exp", -a * e)) + b * e


def powerlaw(e):
    return SY * power(1 + e / par("Hardening Characteristic Strain"), par("Hardening Exponent"))


def consistency(S, size):
    def stress(O):
        i = S.index(O)
        st = State(O, S, i)
        e1, e0, vm = O(S.eqps + "@NP1", i), rd(S.eqps + "@N", i), O(S.vm, i)
        inside = ind("lt", st.vm - size(e0))
        gs = [eq("radial return, entry %s of a %s" % (AB[k], S.what), st.s[k], vm / st.vm * st.dev[k] + (st.p if k in DIAG else 0)) for k in R9]
        return gs + [zero("elastic inside the yield surface of a %s" % S.what, inside * (vm - st.vm)),
                     zero("no plastic strain inside the yield surface of a %s" % S.what, inside * (e1 - e0)),
                     zero("on the hardened surface otherwise, %s" % S.what, (1 - inside) * (vm - size(e1))),
                     zero("stress drop by the plastic strain of a %s" % S.what, (1 - inside) * (st.vm - vm - 3 * G * (e1 - e0))),
                     le("the plastic strain of a %s never decreases" % S.what, e0, e1)]
    return stress


def tensor_args(S, *names):
    return [a for n in names for a in ([Arr(n, 9)] if S is Point else [Arr(n.split("@")[0] + "_" + c + ("@" + n.split("@")[1] if "@" in n else ""), 1, "bond") for c in AB])]


ITER = "the Newton iteration of the return mapping is a loop whose number of turns depends on the data"
for S in (Point, Bond):
    for rule, size, names in [("Powerlaw", powerlaw, [YS, "Hardening Characteristic Strain", "Hardening Exponent"]),
                              ("SaturationExponential", saturation, ["Initial Yield Stress", "Saturated Yield Stress", "Exponential Constant", "Linear Constant"])]:
        per = "own" if S is Point else "bond"
        args = (tensor_args(S, "Unrotated_Rate_Of_Deformation", "Unrotated_Cauchy_Stress@N", "Unrotated_Cauchy_Stress@NP1")
                + [Arr(S.vm, 1, per), Arr(S.eqps + "@N", 1, per), Arr(S.eqps + "@NP1", 1, per), Arr("triaxiality", 1, per)]
                + ([] if S is Point else [NList()]) + [Int("N"), Real("p:Bulk Modulus", gen=lambda r: r.uniform(40.0, 90.0)), Real("p:Shear Modulus")]
                + [Real("p:" + n) for n in names] + [Real("dt")])
        fname = "update%sElasticIsotropic%sHardeningPlasticCauchyStress" % ("" if S is Point else "BondLevel", rule)
        CONTRACTS.append(Contract(Kernel(M + "isotropic_hardening_correspondence.cxx", fname, args, link=[]),
                                  consistency(S, size), name="iterated return, %s, %ss" % (rule, S.what), bounded=ITER, tol=1e-7))


def viscoplastic(O):
    i = O.idx("i", NPT)
    st = State(O, Point, i)
    e1, e0, vm = O("Equivalent_Plastic_Strain@NP1", i), rd("Equivalent_Plastic_Strain@N", i), O("Von_Mises_Stress", i)
    d2 = ZERO
    for k in range(3):
        d2 = d2 + (rd("x", 3 * i + k) - par("Flaw " + "XYZ"[k])) ** 2
    first = SY * (1 - par("Flaw Magnitude") * fn("exp", -d2 / par("Flaw Size") ** 2))
    inside = ind("lt", st.vm - first)
    gs = [eq("radial return, entry %s" % AB[k], st.s[k], vm / st.vm * st.dev[k] + (st.p if k in DIAG else 0)) for k in R9]
    return gs + [zero("elastic below the flawed yield stress", inside * (vm - st.vm)),
                 zero("no plastic strain below the flawed yield stress", inside * (e1 - e0)),
                 le("the return never raises the equivalent stress", vm, st.vm * P(Fraction(1000001, 1000000))),
                 le("the plastic strain never decreases", e0, e1)]


CONTRACTS.append(Contract(Kernel(M + "viscoplastic_needleman_correspondence.cxx", "updateElasticViscoplasticCauchyStress",
                                 [Arr("x", 3)] + tensor_args(Point, "Unrotated_Rate_Of_Deformation", "Unrotated_Cauchy_Stress@N", "Unrotated_Cauchy_Stress@NP1")
                                 + [Arr("Von_Mises_Stress"), Arr("Equivalent_Plastic_Strain@N"), Arr("Equivalent_Plastic_Strain@NP1"), Int("N"),
                                    Real("p:Bulk Modulus"), Real("p:Shear Modulus"), Real("p:Yield Stress"), Real("p:Strain Exponent"), Real("p:Rate Exponent"),
                                    Real("p:Rate"), Real("p:Strain 0"), Real("p:Strain 1"), Bool("flaw", True), Real("p:Flaw X"), Real("p:Flaw Y"), Real("p:Flaw Z"),
                                    Real("p:Flaw Size"), Real("p:Flaw Magnitude", gen=lambda r: r.uniform(0.1, 0.9)), Real("dt")]),
                          viscoplastic, name="viscoplastic return with a flaw", bounded="the yield surface is found by bisection", tol=1e-7))
