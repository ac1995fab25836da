import re
from .common import *

WV, TH = "Weighted_Volume", "Dilatation@NP1"
K, G, H, SY, HM = par("Bulk Modulus"), par("Shear Modulus"), par("Horizon"), par("Yield Stress"), par("Hardening Modulus")
EDP, LAM, SCF = "Deviatoric_Plastic_Extension", "Lambda", "Surface_Correction_Factor"


class Law:
    """ordinary state-based plasticity in terms of the fields"""

    def __init__(self, O, planar=False, hardening=False):
        self.O, self.planar, self.hardening = O, planar, hardening

    def alpha(self, i):
        a = 15 * G / rd(WV, i)
        return a * rd(SCF, i) if self.hardening else a

    def surface(self, i):
        pi = sym("pi")
        y = 75 * SY ** 2 / (8 * pi * par("Thickness") * H ** 4) if self.planar else 25 * SY ** 2 / (8 * pi * H ** 5)
        return y * rd(SCF, i) ** 2 if self.hardening else y

    def trial(self, i, j, b):
        z = length(X, i, j)
        return self.alpha(i) * (length(Y, i, j) - z - self.O(TH, i) * z / 3 - rd(EDP + "@N", b))

    def norm(self, i):
        return sqrt_(over_bonds(i, lambda j, b: ((1 - rd(BD, b)) * self.trial(i, j, b)) ** 2 * rd(VOL, j)))

    def norm2(self, i):
        return self.norm(i) ** 2

    def yields(self, i):
        return ind("lt", self.surface(i) - self.norm2(i) / 2)

    def dlambda(self, i):
        """increment of the plastic multiplier"""
        if self.hardening:
            return self.O(LAM + "@NP1", i) - rd(LAM + "@N", i)
        return self.yields(i) * (self.norm(i) / sqrt_(2 * self.surface(i)) - 1) / self.alpha(i)

    def td(self, i, j, b):
        t = self.trial(i, j, b)
        if self.hardening:
            return t / (1 + self.alpha(i) * self.dlambda(i))
        y = self.yields(i)
        return t * (1 - y) + y * sqrt_(2 * self.surface(i)) * t / self.norm(i)

    def t(self, i, j, b):
        d = 1 - rd(BD, b)
        return d * (3 * K * self.O(TH, i) / rd(WV, i) * length(X, i, j) + d * self.td(i, j, b))


POS = [WV, VOL, "p:Shear Modulus", "p:Horizon", "p:Yield Stress", SCF, "p:Hardening Modulus", "p:Thickness", "p:Bulk Modulus"]
T.NONNEG.update(["p:Shear Modulus", "p:Yield Stress", "p:Hardening Modulus", "p:Thickness"])


def positive(i):
    return [ind("lt", -rd(WV, i)), ind("lt", -G), ind("lt", -H), ind("lt", -SY), ind("lt", -par("Thickness")), ind("lt", -sym("pi"))]


def multiplier(**kw):
    def multiplier(O):
        i = O.idx("i", NPT)
        L = Law(O, **kw)
        l1, l0 = O(LAM + "@NP1", i), rd(LAM + "@N", i)
        gs = [le("the plastic multiplier never decreases", l0, l1, positive(i)),
              zero("no plastic flow inside the yield surface", (1 - L.yields(i)) * (l1 - l0), probe=l1)]
        if not kw.get("hardening"):
            gs.append(eq("increment of the plastic multiplier", l1 - l0, L.dlambda(i)))
        return gs
    return multiplier


def return_map(O):
    """hardening: a positive increment puts the deviatoric force state on the hardened surface"""
    n, l0, y, a, h = [sym(x) for x in ("tdNorm", "lambdaN", "yield", "alpha", "hardening")]
    d = O.ret()
    return [le("increment of the multiplier is not negative", 0, d),
            zero("positive increment returns to the hardened surface", ind("lt", -d) * (n ** 2 / 2 - (y + h * (l0 + d)) * (1 + a * d) ** 2))]


def extension(**kw):
    def extension(O):
        i = O.idx("i", NPT)
        n = O.idx("n", NN_("L", i))
        b = B_("L", i) + n
        L = Law(O, **kw)
        return [eq("plastic extension update", O(EDP + "@NP1", b), rd(EDP + "@N", b) + L.td(i, nbr_("L", i, n), b) * L.dlambda(i))]
    return extension


def force(**kw):
    def force(O):
        return [eq("force of the returned state", O.tot(FD, w_any), pair_force(Law(O, **kw).t, w_any))]
    return force


FR = [FD, TH, EDP + "@NP1", LAM + "@NP1"]
mat = MATERIALS
CONTRACTS = []
LIM = ((6000, 3), 40, 6000)
UDL = (re.compile(r"17updateDeltaLambdaIdE"), lambda ex, name, a, i: fn("dlambda", *a))
DIL = classes.abstracted(r"17computeDilatation", [5])
for nm, title, kw in (("plastic", "perfect plasticity", {}), ("plastic_planar", "planar perfect plasticity", dict(planar=True)), ("hardening", "hardening plasticity", dict(hardening=True))):
    g = {"p:Yield Stress": lambda r: r.uniform(0.2, 3.0), "Lambda": g_uni(0.0, 0.4), SCF: g_uni(0.5, 1.5)}
    u = mat[nm](pos=POS, gen=g, handlers=[DIL, UDL])
    CONTRACTS.append(Contract(u, multiplier(**kw), limits=LIM, name=title + ": multiplier"))
    CONTRACTS.append(Contract(u, extension(**kw), limits=LIM, name=title + ": plastic extension"))
    CONTRACTS.append(Contract(u, force(**kw), limits=LIM, name=title + ": force", frame=FR))
CONTRACTS.append(Contract(Kernel(M + "elastic_plastic_hardening.cxx", "updateDeltaLambda",
                                 [Real("tdNorm", pos=True, gen=lambda r: r.uniform(0.5, 6)), Real("lambdaN", pos=True, gen=lambda r: r.uniform(0, 0.5)), Real("yield", pos=True),
                                  Real("alpha", pos=True), Real("hardening", pos=True)], ret="d"),
                          return_map, name="return to the hardened surface", cases=40,
                          bounded="the positive root of the cubic is selected by trigonometric and radical formulas the prover cannot relate to the cubic"))
