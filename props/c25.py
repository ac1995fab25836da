"""stored elastic energy"""
from .common import *
from .c05 import moved, zero_, RZ

W = "Stored_Elastic_Energy_Density"
NEEDS = {W: (2, 10, 1)}
TH, MV, DTEMP = "Dilatation@NP1", "Weighted_Volume", "Temperature_Change@NP1"
K, G, H = par("Bulk Modulus"), par("Shear Modulus"), par("Horizon")
CALL = ("computeStoredElasticEnergyDensity",)
OWN = {"own": lambda idx: idx}


def unit(n, calls=CALL, base=None):
    return MATERIALS[n](calls=calls, needs=NEEDS, base=dict(OWN, **(base or {})))


def strain(i, j, th, thermal):
    """extension of a bond less its volumetric part"""
    x = length(X, i, j)
    e = length(Y, i, j) - x
    if thermal:
        e = e - par("Thermal Expansion Coefficient") * rd(DTEMP, i) * x
    return e - th * x / 3


def energy(thermal=False, surface=False):
    def energy(O):
        """0.5 K theta^2 + 0.5 alpha sum (1-d) omega e_d^2 V"""
        i = O.idx("i", NPT)
        th = rd(TH, i)
        a = 15 * G / rd(MV, i) * (rd("Surface_Correction_Factor", i) if surface else 1)
        s = over_bonds(i, lambda j, b: (1 - rd(BD, b)) * omega(length(X, i, j), H) * strain(i, j, th, thermal) ** 2 * rd(VOL, j))
        return [eq("stored energy density", O(W, i), K * th ** 2 / 2 + a * s / 2)]
    return energy


def at_rest(O):
    i = O.idx("i", NPT)
    return [zero("no energy in a rigidly moved reference body", O.twin()(W, i), probe=O(W, i))]


def sigma(i, j):
    """normalised deviatoric influence: one (the default) plus multipliers times squares of the deviatoric modes"""
    d = diff(X, i, j)
    x = norm(d)
    modes = [d[c] ** 2 / x - x / 3 for c in range(3)] + [2 * d[p] * d[q] / x for p, q in ((0, 1), (0, 2), (1, 2))]
    return rd("Deviatoric_Normalization", i) * (ONE + sum((rd("Lagrange_Multiplier_Deviatoric_%d" % (k + 1), i) * m ** 2 for k, m in enumerate(modes)), ZERO))


def pals(O):
    """0.5 K theta^2 + mu sum sigma e_d^2 V"""
    i = O.idx("i", NPT)
    th = rd(TH, i)
    return [eq("stored energy density", O(W, i), K * th ** 2 / 2 + G * over_bonds(i, lambda j, b: sigma(i, j) * strain(i, j, th, 0) ** 2 * rd(VOL, j)))]


CONTRACTS = []
for n, th, sf in (("elastic", 0, 0), ("elastic_thermal", 1, 0), ("multiphysics", 0, 1), ("multiphysics_thermal", 1, 1)):
    CONTRACTS.append(Contract(unit(n), energy(th, sf), name=n + " energy", frame=[W]))
    rest = {f: moved(f, RZ, X) for f in ("Coordinates@NP1", "Coordinates@N")}
    rest.update({f: zero_ for f in ("Temperature_Change@NP1", "Temperature_Change@N", "Dilatation@NP1")})
    CONTRACTS.append(Contract(Twin(unit(n), rest), at_rest, name=n + " energy, rigid motion"))
CONTRACTS.append(Contract(unit("pals"), pals, name="pals energy", frame=[W]))
CONTRACTS.append(Contract(Twin(unit("pals"), rest), at_rest, name="pals energy, rigid motion"))
