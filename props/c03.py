from .common import *

WV, TH = "Weighted_Volume", "Dilatation@NP1"


def weighted_volume(h):
    def weighted_volume(O):
        i = O.idx("i", NPT)
        return [eq("weighted volume of a point", O(WV, i),
                   over_bonds(i, lambda j, b: omega(length(X, i, j), h(i)) * dot(diff(X, i, j), diff(X, i, j)) * rd(VOL, j)))]
    return weighted_volume


def dilatation(h, thermal=None, bd=BD, y=Y, th=TH):
    def dilatation(O):
        i = O.idx("i", NPT)

        def term(j, b):
            z = length(X, i, j)
            e = length(y, i, j) - z
            if thermal:
                e = e - par("Thermal Expansion Coefficient") * rd(thermal, i) * z
            return (1 - rd(bd, b)) * omega(z, h(i)) * z * e * rd(VOL, j)
        return [eq("dilatation of a point", O(th, i), 3 * over_bonds(i, term) / rd(WV, i))]
    return dilatation


HP = lambda i: par("Horizon")
CONTRACTS = []
for k in ["elastic", "elastic_thermal", "plastic", "hardening", "viscoelastic", "multiphysics", "linear_lps"]:
    try:
        CONTRACTS.append(Contract(MATERIALS[k](calls=("initialize",)), weighted_volume(HP), name=k + " initialize"))
    except KeyError:
        pass
for k, th in [("elastic", None), ("elastic_thermal", "Temperature_Change@NP1"), ("plastic", None), ("hardening", None), ("viscoelastic", None),
              ("multiphysics", None), ("multiphysics_thermal", "Temperature_Change@NP1")]:
    CONTRACTS.append(Contract(MATERIALS[k](), dilatation(HP, th), name=k + " computeForce"))
