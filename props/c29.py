from .common import *

RN, R1 = "Rotation_Tensor@N", "Rotation_Tensor@NP1"
XYZ = "XYZ"


class Full:
    """tensor stored as nine consecutive entries per point"""
    def __init__(self, field):
        self.base = {field + "@N": lambda idx: ONE if split3_(idx, 9)[1] % 4 == 0 else ZERO}
        self.at = lambda s, i, r, c: (field + s, 9 * i + 3 * r + c)
        self.where = lambda O: O.idx("i", NPT)


class Bondwise:
    """tensor stored as nine bond fields"""
    def __init__(self, field):
        self.base = {"%s_%s%s@N" % (field, a, b): (lambda idx, a=a, b=b: ONE if a == b else ZERO) for a in XYZ for b in XYZ}
        self.at = lambda s, i, r, c: ("%s_%s%s%s" % (field, XYZ[r], XYZ[c], s), i)

        def where(O):
            i = O.idx("i", NPT)
            n = O.idx("n", NN_("L", i))
            return B_("L", i) + n
        self.where = where


def orthogonal(f):
    def g(O):
        i = f.where(O)
        gs = []
        R = [[O(*f.at("@NP1", i, r, c)) for c in range(3)] for r in range(3)]
        for a in range(3):
            for b in range(a, 3):
                v = ZERO
                for k in range(3):
                    v = v + R[k][a] * R[k][b]
                gs.append(eq("rotation increment is orthogonal, entry %d%d" % (a, b), v, ONE if a == b else ZERO, probe=R[0][0]))
        return gs
    return g


def mul_by_previous(f):
    def g(O):
        i = f.where(O)
        gs = []
        Q = O.twin()
        Q.binders = O.binders
        for a in range(3):
            for b in range(3):
                v = ZERO
                for k in range(3):
                    v = v + Q(*f.at("@NP1", i, a, k)) * rd(*f.at("@N", i, k, b))
                gs.append(eq("increment applied to the previous rotation, entry %d%d" % (a, b), O(*f.at("@NP1", i, a, b)), v))
        return gs
    return g


def corr(**k):
    return material("ElasticCorrespondenceMaterial", ["correspondence", "elastic_correspondence"], bases=["CorrespondenceMaterial"],
                    handlers=[ROTC], dense=True, **k)


# points that have not separated from the body
FREE = {"Flying_Point_Flag@N": lambda idx: P(-1)}
POINT, BOND = Full("Rotation_Tensor"), Bondwise("Rotation_Tensor")
CONTRACTS = []
for nm, mk, fs in [("correspondence", corr, [POINT]), ("hypoelastic", MATERIALS["hypoelastic"], [POINT, BOND]),
                   ("bond_associated", MATERIALS["bond_associated"], [POINT, BOND])]:
    for f in fs:
        free = FREE if nm == "hypoelastic" else {}
        k = " (points)" if f is POINT else " (bonds)"
        CONTRACTS += [
            Contract(mk(base=dict(f.base, **free)), orthogonal(f), name=nm + " rotation increment" + k, limits=(4, 12), goal_limit=10**5),
            Contract(Twin(mk(base=free), f.base), mul_by_previous(f), name=nm + " rotation update" + k, limits=(12,), goal_limit=10**5),
        ]
