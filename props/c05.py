from .common import *

# Rotations by the angle with cosine 3/5 about two axes generate a dense subgroup of the
# rotations; equivariance under both (and under translations) extends to all of them.
c, s = Fraction(3, 5), Fraction(4, 5)
RZ = [[c, -s, 0], [s, c, 0], [0, 0, 1]]
RX = [[1, 0, 0], [0, c, -s], [0, s, c]]


def shift(k):
    return sym("shift%d" % k)


def moved(field, R, ref=None):
    def f(idx):
        o, k = split3_(idx)
        r = shift(k)
        for l in range(3):
            if R[k][l]:
                r = r + R[k][l] * rd(ref or field, 3 * o + l)
        return r
    return f


def indifferent(R):
    def w(idx):
        o, k = split3_(idx)
        r = ZERO
        for l in range(3):
            if R[l][k]:
                r = r + R[l][k] * w_any(3 * o + l)
        return r

    def frame_indifference(O):
        return [eq("forces rotate with the body", O.twin().tot(FD, w_any), O.tot(FD, w))]
    return frame_indifference


def at_rest(O):
    t = O.twin().tot(FD, w_any)
    return [zero("no force in a rigidly moved reference body", t, probe=O.tot(FD, w_any))]


def zero_(idx):
    return ZERO


def one_(idx):
    return ONE


mat = MATERIALS
NAMES = ["elastic", "elastic_thermal", "bond_based", "bond_based_2d", "plastic", "plastic_planar", "hardening", "viscoelastic", "multiphysics", "multiphysics_thermal", "pals"]
STATE = ["Deviatoric_Plastic_Extension@N", "Lambda@N", "Deviatoric_Back_Extension@N", "Temperature_Change@NP1", "Temperature_Change@N", "Fluid_Pressure_Y@NP1", "Dilatation@N"]
CONTRACTS = []
for n in NAMES:
    for a, R in (("z", RZ), ("x", RX)):
        mv = {f: moved(f, R) for f in ("Coordinates@NP1", "Coordinates@N")}
        CONTRACTS.append(Contract(Twin(mat[n](), mv), indifferent(R), name="%s, rotation about %s" % (n, a)))
    mv = {f: moved(f, RZ, X) for f in ("Coordinates@NP1", "Coordinates@N")}
    for f in STATE:
        mv[f] = zero_
    CONTRACTS.append(Contract(Twin(mat[n](), mv), at_rest, name="%s, rigid motion" % n))
