from .common import *
from .c10 import mul, tr, det, R3, point
from .c09 import affine, moment, F, KI

HG = "Hourglass_Force_Density@NP1"
GRAD = classes.abstracted(r"computeShapeTensorInverseAndApproximateDeformationGradient", [4, 5])
PI = sym("pi")


def state(O, field):
    """a field computed earlier in the step: arbitrary in the proof, the computed one in a run"""
    return lambda i, r, c: rd(("any:" if O.symbolic else "out:") + field, 9 * i + 3 * r + c)


def predicted_gap(O, i, j):
    """deformed bond minus the image of the reference bond under the deformation gradient"""
    f, xi, y = state(O, F), diff(X, i, j), diff(Y, i, j)
    return [y[r] - (f(i, r, 0) * xi[0] + f(i, r, 1) * xi[1] + f(i, r, 2) * xi[2]) for r in R3]


def pairwise(t, w):
    """sum over all entries of w times the densities of the bond forces t(i, j, b): V_j on the point, -V_i on the neighbour"""
    def at(i):
        def g(j, b):
            tt = t(i, j, b)
            return sum(((w(3 * i + c) * rd(VOL, j) - w(3 * j + c) * rd(VOL, i)) * tt[c] for c in R3), ZERO)
        return over_bonds(i, g)
    return over_points(at)


def hourglass_law(O):
    def t(i, j, b):
        y, xi = diff(Y, i, j), diff(X, i, j)
        k = 18 * par("Hourglass Coefficient") * par("Bulk Modulus") / (PI * rd("Horizon", i) ** 4)
        m = k * dot(predicted_gap(O, i, j), y) / (norm(xi) * norm(y))
        return [m * y[c] for c in R3]
    return t


def law(O):
    return [eq("suppression force", O.tot(HG, w_any), pairwise(hourglass_law(O), w_any))]


def stress_force(O):
    f, k, s = state(O, F), state(O, KI), state(O, "Cauchy_Stress@NP1")

    def t(i, j, b):
        xi = diff(X, i, j)
        A = lambda g: [[g(i, r, c) for c in R3] for r in R3]
        Fm = A(f)
        # J sigma F^-T is the stress times the cofactor matrix of F
        d = det(Fm)
        alpha = d if not O.symbolic else ind("eq", d - 1) + (ONE - ind("eq", d - 1)) * d
        cof = [[Fm[(r + 1) % 3][(c + 1) % 3] * Fm[(r + 2) % 3][(c + 2) % 3] - Fm[(r + 1) % 3][(c + 2) % 3] * Fm[(r + 2) % 3][(c + 1) % 3] for c in R3] for r in R3]
        Pi = mul(mul(A(s), [[alpha * x / d for x in row] for row in cof]), A(k))
        ok = ONE - ind("eq", det(Fm)) if O.symbolic else ONE
        return [ok * omega(norm(xi), rd("Horizon", i)) * dot(Pi[r], xi) for r in R3]
    return t


def total(O):
    a, b = stress_force(O), hourglass_law(O)
    return [eq("stress force plus suppression force", O.tot(FD, w_any), pairwise(a, w_any) + pairwise(b, w_any))]


def no_force(O):
    return [zero("no suppression force in an affine motion", O.tot(HG, w_any), probe=ONE)]


def corr(h=(), **k):
    return material("ElasticCorrespondenceMaterial", ["correspondence", "elastic_correspondence"], bases=["CorrespondenceMaterial"],
                    handlers=list(h) + [ROT, ROTC], dense=True, **k)


A9 = lambda idx: rd("A", P(split3_(idx, 9)[1]))
# the deformation gradient of an affine motion is its gradient (proved as C09)
EXACT = classes.by_contract(r"computeShapeTensorInverseAndApproximateDeformationGradient", {4: lambda idx: rd("any:" + KI, idx), 5: A9})
CONTRACTS = [
    Contract(corr([GRAD]), law, balance(HG, VOL), name="suppression force"),
    Contract(corr([GRAD]), total, name="force of the stress and the suppression"),
    Contract(corr([EXACT], base={Y: affine()}), no_force, name="affine motions", tol=1e-4),
]
