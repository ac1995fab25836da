from .common import *
from .c10 import mul, tr, det, I3, R3, at, Nine, same, bond, point, TU

F, KI = "Deformation_Gradient", "Shape_Tensor_Inverse"
HZN = "Horizon"


def moment(field, i, lst="L"):
    """influence-weighted moment of a vector field's differences with the reference bonds"""
    def entry(r, c):
        def g(j, b):
            xi = diff(X, i, j)
            return omega(norm(xi), rd(HZN, i)) * rd(VOL, j) * diff(field, i, j)[r] * xi[c]
        return over_bonds(i, g, lst)
    return [[entry(r, c) for c in R3] for r in R3]


def gradient(O):
    """F K = moment of the deformed bonds, and the stored tensor is the inverse of K"""
    i = point(O)
    K, D = moment(X, i), moment(Y, i)
    ok = ONE - ind("eq", det(K))
    FK = mul([[O(F, 9 * i + 3 * r + c) for c in R3] for r in R3], K)
    KK = mul([[O(KI, 9 * i + 3 * r + c) for c in R3] for r in R3], K)
    gs = []
    for r in R3:
        for c in R3:
            gs.append(zero("deformation gradient, entry %d%d" % (r, c), ok * (FK[r][c] - D[r][c])))
            gs.append(zero("shape tensor inverse, entry %d%d" % (r, c), ok * (KK[r][c] - I3[r][c])))
    return gs


def affine(field=X, off=1):
    def f(idx):
        o, c = split3_(idx)
        return sum((rd("A", 3 * c + k) * rd(field, 3 * o + k) for k in R3), rd("A0", P(c)))
    return f


def affine_exact(O):
    i = point(O)
    ok = ONE - ind("eq", det(moment(X, i)))
    return [zero("gradient of an affine motion, entry %d%d" % (r, c), ok * (O(F, 9 * i + 3 * r + c) - rd("A", P(3 * r + c))), probe=O(F, 9 * i + 3 * r + c)) for r in R3 for c in R3]


def corr(**k):
    return MATERIALS["correspondence"](**k)


CONTRACTS = [
    Contract(corr(), gradient, name="deformation gradient", limits=(6000,)),
    Contract(corr(base={Y: affine()}), affine_exact, name="affine motions", limits=(6000,)),
]

# ---------------------------------------------------------------- the rate and bond-associated formulations
N = Int("N")
OMEGA = "/verif/drivers/omega.cpp"
FREE = {"flag": lambda idx: P(-1)}
L3 = lambda i, p: [[rd(p + a, 3 * i + c) for c in R3] for a in "xyz"]
free = lambda d: "Sacado" not in d


def vel_moment(i, field):
    """moment of a field's differences with the deformed bonds, current volumes, weights over squared length"""
    def entry(r, c):
        def g(j, b):
            z = diff("y", i, j)
            return (1 - rd("bd", b)) * omega(norm(z), rd("h", i)) * rd("J", j) * rd("V", j) * diff(field, i, j)[r] * z[c] / dot(z, z)
        return over_bonds(i, g)
    return [[entry(r, c) for c in R3] for r in R3]


def velocity_gradient(O):
    i = point(O)
    K, D = vel_moment(i, "y"), vel_moment(i, "v")
    ok = ONE - ind("eq", det(K))
    L = [[O("VL", 9 * i + 3 * r + c) for c in R3] for r in R3]
    LK = mul(L, K)
    gs = [zero("velocity gradient, entry %d%d" % (r, c), ok * (LK[r][c] - D[r][c])) for r in R3 for c in R3]
    gs.append(eq("volume change", O("J1", i), rd("J", i) * (1 + sym("dt") * (L[0][0] + L[1][1] + L[2][2]))))
    return gs


def rows_of(O):
    i = point(O)
    return [eq("row copy %d%d" % (r, c), O("G" + "xyz"[r], 3 * i + c), O("VL", 9 * i + 3 * r + c), probe=ONE) for r in R3 for c in R3]


def affine_velocity(O):
    i = point(O)
    ok = ONE - ind("eq", det(vel_moment(i, "y")))
    return [zero("gradient of an affine velocity, entry %d%d" % (r, c), ok * (O("VL", 9 * i + 3 * r + c) - rd("A", P(3 * r + c)))) for r in R3 for c in R3]


def weighted_velocity_gradient(O):
    i = point(O)

    def e(r, c):
        return over_bonds(i, lambda j, b: diff("v", i, j)[r] * rd("phi%d" % c, b) * rd("J", j) * rd("V", j))
    L = [[e(r, c) for c in R3] for r in R3]
    return (same("velocity gradient", [[O("VL", 9 * i + 3 * r + c) for c in R3] for r in R3], L)
            + [eq("volume change", O("J1", i), rd("J", i) * (1 + sym("dt") * (L[0][0] + L[1][1] + L[2][2])))])


def bond_level(rows):
    def g(O):
        i = O.idx("i", NPT)
        n = O.idx("n", NN_("L", i))
        j, b = nbr_("L", i, n), B_("L", i) + n
        z, dv = diff("y", i, j), diff("v", i, j)
        gs = []
        for r in R3:
            old = lambda p, c: rd("G" + "xyz"[r], 3 * p + c) if rows else rd("L9", 9 * p + 3 * r + c)
            mean = [(old(i, c) + old(j, c)) / 2 for c in R3]
            for c in R3:
                gs.append(eq("bond velocity gradient, entry %d%d" % (r, c), O("B" + "xyz"[r] + "xyz"[c], b), mean[c] + (dv[r] - dot(mean, z)) * z[c] / dot(z, z)))
        return gs
    return g


def bond_motion(O):
    """the bond-level gradient maps the bond to its velocity difference"""
    i = O.idx("i", NPT)
    n = O.idx("n", NN_("L", i))
    j, b = nbr_("L", i, n), B_("L", i) + n
    z, dv = diff("y", i, j), diff("v", i, j)
    return [eq("bond velocity gradient on its bond, component %d" % r, dot([O("B" + "xyz"[r] + "xyz"[c], b) for c in R3], z), dv[r]) for r in R3]


def updated(O):
    i = point(O)
    F0, L = at("F0", i), at("VL", i)
    p = mul(L, F0)
    return same("updated deformation gradient", [[O("F1", 9 * i + 3 * r + c) for c in R3] for r in R3],
                [[F0[r][c] + sym("dt") * p[r][c] for c in R3] for r in R3])


def lagrangian(O):
    i = point(O)
    gs = []
    for r in R3:
        for c in R3:
            for nm, out_, fld, one in (("deformation gradient", "F", "u", I3[r][c]), ("rate", "D", "v", ZERO)):
                s = over_bonds(i, lambda j, b: diff(fld, i, j)[r] * rd("phi%d" % c, b) * rd("V", j))
                gs.append(eq("%s, entry %d%d" % (nm, r, c), O(out_ + "xyz"[r], 3 * i + c), one + s))
    return gs


A1 = lambda n: Arr(n, 1, "node")
A3 = lambda n, on="node": Arr(n, 3, on)
PHI = [Arr("phi%d" % k, 1, "bond") for k in R3]
G3 = [A3("G" + a, "own") for a in "xyz"]
B9 = Nine("B", "bond")
VG = [A1("V"), A1("J"), Arr("J1"), Arr("h"), A3("y"), A3("v"), Arr("K", 9), Arr("VL", 9)]
VG2 = [Arr("flag"), Arr("bd", 1, "bond", gen=g_uni(0.0, 0.7)), NList(), N, Real("dt")]
nm = "computeShapeTensorInverseAndApproximateNodeLevelVelocityGradient"
u1 = lambda **k: Kernel(TU, nm, VG + VG2, sel=lambda d: free(d) and d.count("*") == 11, base=dict(FREE, **k), handlers=classes.HANDLERS, link=[OMEGA], dense=True)
u2 = lambda **k: Kernel(TU, nm, VG + G3 + VG2, sel=lambda d: free(d) and d.count("*") == 14, base=dict(FREE, **k), handlers=classes.HANDLERS, link=[OMEGA], dense=True)
LIM = dict(limits=(6000,))
CONTRACTS += [
    Contract(u1(), velocity_gradient, name="velocity gradient", frame=["J1", "K", "VL"], **LIM),
    Contract(u2(), velocity_gradient, rows_of, name="velocity gradient by rows", frame=["J1", "K", "VL", "Gx", "Gy", "Gz"], **LIM),
    Contract(u1(v=affine("y")), affine_velocity, name="affine velocities", **LIM),
    Contract(u2(v=affine("y")), affine_velocity, name="affine velocities by rows", **LIM),
    Contract(Kernel(TU, "computeVelocityGradient", [A1("V"), A1("J"), Arr("J1"), A3("v")] + PHI + [Arr("VL", 9)] + G3 + [Arr("flag"), NList(), N, Real("dt")], base=FREE),
             weighted_velocity_gradient, rows_of, name="velocity gradient from weights", frame=["J1", "VL", "Gx", "Gy", "Gz"]),
    Contract(Kernel(TU, "computeBondLevelVelocityGradient", [A3("y"), A3("v"), Arr("L9", 9, "node")] + B9.arrs + [Arr("flag"), NList(), N],
                    sel=lambda d: free(d) and d.count("*") == 14, base=FREE), bond_level(False), bond_motion, name="bond velocity gradient", frame=B9.names, **LIM),
    Contract(Kernel(TU, "computeBondLevelVelocityGradient", [A3("y"), A3("v")] + [A3("G" + a) for a in "xyz"] + B9.arrs + [Arr("flag"), NList(), N],
                    sel=lambda d: free(d) and d.count("*") == 16, base=FREE), bond_level(True), bond_motion, name="bond velocity gradient by rows", frame=B9.names, **LIM),
    Contract(Kernel(TU, "updateDeformationGradient", [Arr("VL", 9), Arr("F0", 9), Arr("F1", 9), Arr("flag"), N, Real("dt")], base=FREE), updated,
             name="updated deformation gradient", frame=["F1"]),
    Contract(Kernel(TU, "computeDeformationGradient", [A1("V"), A3("u"), A3("v")] + PHI + [A3("F" + a, "own") for a in "xyz"] + [A3("D" + a, "own") for a in "xyz"] + [NList(), N]),
             lagrangian, name="deformation gradient from weights", frame=["Fx", "Fy", "Fz", "Dx", "Dy", "Dz"]),
]
