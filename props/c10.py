from .common import *

TU = M + "correspondence.cxx"
R3 = range(3)


def mat(name):
    return [[rd(name, 3 * r + c) for c in R3] for r in R3]


def out(O, name, i=ZERO):
    return [[O(name, 9 * i + 3 * r + c) for c in R3] for r in R3]


def at(name, i):
    return [[rd(name, 9 * i + 3 * r + c) for c in R3] for r in R3]


def mul(a, b):
    return [[a[r][0] * b[0][c] + a[r][1] * b[1][c] + a[r][2] * b[2][c] for c in R3] for r in R3]


def tr(a):
    return [[a[c][r] for c in R3] for r in R3]


def same(what, a, b):
    return [eq("%s, entry %d%d" % (what, r, c), a[r][c], b[r][c], probe=ONE) for r in R3 for c in R3]


I3 = [[ONE if r == c else ZERO for c in R3] for r in R3]


def det(a):
    return (a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0])
            + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]))


def g_singular(rng, c, n):
    a = [float(rng.randint(-3, 3)) for _ in range(9)]
    if rng.random() < 0.4:
        a[6:9] = [a[k] - 2 * a[3 + k] for k in R3]
    return a


def inverse(O):
    A, B = mat("A"), out(O, "B")
    d = det(A)
    sing = ind("eq", d)
    gs = [eq("determinant", O("D", ZERO), d), eq("failure code", O.ret(), sing, probe=ONE)]
    AB, BA = mul(A, B), mul(B, A)
    for r in R3:
        for c in R3:
            gs.append(zero("inverse times matrix, entry %d%d" % (r, c), (ONE - sing) * (BA[r][c] - I3[r][c])))
            gs.append(zero("matrix times inverse, entry %d%d" % (r, c), (ONE - sing) * (AB[r][c] - I3[r][c])))
            gs.append(zero("no inverse of a singular matrix, entry %d%d" % (r, c), sing * B[r][c]))
    return gs


def product(ta, tb):
    def g(O):
        A, B = mat("A"), mat("B")
        p = mul(tr(A) if ta else A, tr(B) if tb else B)
        return same("product", out(O, "C"), [[sym("alpha") * x for x in row] for row in p])
    return g


def transposed(O):
    return same("transpose", out(O, "B"), tr(mat("A")))


def in_place(O):
    return same("transpose in place", out(O, "A"), tr(mat("A")))


def diagonal(O):
    i = O.idx("i", NPT)
    return same("diagonal", out(O, "A", i), [[ONE if r == c else rd("A", 9 * i + 3 * r + c) for c in R3] for r in R3])


class Nine:
    """tensor in nine arrays"""
    def __init__(self, p, on):
        self.p, self.on = p, on
        self.names = [p + a + b for a in "xyz" for b in "xyz"]
        self.arrs = [Arr(n, 1, on) for n in self.names]

    def old(self, i):
        return [[rd(self.names[3 * r + c], i) for c in R3] for r in R3]

    def new(self, O, i):
        return [[O(self.names[3 * r + c], i) for c in R3] for r in R3]


class Full:
    def __init__(self, p, on="own"):
        self.p = p
        self.arrs = [Arr(p, 9, on)]

    def old(self, i):
        return at(self.p, i)

    def new(self, O, i):
        return out(O, self.p, i)


def point(O):
    return O.idx("i", NPT)


def bond(O):
    i = O.idx("i", NPT)
    return B_("L", i) + O.idx("n", NN_("L", i))


def green(F):
    C = mul(tr(F), F)
    return [[(C[r][c] - I3[r][c]) / 2 for c in R3] for r in R3]


def strain(F, E, where, flag=None):
    def g(O):
        i = where(O)
        return same("Green-Lagrange strain", E.new(O, i), green(F.old(i)))
    return g


def strain_rate(O):
    i = point(O)
    F = [[rd("F" + a, 3 * i + c) for c in R3] for a in "xyz"]
    G = [[rd("G" + a, 3 * i + c) for c in R3] for a in "xyz"]
    u, v = mul(tr(G), F), mul(tr(F), G)
    E0 = at("E0", i)
    return same("strain increment", out(O, "E", i), [[E0[r][c] + sym("dt") * (u[r][c] + v[r][c]) / 2 for c in R3] for r in R3])


def rotate(Q, S, S1, where):
    def g(O):
        i = where(O)
        q = Q.old(i)
        return same("rotated stress", S1.new(O, i), mul(mul(q, S.old(i)), tr(q)))
    return g


N = Int("N")
FREE = {"flag": lambda idx: P(-1)}
G9 = lambda n, **k: Arr(n, 9, "fix", **k)
CONTRACTS = [
    Contract(Kernel(TU, "Invert3by3Matrix", [G9("A", gen=g_singular), Arr("D", 1, "fix"), G9("B")], ret="i"), inverse, name="inverse", frame=["B", "D"], cases=30),
    Contract(Kernel(TU, "TransposeMatrix", [G9("A"), G9("B")]), transposed, name="transpose", frame=["B"]),
    Contract(Kernel(TU, "setOnesOnDiagonalFullTensor", [Arr("A", 9), N]), diagonal, name="diagonal", frame=["A"]),
]
for ta in (False, True):
    for tb in (False, True):
        CONTRACTS.append(Contract(Kernel(TU, "MatrixMultiply", [Bool("ta", ta), Bool("tb", tb), Real("alpha"), G9("A"), G9("B"), G9("C")]),
                                  product(ta, tb), name="product %s%s" % ("t" if ta else "n", "t" if tb else "n"), frame=["C"]))
n9 = lambda p: Nine(p, "own")
b9 = lambda p: Nine(p, "bond")
F, E, Q, S, S1 = n9("F"), n9("E"), b9("Q"), b9("S"), b9("T")
CONTRACTS.append(Contract(Kernel(TU, "computeGreenLagrangeStrain", F.arrs + E.arrs + [N], sel=lambda d: "Sacado" not in d and d.count("*") == 18),
                          strain(F, E, point), name="strain by components", frame=E.names))
CONTRACTS.append(Contract(Kernel(TU, "computeGreenLagrangeStrain", [Arr("F", 9), Arr("E", 9), Arr("flag"), N], sel=lambda d: "Sacado" not in d and d.count("*") == 3, base=FREE),
                          strain(Full("F"), Full("E"), point), name="strain", frame=["E"]))
CONTRACTS.append(Contract(Kernel(TU, "updateGreenLagrangeStrain", [Arr(x, 3) for x in ("Fx", "Fy", "Fz", "Gx", "Gy", "Gz")] + [Arr("E0", 9), Arr("E", 9), N, Real("dt")]),
                          strain_rate, name="strain increment", frame=["E"]))
CONTRACTS.append(Contract(Kernel(TU, "CORRESPONDENCE::rotateCauchyStress", [Arr("Q", 9), Arr("S", 9), Arr("T", 9), N], sel=lambda d: "Sacado" not in d and d.count("*") == 3),
                          rotate(Full("Q"), Full("S"), Full("T"), point), name="rotated stress", frame=["T"]))
CONTRACTS.append(Contract(Kernel(TU, "CORRESPONDENCE::rotateCauchyStress", [Arr("Q", 9), Arr("S", 9), Arr("T", 9), Arr("flag"), N],
                                 sel=lambda d: "Sacado" not in d and d.count("*") == 4, base=FREE),
                          rotate(Full("Q"), Full("S"), Full("T"), point), name="rotated stress of attached points", frame=["T"]))
CONTRACTS.append(Contract(Kernel(TU, "rotateBondLevelCauchyStress", Q.arrs + S.arrs + S1.arrs + [NList(), N], sel=lambda d: "Sacado" not in d and d.count("double") == 28),
                          rotate(Q, S, S1, bond), name="rotated bond stress", frame=S1.names))
CONTRACTS.append(Contract(Kernel(TU, "rotateBondLevelCauchyStress", Q.arrs + S.arrs + S1.arrs + [Arr("flag"), NList(), N],
                                 sel=lambda d: "Sacado" not in d and d.count("double") == 29, base=FREE),
                          rotate(Q, S, S1, bond), name="rotated bond stress of attached points", frame=S1.names))
