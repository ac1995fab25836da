from .common import *

WV = "Weighted_Volume"
K, G, TAU, LI = par("Bulk Modulus"), par("Shear Modulus"), par("tau b"), par("lambda_i")
EDB = "Deviatoric_Back_Extension"
dt = sym("dt")


def ed(O, i, j, b, step):
    """damaged deviatoric extension"""
    z = length(X, i, j)
    th = O("Dilatation@NP1", i) if step == "NP1" else rd("Dilatation@N", i)
    return (1 - rd(BD, b)) * (length("Coordinates@" + step, i, j) - z) - th * z / 3


def back(O, i, j, b):
    e0, e1 = ed(O, i, j, b, "N"), ed(O, i, j, b, "NP1")
    decay = fn_exp(-dt / TAU)
    return e0 * (1 - decay) + rd(EDB + "@N", b) * decay + (1 - TAU / dt * (1 - decay)) * (e1 - e0)


def fn_exp(x):
    return T.FN_REBUILD["exp"](x)


def back_extension(O):
    i = O.idx("i", NPT)
    n = O.idx("n", NN_("L", i))
    b = B_("L", i) + n
    return [eq("closed-form relaxation over the step", O(EDB + "@NP1", b), back(O, i, nbr_("L", i, n), b))]


def force(relax):
    def force(O):
        def t(i, j, b):
            a = 15 * G / rd(WV, i)
            e = ed(O, i, j, b, "NP1")
            d = a * e
            if relax:
                d = (1 - LI) * a * e + LI * a * (e - back(O, i, j, b))
            return (1 - rd(BD, b)) * (3 * K * O("Dilatation@NP1", i) / rd(WV, i) * length(X, i, j) + d)
        return [eq("long-term plus relaxing force" if relax else "elastic force without relaxing part", O.tot(FD, w_any), pair_force(t, w_any))]
    return force


FR = [FD, "Dilatation@NP1", EDB + "@NP1"]
mat = MATERIALS
u = mat["viscoelastic"]()
u0 = material("ViscoelasticMaterial", ["viscoelastic"], cfg("lambda_i", values={"lambda_i": 0.0}))
CONTRACTS = [
    Contract(u, back_extension, name="back extension"),
    Contract(u, force(True), name="viscoelastic force", frame=FR),
    Contract(u0, force(False), name="no relaxing part"),
]
