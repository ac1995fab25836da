from .common import *

WV, TH = "Weighted_Volume", "Dilatation@NP1"
K, G, H, AL = par("Bulk Modulus"), par("Shear Modulus"), par("Horizon"), par("Thermal Expansion Coefficient")


def lps(O, thermal=None, scf=None, pressure=None):
    def t(i, j, b):
        z = length(X, i, j)
        e = length(Y, i, j) - z
        if thermal:
            e = e - AL * rd(thermal, i) * z
        w = omega(z, H)
        m = rd(WV, i)
        a = 15 * G / m
        if scf:
            a = a * rd(scf, i)
        d = 1 - rd(BD, b)
        vol = O(TH, i) * (3 * K / m - a / 3)
        if pressure:
            vol = vol - 3 * rd(pressure, i) / m
        return d * (w * vol * z + d * w * a * e)
    return t


def force_law(mk, **kw):
    def force_law(O):
        return [eq("force density is the constitutive law", O.tot(FD, w_any), pair_force(mk(O, **kw), w_any))]
    return force_law


def partial_stress(mk, **kw):
    def partial_stress(O):
        t = mk(O, **kw)

        def at(i):
            def g(j, b):
                d, z = diff(Y, i, j), diff(X, i, j)
                r = ZERO
                for a in range(3):
                    for c in range(3):
                        r = r + w_any(9 * i + 3 * a + c) * t(i, j, b) * d[a] / norm(d) * z[c] * rd(VOL, j)
                return r
            return over_bonds(i, g)
        return [eq("partial stress is the force-bond moment", O.tot("Partial_Stress@NP1", w_any), over_points(at))]
    return partial_stress


def bond_based(O, d2=False):
    pi = sym("pi")
    c = 12 * K / (pi * par("Height") * H ** 3) if d2 else 18 * K / (pi * H ** 4)

    def t(i, j, b):
        z = length(X, i, j)
        return (length(Y, i, j) - z) / z * c * (1 - rd(BD, b)) / 2
    return t




def linear_lps(O):
    def at(i):
        def g(j, b):
            z = diff(X, i, j)
            u = [a - c for a, c in zip(diff(Y, i, j), z)]
            w = rd("Influence_Function", b)
            m = rd(WV, i)
            s = w * rd(TH, i) * (9 * K - 15 * G) / (3 * m) + 15 * G * w / (m * dot(z, z)) * dot(z, u)
            r = ZERO
            for c in range(3):
                r = r + (w_any(3 * i + c) * rd(VOL, j) - w_any(3 * j + c) * rd(VOL, i)) * (1 - rd(BD, b)) * s * z[c]
            return r
        return over_bonds(i, g)
    return [eq("force density is the linearised law", O.tot(FD, w_any), over_points(at))]


def linear_dil(O):
    i = O.idx("i", NPT)

    def g(j, b):
        z = diff(X, i, j)
        u = [a - c for a, c in zip(diff(Y, i, j), z)]
        return rd("Influence_Function", b) * (1 - rd(BD, b)) * dot(z, u) * rd(VOL, j)
    return [eq("linearised dilatation", O(TH, i), 3 * over_bonds(i, g) / rd(WV, i))]


def linear_infl(O):
    b = O.idx("i", NPT)
    n = O.idx("n", NN_("L", b))
    return [eq("stored influence value", O("Influence_Function", B_("L", b) + n), omega(length(X, b, nbr_("L", b, n)), H))]


DT = "Temperature_Change@NP1"
SCF, PR = "Surface_Correction_Factor", "Fluid_Pressure_Y@NP1"
mat = MATERIALS
CONTRACTS = [
    Contract(mat["elastic"](), force_law(lps), name="linear peridynamic solid", frame=[FD, TH]),
    Contract(mat["elastic_thermal"](), force_law(lps, thermal=DT), name="thermoelastic solid", frame=[FD, TH]),
    Contract(mat["bond_based"](), force_law(bond_based), name="bond-based solid", frame=[FD]),
    Contract(mat["bond_based_2d"](), force_law(bond_based, d2=True), name="bond-based plate", frame=[FD]),
    Contract(mat["multiphysics"](), force_law(lps, scf=SCF, pressure=PR), name="multiphysics solid", frame=[FD, TH, "Flux_Density@NP1"]),
    Contract(mat["multiphysics_thermal"](), force_law(lps, scf=SCF, pressure=PR, thermal=DT), name="multiphysics thermoelastic solid", frame=[FD, TH, "Flux_Density@NP1"]),
    Contract(mat["linear_lps"](), linear_lps, name="linearised solid", frame=[FD]),
    Contract(mat["linear_lps"](calls=("precompute",)), linear_dil, name="linearised dilatation", frame=[TH]),
    Contract(mat["linear_lps"](calls=("initialize",)), linear_infl, name="linearised solid initialisation"),
]


def simple(i, j, b):
    z = length(X, i, j)
    m = rd(WV, i)
    a = 15 * sym("G") / m * rd("scf", i)
    d = 1 - rd(BD, b)
    w = omega(z, sym("horizon"))
    return d * (w * rd(TH, i) * (3 * sym("K") / m - a / 3) * z + d * w * a * (length(Y, i, j) - z - sym("alpha") * rd("T", i) * z))


def simple_law(O):
    return [eq("force is the constitutive law", O.inc("f", w_any), pair_force(simple, w_any))]


CONTRACTS.append(Contract(Kernel(M + "nonlocal_diffusion.cxx", "computeInternalForceLinearElasticCoupledDeadSimple",
                                 [Arr(X, 3, "node"), Arr(Y, 3, "node"), Arr("p", 1, "node"), Arr(WV, pos=True), Arr(VOL, 1, "node", pos=True), Arr(TH), Arr(BD, 1, "bond"), Arr("scf"), Arr("f", 3, "node"), NList(), Int("N")]
                                 + [Real("K"), Real("G"), Real("horizon"), Real("alpha"), Arr("T", 1, "node")], link=["/verif/drivers/omega.cpp"]), simple_law, name="coupled law without pore pressure", frame=["f"]))
