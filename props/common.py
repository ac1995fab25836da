from dv.contract import *
from dv.contract import Model_ as Model_
from dv.sym import var_id

M = "src/materials/"
MAT = [M + "Peridigm_Material.cpp"]
LINKMAT = [M + "correspondence.cxx", "src/core/Peridigm_SerialMatrix.cpp", "src/core/Peridigm_DegreesOfFreedomManager.cpp", M + "material_utilities.cxx", M + "elastic.cxx"]

GEN.update({
    "x": g_points, "Model_Coordinates": g_points,
    "y": g_deformed("x"), "Coordinates": g_deformed("Model_Coordinates"),
    "bd": g_frac, "Bond_Damage": g_frac,
    "V": g_uni(0.2, 1.5), "Volume": g_uni(0.2, 1.5), "m": g_uni(0.5, 2.0), "Weighted_Volume": g_uni(0.5, 2.0),
    "Horizon": g_uni(0.8, 2.0),
})


def split3_(idx, n=3):
    r = split3(idx, n)
    if r is None:
        raise Unsupported("index %s is not of the form %d*i+c" % (idx, n))
    return r


def wvec(V, c):
    """weight selecting component c times the volume"""
    def w(idx):
        o, cc = split3_(idx)
        return rd(V, o) if cc == c else ZERO
    return w


def wang(V, y, c):
    a, b = (c + 1) % 3, (c + 2) % 3

    def w(idx):
        o, cc = split3_(idx)
        if cc == b:
            return rd(V, o) * rd(y, 3 * o + a)
        if cc == a:
            return -rd(V, o) * rd(y, 3 * o + b)
        return ZERO
    return w


def balance(f, V, kind="tot"):
    """linear momentum: sum_i V_i f_i = 0"""
    def linear_momentum(O):
        out = []
        for c in range(3):
            t = getattr(O, kind)(f, wvec(V, c))
            pr = getattr(O, kind)(f, lambda idx: rd("probe", idx)) if O.symbolic and c == 0 else None
            out.append(zero("sum of volume-weighted forces, component %d" % c, t, probe=pr))
        return out
    return linear_momentum


def balance_ang(f, V, y, kind="tot"):
    def angular_momentum(O):
        out = []
        for c in range(3):
            t = getattr(O, kind)(f, wang(V, y, c))
            pr = getattr(O, kind)(f, lambda idx: rd("probe", idx)) if O.symbolic and c == 0 else None
            out.append(zero("sum of volume-weighted moments, component %d" % c, t, probe=pr))
        return out
    return angular_momentum


def w_any(idx):
    """arbitrary test weight"""
    return rd("wtest", idx)


# ---------------------------------------------------------------- material classes
KM = {"present": {"Bulk Modulus": 1, "Shear Modulus": 1}}


def cfg(*more, values=None):
    d = {"present": {"Bulk Modulus": 1, "Shear Modulus": 1}}
    for m in more:
        d["present"][m] = 1
    if values:
        d["values"] = values
    return d


def material(cls, cxx, conf=None, file=None, bases=(), **kw):
    tus = [M + "Peridigm_%s.cpp" % (file or cls)] + MAT + [M + "Peridigm_%s.cpp" % b for b in bases] + [M + x + ".cxx" for x in cxx]
    for x in ("elastic", "material_utilities"):
        if M + x + ".cxx" not in tus:
            tus.append(M + x + ".cxx")
    kw.setdefault("name", cls)
    return Model_(cls, tus, conf if conf is not None else cfg(), link=LINKMAT, bases=bases, header="Peridigm_%s.hpp" % (file or cls), **kw)


ROT = classes.abstracted(r"computeUnrotatedRateOfDeformationAndRotationTensor", [8, 9, 10])
ROTC = classes.abstracted(r"14CORRESPONDENCE18rotateCauchyStress", [2])
MATERIALS = {
    "elastic": lambda **k: material("ElasticMaterial", [], **k),
    "elastic_thermal": lambda **k: material("ElasticMaterial", [], cfg("Thermal Expansion Coefficient"), **k),
    "bond_based": lambda **k: material("ElasticBondBasedMaterial", ["elastic_bond_based"], {"present": {"Bulk Modulus": 1}}, **k),
    "bond_based_2d": lambda **k: material("ElasticBondBasedMaterial", ["elastic_bond_based"],
                                          {"present": {"Bulk Modulus": 1, "Height": 1}, "values": {"Plane Strain": True}}, **k),
    "plastic": lambda **k: material("ElasticPlasticMaterial", ["elastic_plastic"], **k),
    "plastic_planar": lambda **k: material("ElasticPlasticMaterial", ["elastic_plastic"], cfg("Thickness", values={"Planar Problem": True}), **k),
    "hardening": lambda **k: material("ElasticPlasticHardeningMaterial", ["elastic_plastic_hardening", "elastic_plastic"], **k),
    "viscoelastic": lambda **k: material("ViscoelasticMaterial", ["viscoelastic"], **k),
    "multiphysics": lambda **k: material("MultiphysicsElasticMaterial", ["nonlocal_diffusion"], **k),
    "multiphysics_thermal": lambda **k: material("MultiphysicsElasticMaterial", ["nonlocal_diffusion"], cfg("Thermal Expansion Coefficient"), **k),
    "linear_lps": lambda **k: material("LinearLPSPVMaterial", ["linear_lps_pv", "elastic_pv"], **k),
    "pals": lambda **k: material("Pals_Model", ["pals"], **k),
    "correspondence": lambda **k: material("ElasticCorrespondenceMaterial", ["correspondence", "elastic_correspondence"], bases=["CorrespondenceMaterial"],
                                           handlers=[ROT, ROTC], dense=True, **k),
    "hypoelastic": lambda **k: material("ElasticHypoelasticCorrespondenceMaterial", ["correspondence", "elastic_correspondence"],
                                        bases=["HypoelasticCorrespondenceMaterial"], dense=True, **k),
    "bond_associated": lambda **k: material("ElasticBondAssociatedCorrespondenceMaterial", ["correspondence", "elastic_correspondence"],
                                            bases=["BondAssociatedCorrespondenceMaterial"], dense=True, **k),
}


# ---------------------------------------------------------------- specification vocabulary
X, Y, VOL, BD = "Model_Coordinates", "Coordinates@NP1", "Volume", "Bond_Damage@NP1"
FD = "Force_Density@NP1"
NPT = sym("N", True)
T.NONNEG.add("N")


def par(name):
    return sym("p:" + name)


def diff(a, i, j):
    """vector from point i to point j of the nodal vector field a"""
    return [rd(a, 3 * P(j) + c) - rd(a, 3 * P(i) + c) for c in range(3)]


def dot(u, v):
    return u[0] * v[0] + u[1] * v[1] + u[2] * v[2]


def norm(v):
    return sqrt_(dot(v, v))


def length(a, i, j):
    return norm(diff(a, i, j))


def omega(z, h):
    return fn("omega", z, h)


def over_bonds(i, f, lst="L"):
    """sum over the neighbours of point i: f(j, bond index)"""
    n = var("s!n", True)
    return Sum(n, NN_(lst, i), f(nbr_(lst, i, n), B_(lst, i) + n))


def over_points(f, n=None):
    i = var("s!i", True)
    return Sum(i, n if n is not None else NPT, f(i))


def pair_force(t, w, lst="L", y=Y):
    """sum over all entries of w * (force density of the pairwise force t(i, j, bond) along the deformed bond)"""
    def at(i):
        def g(j, b):
            d = diff(y, i, j)
            L = norm(d)
            tt = t(i, j, b)
            r = ZERO
            for c in range(3):
                r = r + (w(3 * i + c) * rd(VOL, j) - w(3 * j + c) * rd(VOL, i)) * tt * d[c] / L
            return r
        return over_bonds(i, g, lst)
    return over_points(at)


def min_(a, b):
    c = ind("lt", P(b) - P(a))
    return c * b + (1 - c) * P(a)


def max_(a, b):
    return -min_(-P(a), -P(b))


def fold_parts(got):
    """(number of steps, start value, step function) of a recurrence, or None"""
    got = P(got)
    at = [T._byid[a] for a in got.atoms()]
    if len(at) != 1 or at[0].kind != "fold" or got != T.atom_poly(at[0]):
        return None
    h, m, v0, st = at[0].key[1:]
    bv = [T.mk_atom(("bv", h), True).id, T.mk_atom(("bv", h + 1), at[0].isint).id]
    return m, v0, lambda v, k: subst(st, {bv[0]: P(k), bv[1]: P(v)})


def fold_(n, init, step):
    k, v = var("rec!k", True), var("rec!v")
    s = P(step(v, k))
    h = s.bvh() + 1
    b = [T.atom_poly(T.mk_atom(("bv", h), True)), T.atom_poly(T.mk_atom(("bv", h + 1), False))]
    return T.atom_poly(T.mk_atom(("fold", h, P(n), P(init), subst(s, {var_id(k): b[0], var_id(v): b[1]})), False))


def recurrence(O, what, got, n, init, step, facts=()):
    """got = the value after v := step(v, k) for k = 0 .. n-1, starting from init"""
    p = fold_parts(got) if O.symbolic else None
    if p is None:
        return [eq(what, got, fold_(n, init, step))]
    k, v = O.idx("k", n), sym("value before")
    return [eq(what + ": start value", p[1], init), eq(what + ": number of steps", p[0], n),
            eq(what + ": step", p[2](v, k), step(v, k), facts=[f(v, k) for f in facts])]
