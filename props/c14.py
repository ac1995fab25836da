"""elastic constants: conversions and what a material stores"""
from .common import *

K, G = "Bulk Modulus", "Shear Modulus"
E, NU = "Young's Modulus", "Poisson's Ratio"
GET = ("BulkModulus", "ShearModulus", "Density")


def identities(given, bulk=None):
    """K and G satisfy the isotropic relations with each given constant"""
    def moduli(O):
        k, g = O("ret:BulkModulus", 0), O("ret:ShearModulus", 0)
        gs = [eq("density is the given one", O("ret:Density", 0), par("Density"))]
        for c in given:
            if c == K:
                gs.append(eq("bulk modulus is the given one", k, par(K)))
            elif c == G:
                gs.append(eq("shear modulus is the given one", g, par(G)))
            elif c == E:
                gs.append(zero("Young's modulus: E (3K + G) = 9 K G", par(E) * (3 * k + g) - 9 * k * g, probe=k) if not bulk else bulk(k, g))
            else:
                gs.append(zero("Poisson's ratio: 2 nu (3K + G) = 3K - 2G", 2 * par(NU) * (3 * k + g) - 3 * k + 2 * g, probe=k) if not bulk else
                          zero("shear modulus: 2 G (1 + nu) = E", 2 * g * (1 + par(NU)) - par(E), probe=g))
        return gs
    return moduli


def plane_strain(k, g):
    n = par(NU)
    return zero("two-dimensional bulk modulus in plane strain", 2 * k * (1 + n) * (1 - 2 * n) - par(E), probe=k)


def plane_stress(k, g):
    return zero("two-dimensional bulk modulus in plane stress", 2 * k * (1 - par(NU)) - par(E), probe=k)


def pres(a, b, **v):
    d = {"present": {a: 1, b: 1}}
    if v:
        d["values"] = {k.replace("_", " "): x for k, x in v.items()}
    return d


# admissible values: nu below 1/2, E below 3G and 9K
GEN14 = {"p:" + NU: lambda r: r.uniform(-0.3, 0.45), "p:" + E: lambda r: r.uniform(0.1, 0.8), "p:" + G: lambda r: r.uniform(0.5, 2.0)}
PAIRS = [(K, G), (K, E), (K, NU), (G, E), (G, NU), (E, NU)]
CONTRACTS = []
for a, b in PAIRS:
    CONTRACTS.append(Contract(material("ElasticMaterial", [], pres(a, b), getters=GET, calls=(), gen=GEN14), identities([a, b]), name="%s and %s" % (a, b)))
CONTRACTS.append(Contract(material("ElasticMaterial", [], pres(E, NU, Plane_Strain=True), getters=GET, calls=(), gen=GEN14),
                          identities([E, NU], plane_strain), name="plane strain"))
CONTRACTS.append(Contract(material("ElasticMaterial", [], pres(E, NU, Plane_Stress=True), getters=GET, calls=(), gen=GEN14),
                          identities([E, NU], plane_stress), name="plane stress"))
OTHERS = {
    "ElasticPlasticMaterial": ["elastic_plastic"], "ElasticPlasticHardeningMaterial": ["elastic_plastic_hardening", "elastic_plastic"],
    "ViscoelasticMaterial": ["viscoelastic"], "MultiphysicsElasticMaterial": ["nonlocal_diffusion"], "LinearLPSPVMaterial": ["linear_lps_pv", "elastic_pv"],
    "Pals_Model": ["pals"],
}
for c, x in OTHERS.items():
    CONTRACTS.append(Contract(material(c, x, pres(E, NU), getters=GET, calls=(), gen=GEN14), identities([E, NU]), name=c))
for c, x, b in [("ElasticCorrespondenceMaterial", ["correspondence", "elastic_correspondence"], "CorrespondenceMaterial"),
                ("ElasticHypoelasticCorrespondenceMaterial", ["correspondence", "elastic_correspondence"], "HypoelasticCorrespondenceMaterial"),
                ("ElasticBondAssociatedCorrespondenceMaterial", ["correspondence", "elastic_correspondence"], "BondAssociatedCorrespondenceMaterial")]:
    CONTRACTS.append(Contract(material(c, x, pres(G, NU), getters=GET, calls=(), bases=[b], gen=GEN14), identities([G, NU]), name=c))


def cauchy_solid(c):
    """bond-based solid: one constant, Poisson's ratio one quarter"""
    def moduli(O):
        k, g = O("ret:BulkModulus", 0), O("ret:ShearModulus", 0)
        given = eq("bulk modulus is the given one", k, par(K)) if c == K else zero("Young's modulus: E (3K + G) = 9 K G", par(E) * (3 * k + g) - 9 * k * g, probe=k)
        return [given, eq("density is the given one", O("ret:Density", 0), par("Density")), zero("Poisson's ratio is 1/4: 5 G = 3 K", 5 * g - 3 * k, probe=g)]
    return moduli


for c in (K, E):
    CONTRACTS.append(Contract(material("ElasticBondBasedMaterial", ["elastic_bond_based"], {"present": {c: 1}}, getters=GET, calls=(), gen=GEN14), cauchy_solid(c), name="bond-based, " + c))
