"""scalar transport: heat, species, pore pressure, and the vector Poisson problem"""
from .common import *

H, CO = par("Horizon"), par("Coefficient")
PI = sym("pi")
FX = "Flux_Divergence@NP1"


def one_sided(f, kernel, pot):
    """flux divergence of a model that sums over the bonds of each point"""
    def flux(O):
        i = O.idx("i", NPT)
        return [eq("flux divergence is the bond sum", O(f, i), over_bonds(i, lambda j, b: kernel(i, j, b) * (rd(pot, j) - rd(pot, i)) * rd(VOL, j)))]
    return flux


def uniform(f):
    def uniform(O):
        return [zero("a uniform field transports nothing", O.tot(f, w_any))]
    return uniform


def heat(i, j, b):
    return CO * 6 / (PI * H ** 4 * length(X, i, j))


def species(i, j, b):
    return CO * (1 + P(float(0.0001)) * rd("Temperature@NP1", i)) / length(X, i, j)


def pairwise(f, q, added=False):
    def flux(O):
        tot = O.inc if added else O.tot
        def at(i):
            return over_bonds(i, lambda j, b: q(i, j, b) * (w_any(i) * rd(VOL, j) - w_any(j) * rd(VOL, i)))
        return [eq("flux is the pairwise law", tot(f, w_any), over_points(at)),
                zero("the total is conserved", tot(f, lambda i: rd(VOL, i)), probe=tot(f, w_any))]
    return flux


def fluid(thermal=False):
    def q(i, j, b):
        d = diff(Y, i, j)
        r2 = dot(d, d)
        k = par("Permeability") / 4 * r2
        k = k + (par("Max permeability") - k) / (1 + fn("exp", par("Permeability alpha") * (rd(BD, b) - par("Permeability curve inflection damage"))))
        mu = par("Fluid dynamic viscosity")
        if thermal:
            mu = mu * fn("exp", par("Fluid Reynolds viscosity temperature effect") * rd("Temperature_Change@NP1", i))
        return par("Fluid density") / mu * 4 / (PI * H ** 2) * k / r2 ** 2 * (rd(PR, j) - rd(PR, i))
    return q


def poisson(O):
    def at(i):
        def g(j, b):
            r = ZERO
            for c in range(3):
                u = [rd(Y, 3 * p + c) - rd(X, 3 * p + c) for p in (i, j)]
                r = r + (w_any(3 * i + c) * rd(VOL, j) - w_any(3 * j + c) * rd(VOL, i)) * (u[1] - u[0]) * 3 / (PI * H ** 4 * length(X, i, j))
            return r
        return over_bonds(i, g)
    return [eq("the residual is the nonlocal Laplacian", O.tot(FD, w_any), over_points(at))]


PR = "Fluid_Pressure_Y@NP1"
FLOW = "Flux_Density@NP1"
NS = (re.compile(r"BoundaryAndInitialConditionManager11getNodeSets"), lambda ex, name, a, i: None)
BCM = ('static double room[512]; obj.setBCManager(Teuchos::rcp((BoundaryAndInitialConditionManager*)room, false)); '
       'if(c == "computeFluxDivergence") obj.computeFluxDivergence(dt, N, &own[0], &lst[0], dm);')
CF = ("computeFluxDivergence",)
const = lambda r, n="uniform": {r: lambda idx: sym(n)}
HC = {"present": {"Coefficient": 1}}
diffusion = lambda **k: material("DiffusionMaterial", [], HC, calls=CF, handlers=[NS], callcode=BCM, **k)
conc = lambda **k: material("SpeciesConcentrationMaterial", [], HC, calls=CF, **k)
CONTRACTS = [
    Contract(diffusion(), one_sided(FX, heat, "Temperature@NP1"), name="heat", frame=[FX]),
    Contract(conc(), one_sided(FX, species, "Concentration@NP1"), name="species", frame=[FX]),
    Contract(diffusion(base=const("Temperature@NP1")), uniform(FX), name="heat, uniform temperature"),
    Contract(conc(base=const("Concentration@NP1")), uniform(FX), name="species, uniform concentration"),
    Contract(MATERIALS["multiphysics"](), pairwise(FLOW, fluid()), name="pore pressure", frame=[FD, "Dilatation@NP1", FLOW]),
    Contract(MATERIALS["multiphysics_thermal"](), pairwise(FLOW, fluid(True)), name="pore pressure with thermal viscosity"),
    Contract(MATERIALS["multiphysics"](base=const(PR)), uniform(FLOW), name="pore pressure, uniform"),
    Contract(material("VectorPoissonMaterial", [], {"present": {}}), poisson, balance(FD, "Volume"), name="vector Poisson", frame=[FD]),
]


def simple(i, j, b):
    d = diff("y", i, j)
    return sym("horizon") ** 2 / dot(d, d) ** 2 * (rd("p", j) - rd("p", i))


CONTRACTS.append(Contract(Kernel(M + "nonlocal_diffusion.cxx", "computeInternalFluidFlowDeadSimple",
                                 [Arr("x", 3, "node"), Arr("y", 3, "node"), Arr("p", 1, "node"), Arr("Volume", 1, "node", pos=True), Arr("Bond_Damage@NP1", 1, "bond"), Arr("q", 1, "node"), NList(), Int("N")]
                                 + [Real("c%d" % k) for k in range(7)] + [Real("horizon"), Real("c7"), Arr("T", 1, "node")]),
                          pairwise("q", simple, True), name="pressure-driven flow without damage", frame=["q"]))
