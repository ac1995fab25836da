"""damage models: unit builders and vocabulary shared by C15 and C16"""
from dv.sym import UNDEF
from .common import *

D = "src/damage/"
BDN, BD1, DM1 = "Bond_Damage@N", "Bond_Damage@NP1", "Damage@NP1"
LINKDMG = [M + "material_utilities.cxx"]
OWN = {"own": lambda idx: idx}          # locally owned points come first and in order
H = rd("Horizon", ZERO)


def damage(cls, conf, calls=("computeDamage",), base=None, tus=(), extra=(), **kw):
    kw.setdefault("name", cls)
    kw.setdefault("setup", lambda ex: setattr(ex, "deep_loops", True))
    return Model_(cls, [D + "Peridigm_%s.cpp" % cls] + list(tus), conf, calls=calls, base=dict(OWN, **(base or {})), link=LINKDMG + list(extra), **kw)


def bond(O):
    """an arbitrary bond: point, neighbour, bond index"""
    i = O.idx("i", NPT)
    n = O.idx("n", NN_("L", i))
    return i, nbr_("L", i, n), B_("L", i) + n


def in01(*regions):
    """the named fields lie in [0, 1] at bond b"""
    return lambda b: [p for r in regions for p in (("le", ZERO - rd(r, b)), ("le", rd(r, b) - 1))]


CS = {"present": {"Critical Stretch": 1}}
CST = {"present": {"Critical Stretch": 1, "Thermal Expansion Coefficient": 1}}
critical = lambda conf=CS, **k: damage("CriticalStretchDamageModel", conf, **k)

# critical stretch given as a function of time, evaluated for the step before the damage update
BODY = "value = 0.01*t + 0.02"
US = {"values": {"Time Dependent Critical Stretch": BODY}}
UST = {"present": {"Thermal Expansion Coefficient": 1}, "values": {"Time Dependent Critical Stretch": BODY}}
EVAL = ("evaluateParserDmg", "&cur &prev &t1 &t0")
TIMED = ('if(c == "evaluateParserDmg"){ double a = 0, b = 0; obj.evaluateParserDmg(a, b, 0.7, 0.6); } if(c == "computeDamage") obj.computeDamage(dt, N, &own[0], &lst[0], dm);'
         'if(c == "initialize") obj.initialize(dt, N, &own[0], &lst[0], dm);')


def at_time(rng, c):
    c.scalars["t1"] = 0.7
    c.funcs["rtc:value:" + BODY] = lambda t, v: 0.01 * t + 0.02


timed = lambda conf=US, calls=(EVAL, "computeDamage"), **k: damage("UserDefinedTimeDependentCriticalStretchDamageModel", conf, calls=calls, callcode=TIMED, fix=at_time, **k)


# set of nodes already removed from the system: arbitrary at every point, whatever was added before
def d_size(ex, name, a, i):
    return fn("removed:size", *[k for k, _ in ex.binders], isint=True)


def d_at(ex, name, a, i):
    r = "@removed:" + ",".join(str(k) for k, _ in ex.binders)
    if r not in ex.regions:
        ex.array(r, esz=4, isint=True)
        ex.regions[r].base = lambda idx, ty, b=[k for k, _ in ex.binders]: fn("removed:node", *b, isint=True)
    return Ptr(r, ZERO)


def known(name):
    def h(ex, n, a, i):
        if name not in ex.regions:
            ex.obj(name)
        return Ptr(name, ZERO)
    return h


MP = r"^_ZNSt3mapINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESt6vectorIiSaIiEE.*"
SETS = [(re.compile(MP + "4findERS"), known("@removed")),
        (re.compile(MP + "3endEv"), known("@end")),
        (re.compile(r"^_ZNKSt6vectorIiSaIiEE4sizeEv"), d_size),
        (re.compile(r"^_ZNSt6vectorIiSaIiEEixEm"), d_at),
        (re.compile(r"^_ZNSt6vectorIiSaIiEE9push_backERKi"), lambda ex, n, a, i: UNDEF if a[0].region != "this" else classes.h_push(ex, n, a, i)),
        ]
SETBC = ("setBCManager", "%bcm")
IFACE = ('struct BM : BoundaryAndInitialConditionManager { static Teuchos::RCP<std::map<std::string,std::vector<int> > >& ns(BoundaryAndInitialConditionManager* b){ return static_cast<BM*>(b)->nodeSets; } };'
         'static double room[512]; BoundaryAndInitialConditionManager* bm = (BoundaryAndInitialConditionManager*)room;'
         'if(c == "setBCManager"){ BM::ns(bm) = Teuchos::rcp(new std::map<std::string,std::vector<int> >()); (*BM::ns(bm))["RANK_DEFICIENT_NODES"] = std::vector<int>(); obj.setBCManager(Teuchos::rcp(bm, false)); }'
         'if(c == "computeDamage") obj.computeDamage(dt, N, &own[0], &lst[0], dm); if(c == "initialize") obj.initialize(dt, N, &own[0], &lst[0], dm);')
interface = lambda conf=CS, calls=(SETBC, "computeDamage"), **k: damage("InterfaceAwareDamageModel", conf, calls=calls, callcode=IFACE, handlers=SETS, tus=["/verif/drivers/emit_interface.cpp"], **k)

DPN, DP1 = "Bond_Damage_Parameter@N", "Bond_Damage_Parameter@NP1"
EP, ST = "Bond_Equivalent_Plastic_Strain", "Bond_Stress_Triaxiality"
FLY, BBV = "Flying_Point_Flag@NP1", "Broken_Bond_Volume_Averaged@NP1"
JCF, VMF = [BD1, DM1, DP1, FLY, BBV], [BD1, FLY, BBV]
JC = {"present": {"Damage Parameter 1": 1, "Damage Parameter 2": 1, "Damage Parameter 3": 1, "Critical Damage": 1, "Threshold Damage": 1, "Critical Damage To Neglect Material Point": 1}}


def jcparams(rng, c, out):
    out["Critical Damage"] = c.scalars["p:Critical Damage"] = rng.uniform(0.6, 0.95)
    out["Threshold Damage"] = c.scalars["p:Threshold Damage"] = rng.uniform(0.1, 0.5)


johnson = lambda conf=JC, **k: damage("JohnsonCookDamageModel", conf, mkparams=jcparams, tus=[M + "material_utilities.cxx"], gen={DPN: g_frac}, **k)
THR = par("Threshold Damage")


def cook(v):
    """bond damage of a damage parameter"""
    return ind("lt", THR - v) * (v - THR) / (1 - THR)


VM = {"present": {"Critical Von Mises Stress": 1, "Critical Damage": 1, "Threshold Damage": 1, "Critical Damage To Neglect Material Point": 1}}
VMD = {"present": {"Critical Von Mises Stress": 1}}
mises = lambda conf=VM, **k: damage("VonMisesStressDamageModel", conf, mkparams=jcparams if conf is VM else None, tus=[M + "material_utilities.cxx"], **k)


# a rectangular cut through the body
def cut(rng, c, out):
    import numpy as np
    x = np.array(c.arrays.get("Model_Coordinates") or [0.0] * 6).reshape(-1, 3)
    n = np.array([rng.uniform(-1, 1) for _ in range(3)])
    n /= np.linalg.norm(n)
    u = np.cross(n, [rng.uniform(-1, 1) for _ in range(3)])
    u /= np.linalg.norm(u)
    r0 = x.mean(axis=0) - rng.uniform(0.2, 1.5) * u - rng.uniform(0.2, 1.5) * np.cross(u, n)
    w = {"Bottom_Length": rng.uniform(0.5, 3), "Side_Length": rng.uniform(0.5, 3)}
    for k, d in enumerate("XYZ"):
        w.update({"Normal_" + d: n[k], "Lower_Left_Corner_" + d: r0[k], "Bottom_Unit_Vector_" + d: u[k]})
    for k, v in w.items():
        out["Bond Filters->cut->" + k] = c.scalars["p:cut->" + k] = float(v)
    out["Bond Filters->cut->Type"] = "Rectangular_Plane"


GEN2 = ["src/io/pdneigh/BondFilter.cxx"]
initial = lambda **k: damage("InitialDamageModel", {}, mkparams=cut, **dict({"extra": GEN2}, **k))
