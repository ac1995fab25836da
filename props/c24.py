"""derived output quantities"""
from dv.blocks import Blocks_
from .common import *

C = "src/compute/Peridigm_Compute_"
KB = (1, 2)
pre = lambda k: "" if k == 1 else "B%d:" % k
rho = lambda k: sym("rho" + ("" if k == 1 else str(k)))
npt = lambda k: sym("N" + ("" if k == 1 else str(k)), True)
lst = lambda k: "L" + ("" if k == 1 else str(k))
V, VEL, POS = "Volume", "Velocity@NP1", "Coordinates@NP1"
OWN = {"own": lambda idx: idx, "own2": lambda idx: idx}
for n in ("N2", "Volume", "B2:Volume", "rho", "rho2"):
    T.NONNEG.add(n)


def unit(name, conf=None, files=(), calls=("compute",), bases=(), **k):
    return Blocks_("Compute_" + name, [C + f + ".cpp" for f in (name,) + tuple(files)], conf, calls=calls, header="Peridigm_Compute_%s.hpp" % name, name="Compute_" + name,
                   base=OWN, bases=["Compute_" + b for b in bases], link=["src/compute/Peridigm_Compute_%s.cpp" % f for f in ()], **k)


def each(what, field, value, n=npt, width=1):
    """field = value at every point of every block"""
    def at(k):
        def g(O):
            i = O.idx("i", n(k))
            return [eq("%s, block %d, component %d" % (what, k, c) if width > 1 else "%s, block %d" % (what, k), O(pre(k) + field, width * i + c), value(k, i, c))
                    for c in range(width)]
        return g
    return [at(k) for k in KB]


def total(what, field, value):
    return [lambda O: [eq(what, O(field, ZERO), value())]]


at = lambda k, f, i, c=0, w=1: rd(pre(k) + f, w * i + c)
sumk = lambda f: sum((over_points(lambda i, k=k: f(k, i), npt(k)) for k in KB), ZERO)
kin = lambda k, i: rho(k) * at(k, V, i) * sum((at(k, VEL, i, c, 3) ** 2 for c in range(3)), ZERO) / 2
lin = lambda k, i, c: rho(k) * at(k, V, i) * at(k, VEL, i, c, 3)
ang = lambda k, i, c: rho(k) * at(k, V, i) * (at(k, VEL, i, (c + 1) % 3, 3) * at(k, POS, i, (c + 2) % 3, 3) - at(k, VEL, i, (c + 2) % 3, 3) * at(k, POS, i, (c + 1) % 3, 3))
size = lambda f: sqrt_(sum((sumk(lambda k, i: f(k, i, c)) ** 2 for c in range(3)), ZERO))
mypts = lambda k: sym("M" + ("" if k == 1 else str(k)), True)



def energy(rng, c):
    """the harness material leaves the energy density as given"""
    for k in KB:
        c.arrays["energy:%d" % k] = c.arrays[pre(k) + "Stored_Elastic_Energy_Density"]


def block_data(kind, var, width):
    conf = {"values": {"Block": "block_2", "Variable": var.split("@")[0], "Output Label": "Out", "Calculation Type": kind}}
    step = {"Minimum": min_, "Maximum": max_, "Sum": lambda a, b: a + b}[kind]

    def g(O):
        """the smallest, largest or added values over the points of the named block"""
        out = []
        for c in range(width):
            got, val = O("Out", P(c)), lambda i: rd("B2:" + var, width * i + c)
            what = "%s of %s, component %d" % (kind.lower(), var, c)
            if kind == "Sum":
                out.append(eq(what, got, over_points(val, npt(2))))
                continue
            far = P(10) ** 40 * (1 if kind == "Minimum" else -1)
            p = fold_parts(got) if O.symbolic else None
            if p is None:
                out.append(eq(what, got, fold_(npt(2), far, lambda v, i: step(v, val(i)))))
                continue
            k, v = O.idx("k", npt(2)), sym("value before")
            s = 1 if kind == "Minimum" else -1
            out += [le(what + ": start value beyond every value", s * far, s * p[1]), eq(what + ": number of steps", p[0], npt(2)),
                    eq(what + ": step", p[2](v, k), step(v, val(k)))]
        return out
    return Contract(unit("Block_Data", conf, calls=("initialize", "compute"), needs={"Velocity": (1, 11, 2), "Volume": (2, 10, 1)}), g, name="Compute_Block_Data, %s of %s" % (kind.lower(), var))


CONTRACTS = [
    Contract(unit("Acceleration"), *each("force density over density", "Acceleration@NP1", lambda k, i, c: at(k, FD, i, c, 3) / rho(k), width=3)),
    Contract(unit("Force"), *each("force density times volume", "Force@NP1", lambda k, i, c: at(k, FD, i, c, 3) * at(k, V, i), width=3, n=mypts)),
    Contract(unit("Contact_Force"), *each("contact force density times volume", "Contact_Force@NP1", lambda k, i, c: at(k, "Contact_Force_Density@NP1", i, c, 3) * at(k, V, i), width=3, n=mypts)),
    Contract(unit("Local_Kinetic_Energy", files=["Kinetic_Energy"], bases=["Kinetic_Energy"]), *each("kinetic energy", "Kinetic_Energy", lambda k, i, c: kin(k, i))),
    Contract(unit("Global_Kinetic_Energy", files=["Kinetic_Energy"], bases=["Kinetic_Energy"]), *total("total kinetic energy", "Global_Kinetic_Energy", lambda: sumk(kin))),
    Contract(unit("Local_Linear_Momentum", files=["Linear_Momentum"], bases=["Linear_Momentum"]), *each("mass times velocity", "Linear_Momentum", lin, width=3)),
    Contract(unit("Global_Linear_Momentum", files=["Linear_Momentum"], bases=["Linear_Momentum"]), *total("size of the total momentum", "Global_Linear_Momentum", lambda: size(lin))),
    Contract(unit("Local_Angular_Momentum", files=["Angular_Momentum"], bases=["Angular_Momentum"]), *each("moment of momentum", "Angular_Momentum", ang, width=3)),
    Contract(unit("Global_Angular_Momentum", files=["Angular_Momentum"], bases=["Angular_Momentum"]), *total("size of the total moment of momentum", "Global_Angular_Momentum", lambda: size(ang))),
    Contract(unit("Number_Of_Neighbors", calls=("initialize",)), *each("number of neighbours", "Number_Of_Neighbors", lambda k, i, c: NN_(lst(k), i))),
    Contract(unit("Neighborhood_Volume", calls=("initialize",)),
             *each("volume of the neighbourhood", "Neighborhood_Volume", lambda k, i, c: at(k, V, i) + over_bonds(i, lambda j, b: at(k, V, j), lst(k)))),
    Contract(unit("Neighborhood_Volume", {"fields": ("Neighbor_Volume",)}, calls=("initialize",), needs={"Neighbor_Volume": (3, 10, 1)}), name="Compute_Neighborhood_Volume, partial volumes",
             *each("volume of the neighbourhood", "Neighborhood_Volume", lambda k, i, c: at(k, V, i) + over_bonds(i, lambda j, b: at(k, "Neighbor_Volume", b), lst(k)))),
    Contract(unit("Radius", calls=("initialize",)), *each("radius of the ball of the same volume", "Radius", lambda k, i, c: T.fn("pow", P(3) * at(k, V, i) / (4 * sym("pi")), P(1) / 3))),
    Contract(unit("Stored_Elastic_Energy", fix=energy), *each("energy density times volume", "Stored_Elastic_Energy", lambda k, i, c: rd("energy:%d" % k, i) * at(k, V, i))),
]
CONTRACTS += [block_data(k, v, w) for k in ("Minimum", "Maximum", "Sum") for v, w in ((VEL, 3), (V, 1))]
