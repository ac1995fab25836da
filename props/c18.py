"""stable time step"""
from dv.blocks import Blocks_
from . import c19
from .common import *

NODES = {"Volume": (2, 10, 1), "Model_Coordinates": (1, 11, 1)}
CODE = 'printf("OUT|1|ret|1|%.17g\\n", ComputeCriticalTimeStep(*comm, (*blocks)[0]));'
FAR = P(10) ** 40
TEXT = "value = 1.0 + 0.2*x + 0.1*y - 0.05*z"
for n in ("rho", "K", "h", VOL):
    T.NONNEG.add(n)


def variable(rng, c):
    c.horizon_text = TEXT
    c.funcs["horizon"] = lambda x, y, z: 1.0 + 0.2 * x + 0.1 * y - 0.05 * z


def step(const, **k):
    return Blocks_(None, ["src/core/Peridigm_CriticalTimeStep.cpp"], {"constant horizon": const}, nblocks=1, entry="ComputeCriticalTimeStep", needs=NODES, code=CODE,
                   header="Peridigm_CriticalTimeStep.hpp", base={"own": lambda idx: idx}, name="ComputeCriticalTimeStep", fix=None if const else variable, **k)


def minimum(horizon):
    def minimum(O):
        """the smallest of sqrt(2 rho / sum of V_j c / |xi|) over the points that have bonds, c = 18 K / (pi h^4)"""
        def bound(i):
            c = 18 * sym("K") / (sym("pi") * horizon(i) ** 4)
            return sqrt_(2 * sym("rho") / over_bonds(i, lambda j, b: rd(VOL, j) * c / length(X, i, j)))

        def step(v, i):
            alone = ind("lt", NN_("L", i) - 1)
            return alone * v + (1 - alone) * min_(v, bound(i))
        p = fold_parts(O.ret()) if O.symbolic else None
        if p is None:
            return [eq("smallest bound", min_(O.ret(), FAR), fold_(NPT, FAR, step))]
        k, v = O.idx("k", NPT), sym("value before")
        return [le("start value exceeds every bound", FAR, p[1]), eq("number of steps", p[0], NPT),
                eq("step", p[2](v, k), step(v, k), facts=[ind("le", v - p[1])])]
    return minimum


CONTRACTS = [
    Contract(step(True), minimum(lambda i: sym("h")), name="constant horizon", frame=[]),
    Contract(step(False), minimum(lambda i: fn("horizon", *(rd(X, 3 * P(i) + c) for c in range(3)))), name="variable horizon", frame=[]),
]

# the integrator takes the smallest over the blocks
CONTRACTS.append(c19.TIME_STEP)
