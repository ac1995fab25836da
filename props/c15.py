"""damage is irreversible and stays in range"""
from .damage import *


def monotone(before=lambda b: rd(BDN, b), rng=(BDN,)):
    """bond damage never decreases, and stays within [0, 1] if it started there"""
    def monotone(O):
        i, j, b = bond(O)
        unit = [f for r in rng for f in (ind("le", ZERO - rd(r, b)), ind("le", rd(r, b) - 1))]
        v = O(BD1, b)
        return [le("bond damage does not decrease", before(b), v, facts=unit),
                le("bond damage is at most one", v, ONE, facts=unit)]
    return monotone


def zeroed(*regions):
    def zeroed(O):
        i, j, b = bond(O)
        return [zero("initialised to zero: %s" % r, O(r, b if r.startswith("Bond") else i), probe=ONE) for r in regions]
    return zeroed


def accumulates(O):
    """the damage parameter grows, up to one"""
    i, j, b = bond(O)
    unit = [ind("le", ZERO - rd(DPN, b)), ind("le", rd(DPN, b) - 1)]
    v = O(DP1, b)
    return [le("damage parameter does not decrease", rd(DPN, b), v, facts=unit), le("damage parameter is at most one", v, ONE, facts=unit),
            eq("bond damage is a function of the damage parameter", O(BD1, b), cook(v))]


def nothing(O):
    i, j, b = bond(O)
    return [eq("bond damage is kept", O(BD1, b), rd(BD1, b))]


INIT = ("initialize",)
CONTRACTS = [
    Contract(critical(), monotone(), name="critical stretch", frame=[BD1, DM1]),
    Contract(critical(CST), monotone(), name="critical stretch, thermal", frame=[BD1, DM1]),
    Contract(critical(calls=INIT), zeroed(BD1, DM1), name="critical stretch, initial", frame=[BD1, DM1]),
    Contract(timed(), monotone(), name="time dependent critical stretch", frame=[BD1, DM1]),
    Contract(timed(UST), monotone(), name="time dependent critical stretch, thermal", frame=[BD1, DM1]),
    Contract(timed(calls=INIT), zeroed(BD1, DM1), name="time dependent critical stretch, initial", frame=[BD1, DM1]),
    # the new state still holds the damage of the step before the last
    Contract(interface(), monotone(rng=(BDN, BD1)), name="interface aware", frame=[BD1, DM1]),
    Contract(interface(CST), monotone(rng=(BDN, BD1)), name="interface aware, thermal", frame=[BD1, DM1]),
    Contract(interface(calls=INIT), zeroed(BD1, DM1), name="interface aware, initial", frame=[BD1, DM1, "Critical_Stretch"]),
    Contract(initial(), nothing, name="initial damage keeps the damage", frame=[]),
    Contract(johnson(), accumulates, name="Johnson-Cook", frame=JCF),
    Contract(johnson(base={BDN: lambda b: cook(rd(DPN, b))}), monotone(lambda b: cook(rd(DPN, b)), [DPN]), name="Johnson-Cook, bond damage"),
    Contract(johnson(calls=INIT), zeroed(DPN, DP1, DM1), name="Johnson-Cook, initial"),
    Contract(mises(), monotone(), name="von Mises", frame=VMF),
    Contract(mises(VMD), monotone(), name="von Mises, default thresholds", frame=VMF),
]
