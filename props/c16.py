"""bonds break exactly when the criterion is met; point damage is the fraction of bond damage"""
from .damage import *

DT = "Temperature_Change@NP1"
SC, AL = par("Critical Stretch"), par("Thermal Expansion Coefficient")


def stretch(i, j, thermal):
    s = length(Y, i, j) / length(X, i, j) - 1
    return s - AL * rd(DT, i) if thermal else s


def breaks(limit, thermal=False):
    """bond damage after the step: broken if the stretch exceeds the limit, otherwise as before; point damage is the mean"""
    def breaks(O):
        i, j, b = bond(O)
        unit = [ind("le", ZERO - rd(BDN, b)), ind("le", rd(BDN, b) - 1)]
        crit = ind("lt", limit(i, j) - stretch(i, j, thermal))
        return [eq("bond breaks exactly beyond the critical stretch", O(BD1, b), ite(crit, ONE, rd(BDN, b)), facts=unit)]
    return breaks


def mean(O):
    i = O.idx("i", NPT)
    nn = NN_("L", i)
    return [eq("damage is the mean of the bond damage", O(DM1, i), ite(ind("lt", -nn), over_bonds(i, lambda j, b: O(BD1, b)) / nn, ZERO))]


def mx(a, b):
    return ite(ind("lt", a - b), b, a)


def by_interface(thermal=False):
    """threshold of a bond: the smaller of the two materials; neighbours with threshold zero never break"""
    def after(i, j, b):
        p = mx(rd(BDN, b), rd(BD1, b))
        sj = rd("Critical_Stretch", j)
        lim = ite(ind("lt", sj - SC), sj, SC)
        return ite(ind("eq", p) * (ONE - ind("eq", sj)) * ind("lt", lim - stretch(i, j, thermal)), ONE, p)

    def interface(O):
        i, j, b = bond(O)
        v = after(i, j, b)
        many = ind("lt", over_bonds(i, lambda j, b: after(i, j, b)) - (NN_("L", i) - 2))
        return [eq("bond breaks exactly beyond the smaller critical stretch", O(BD1, b), v, facts=[many]),
                zero("the bonds of a removed point break", (O(BD1, b) - v) * (O(BD1, b) - 1), probe=v)]
    return interface


def stored(O):
    i = O.idx("i", NPT)
    return [eq("every point carries the critical stretch of its material", O("Critical_Stretch", i), SC)]


RATIO = rd("Undamaged_Weighted_Volume", ZERO)


def averaged(q):
    """volume average over the bonds of point i in the current configuration"""
    def f(i, j, b):
        return q(b) * omega(length(Y, i, j), rd("Horizon", i)) * rd("Jacobian_Determinant@N", j) * rd(VOL, j) / rd("Undamaged_Weighted_Volume", i)
    return lambda i: over_bonds(i, lambda j, b: f(i, j, b))


NEGLECT = par("Critical Damage To Neglect Material Point")


def averages(O, *what):
    i = O.idx("i", NPT)
    out = [eq("volume average: %s" % r, O(r, i), averaged(lambda b: O(q, b))(i)) for r, q in what]
    return out + [eq("neglected beyond the critical average", O(FLY, i), ite(ind("lt", NEGLECT - O(BBV, i)), ONE, ZERO - 1))]


def johnson_cook(O):
    i, j, b = bond(O)
    d1, d2, d3 = (par("Damage Parameter %d" % k) for k in (1, 2, 3))
    inc = (rd(EP + "@N", b) - rd(EP + "@NP1", b)) / (d1 + d2 * fn("exp", -d3 * rd(ST, b)))
    v = rd(DPN, b) + ind("lt", -inc) * inc
    v = ite(ind("le", 1 - v), ONE, v)
    return [eq("damage parameter accumulates the plastic strain over the fracture strain", O(DP1, b), v), eq("bond damage follows the damage parameter", O(BD1, b), cook(O(DP1, b)))]


def ramp(lo, hi, crit):
    def ramp(O):
        i, j, b = bond(O)
        r = rd("Bond_Von_Mises_Stress", b) / crit
        d = ite(ind("le", hi - r), ONE, ite(ind("le", r - lo), ZERO, (r - lo) / (hi - lo)))
        return [eq("bond damage is the largest ramp value so far", O(BD1, b), mx(rd(BDN, b), d))]
    return ramp


USER = fn("rtc:value:" + BODY, sym("t1"), ZERO)
CR = par("Critical Von Mises Stress")
CONTRACTS = [
    Contract(critical(), breaks(lambda i, j: SC), mean, name="critical stretch", frame=[BD1, DM1]),
    Contract(critical(CST), breaks(lambda i, j: SC, True), mean, name="critical stretch, thermal", frame=[BD1, DM1]),
    Contract(timed(), breaks(lambda i, j: USER), mean, name="time dependent critical stretch", frame=[BD1, DM1]),
    Contract(timed(UST), breaks(lambda i, j: USER, True), mean, name="time dependent critical stretch, thermal", frame=[BD1, DM1]),
    Contract(timed({"values": {"Time Dependent Critical Stretch": BODY[8:]}}), breaks(lambda i, j: USER), name="time dependent critical stretch, bare expression"),
    Contract(interface(), by_interface(), mean, name="interface aware", frame=[BD1, DM1]),
    Contract(interface(CST), by_interface(True), mean, name="interface aware, thermal", frame=[BD1, DM1]),
    Contract(interface(calls=("initialize",)), stored, name="interface aware, initial"),
    Contract(johnson(), johnson_cook, lambda O: averages(O, (DM1, DP1), (BBV, BD1)), name="Johnson-Cook", frame=JCF),
    Contract(mises(), ramp(THR, par("Critical Damage"), CR), lambda O: averages(O, (BBV, BD1)), name="von Mises", frame=VMF),
]
