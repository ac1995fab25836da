"""stored state: copies, rebalance, scatter, advance"""
from dv.store import Advance_, Copy_, History_, STATES, States_, Tables_
from dv.steps import at
from dv.sym import Ptr
from .common import *


def kept(O):
    i = O.idx("i", sym("n", True))
    return [eq("value read back", O("got", i), rd("want", i))]


def matching(O):
    """every value of a point of the target is the value of the same point in the source"""
    v, p = O.idx("v", sym("nv", True)), O.idx("p", sym("n:T", True))
    i = O.idx("i", NN_("T", p))
    src = rd("lid:S", rd("gid:T", p, True), True)
    return [eq("value", O("T", T.COLUMN * v + B_("T", p) + i), rd("S", T.COLUMN * v + B_("S", src) + i), probe=ONE)]


def pairs(want):
    def g(O):
        got = sorted((a.region, b.region, str(a.off), str(b.off)) for a, b in O.ex.pairs)
        return [true("every part is copied, once, from its counterpart", got == sorted((a, b, "0", "0") for a, b in want))]
    return g


def tables(present, bonds):
    return pairs([("@table:S:%s" % k, "@table:T:%s" % k) for k in list(present) + (["bond"] if bonds else [])])


def states(present):
    return pairs([("@S:" + s, "@T:" + s) for s in present])


def advanced(O):
    """what was new is old: global values are copied, the states change places"""
    i = O.idx("i", sym("n:s", True))
    j = O.idx("j", sym("n:v", True))
    out = [eq("global scalar", O("s@N", i), rd("s@NP1", i), probe=ONE), eq("new global scalar", O("s@NP1", i), rd("s@NP1", i), probe=ONE)]
    out += [eq("component %d of a global vector" % c, O("v@N", 3 * j + c), rd("v@NP1", 3 * j + c), probe=ONE) for c in range(3)]
    out += [eq("component %d of a new global vector" % c, O("v@NP1", 3 * j + c), rd("v@NP1", 3 * j + c), probe=ONE) for c in range(3)]
    held = lambda s: O.ex.read("this", P(at("DataManager", s)))
    return out + [true("%s holds what %s held" % (a, b), held(a) == Ptr("@T:" + b, ZERO)) for a, b in (("stateN", "stateNP1"), ("stateNP1", "stateN"), ("stateNONE", "stateNONE"))]


ALL = tuple(range(1, 10))
CONTRACTS = [Contract(Copy_(), matching, name="values by point", skip_conc=True)]
CONTRACTS += [Contract(Tables_(p, b), tables(p, b), name="tables %s%s" % ("".join(map(str, p)), " and bonds" if b else ""), skip_conc=True)
              for p, b in ((ALL, True), (ALL, False), ((), True), ((1, 3), True), ((2, 6, 9), False))]
CONTRACTS += [Contract(States_(p), states(p), name="states " + " ".join(p), skip_conc=True) for p in (STATES, STATES[:1], STATES[1:])]
CONTRACTS += [Contract(Advance_(), advanced, name="advance", skip_conc=True)]
CONTRACTS += [
    Contract(History_(), kept, name="histories of two stores", cases=40, bounded="operations on containers of containers; 200 random histories of up to 5 operations on two stores over 1 to 5 points and 1 to 9 fields"),
]
