"""neighbour lists"""
from dv.search import Search_, Tree_

from .common import *

LEVEL = "other"
SLACK = P(1) / 10**9


def within(O):
    """every other point whose distance is at most the radius, once; distances within rounding of the radius are left out"""
    k = O.idx("pair", sym("pairs", True))
    i, j = rd("of", k, True), rd("other", k, True)
    d2 = sum(((rd("x", 3 * i + c) - rd("x", 3 * j + c))**2 for c in range(3)), ZERO)
    r2 = (rd("radius", i) + sym("more"))**2
    other = ONE - ind("eq", i - j)
    clear = ind("lt", SLACK - T.abs_(d2 - r2))
    listed = O("times listed", k)
    return [eq("listed exactly when within the radius", listed, other * ind("le", d2 - r2), facts=[clear]),
            eq("never its own neighbour", listed, 0, facts=[ind("eq", i - j)])]


CONTRACTS = [Contract(Search_(p, same), within, name="search with %d process%s, %s" % (p, "es" if p > 1 else "", "one radius" if same else "a radius per point"), cases=cases,
                      bounded="the search runs through an external spatial decomposition and sorted containers; random sets of up to 300 points")
             for p, cases in ((1, 25), (2, 10), (3, 10)) for same in (True, False)]


def query(O):
    """the box holds the sphere; of the candidates exactly those in the sphere are listed"""
    R, at = sym("R"), lambda p: rd("index", rd("parts", p, True), True)
    d = lambda p, c: rd("x", 3 * at(p) + c) - rd("point", c)
    inside = lambda p: ind("le", sum((d(p, c)**2 for c in range(3)), ZERO) - R**2)
    k = var("cand!k", True)
    out = [eq("listed are the candidates in the sphere", O.inc("listed", w_any), Sum(k, NPT, inside(k) * w_any(at(k))))]
    for c, a in enumerate("xyz"):
        out += [eq("box from, " + a, O("box", c), rd("point", c) - R), eq("box to, " + a, O("box", c + 3), rd("point", c) + R)]
    return out


def sphere(O):
    """no point of the sphere is outside the box"""
    i = O.idx("i", NPT)
    d = [rd("x", 3 * i + c) - rd("point", c) for c in range(3)]
    inside = [ind("le", dot(d, d) - sym("R")**2)]
    return [g for c, a in enumerate("xyz") for g in (le("not below the box, " + a, O("box", c), rd("x", 3 * i + c), facts=inside), le("not above the box, " + a, rd("x", 3 * i + c), O("box", c + 3), facts=inside))]


def coordinates(O):
    i = O.idx("i", NPT)
    return [eq("coordinate %s of the point" % a, O("told", 3 * i + c), rd("x", 3 * i + c)) for c, a in enumerate("xyz")]


def ids(O):
    i = O.idx("i", NPT)
    return [eq("identifier of the point", O("told", i), i, probe=ONE)]


some = lambda rng, c, n: [rng.randrange(c.N) for _ in range(n)]
zeros = lambda rng, c, n: [0] * n
CONTRACTS += [
    Contract(Tree_("queryRadius", [Arr("x", 3), Arr("index", 1, isint=True, gen=some), Arr("parts", 1, isint=True, gen=some), Int("N"), Arr("point", 3, on="fix"), Real("R", pos=True),
                                   Arr("box", 6, on="fix"), Arr("listed", 1, isint=True, gen=zeros)]), query, sphere, name="radius query", frame=["box", "listed"], cases=12),
    Contract(Tree_("tellCoordinates", [Arr("x", 3), Int("N"), Arr("told", 3)]), coordinates, name="coordinates given to the decomposition", frame=["told"]),
    Contract(Tree_("tellIds", [Arr("x", 3), Int("N"), Arr("told", 1, isint=True, gen=zeros)]), ids, name="identifiers given to the decomposition", frame=["told"]),
]
