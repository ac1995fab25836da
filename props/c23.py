"""bond filters"""
from .common import *

TU, BF = "/verif/drivers/filters.cpp", "src/io/pdneigh/BondFilter.cxx"
ids = lambda rng, c, n: [rng.randrange(c.M) for _ in range(n)]
REST = [Arr("tree", 1, isint=True, gen=ids), Int("N"), Arr("pt", 3, on="fix"), Int("id", gen=lambda rng: rng.randrange(2)), Arr("x", 3, on="node"),
        Arr("flags", 1, isint=True, esz=1, gen=lambda rng, c, n: [rng.randrange(2) for _ in range(n)])]
EPS = P(1) / 10**9
vec = lambda a: [rd(a, c) for c in range(3)]
sub = lambda u, v: [p - q for p, q in zip(u, v)]
cross = lambda u, v: [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
V3 = lambda *ns: [Arr(n, 3, on="fix") for n in ns]


def unit(f, *params, **k):
    return Kernel(TU, f, list(params) + REST, extra_tus=[BF], name=f, **k)


class Bond:
    """candidate neighbour at position i of the list, against a plane through q with normal n"""

    def __init__(self, O, q=None, n=None):
        self.i = O.idx("i", NPT)
        self.flag, self.old = O("flags", self.i), rd("flags", self.i, True)
        j = rd("tree", self.i, True)
        self.itself = ind("eq", j - sym("id", True))
        self.other = 1 - self.itself
        if n is not None:
            p0, p1 = vec("pt"), [rd("x", 3 * j + c) for c in range(3)]
            d = sub(p1, p0)
            self.D = dot(d, n)
            self.t = dot(sub(q, p0), n) / self.D
            self.at = [p0[c] + self.t * d[c] for c in range(3)]
            self.crosses = [1 - ind("lt", T.abs_(self.D) - EPS), ind("le", -self.t), ind("le", self.t - 1), self.other]


def default(keep):
    def default(O):
        b = Bond(O)
        return [eq("only the point itself is removed" if not keep else "nothing is removed", b.flag, b.old if keep else b.itself + b.other * b.old)]
    return default


def surface(plane, inside, outside):
    """removed when the bond meets the surface, kept when it clearly does not; the point itself is always removed"""
    def surface(O):
        q, n = plane()
        b = Bond(O, q, n)
        miss = [b.other, 1 - ind("lt", T.abs_(b.D) - EPS)]
        out = [eq("bond through the surface is removed", b.flag, 1, facts=b.crosses + inside(b)),
               eq("the point itself is removed", b.flag, 1, facts=[b.itself]),
               eq("bond that ends before the plane is kept", b.flag, b.old, facts=miss + [ind("lt", 1 - b.t)]),
               eq("bond that starts beyond the plane is kept", b.flag, b.old, facts=miss + [ind("lt", b.t)])]
        for what, f in outside(b):
            out.append(eq("bond that passes outside is kept: " + what, b.flag, b.old, facts=b.crosses + f))
        return out
    return surface


def rectangle():
    n, ub, r0 = vec("n"), vec("ub"), vec("r0")
    edge = lambda b: (dot(sub(b.at, r0), cross(ub, n)) , dot(sub(b.at, r0), ub))
    A, B = sym("a"), sym("b")

    def inside(b):
        u, v = edge(b)
        return [ind("lt", -u), ind("lt", u / A - 1), ind("lt", -v), ind("lt", v / B - 1)]

    def outside(b):
        u, v = edge(b)
        return [("below", [ind("le", u)]), ("above", [ind("le", 1 - u / A)]), ("left", [ind("le", v)]), ("right", [ind("le", 1 - v / B)])]
    return surface(lambda: (r0, n), inside, outside)


def disk():
    c, n, r = vec("c"), vec("n"), sym("r")

    def off(b):
        d = sub(b.at, c)
        return dot(d, d) - r ** 2
    return surface(lambda: (c, n), lambda b: [ind("lt", off(b))], lambda b: [("beyond the radius", [ind("le", -off(b))])])


def corner(b, v1, v2, v3):
    """the point lies inside the triangle: barycentric coordinates positive"""
    a, e, c = sub(v3, v1), sub(v2, v1), sub(b.at, v1)
    aa, ae, ac, ee, ec = dot(a, a), dot(a, e), dot(a, c), dot(e, e), dot(e, c)
    al, be = (ee * ac - ae * ec) / (aa * ee - ae * ae), (aa * ec - ae * ac) / (aa * ee - ae * ae)
    return [ind("lt", -al), ind("lt", -be), ind("lt", al + be - 1)]


def triangle():
    v1, v2, v3 = vec("v1"), vec("v2"), vec("v3")
    return surface(lambda: (v1, cross(sub(v2, v1), sub(v3, v1))), lambda b: corner(b, v1, v2, v3),
                   lambda b: [("side %d" % k, [1 - f]) for k, f in enumerate(corner(b, v1, v2, v3))])


def quad():
    v1, v2, v3, v4 = vec("v1"), vec("v2"), vec("v3"), vec("v4")

    def surf(O):
        # in the plane of the first, second and last corner: the triangles on both sides of the diagonal
        b = Bond(O, v1, cross(sub(v2, v1), sub(v4, v1)))
        A, B = corner(b, v1, v2, v3), corner(b, v1, v4, v3)
        miss = [b.other]
        out = [eq("bond through the first triangle is removed", b.flag, 1, facts=b.crosses + A),
               eq("bond through the second triangle is removed", b.flag, 1, facts=b.crosses + B),
               eq("the point itself is removed", b.flag, 1, facts=[b.itself]),
               eq("bond that ends before the plane is kept", b.flag, b.old, facts=miss + [ind("lt", 1 - b.t)]),
               eq("bond that starts beyond the plane is kept", b.flag, b.old, facts=miss + [ind("lt", b.t)])]
        for j, f in enumerate(A):
            for k, g in enumerate(B):
                out.append(eq("bond that passes outside is kept: sides %d and %d" % (j, k), b.flag, b.old, facts=b.crosses + [1 - f, 1 - g]))
        return out
    return surf


CONTRACTS = [
    Contract(unit("cutDefault"), default(False), name="default filter", frame=["flags"]),
    Contract(unit("keepDefault"), default(True), name="default filter keeping the point", frame=["flags"]),
    Contract(unit("cutPlane", *V3("n", "r0", "ub"), Real("b", pos=True), Real("a", pos=True)), rectangle(), name="rectangle", frame=["flags"], tiny=1e-12, quotients=True, limits=(6000,), cases=24),
    Contract(unit("cutDisk", *V3("c", "n"), Real("r")), disk(), name="disk", frame=["flags"], tiny=1e-12, quotients=True, limits=(6000,), cases=24),
    Contract(unit("cutTriangle", *V3("v1", "v2", "v3")), triangle(), name="triangle", frame=["flags"], tiny=1e-12, quotients=True, limits=(6000,), cases=24),
    Contract(unit("cutQuad", *V3("v1", "v2", "v3", "v4")), quad(), name="quadrilateral", frame=["flags"], tiny=1e-12, quotients=True, limits=(6000,), cases=24),
]
