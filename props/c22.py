"""regular grids"""
from dv.grid import Cells_, L, N, NCELL, NRA, NRI, Points_, RI, RO, X0
from fractions import Fraction

from .common import *

HALF, PI = Fraction(1, 2), sym("pi")
h = lambda a: L[a] / N[a]
center = lambda a, i: X0[a] + h(a) * i + h(a).scale(Fraction(1, 2))


def line(O):
    i = O.idx("i", N["x"])
    return [eq("centre of the cell", O("points", i), center("x", i))]


def square(O):
    j, i = O.idx("j", N["y"]), O.idx("i", N["x"])
    at = 2 * (N["x"] * j + i)
    return [eq("x", O("points", at), center("x", i)), eq("y", O("points", at + 1), center("y", j))]


def box(O):
    k, j, i = O.idx("k", N["z"]), O.idx("j", N["y"]), O.idx("i", N["x"])
    at = 3 * (N["x"] * N["y"] * k + N["x"] * j + i)
    return [eq(a, O("points", at + c), center(a, v)) for c, (a, v) in enumerate((("x", i), ("y", j), ("z", k)))]


def ring(O):
    """point of ray j and ring i"""
    j, i = O.idx("j", NRA), O.idx("i", NRI)
    dr, dt = abs_(RO - RI) / NRI, 2 * PI / NRA
    r, t = RI + dr * i + dr.scale(HALF), dt * j + dt.scale(HALF)
    at = 3 * (NRI * j + i)
    want = [r * T.fn("cos", t) + sym("c0"), r * T.fn("sin", t) + sym("c1"), sym("c2")]
    return [eq(a, O("points", at + c), w) for c, (a, w) in enumerate(zip("xyz", want))]


def tube(O):
    """the points of the ring, once for every cell along the axis"""
    k, m = O.idx("k", N["z"]), O.idx("m", NCELL)
    at = 3 * (NCELL * k + m)
    return [eq("x", O("points", at), rd("ring", 3 * m)), eq("y", O("points", at + 1), rd("ring", 3 * m + 1)), eq("z", O("points", at + 2), center("z", k))]


def cells(O):
    i = O.idx("i", sym("n", True))
    return [eq(q, O("got " + q, i), rd("want " + q, i)) for q in "id x y z volume".split()]


def total(O):
    return [eq("sum of the volumes", O("got total", 0), rd("want total", 0))]


CONTRACTS = [
    Contract(Points_("line", "x"), line, name="points on a line"),
    Contract(Points_("square", "xy"), square, name="points of a square"),
    Contract(Points_("box", "xyz"), box, name="points of a box"),
    Contract(Points_("ring", "r"), ring, name="points of a ring"),
    Contract(Points_("tube", "rz"), tube, name="points of a tube"),
    Contract(Cells_("cells"), cells, total, name="cells of a box", cases=60, bounded="the count of cells bounds three nested loops; random boxes of up to 4 x 4 x 4 cells in 1 to 11 parts"),
    Contract(Cells_("cylinder"), cells, total, name="cells of a tube", cases=30, bounded="as for boxes; random tubes of up to 4 rings and 4 cells along the axis in 1 to 11 parts"),
    Contract(Cells_("solid"), cells, total, name="cells of a solid cylinder", cases=30, bounded="as for boxes; random solid cylinders of up to 3 rings in 1 to 11 parts, no part ending just after a cell on the axis"),
    Contract(Cells_("solid", True), total, name="cells of a solid cylinder, a part ending on the axis", cases=6, bounded="as for boxes; random solid cylinders with a part that ends just after a cell on the axis"),
]
