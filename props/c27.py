"""assembly into the tangent matrix"""
from dv.matrix import Matrix_, W, entry
from .common import *

n = sym("n", True)
g = lambda i: rd("g", i, True)


def twice(f):
    i, j = var("i", True), var("j", True)
    return Sum(i, n, Sum(j, n, f(i, j) * rd("V", n * i + j)))


def added(O):
    """against an arbitrary weight on the entries: exactly the given values, at the given rows and columns"""
    if not O.symbolic:
        return entries(O)
    w = lambda idx: fn("weight", idx)
    return [eq("sum of the added values", O.inc("M", w), twice(lambda i, j: w(entry(g(i), g(j)))))]


def entries(O):
    r, c = O.idx("r", W), O.idx("c", W)
    hit = twice(lambda i, j: ind("eq", g(i) - r) * ind("eq", g(j) - c))
    return [eq("entry", O("M", entry(r, c)), rd("M", entry(r, c)) + hit)]


def one(O):
    row, col = sym("row", True), sym("col", True)
    if O.symbolic:
        return [eq("sum of the added values", O.inc("M", lambda e: fn("weight", e)), fn("weight", entry(row, col)) * sym("value"))]
    r, c = O.idx("r", W), O.idx("c", W)
    return [eq("entry", O("M", entry(r, c)), rd("M", entry(r, c)) + ind("eq", entry(row, col) - entry(r, c)) * sym("value"))]


def diagonal(O):
    """of the given values those that couple degrees of freedom of the same point"""
    if O.symbolic:
        i = var("i", True)
        dof = lambda k: 3 * idiv(g(i), 3) + k
        w = lambda e: fn("weight", e)
        return [eq("sum of the added values", O.inc("M", w), Sum(i, n, sum((w(entry(g(i), dof(k))) * rd("V", n * i + fn("position:g", dof(k))) for k in range(3)), ZERO)))]
    r, c = O.idx("r", W), O.idx("c", W)
    hit = twice(lambda i, j: ind("eq", g(i) - r) * ind("eq", g(j) - c) * ind("eq", idiv(g(i), 3) - idiv(g(j), 3)))
    return [eq("entry", O("M", entry(r, c)), rd("M", entry(r, c)) + hit)]


CONTRACTS = [
    Contract(Matrix_("addValues"), added, name="block of values", cases=12),
    Contract(Matrix_("addValue"), one, name="one value"),
    Contract(Matrix_("putScalar"), lambda O: [eq("entry", O("M", O.idx("e", W * W)), sym("value"))], name="all entries"),
    Contract(Matrix_("addBlockDiagonalValues"), diagonal, name="block diagonal", cases=12),
]
