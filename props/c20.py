"""boundary and initial conditions"""
from dv.conditions import Condition_, Deck_, Manager_, inset, vector
from dv.steps import width
from .common import *

t, t0 = sym("t"), sym("t0")
T.NONNEG.add("len1")


def text(p, time):
    """the user's function at a point"""
    return fn("rtc:value:value = f", *[rd("x", 3 * p + c) for c in range(3)], time, ZERO)


def assigned(target, coord, value):
    w = width(target)

    def at(c):
        def g(O):
            """the named component of the points of the set takes the value, everything else keeps its own"""
            p = O.idx("p", sym("len1", True))
            v = rd(target, w * p + c)
            return [eq("component %d of %s" % (c, target), O(target, w * p + c), ite(inset("S", p), value(p), v) if c == coord else v)]
        return g
    return [at(c) for c in range(w)]


def unit(cls, target, kind, coord=None, extra=(), **k):
    v = {"Type": kind, "Node Set": "S", "Value": "f"}
    if coord is not None:
        v["Coordinate"] = "xyz"[coord]
    return Condition_(cls, target, v, extra, **k)


CONTRACTS = [Contract(unit("DirichletBC", "v", "Initial Velocity", c), *assigned("v", c, lambda p: text(p, t)), name="value, component %d" % c) for c in range(3)]


def increment(kind, coeff, rate, relative, target, coord):
    """increment of the user's function over the step (since the start, if relative), scaled; nothing at the start"""
    w = width(target)

    def value(p):
        past = ZERO if relative else t0
        now, before = text(p, t), text(p, past)
        if kind == "Prescribed Displacement":
            before = ite(ind("eq", now - before), rd("u", 3 * p + coord), before)
        return coeff * (now - before) + rate * (now - before) / (t - past)

    def at(c):
        def g(O):
            p = O.idx("p", sym("len1", True))
            v = rd(target, w * p + c)
            hit = inset("S", p) * (ONE - ind("eq", t - t0))
            return [eq("component %d of %s" % (c, target), O(target, w * p + c), ite(hit, value(p), v) if c == coord else v)]
        return g
    return [at(c) for c in range(w)]


CONTRACTS += [Contract(unit("DirichletBC", "temperature", "Initial Temperature"), *assigned("temperature", 0, lambda p: text(p, t)), name="value of a scalar field"),
              Contract(Condition_("DirichletBC", "u", {"Type": "Initial Displacement", "Node Set": "s", "Value": sym("number"), "Coordinate": "Y"}),
                       *assigned("u", 1, lambda p: sym("number")), name="value given as a number")]
for kind, target, coord, co, ra, rel in (("Prescribed Displacement", "deltaU", 2, "ca", "cb", 0), ("Prescribed Displacement", "v", 0, "ca", "cb", 0), ("Prescribed Temperature", "deltaTemperature", 0, "ca", "cb", 1),
                                         ("Prescribed Fluid Pressure U", "fluidPressureDeltaU", 0, "ca", "cb", 0)):
    CONTRACTS.append(Contract(unit("DirichletIncrementBC", target, kind, coord if width(target) > 1 else None, ["ca", "cb", P(rel)]),
                              *increment(kind, sym(co), sym(ra), rel, target, coord), name="increment: %s of %s" % (kind.lower(), target)))


# degrees of freedom: fields solved for, in this order at every point
SOLVE = {"Displacement": 3, "Temperature": 1, "Concentration": 1, "Pressure": 1}
FIELD = {"PRESCRIBED_DISPLACEMENT": "Displacement", "PRESCRIBED_FLUID_PRESSURE_U": "Pressure", "PRESCRIBED_TEMPERATURE": "Temperature", "THERMAL_FLUX": "Temperature"}


def layout(solved):
    off, n = {}, 0
    for f, w in SOLVE.items():
        if f in solved:
            off[f] = n
            n += w
    return off, n


def prescribed(conds, off, c):
    """names of the sets whose condition prescribes degree of freedom c"""
    return [d["set"] for d in conds if FIELD.get(d["type"]) in off and off[FIELD[d["type"]]] + d.get("coord", 0) == c]


def reactions(conds, solved):
    off, n = layout(solved)

    def at(c):
        def g(O):
            """reactions: the force at the prescribed degrees of freedom, zero elsewhere"""
            p = O.idx("p", sym("len1", True))
            hit = ONE - prod(ONE - inset(s, p) for s in prescribed(conds, off, c))
            return [eq("reaction, degree of freedom %d" % c, O("reaction", n * p + c), hit * rd("force", n * p + c), probe=rd("force", n * p + c))]
        return g
    return [at(c) for c in range(n)]


def residual(conds, solved):
    off, n = layout(solved)

    def at(c):
        def g(O):
            """constrained residual: zero at the prescribed degrees of freedom, as it was elsewhere"""
            p = O.idx("p", sym("len1", True))
            hits = [inset(s, p) for s in prescribed(conds, off, c)]
            return [eq("residual, degree of freedom %d" % c, O("force", n * p + c), prod(ONE - h for h in hits) * rd("force", n * p + c))]
        return g
    return [at(c) for c in range(n)]


def tangent(conds, solved):
    off, n = layout(solved)

    def at(c, d):
        def g(O):
            """constrained tangent: rows and columns of the prescribed degrees of freedom are zero but for the diagonal, everything else is as it was"""
            p, q = O.idx("p", sym("len1", True)), O.idx("q", sym("len1", True))
            D = n * sym("len1", True)
            row, col = n * p + c, n * q + d
            free = prod(ONE - inset(s, p) for s in prescribed(conds, off, c)) * prod(ONE - inset(s, q) for s in prescribed(conds, off, d))
            k = var("diag!k", True)
            mean = Sum(k, D, abs_(rd("tangent", k * D + k))) / D
            held = ind("eq", row - col) * (ONE - free)
            return [eq("tangent, degrees of freedom %d, %d" % (c, d), O("tangent", row * D + col), free * rd("tangent", row * D + col) - held * mean)]
        return g
    return [at(c, d) for c in range(n) for d in range(n)]


def prod(xs):
    r = ONE
    for x in xs:
        r = r * x
    return r


CASES = [(["Displacement"], [dict(type="PRESCRIBED_DISPLACEMENT", set="A", coord=1, to="v"), dict(type="PRESCRIBED_DISPLACEMENT", set="B", coord=1, to="v"),
                             dict(type="PRESCRIBED_TEMPERATURE", set="C", to="temperature")]),
         (["Displacement", "Temperature", "Pressure"], [dict(type="PRESCRIBED_FLUID_PRESSURE_U", set="A", to="v"), dict(type="PRESCRIBED_TEMPERATURE", set="B", to="v"),
                                                        dict(type="PRESCRIBED_DISPLACEMENT", set="C", coord=2, to="v")]),
         (["Displacement", "Temperature", "Concentration"], [dict(type="THERMAL_FLUX", set="A", to="v"), dict(type="PRESCRIBED_DISPLACEMENT", set="B", to="v")])]
for solved, conds in CASES:
    dofs = {"Solve For " + f: int(f in solved) for f in SOLVE}
    tag = " of " + ", ".join(solved).lower()
    CONTRACTS += [Contract(Manager_("applyKinematicBC_ComputeReactions", conds, dofs, lambda ex, c: [vector(ex, "force"), vector(ex, "reaction")]), *reactions(conds, solved),
                           name="reactions" + tag),
                  Contract(Manager_("applyKinematicBC_InsertZeros", conds, dofs, lambda ex, c: [vector(ex, "force")], per=layout(solved)[1]), *residual(conds, solved), name="residual" + tag)]


def applied(kinds, times, pre=(), post=None):
    """every condition of the list is applied once, in order, at the given times"""
    def g(O):
        ex = O.ex if O.symbolic else O.case
        p = O.idx("p", 3 * sym("len1", True))
        out = [zero("conditions applied in order", ZERO if [k for k, _, _ in ex.applied] == list(range(1, len(kinds) + 1)) else ONE)]
        for k, a, b in ex.applied:
            out += [eq("condition %d: current time" % k, a, times[0], probe=ONE), eq("condition %d: previous time" % k, b, times[1], probe=ONE)]
        seen = {}
        for k, d in enumerate(kinds):
            out.append(eq("vector handed to condition %d" % (k + 1), O("before %d" % (k + 1), p), seen.get(d["to"], pre[0] if pre and d["to"] == pre[1] else rd(d["to"], p)), probe=ONE))
            seen[d["to"]] = rd("applied %d" % (k + 1), p)
        for r, v in seen.items():
            out.append(eq("%s afterwards" % r, O(r, p), v))
        if post:
            out += post(O, p, seen)
        return out
    return g


byref = lambda ex, c: [c.byref(ex, "t"), c.byref(ex, "t0")]
BCS = [dict(type="PRESCRIBED_DISPLACEMENT", set="A", to="deltaU"), dict(type="PRESCRIBED_TEMPERATURE", set="B", to="temperature"), dict(type="PRESCRIBED_DISPLACEMENT", set="A", to="v")]
ICS = [dict(type="INITIAL_VELOCITY", set="A", to="v"), dict(type="INITIAL_DISPLACEMENT", set="B", to="u"), dict(type="INITIAL_FLUID_PRESSURE_U", set="C", to="fluidPressureU")]
FCS = [dict(type="BODY_FORCE", set="A", to="externalForce"), dict(type="BODY_FORCE", set="B", to="externalForce")]
CONTRACTS += [
    Contract(Manager_("applyBoundaryConditions", BCS, args=byref), applied(BCS, (t, t0)), name="list of boundary conditions"),
    Contract(Manager_("applyForceContributions", FCS, args=byref, lst="forceContributions"), applied(FCS, (t, t0), pre=(ZERO, "externalForce")), name="list of forces"),
    Contract(Manager_("applyForceContributions", [], args=byref), lambda O: [zero("no force without a contribution", O("externalForce", O.idx("p", 3 * sym("len1", True))), probe=ONE)],
             name="no forces"),
    Contract(Manager_("applyInitialConditions", ICS, lst="initialConditions"),
             applied(ICS, (ZERO, ZERO), post=lambda O, p, seen: [eq("current position", O("y", p), rd("x", p) + seen["u"]), eq("current pressure", O("fluidPressureY", p), seen["fluidPressureU"])]),
             name="list of initial conditions"),
    Contract(Manager_("applyInitialConditions", ICS[1:2], lst="initialConditions"), applied(ICS[1:2], (ZERO, ZERO), post=lambda O, p, seen: [eq("current position", O("y", p), rd("x", p) + seen["u"])]),
             name="initial displacement alone"),
    Contract(Manager_("applyInitialConditions", ICS[2:], lst="initialConditions"),
             applied(ICS[2:], (ZERO, ZERO), post=lambda O, p, seen: [eq("current pressure", O("fluidPressureY", p), seen["fluidPressureU"])]), name="initial pressure alone"),
]

# the whole deck: every type of condition, node sets written as text and taken from the mesh
DECK = [dict(type="Initial Displacement", set="A", coord="y"), dict(type="Initial Velocity", set="B", coord="X"), dict(type="Initial Fluid Pressure U", set="A"),
        dict(type="Initial Temperature", set="C", number=True), dict(type="Prescribed Displacement", set="B", coord="z"), dict(type="Prescribed Temperature", set="A"),
        dict(type="Prescribed Fluid Pressure U", set="C"), dict(type="Body Force", set="C", coord="x"), dict(type="Body_Force", set="A", coord="z", number=True)]
number = sym("number")


def deck():
    def put(s, value, old):
        return lambda p: ite(inset(s, p), value(p), old(p))
    old = lambda r, c: lambda p: rd(r, width(r) * p + c)
    now, at0 = lambda p: text(p, t), lambda p: text(p, ZERO)
    moved = ONE - ind("eq", t - t0)
    u1 = put("A", at0, old("u", 1))
    inc = lambda back, u: lambda p: now(p) - (ite(ind("eq", now(p) - back(p)), u(p), back(p)) if u else back(p))
    du = inc(lambda p: text(p, t0), old("u", 2))
    when = lambda f, o: lambda p: ite(moved, f(p), o(p))
    pr = inc(lambda p: text(p, t0), None)
    want = {("u", 0): old("u", 0), ("u", 1): u1, ("u", 2): old("u", 2), ("x", 1): old("x", 1),
            ("y", 0): lambda p: rd("x", 3 * p) + rd("u", 3 * p), ("y", 1): lambda p: rd("x", 3 * p + 1) + u1(p), ("y", 2): lambda p: rd("x", 3 * p + 2) + rd("u", 3 * p + 2),
            ("v", 0): put("B", at0, old("v", 0)), ("v", 1): old("v", 1), ("v", 2): when(put("B", lambda p: du(p) / (t - t0), old("v", 2)), old("v", 2)),
            ("deltaU", 0): old("deltaU", 0), ("deltaU", 1): old("deltaU", 1), ("deltaU", 2): when(put("B", du, old("deltaU", 2)), old("deltaU", 2)),
            ("fluidPressureU", 0): put("A", at0, old("fluidPressureU", 0)), ("fluidPressureY", 0): put("A", at0, old("fluidPressureU", 0)),
            ("fluidPressureDeltaU", 0): when(put("C", pr, old("fluidPressureDeltaU", 0)), old("fluidPressureDeltaU", 0)),
            ("fluidPressureV", 0): when(put("C", lambda p: pr(p) / (t - t0), old("fluidPressureV", 0)), old("fluidPressureV", 0)),
            ("temperature", 0): put("A", now, put("C", lambda p: number, old("temperature", 0))),
            ("deltaTemperature", 0): when(put("A", lambda p: now(p) - at0(p), old("deltaTemperature", 0)), old("deltaTemperature", 0)),
            ("externalForce", 0): put("C", now, lambda p: ZERO), ("externalForce", 1): lambda p: ZERO, ("externalForce", 2): put("A", lambda p: number, lambda p: ZERO)}

    def one(r, c, f):
        def g(O):
            p = O.idx("p", sym("len1", True))
            return [eq("%s, component %d" % (r, c), O(r, width(r) * p + c), f(p))]
        return g
    return [one(r, c, f) for (r, c), f in want.items()]


CONTRACTS.append(Contract(Deck_({"A": "Node Set A"}, ["B", "C"], DECK, "applyInitialConditions applyBoundaryConditions applyForceContributions"), *deck(), name="conditions of an input deck", cases=25,
                          bounded="the deck is read through containers of parameters and text streams; random decks over 2 to 5 points"))
for solved, conds in CASES:
    dofs = {"Solve For " + f: int(f in solved) for f in SOLVE}
    CONTRACTS.append(Contract(Manager_("applyKinematicBC_InsertZerosAndSetDiagonal", conds, dofs, per=layout(solved)[1]), *tangent(conds, solved), name="tangent of " + ", ".join(solved).lower(), cases=8,
                              bounded="a row buffer is changed and restored in every turn of a loop over a node set; random matrices over 2 to 5 points"))
