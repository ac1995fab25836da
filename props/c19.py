"""explicit time integration"""
from dv.steps import Body_, entry, holds, local
from .common import *

t0, dt = sym("t0"), sym("dt")
for n in ("dt", "len1", "critical1", "critical2", "safety"):
    T.NONNEG.add(n)
KB = (1, 2)


def run(flags, steps, fixed=True, **k):
    values = {"Initial Time": t0, "Final Time": t0 + steps * dt, "Verlet/Safety Factor": sym("safety")}
    if fixed:
        values["Verlet/Fixed dt"] = dt
    return Body_("executeExplicit", flags, {"values": values, "present": {"Verlet/Fixed dt": fixed, "Verlet/Safety Factor": not fixed}, "fields": ()},
                 args=lambda ex, c: [c.rcp(ex, "solver")], **k)


def integration(steps, start, contact, each=("Coordinates", "Displacement", "Velocity")):
    """every step: half step of the velocity, full step of the positions, forces there, other half step"""
    def at(c, O):
        ex = O.ex
        j = 3 * O.idx("p", sym("len1", True)) + c
        q = O.idx("q", sym("lenB", True))
        b = 3 * q + c
        within = {k: [ind("lt", rd("of block %d" % k, q, True) - sym("len1", True))] for k in KB}
        rho = lambda j: rd("density", idiv(j, 3))
        A = lambda n: lambda j: (sum((holds(k, idiv(j, 3)) * rd("force%d:%d" % (n, k), entry(k, j)) for k in KB), ZERO) + (rd("contact%d" % n, j) if contact else ZERO) + rd("body%d" % n, j)) / rho(j)
        out = []
        x, u, v, a = (lambda j, r=r: rd(r, j) for r in "xuva")
        n = 0
        if start:
            n = 1
            if contact:
                out += [eq("positions the first contact forces are evaluated at", O("contact1:y", j), rd("y", j))]
            a = A(1)
            v = lambda j: rd("bc1:v", j)
        order = (["evaluate"] if start else []) + ["write"]
        times = [(t0, t0)] if start else []
        for s in range(1, steps + 1):
            n += 1
            out += [eq("step %d: velocity after the first half step" % s, O("before bc%d" % n, j), v(j) + dt / 2 * a(j))]
            half = lambda j, n=n: rd("bc%d:v" % n, j)
            u = lambda j, u=u, half=half: u(j) + dt * half(j)
            y = lambda j, u=u: x(j) + u(j)
            what = {"Coordinates": y, "Displacement": u, "Velocity": half}
            for f in each:
                for k in KB:
                    out += [eq("step %d: %s the forces of block %d are evaluated at" % (s, f.lower(), k), O("eval%d:B%d:%s@NP1" % (n, k, f), b), what[f](local(k, b)), within[k])]
            if contact:
                m = n + (0 if start else 1)
                out += [eq("step %d: positions the contact forces are evaluated at" % s, O("contact%d:y" % m, j), y(j)),
                        eq("step %d: velocities the contact forces are evaluated at" % s, O("contact%d:v" % m, j), half(j))]
            a = A(n)
            v = lambda j, half=half, a=a: half(j) + dt / 2 * a(j)
            now = {"Coordinates": y, "Displacement": u, "Velocity": v}
            for f in each:
                out += [eq("step %d: %s written for block %d" % (s, f.lower(), k), O("out%d:B%d:%s@NP1" % (s + 1, k, f), b), now[f](local(k, b)), within[k]) for k in KB]
            order += ["evaluate", "write", "advance 1", "advance 2"]
            times += [(t0 + s * dt, t0 + (s - 1) * dt)]
        out += [eq("acceleration at the end", O("a", j), a(j)), eq("velocity at the end", O("v", j), v(j)), eq("displacement at the end", O("u", j), u(j))]
        if steps:
            out += [eq("position at the end", O("y", j), y(j))]
        out += [eq("reference positions unchanged", O("x", j), x(j))]
        out += [zero("evaluations, output and advance of the state in order", ZERO if ex.events == order else ONE)]
        for what, got in (("kinematic", ex.times), ("force", ex.bodytimes)):
            out += [zero("number of times the %s conditions are applied" % what, P(len(got) - len(times)))]
            for s, (g, w) in enumerate(zip(got, times)):
                out += [eq("%s conditions %d: %s time" % (what, s, z), g[q], w[q]) for q, z in ((0, "current"), (1, "previous"))]
        out += [eq("time of output %d" % s, g, t0 + s * dt) for s, g in enumerate(ex.outtimes)]
        out += [eq("time step handed to the evaluators", O("@workset", ZERO), dt)]
        for g in out:
            g.name = "component %d, %s" % (c, g.name)
        return out
    return [lambda O, c=c: at(c, O) for c in range(3)]


def stable(O):
    return [eq("time step: smallest of the blocks times the safety factor", O("@workset", ZERO), sym("safety") * min_(sym("critical1"), sym("critical2")))]


TIME_STEP = Contract(run({"analysisHasReadRestart": True}, 0, fixed=False), stable, name="time step", facts=[ind("lt", sym("critical%d" % k) - P(1e50)) for k in KB], skip_conc=True)
CONTRACTS = [
    Contract(run({"analysisHasReadRestart": True}, 1), *integration(1, False, False), name="one step", skip_conc=True),
    Contract(run({}, 0), *integration(0, True, False), name="start", skip_conc=True),
    Contract(run({"analysisHasContact": True}, 2), *integration(2, True, True), name="two steps with contact", skip_conc=True),
    TIME_STEP,
]
