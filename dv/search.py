"""Neighbour lists: searches on the compiled code with one or several processes, and the radius query."""
import os
import re
import subprocess
import tempfile

from . import concrete
from .blocks import ROOT
from .concrete import Case, EvalError
from .contract import Kernel, Unit
from .classes import T_I32
from .extract import ExtractionError, module
from .ir import Unsupported
from .sym import Ptr, UNDEF
from .terms import *

DRIVER = os.path.join(ROOT, "drivers/search_driver.cpp")
IO = "src/io/"
TUS = [IO + t for t in ("Peridigm_ProximitySearch.cpp", "Peridigm_ZoltanSearchTree.cpp", "Peridigm_JAMSearchTree.cpp", "pdneigh/NeighborhoodList.cxx", "pdneigh/PdZoltan.cxx", "pdneigh/BondFilter.cxx",
                        "mesh_input/quick_grid/QuickGrid.cxx", "utilities/Sortable.cxx", "utilities/Peridigm_Memstat.cpp")]
_exe, _starts = [], {}


def run(text, procs):
    if not _exe:
        _exe.append(concrete.link(concrete.compile_all([DRIVER] + TUS), libs=["-ltrilinos_zoltan"]))
    cmd = []
    if procs > 1:
        start = ["mpirun", "--oversubscribe", "--bind-to", "none", "-np", str(procs)]
        if procs not in _starts:
            _starts[procs] = subprocess.run(start + ["true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, timeout=60, env=concrete.ENV).returncode == 0
        if not _starts[procs]:
            raise Unsupported("%d processes cannot be started here" % procs)
        cmd = start
    with tempfile.TemporaryDirectory() as d:
        name = os.path.join(d, "points")
        with open(name, "w") as f:
            f.write(text)
        for _ in range(2 if procs > 1 else 1):      # starting processes may fail for reasons outside the code
            r = subprocess.run(cmd + [_exe[0], name], stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=120, env=concrete.ENV)
            if r.returncode == 0:
                break
        if r.returncode:
            raise EvalError("the driver exited with status %d: %s" % (r.returncode, r.stderr.decode()[-400:]))
        lines = [l for k in range(procs) for l in open("%s.%d" % (name, k)).read().split("\n")]
    got = {}
    for l in lines:
        if l.startswith("L|"):
            _, s, p, ids = l.split("|")
            got[int(s), int(p)] = [int(i) for i in ids.split()]
    return got


class Search_(Unit):
    """one search over scattered or regular points; concrete only"""
    entry = "GlobalProximitySearch"

    def __init__(self, procs, same):
        self.procs, self.same, self.name = procs, same, "search"

    def sources(self):
        return TUS

    def build_key(self):
        return ("search",)

    def build(self):
        pass

    def conc(self, rng):
        c = Case()
        size, one = [rng.choice([1.0, 3.0, 0.2]) for _ in range(3)], rng.uniform(0.1, 1.5)
        big = self.procs > 1 and rng.random() < 0.5
        if big:     # some points of every part are far from its faces
            size, one = [4.0] * 3, rng.uniform(0.3, 0.6)
        n = 300 if big else rng.choice([self.procs, 7, 20, 40]) if self.procs > 1 else rng.choice([1, 2, 5, 20, 40])
        grid = not big and rng.random() < 0.3
        x = [[rng.randint(0, 4) * 0.25 * s if grid else rng.uniform(0, s) for s in size] for _ in range(n)]
        if grid:
            x = [list(p) for p in sorted({tuple(p) for p in x})]
            n = max(len(x), self.procs)
            x += [[7.0 + k, 0.0, 0.0] for k in range(n - len(x))]
        r = [one if self.same else one * rng.uniform(0.2, 1.2) for _ in x]
        more = rng.choice([0.0, 0.0, 0.2])
        owner = list(range(self.procs)) + [rng.randrange(self.procs) for _ in range(n - self.procs)]
        rng.shuffle(owner)
        text = "%d %.17g\n" % (n, more) + "".join("%.17g %.17g %.17g %.17g %d\n" % (*p, q, o) for p, q, o in zip(x, r, owner))
        got = run(text, self.procs)
        # pairs that are listed or nearly within the radius; no other pair can break the contract
        near = [(i, j) for i in range(n) for j in range(n) if i == j or sum((a - b)**2 for a, b in zip(x[i], x[j])) < 1.1 * (r[i] + more)**2]
        pairs = sorted(set(near) | {(i, j) for i in range(n) for j in got.get((0, i), [])})
        c.N = c.M = n
        c.scalars.update(pairs=len(pairs), more=more)
        c.arrays["x"] = [v for p in x for v in p]
        c.arrays["radius"] = r
        c.arrays["owner"] = owner
        c.arrays["of"], c.arrays["other"] = [i for i, j in pairs], [j for i, j in pairs]
        c.arrays["times listed"] = [0] * len(pairs)
        return c, {"times listed": [got.get((0, i), []).count(j) for i, j in pairs]}


TREE, COUNT = (os.path.join(ROOT, "drivers", f) for f in ("tree.cpp", "tree_count.cpp"))


def h_push(ex, name, a, i):
    """a list as the number of times each value is in it"""
    v = ex.load(a[1], T_I32)
    at = Ptr("listed", 4 * v)
    ex.store(at, ex.load(at, T_I32) + ONE, T_I32)
    return UNDEF


HANDLERS = [(re.compile(rx), h) for rx, h in [
    (r"^_ZNSt6vectorIiSaIiEE9push_backE(RKi|Oi)$", h_push),
    (r"^_ZNSt6vectorIiSaIiEEC2Ev$|^_ZNSt6vectorIiSaIiEED2Ev$|^_Z5countRSt6vectorIiSaIiEEPi$", lambda ex, n, a, i: UNDEF),
]]


class Tree_(Kernel):
    """function of the search tree; the harness sets the members of a tree, so a change of its members leaves it undecided"""

    def __init__(self, f, params, **k):
        super().__init__(TREE, f, params, extra_tus=[IO + "Peridigm_ZoltanSearchTree.cpp"], link=[COUNT], handlers=HANDLERS, name=f, **k)

    def sources(self):
        return self.extra

    def ready(self):
        module(self.extra[0])
        try:
            module(TREE)
        except ExtractionError as e:
            raise Unsupported("harness: %s" % str(e)[:300])

    def sym(self):
        self.ready()
        return super().sym()

    def conc(self, rng):
        self.ready()
        return super().conc(rng)
