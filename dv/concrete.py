"""Running the real code: objects compiled with g++ from /repo's working tree,
free functions through ctypes, classes through drivers/*.cpp."""
import ctypes
import hashlib
import math
import os
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

from . import extract
from .extract import REPO, CACHE, include_flags, _run, ExtractionError
from .evalp import Model, EvalError

LIBS = ["-L/usr/lib/x86_64-linux-gnu", "-ltrilinos_epetraext", "-ltrilinos_epetra", "-ltrilinos_pamgen_extras", "-ltrilinos_pamgen", "-ltrilinos_teuchosparameterlist", "-ltrilinos_teuchosparser", "-ltrilinos_teuchoscore",
        "-ltrilinos_teuchosnumerics", "-ltrilinos_teuchoscomm", "-llapack", "-lblas", "-L/usr/lib/x86_64-linux-gnu/openmpi/lib", "-lmpi_cxx", "-lmpi",
        "-Wl,--unresolved-symbols=ignore-all"]
ENV = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
           OMPI_MCA_plm="isolated", OMPI_MCA_btl="self,vader", LD_BIND_NOW="")


class SourceError(ExtractionError):
    """a file of the repository does not compile: an error of the run, not a verdict"""


def compile_obj(src, flags=()):
    path = src if os.path.isabs(src) else os.path.join(REPO, src)
    fl = include_flags() + ["-std=c++17", "-O1", "-w", "-fPIC"] + list(flags)
    r = _run(["g++"] + fl + ["-E", "-P", path])
    if r.returncode:
        raise (SourceError if path != src else ExtractionError)("g++ -E failed on %s:\n%s" % (src, r.stderr.decode()[-1500:]))
    dig = hashlib.sha256(r.stdout + " ".join(fl).encode()).hexdigest()[:32]
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, "obj_%s.o" % dig)
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        r = _run(["g++"] + fl + ["-c", path, "-o", tmp])
        if r.returncode:
            raise (SourceError if path != src else ExtractionError)("g++ failed on %s:\n%s" % (src, r.stderr.decode()[-1500:]))
        os.replace(tmp, out)
    return out


def compile_all(items):
    with ThreadPoolExecutor(8) as p:
        jobs = [p.submit(compile_obj, *(s if isinstance(s, tuple) else (s,))) for s in items]
    bad = [j.exception() for j in jobs if j.exception()]
    if bad:     # a source that does not compile explains a driver that does not
        raise next((e for e in bad if isinstance(e, SourceError)), bad[0])
    return [j.result() for j in jobs]


def link(objs, kind="exe", libs=()):
    libs = list(libs) + LIBS
    dig = hashlib.sha256((kind + "".join(objs) + "".join(libs)).encode()).hexdigest()[:32]
    out = os.path.join(CACHE, "%s_%s%s" % (kind, dig, ".so" if kind == "so" else ""))
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        r = _run(["g++"] + (["-shared"] if kind == "so" else []) + ["-o", tmp] + objs + libs)
        if r.returncode:
            raise ExtractionError("link failed: " + r.stderr.decode()[-1500:])
        os.replace(tmp, out)
    return out


_libs = {}


def shared(tus):
    key = tuple(dict.fromkeys(tus))
    if key not in _libs:
        so = link(compile_all(list(key)), "so")
        _libs[key] = ctypes.CDLL(so, mode=os.RTLD_LAZY)
    return _libs[key]


class ConcreteModel(Model):
    """values taken from a concrete run; anything not supplied is hash based"""

    def __init__(self, case, outs=None, seed=0):
        super().__init__(seed)
        self.case = case
        self.outs = outs or {}

    def rd(self, region, idx, isint):
        i = int(round(idx))
        if region.startswith("out:"):
            a = self.outs.get(region[4:])
            if a is None:
                a = self.case.arrays.get(region[4:])
        else:
            a = self.case.arrays.get(region)
        if a is None:
            if region in self.case.known_regions:
                raise EvalError("region %s missing" % region)
            return super().rd(region, idx, isint)
        if i < 0 or i >= len(a):
            raise EvalError("%s[%d] out of range" % (region, i))
        return a[i]

    def sym(self, name, isint):
        if name in self.case.scalars:
            return self.case.scalars[name]
        if name == "huge":
            return 1e150
        if name == "pi":
            return math.pi
        if name.startswith("len:"):
            return len(self.case.arrays[name[4:]])
        return super().sym(name, isint)

    def nn(self, lst, p):
        return len(self.case.lists[lst][p]) if 0 <= p < len(self.case.lists[lst]) else 0

    def nbr(self, lst, p, n):
        return self.case.lists[lst][p][n]

    def boff(self, lst, p):
        return sum(len(x) for x in self.case.lists[lst][:int(p)])

    def fn(self, name, args):
        if name == "omega":
            return self.case.omega(*args)
        if name in self.case.funcs:
            return self.case.funcs[name](*args)
        return super().fn(name, args)


class Case:
    def __init__(self):
        self.arrays = {}
        self.scalars = {}
        self.lists = {}
        self.funcs = {}
        self.omega = lambda z, h: 1.0 / (1.0 + z * z / (h * h))
        self.known_regions = set()

    def dump(self):
        return {"arrays": {k: [float(x) if isinstance(x, float) else int(x) for x in v] for k, v in self.arrays.items()},
                "scalars": dict(self.scalars), "lists": self.lists}


def standard_case(rng, N=None, ghosts=None, lists=("L",), full=None):
    """random points with neighbour lists over owned points and ghosts"""
    c = Case()
    c.N = N if N is not None else rng.choice([1, 2, 3, 4, 5])
    c.M = c.N + (ghosts if ghosts is not None else rng.choice([0, 0, 1, 2]))
    if c.M < 2:
        c.M = 2
    c.scalars["N"] = c.N
    full = rng.random() < 0.5 if full is None else full
    for l in lists:
        L = []
        for p in range(c.N):
            oth = [q for q in range(c.M) if q != p]
            if not full:
                oth = [q for q in oth if rng.random() < 0.7]
            rng.shuffle(oth)
            L.append(oth)
        if not any(L):
            L[0] = [1]
        c.lists[l] = L
    c.nb = sum(len(x) for x in c.lists[lists[0]])
    return c


def flat_list(L):
    out = []
    for x in L:
        out.append(len(x))
        out.extend(x)
    return out


OMEGA_T = ctypes.CFUNCTYPE(ctypes.c_double, ctypes.c_double, ctypes.c_double)


def run_child(fn, timeout=20):
    """run fn() in a forked child (the code under test may crash); returns its
    pickled result or raises EvalError"""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            import signal
            signal.alarm(timeout)
            dn = os.open(os.devnull, os.O_RDWR)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            res = fn()
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
            os._exit(0)
        except BaseException as e:
            try:
                os.write(w, repr(e).encode())
            finally:
                os._exit(3)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 127:
        raise ExtractionError("a function called by the code under test is not part of the linked sources")
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 3 and data:
        raise RuntimeError("the harness failed: %s" % data.decode(errors="replace"))
    if st != 0 or not data:
        raise EvalError("the real code crashed or timed out on this input (status %d)" % st)
    return pickle.loads(data)
