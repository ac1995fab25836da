"""Contracts assumed for code outside /repo (C++ runtime, Trilinos views) and
the two uninterpreted user functions (influence functions)."""
import re

from . import ir
from .ir import Unsupported
from .sym import Ptr, NULL, FnPtr, UNDEF, Agg, Eff, var_id
from .terms import *
from .terms import _byid
from . import terms as T

OMEGA = FnPtr("__omega__")


def omega(ex, name, args, i):
    """scalar influence function omega(|xi|, horizon): uninterpreted"""
    return T.fn("omega", *args)


def h_new(ex, name, args, i):
    key = ("new", id(i), ex.depth)
    nm = "heap%d.%d" % (abs(hash(i.line)) % 100000, ex.depth)
    # one region per allocation site and inlining depth and loop nest
    site = (id(i), ex.depth)
    nm = ex.alloc_names.get(site)
    if nm is None:
        nm = "heap#%d" % (len(ex.alloc_names) + 1)
        ex.alloc_names[site] = nm
    if nm not in ex.regions:
        ex.obj(nm)
    elif not ex.in_loop(nm) and not ex.binders:
        # a second dynamic allocation at the same site outside loops: new region
        n = 2
        while "%s.%d" % (nm, n) in ex.regions:
            n += 1
        nm = "%s.%d" % (nm, n)
        ex.obj(nm)
    ex.regions[nm].heap = True
    return Ptr(nm, ZERO)


def h_noop(ex, name, args, i):
    return args[0] if args else UNDEF


def h_void(ex, name, args, i):
    return UNDEF


def h_strlen(ex, name, args, i):
    return sym("strlen", True)


def h_abort(ex, name, args, i):
    raise Unsupported("call to %s" % name)


DEFAULT = [
    (re.compile(r"^__omega__$|^_ZN19MATERIAL_EVALUATION23scalarInfluenceFunctionEdd$"), omega),
    (re.compile(r"^(_Znwm|_Znam|malloc|_ZnwmSt11align_val_t)$"), h_new),
    (re.compile(r"^(_ZdlPv|_ZdaPv|_ZdlPvm|_ZdaPvm|free)$"), h_void),
    (re.compile(r"^(_ZNSo|_ZSt16__ostream_insert|_ZSt4endl|_ZStls|_ZNSolsE|_ZSt5flush)"), h_noop),
    (re.compile(r"^(_ZNSt8ios_base4InitC1Ev|_ZNSt8ios_base)"), h_noop),
    (re.compile(r"^(printf|puts|putchar|fprintf)$"), lambda ex, n, a, i: ZERO),
    (re.compile(r"^strlen$"), h_strlen),
]
