"""fill the caches (extracted IR, compiled drivers) for every contract; optional"""
import glob
import importlib
import multiprocessing
import os
import sys

sys.setrecursionlimit(20000)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _ir(t):
    from . import extract
    try:
        extract.emit_ir(t)
    except Exception as e:
        return "%s: %s" % (t, str(e)[:200])


def _build(a):
    mod, i = a
    u = importlib.import_module(mod).CONTRACTS[i].unit
    try:
        u.build()
    except Exception as e:
        return "%s/%s: %s" % (mod, u.name, str(e)[:200])


def main():
    tus, units, seen = set(), [], set()
    for f in sorted(glob.glob(os.path.join(VERIF, "props", "[a-z][0-9][0-9]*.py"))):
        mod = "props." + os.path.basename(f)[:-3]
        for i, c in enumerate(importlib.import_module(mod).CONTRACTS):
            tus |= set(c.unit.sources())
            k = c.unit.build_key()
            if k not in seen:
                seen.add(k)
                units.append((mod, i))
    with multiprocessing.get_context("fork").Pool(8, maxtasksperchild=8) as p:
        for r in p.imap_unordered(_ir, sorted(tus)):
            if r:
                print(r)
        for r in p.imap_unordered(_build, units):
            if r:
                print(r)
    print("%d translation units, %d builds" % (len(tus), len(units)))


if __name__ == "__main__":
    main()
