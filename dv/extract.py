"""Mechanical extraction: /repo translation unit -> LLVM IR module.

clang front end at -O1 with every LLVM pass disabled, then only
sroa/early-cse/simplifycfg/adce/loop-simplify (SSA construction and CFG
clean-up; no floating-point transformation)."""
import hashlib
import os
import pickle
import re
import subprocess
import sys

from . import ir

REPO = os.environ.get("VERIF_REPO", "/repo")
SUBDIRS = ["core", "io", "io/discretization", "io/mesh_input", "io/mesh_input/quick_grid", "io/mesh_output",
           "io/bond_volume", "io/utilities", "io/pdneigh", "contact", "materials", "damage", "api", "compute",
           "io/bond_volume/quick_grid"]
CACHE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "cache")
PASSES = "function(sroa,early-cse,simplifycfg,instsimplify,adce,simplifycfg,loop-simplify)"


def include_flags():
    inc = ["-I/usr/include/trilinos", "-I/usr/include/hdf5/openmpi", "-I/usr/include/scotch", "-I" + REPO, "-I" + REPO + "/src"]
    inc += ["-I%s/src/%s" % (REPO, d) for d in SUBDIRS]
    inc += ["-DUSE_YAML", "-DNDEBUG", "-I/usr/lib/x86_64-linux-gnu/openmpi/include",
            "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
    return inc


def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def _digest(path, flags):
    """digest of the preprocessed translation unit (so the cache can never be
    stale with respect to /repo's working tree)"""
    r = _run(["clang++-18"] + flags + ["-E", "-P", path])
    if r.returncode:
        raise ExtractionError("preprocessing %s failed:\n%s" % (path, r.stderr.decode()[-2000:]))
    return hashlib.sha256(r.stdout + " ".join(flags).encode() + PASSES.encode() + b"views").hexdigest(), r.stdout


class ExtractionError(Exception):
    pass


_EV = re.compile(r"^(\s*(?:%\S+ = )?)(call|invoke)( .*@_ZNK13Epetra_Vector11ExtractViewEPPd\(ptr [^,]*, ptr noundef )(%[\w.]+)(\).*)$")


def split_views(text):
    """Epetra_Vector::ExtractView(double** v) writes *v and does not keep v: hand it a
    temporary and copy that into the caller's pointer, so that the pointer itself becomes an SSA value"""
    out = []
    lines = text.split("\n")
    k, entry, ev, n = 0, None, None, 0
    pend = {}
    invoke = None
    for ln in lines:
        if ln.startswith("define "):
            entry, n = len(out) + 1, 0
            allocas = set()
            pend, invoke = {}, None
        m = re.match(r"^  (%[\w.]+) = alloca ptr\b", ln)
        if m and entry is not None:
            allocas.add(m.group(1))
        m = _EV.match(ln) if entry is not None else None
        if m and m.group(4) in allocas:
            n += 1
            t, p = "%%ev.%d" % n, m.group(4)
            copy = ["  %s.v = load ptr, ptr %s, align 8" % (t, t), "  store ptr %s.v, ptr %s, align 8" % (t, p)]
            out.append("".join([m.group(1), m.group(2), m.group(3), t, m.group(5)]))
            out.insert(entry, "  %s = alloca ptr, align 8" % t)
            if m.group(2) == "call":
                out += copy
            else:
                invoke = copy
            continue
        if invoke is not None:
            m = re.match(r"^\s+to label %(\S+) unwind", ln)
            if not m:
                raise ExtractionError("unexpected form of an invoke: " + ln)
            pend.setdefault(m.group(1), []).extend(invoke)
            invoke = None
        out.append(ln)
        m = re.match(r"^([\w.$-]+):", ln)
        if m and entry is not None and m.group(1) in pend:
            preds = ln.split("preds =")[1].split(",") if "preds =" in ln else []
            if len(preds) != 1:
                raise ExtractionError("shared continuation of a call: " + ln)
            out += pend.pop(m.group(1))
        if ln == "}":
            if pend:
                raise ExtractionError("unplaced continuation of a call")
            entry = None
    return "\n".join(out)


def emit_ir(relpath, extra=(), source=None):
    """returns IR text of /repo/<relpath> (or of an absolute path)"""
    path = relpath if os.path.isabs(relpath) else os.path.join(REPO, relpath)
    flags = include_flags() + ["-std=c++17", "-fno-math-errno", "-g0", "-w"] + list(extra)
    os.makedirs(CACHE, exist_ok=True)
    dig, _ = _digest(path, flags)
    out = os.path.join(CACHE, "ir_" + dig[:32] + ".ll")
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        r = _run(["clang++-18"] + flags + ["-O1", "-Xclang", "-disable-llvm-passes", "-S", "-emit-llvm", "-o", tmp, path])
        if r.returncode:
            raise ExtractionError("clang failed on %s:\n%s" % (relpath, r.stderr.decode()[-2000:]))
        with open(tmp) as f:
            text = f.read()
        if "_ZNK13Epetra_Vector11ExtractViewEPPd" in text:
            with open(tmp, "w") as f:
                f.write(split_views(text))
        r = _run(["opt-18", "-S", "-passes=" + PASSES, tmp, "-o", tmp + "2"])
        if r.returncode:
            raise ExtractionError("opt failed on %s:\n%s" % (relpath, r.stderr.decode()[-2000:]))
        os.replace(tmp + "2", out)
        os.unlink(tmp)
    with open(out) as f:
        return f.read()


_mods = {}


def module(relpath, extra=()):
    k = (relpath, tuple(extra))
    if k not in _mods:
        _mods[k] = ir.Module(emit_ir(relpath, extra))
    return _mods[k]


_dem = {}


def demangle(names):
    names = list(names)
    r = subprocess.run(["c++filt"], input="\n".join(names).encode(), stdout=subprocess.PIPE)
    return dict(zip(names, r.stdout.decode().split("\n")))


def find(mod, pattern, params=None):
    """functions whose demangled name contains `pattern` before '(' and whose
    parameter list contains no template AD type"""
    key = id(mod)
    if key not in _dem:
        _dem[key] = demangle(mod.fn_text.keys())
    d = _dem[key]
    res = []
    for n, dn in d.items():
        head = dn.split("(")[0]
        h2 = head.split("<")[0].split(" ")[-1]
        if h2 == pattern or h2.endswith("::" + pattern):
            res.append((n, dn))
    if params is not None:
        res = [(n, dn) for n, dn in res if params(dn)]
    return res
