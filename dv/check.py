"""Command line: python3-vt -m dv.check C01 --tier quick"""
import argparse
import ctypes
import importlib
import json
import multiprocessing
import os
import re
import sys
import signal
import time
import traceback

sys.setrecursionlimit(20000)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

GENERAL = [
    "IEEE double arithmetic is treated as exact real arithmetic; integers as mathematical integers (no overflow)",
    "the clang-18 front end and the SSA-construction passes named in dv/extract.py translate the source faithfully",
    "division by zero, square roots of negative numbers, aborts and C++ exceptions are outside the contracts (such executions are excluded)",
    "distinct pointer arguments / distinct fields do not alias; neighbourhood lists hold valid local ids other than the point itself",
    "only the double instantiation of templated kernels is evaluated (the automatic-differentiation instantiation is the same template)",
    "the evaluator and normal-form prover of /verif/dv and the z3/cvc5 solvers are trusted",
]


def _prove(args):
    mod, i = args
    try:
        c = importlib.import_module(mod).CONTRACTS[i]
        from . import prove
        for k in prove.STATS:
            prove.STATS[k] = 0
        t = time.time()
        if CUR is not None:
            c.partial = lambda r: CUR.send(("partial", r))
        r = c.prove()
        r["wall"] = time.time() - t
        r["stats"] = dict(prove.STATS)
        return r
    except Exception as e:
        from .extract import ExtractionError
        if isinstance(e, ExtractionError):
            return {"contract": "?", "obs": [], "functions": [], "assumed": [], "error": "extraction: %s" % e, "fatal": True}
        return {"contract": importlib.import_module(mod).CONTRACTS[i].name, "obs": [], "functions": [], "assumed": [],
                "error": "internal: %s" % traceback.format_exc()[-600:]}


def _replay(args):
    mod, i, seed, cases = args
    c = importlib.import_module(mod).CONTRACTS[i]
    try:
        return c.replay(seed, cases)
    except Exception:
        return {"contract": c.name, "ran": 0, "checked": 0, "failure": None, "error": traceback.format_exc()[-600:]}


CUR = None


def _child(fn, arg, q, mem, cpu):
    global CUR
    import resource
    os.setpgid(0, 0)
    ctypes.CDLL(None).prctl(1, signal.SIGKILL, 0, 0, 0)     # ends with the check
    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu))     # also ends programs under test that run on
    CUR = q
    try:
        r = fn(arg)
    except MemoryError:
        r = None
    q.send(r)
    q.close()


def run_all(ctx, fn, args, budget, default, j, deadline):
    """one process per item, each with its own time and memory limit"""
    out = [None] * len(args)
    live, part = {}, {}
    nxt = 0
    while nxt < len(args) or live:
        while nxt < len(args) and len(live) < j:
            rx, tx = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(fn, args[nxt], tx, 7 << 30, int(budget) + 60))
            p.start()
            tx.close()
            live[nxt] = (p, rx, time.time())
            nxt += 1
        for k in list(live):
            p, rx, t = live[k]
            done = False
            if rx.poll(0):
                try:
                    r = rx.recv()
                    if isinstance(r, tuple) and r[0] == "partial":
                        part[k] = r[1]
                        continue
                    out[k] = r
                except EOFError:
                    pass
                done = True
            elif not p.is_alive() or time.time() - t > budget or time.time() > deadline:
                done = True
            if done:
                if p.is_alive():
                    p.join(0.2)
                    p.kill()
                p.join()
                try:        # whatever it started goes with it
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                rx.close()
                if out[k] is None:
                    out[k] = part.get(k) or default(k, time.time() - t)
                del live[k]
        time.sleep(0.02)
    return out


def known_findings():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("known: "):
                # known: property=C01 contract=<name> obligation=<name> | text
                head, _, txt = ln[7:].partition(" | ")
                m = re.match(r"property=(\S+)(?: contract=(.*?))?(?: obligation=(.*))?$", head.strip())
                d = {k: v for k, v in zip(("property", "contract", "obligation"), m.groups()) if v}
                d["text"] = txt
                out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--no-replay", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    prop = a.prop
    modname = "props.%s" % prop.lower()
    mod = importlib.import_module(modname)
    C = mod.CONTRACTS
    sel = [i for i, c in enumerate(C) if not a.only or a.only in c.name]
    known = [k for k in known_findings() if k.get("property") == prop]
    # warm the extraction cache once per translation unit before forking
    ctx = multiprocessing.get_context("fork")
    quick = a.tier == "quick"
    budget = a.budget or (150 if quick else 1500)
    dl = t0 + (480 if quick else 5400)
    res = run_all(ctx, _prove, [(modname, i) for i in sel], budget,
                  lambda k, t: {"contract": C[sel[k]].name, "obs": [], "functions": [], "assumed": [], "error": "verification stopped after %.0f s (time or memory budget)" % t},
                  a.j, dl)
    cases = None if quick else 60
    todo = [] if a.no_replay else [(modname, i, seed, cases) for i in sel]
    # obligations that did not go through get more concrete cases
    for n, (i, r) in enumerate(zip(sel, res)):
        bad = r["error"] or any(o["status"] != "discharged" for o in r["obs"])
        if bad and not a.no_replay:
            todo[n] = (modname, i, seed, max(cases or 0, 40))
    rep = run_all(ctx, _replay, todo, 200 if quick else 1500,
                  lambda k, t: {"contract": C[sel[k]].name, "ran": 0, "checked": 0, "failure": None, "error": "concrete runs stopped after %.0f s" % t},
                  a.j, t0 + (780 if quick else 9000)) if todo else [None] * len(sel)
    fatal = [r for r in res + rep if r and r.get("fatal")]
    if fatal:
        print("ERROR: " + fatal[0]["error"])
        return 2
    viol = []
    und = []
    nobs = ndis = 0
    backends = {}
    funcs, assumed = set(), set()
    bounded = []
    for i, r, p in zip(sel, res, rep):
        c = C[i]
        funcs |= set(r["functions"])
        assumed |= set(r["assumed"])
        for o in r["obs"]:
            nobs += 1
            if o["status"] == "discharged":
                ndis += 1
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
        bad = [o for o in r["obs"] if o["status"] == "refuted"]
        un = [o for o in r["obs"] if o["status"] == "undecided"]
        if not r["obs"] and not r["error"]:
            r["error"] = "no obligations were generated"
        fail = p["failure"] if p else None
        crash = p and p.get("crash", 0) > 2
        for o in list(bad):
            k = [k for k in known if k.get("contract") in (c.name, "*") and k.get("obligation") in (o["name"], "*")]
            if k:
                bad.remove(o)
                print("KNOWN-FINDING: property=%s %s/%s %s" % (prop, c.name, o["name"], k[0]["text"]))
        if fail is not None:
            k = [k for k in known if k.get("contract") in (c.name, "*") and k.get("obligation") in (fail["obligation"], "*")]
            if k:
                print("KNOWN-FINDING: property=%s %s/%s %s" % (prop, c.name, fail["obligation"], k[0]["text"]))
                fail = None
        if fail is not None:
            viol.append((c, bad, fail, p))
        elif crash:
            viol.append((c, bad, dict(obligation="returns normally", at={}, value=p["error"]), p))
        elif bad:
            viol.append((c, bad, None, p))
        if r["error"] or un:
            b = "contract %s: %s; bounded stand-in: %s random inputs on the compiled code, %s obligation instances checked" % (
                c.name, r["error"] or "undecided " + ", ".join(o["name"] for o in un), p["ran"] if p else 0, p["checked"] if p else 0)
            und.append(b)
            bounded.append(b)
        if a.v:
            print("%-50s %3d obs  %s  eval %.1fs wall %.1fs %s" % (c.name, len(r["obs"]), "ERR " + r["error"] if r["error"] else "ok", r.get("eval_s", 0), r.get("wall", 0),
                  "" if not p else "conc ran=%d checked=%d %s %s" % (p["ran"], p["checked"], "FAIL %s" % {k: v for k, v in p["failure"].items() if k not in ("case", "outputs")} if p["failure"] else "", "err=" + p["error"] if p["error"] else "")))
            for o in r["obs"]:
                if o["status"] != "discharged" or a.v > 1:
                    print("     %-10s %s [%s] %.1fs %s" % (o["status"], o["name"], o["backend"], o["t"], o["detail"][:700]))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    code = 0
    vlist = []
    for n, (c, bad, fail, p) in enumerate(viol):
        path = os.path.join("replays", "%s-%d.json" % (prop, n))
        with open(os.path.join(VERIF, path), "w") as f:
            json.dump({"property": prop, "contract": c.name, "failed_obligations": bad, "failing_input": fail,
                       "how_to_replay": "cd /verif && VERIF_SEED=%d python3-vt -m dv.check %s --only '%s' -v" % (seed, prop, c.name),
                       "concrete_runs": None if p is None else {k: v for k, v in p.items() if k != "failure"}}, f, indent=1)
        ob = fail["obligation"] if fail else bad[0]["name"]
        print("  failed obligation: %s / %s%s" % (c.name, ob, "" if not fail else " at %s: %s" % (fail["at"], fail["value"])))
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if fail else " no-failing-input-found"))
        vlist.append({"contract": c.name, "obligation": ob, "replay": path, "failing_input": bool(fail)})
        code = 1
    st = {}
    for r in res:
        for k, v in r.get("stats", {}).items():
            st[k] = st.get(k, 0) + v
    ev = {
        "property": prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed, "level": getattr(mod, "LEVEL", "proof"),
        "coverage": {
            "obligations": nobs, "discharged": ndis,
            "checker_cmd": "python3-vt -m dv.check %s --tier %s" % (prop, a.tier),
            "trusted_base": GENERAL,
            "contracts": len(sel), "functions_under_contract": sorted(funcs)[:400], "n_functions": len(funcs),
            "discharged_by": backends, "solver_s": round(st.get("z3_time", 0) + st.get("int_time", 0), 3),
            "z3_queries": st.get("z3", 0) + st.get("int_queries", 0),
            "undecided_or_bounded": bounded, "violation_list": vlist,
            "conformance_runs": sum(p["ran"] for p in rep if p), "conformance_instances": sum(p["checked"] for p in rep if p),
        },
        "assumptions": sorted(assumed) + list(getattr(mod, "ASSUMPTIONS", [])),
        "violations": len(vlist),
        "wall_s": round(time.time() - t0, 2),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d contracts, %d obligations, %d discharged, %d undecided/bounded, %d violations, %.1fs" % (prop, len(sel), nobs, ndis, len(und), len(vlist), time.time() - t0))
    return code


if __name__ == "__main__":
    sys.exit(main())
