"""check.py <property> [quick|thorough]: decide one property on /repo's current working tree.

Dumps the MIR of the program from /repo, executes every instruction the property speaks about
symbolically (all paths), generates the property's clauses of spec.py on each path and discharges them.
Exit 0: every obligation discharged.  Exit 1 with a VIOLATION line otherwise.  Exit 2: no answer.
"""
import inspect
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
EVID = os.environ.get("EVID", os.path.join(VERIF, "evidence"))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

import mir
import run
import spec
import prover as prv
import props as PR
import conc
import fspec
import z3
from vexec import Unsupported


def tags_of(fn, seen=None):
    """property ids a specification function (or one it calls) mentions"""
    seen = seen if seen is not None else set()
    if fn in seen:
        return set()
    seen.add(fn)
    src = inspect.getsource(fn)
    out = set(re.findall(r"\bC\d\d\b", src))
    for n in set(re.findall(r"\b([a-z_0-9]+)\(", src)):
        g = getattr(spec, n, None)
        if inspect.isfunction(g) and g.__module__ == "spec":
            out |= tags_of(g, seen)
    return out


def instructions_for(prop):
    out = []
    for ix in spec.SPECS:
        t = tags_of(spec.SPECS[ix])
        if ix in spec.ELIG:
            t |= tags_of(spec.ELIG[ix])
        if prop in t:
            out.append(ix)
    return out


def unit_ix(P, ix, prop, q, procs, ctl):
    t0 = time.time()
    try:
        out, stats, info = run.decide(P, ix, {prop}, procs, ctl)
        kinds = info["kinds"]
        names = {}
        for o in out:
            for n in o[5]:
                names[n] = names.get(n, 0) + 1
        bad = []
        for o in out:
            for b in o[3]:
                bad.append({"path": o[0], "kind": o[1], "clause": b[0], "goal": b[1], "status": b[2], "model": b[3]})
        local = sorted({P.insts[k].defn for k in info["inlined"] if P.insts[k].local})
        q.put({"unit": ix, "paths": info["paths"], "kinds": kinds, "clauses": names, "bad": bad, "stats": stats, "live": info["live"],
               "functions": local, "contracts": sorted(info["contracts"]),
               "builtins": sorted(info["builtins"]), "loops": sorted(info["loops"]),
               "incomplete": {k: v for k, v in kinds.items() if k not in ("ok", "err", "panic")},
               "cpu_exec_s": round(info["times"][0], 2), "cpu_prove_s": round(info["times"][1], 2), "wall_s": round(time.time() - t0, 2)})
    except Unsupported as e:
        q.put({"unit": ix, "error": "unsupported: %s" % e})
    except BaseException:
        q.put({"unit": ix, "error": traceback.format_exc()[-2500:]})


def run_units(P, ixs, prop, ctl):
    q = mp.Queue()
    ps = []
    procs = 8 if len(ixs) <= 2 else 4
    order = sorted(ixs, key=lambda s: s not in ("initialize_presale", "deposit", "claim"))
    for ix in order:
        p = mp.Process(target=unit_ix, args=(P, ix, prop, q, procs, ctl))
        p.start()
        ps.append(p)
    out = []
    while len(out) < len(ps):
        try:
            out.append(q.get(timeout=5))
        except Exception:
            if not any(p.is_alive() for p in ps) and q.empty():
                break
    for p in ps:
        p.join()
    got = {o["unit"] for o in out}
    for ix in ixs:
        if ix not in got:
            out.append({"unit": ix, "error": "worker died"})
    return sorted(out, key=lambda o: o["unit"])


def search_main(P, ixs, prop, seconds, procs, seed, ctl, q, hints=()):
    """concrete executions of the real program, judged by the property's clauses"""
    try:
        t0 = time.time()
        ok, msg = conc.build()
        if not ok:
            q.put({"error": "harness does not build: " + msg[-600:]})
            return
        b = time.time() - t0
        hits, per = conc.search(P, ixs, {prop}, seconds, procs, seed, hints=hints)
        if hits and ctl is not None:
            ctl.hasten(60)
        q.put({"hits": hits, "per": per, "build_s": round(b, 1), "search_s": seconds})
    except BaseException:
        q.put({"error": traceback.format_exc()[-1500:]})


def start_search(*a):
    q = mp.Queue()
    p = mp.Process(target=search_main, args=a[:7] + (q,) + a[7:])
    p.start()
    return p, q


def end_search(pq):
    p, q = pq
    r = {"error": "search died"}
    while True:
        try:
            r = q.get(timeout=5)
            break
        except Exception:
            if not p.is_alive() and q.empty():
                break
    p.join()
    return r


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    quick = tier == "quick"
    t0 = time.time()
    ctl = run.Ctl(t0 + (500 if quick else 720))
    dump = os.environ.get("DUMP")
    dd = None
    if not dump:
        dd = os.path.join(os.environ.get("VBUILD", os.path.join(VERIF, ".build")), "dump-%s-%d" % (prop, os.getpid()))
        r = subprocess.run([os.path.join(VERIF, "build.sh"), dd])
        if r.returncode != 0:
            print("cannot build /repo's working tree for verification")
            return 2
        dump = os.path.join(dd, "presale.json")
    assert conc.find_pda([b"presale_authority"]) == spec.AUTHORITY_KEY
    P = mir.Program(dump)
    if dd:
        subprocess.run(["rm", "-rf", dd])
    ixs = instructions_for(prop)
    pq = start_search(P, ixs, prop, 12 if quick else 120, 3, seed, ctl) if ixs else None
    units = run_units(P, ixs, prop, ctl) if ixs else []
    for name, fn in PR.EXTRA.get(prop, ()):
        try:
            units.append(fn(P, prop, tier))
        except Unsupported as e:
            units.append({"unit": name, "error": "unsupported: %s" % e})
        except Exception:
            units.append({"unit": name, "error": traceback.format_exc()[-2500:]})
    first = end_search(pq) if pq else {}
    runs = [first]
    hits = list(first.get("hits", ()))
    bounded = [u["unit"] for u in units if "error" in u or u.get("incomplete")]
    failed = [u["unit"] for u in units if u.get("bad")]
    todo = [ix for ix in ixs if ix in bounded or ix in failed]
    if todo and not hits and "error" not in first:
        hints = []
        for u in units:
            for b in u.get("bad", ()):
                if b["model"] and u["unit"] in ixs and len(hints) < 40:
                    hints.append((u["unit"], b["model"]))
        left = (820 if quick else 860) - (time.time() - t0)
        r = end_search(start_search(P, todo, prop, max(20, min(75 if quick else 200, left)), 8, seed + 1, None, hints))
        runs.append(r)
        hits += r.get("hits", ())
    for u in units:
        hits += u.get("hits", ())
        if u["unit"] == "functions" and u.get("bad"):
            hits += fspec.replay(P, prop, u["bad"])
    return report(prop, tier, seed, units, time.time() - t0, hits, runs, [ix for ix in ixs if ix in bounded])


def report(prop, tier, seed, units, wall, hits=(), runs=(), standin=()):
    per = {}
    for r in runs:
        for k, v in r.get("per", {}).items():
            x = per.setdefault(k, {"executions": 0, "successful": 0})
            x["executions"] += v[0]
            x["successful"] += v[1]
    serr = [r["error"] for r in runs if "error" in r]
    # an instruction the executor cannot handle is decided by bounded execution only
    standin = [ix for ix in standin if per.get(ix, {}).get("successful", 0) >= 50 and not hits]
    errors = [u for u in units if "error" in u and u["unit"] not in standin]
    good = [u for u in units if "error" not in u]
    nob = sum(sum(u["clauses"].values()) for u in good)
    viol = []
    for u in good:
        if not u.get("live", True):
            viol.append((u, {"clause": "the instruction can succeed at all", "status": "vacuous", "goal": "", "model": None, "path": None}))
        seen = set()
        for b in sorted(u["bad"], key=lambda b: b["status"] == "timeout"):
            if b["clause"] not in seen:
                seen.add(b["clause"])
                viol.append((u, b))
    if any(b["status"] != "timeout" for _, b in viol):
        viol = [x for x in viol if x[1]["status"] != "timeout"]
    nbad = sum(len(u["bad"]) for u in good)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof", "wall_s": round(wall, 2),
        "violations": len(viol) + len(hits),
        "assumptions": PR.ASSUMPTIONS,
        "coverage": {
            "obligations": nob, "discharged": nob - nbad,
            "checker_cmd": "python3-vt engine/check.py %s %s" % (prop, tier),
            "trusted_base": PR.TRUSTED,
            "units": [{k: u.get(k) for k in ("unit", "paths", "kinds", "cpu_exec_s", "cpu_prove_s", "wall_s", "loops", "contracts", "incomplete")} for u in good],
            "functions_under_contract": sorted({f for u in good for f in u.get("functions", ())}),
            "assumed_contracts_used": sorted({f for u in good for f in u.get("builtins", ())})[:400],
            "solver": merge([u.get("stats", {}) for u in good]),
            "distinct_clauses": sorted({"%s: %s" % (u["unit"], n) for u in good for n in u["clauses"]})[:400],
            "not_decided": [{"unit": u["unit"], "reason": u["error"][:400]} for u in errors],
            "bounded_stand_ins": [{"unit": ix, "bound": "random executions of the real program judged by the clauses", **per.get(ix, {})} for ix in standin]
            + [{"unit": u["unit"], "bound": u["bounded"]} for u in good if u.get("bounded")]
            + [{"unit": ix + ": no arithmetic refusal or panic when eligible on a consistent ledger", "bound": "random executions of the real program", **per.get(ix, {})}
               for ix in spec.ARITH if prop in re.findall(r"\bC\d\d\b", inspect.getsource(spec.ARITH[ix]))],
            "skipped_units": [{"unit": u["unit"], "reason": u["skipped"]} for u in good if u.get("skipped")],
            "cross_check_on_real_executions": per,
            "cross_check_errors": serr,
        },
    }
    os.makedirs(EVID, exist_ok=True)
    rc = 0
    lines = []
    if viol or hits:
        rdir = os.path.join(EVID, "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, prop + ".json")
        json.dump({"property": prop,
                   "failed_obligations": [{"unit": u["unit"], "obligation": b["clause"], "status": b["status"], "path": b["path"], "goal": b["goal"],
                                           "model": b["model"]} for u, b in viol],
                   "failing_inputs": [{"instruction": h[0], "violated": h[1], "succeeded": h[3], "error_code": h[4], "scenario": json.loads(h[2])} for h in hits[:3]],
                   "replay_cmd": "python3-vt engine/conc.py --replay %s" % os.path.relpath(path, VERIF)}, open(path, "w"), indent=1)
        for u, b in viol[:20]:
            print("  failed obligation: %s / %s (%s)" % (u["unit"], b["clause"], b["status"]))
        for h in hits[:3]:
            print("  failing input on the real program: %s violates %s" % (h[0], "; ".join(h[1][:4])))
        lines.append("VIOLATION property=%s replay=%s%s" % (prop, os.path.relpath(path, VERIF), "" if hits else " no-failing-input-found"))
        rc = 1
    for ix in standin:
        print("  %s is outside the verifier's reach on this tree: bounded check by %d executions" % (ix, per[ix]["executions"]))
    if serr:
        print("  no executions: " + serr[0].strip().splitlines()[-1])
    if errors:
        for u in errors:
            print("  no answer on %s: %s" % (u["unit"], u["error"].strip().splitlines()[-1]))
        if rc == 0:
            rc = 2
    inc = [u for u in good if u.get("incomplete") and u["unit"] not in standin]
    if inc:
        for u in inc:
            print("  incomplete exploration of %s: %s" % (u["unit"], u["incomplete"]))
        if rc == 0:
            rc = 2
    if nob == 0 and rc == 0 and not standin:
        print("  no obligation was generated")
        rc = 2
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    print("%s: %d obligations, %d discharged, %d units, %.1f s" % (prop, nob, nob - nbad, len(units), wall))
    for l in lines:
        print(l)
    return rc


def merge(ds):
    o = {}
    for d in ds:
        for k, v in d.items():
            o[k] = round(o.get(k, 0) + v, 2)
    return o


if __name__ == "__main__":
    sys.exit(main())
