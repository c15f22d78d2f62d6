"""Contracts of single functions (properties C24, C25): postconditions on the returned value and on refusals.

A contract gets the argument terms and returns (ok, value): the call must return Ok exactly when `ok` holds,
and then with the value (a term, or a tuple of terms for the fields of a struct).  A panic is never allowed.
Functions a tree does not have (or has with another signature) are not looked at: the instruction contracts
of spec.py cover their callers.
"""
import json
import re
import time
import z3
import vexec
from vexec import *
import vbuiltins
import prover as prv
import spec
from sym import *

INTS = {"u8": (0, (1 << 8) - 1), "u16": (0, (1 << 16) - 1), "u32": (0, (1 << 32) - 1), "u64": (0, (1 << 64) - 1), "u128": (0, (1 << 128) - 1),
        "usize": (0, (1 << 64) - 1), "i32": (-(1 << 31), (1 << 31) - 1), "i64": (-(1 << 63), (1 << 63) - 1), "i128": (-(1 << 127), (1 << 127) - 1)}
BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64, "i32": 32, "i64": 64, "i128": 128}


def fits(t, v):
    lo, hi = INTS[t]
    return land(le(lo, v), le(v, hi))


def arith(op, t):
    signed = t[0] == "i"

    def f(a, b):
        if op == "add":
            return fits(t, add(a, b)), add(a, b)
        if op == "sub":
            return fits(t, sub(a, b)), sub(a, b)
        if op == "mul":
            return fits(t, mul(a, b)), mul(a, b)
        # division: the divisor is a case (sign) so that the terms stay simple
        if not signed:
            return lnot(eq(b, 0)), (fdiv(a, b) if op == "div" else fmod(a, b))
        okk = land(lnot(eq(b, 0)), lnot(land(eq(a, INTS[t][0]), eq(b, -1))))
        q = tdiv(a, b)
        return okk, (q if op == "div" else sub(a, mul(q, b)))
    return f


# ---------------------------------------------------------------------------- formulas
def fee_included(n, r, up):
    d = sub(10000, r)
    x = mul(n, 10000)
    t = fdiv(add(x, sub(d, 1)), d) if up else fdiv(x, d)
    return land(lt(r, 10000), le(t, spec.U64)), (sub(t, n), t)


def immediate(total, bps):
    v = fdiv(mul(total, bps), 10000)
    return le(v, total), (v, sub(total, v))


def share(amount, dep, tot):
    v = fdiv(mul(amount, dep), tot)
    return land(lt(0, tot), le(v, spec.U64)), v


def dripped(start, dur, now, vested, dep, tot):
    el = imin(sub(now, start), dur)
    rel = ite(eq(dur, 0), vested, fdiv(mul(vested, el), dur))
    v = fdiv(mul(rel, dep), tot)
    return lor(lt(now, start), lt(0, tot)), ite(lt(now, start), 0, v)


def cumulative(bps, imm_t, sold, start, dur, now, dep, tot):
    """both parts of the release, each rounded down"""
    part, (imm, vested) = immediate(sold, bps)
    _, a = share(imm, dep, tot)
    _, d = dripped(start, dur, now, vested, dep, tot)
    a = ite(le(imm_t, now), a, 0)
    none = lor(eq(dep, 0), eq(tot, 0))
    okk = lor(none, land(part, le(a, spec.U64), le(d, spec.U64), le(add(a, d), spec.U64)))
    return okk, ite(none, 0, add(a, d))


def bought(q, a):
    return lt(0, q), fdiv(mul(a, 1 << 64), q)


def min_quote(q):
    v = cdiv(q, 1 << 64)
    return le(v, spec.U64), v


CM = "presale::math::claim_math::"
FP = "presale::presale_mode_handler::fixed_price_presale::"
FORMULAS = [
    # (definition, argument types, property, contract)
    (CM + "calculate_immediate_release_token", ["u64", "u16"], "C24", immediate),
    (CM + "calculate_immediate_release_token_for_user", ["u64", "u64", "u64"], "C24", share),
    (CM + "calculate_dripped_amount_for_user", ["u64"] * 6, "C24", dripped),
    (CM + "calculate_cumulative_claimable_amount_for_user", ["u16"] + ["u64"] * 7, "C24 C06", cumulative),
    (FP + "calculate_token_bought", ["u128", "u64"], "C25 C24", bought),
    (FP + "calculate_min_quote_amount_for_base_lamport", ["u128"], "C25 C24", min_quote),
]


class Fn:
    def __init__(self, inst, props, args, contract, name):
        self.inst, self.props, self.args, self.contract, self.name = inst, props, args, contract, name


def argtypes(P, inst):
    return [P.types[inst.body.locals[i]].s if hasattr(P.types[inst.body.locals[i]], "s") else str(P.types[inst.body.locals[i]]) for i in range(1, inst.body.argc + 1)]


def functions(P, prop):
    out = []
    for inst in P.insts.values():
        if not (inst.local and inst.has_body):
            continue
        m = re.match(r"<(\w+) as presale::math::safe_math::SafeMath<u32>>::safe_(add|sub|mul|div|rem|shl|shr)$", inst.defn)
        if m and m.group(1) in INTS:
            if prop == "C24":
                out.append(Fn(inst, "C24", [m.group(1), "u32" if m.group(2).startswith("sh") else m.group(1)], (m.group(2), m.group(1)), inst.defn))
            continue
        m = re.match(r"<(\w+) as presale::math::safe_math::SafeCast<(\w+)>>::safe_cast$", inst.defn)
        if m and m.group(1) in INTS and m.group(2) in INTS:
            if prop == "C24":
                t = m.group(2)
                out.append(Fn(inst, "C24", [m.group(1)], lambda a, t=t: (fits(t, a), a), inst.defn))
            continue
        m = re.match(r"<u8 as presale::math::safe_math::SafeCast<presale::state::presale::(\w+)>>::safe_cast$", inst.defn)
        if m and prop == "C24":
            n = {"WhitelistMode": 3, "PresaleMode": 3, "BoolType": 2}.get(m.group(1))
            if n:
                out.append(Fn(inst, "C24", ["u8"], lambda a, n=n: (lt(a, n), ("variant", a)), inst.defn))
            continue
        for d, ts, props, con in FORMULAS:
            if inst.defn == d and argtypes(P, inst) == ts and prop in props.split():
                out.append(Fn(inst, props, ts, con, inst.defn))
        if inst.defn == "presale::math::fee_math::calculate_deposit_fee_included_amount" and prop in ("C24", "C03"):
            ts = argtypes(P, inst)
            if len(ts) == 3 and ts[:2] == ["u64", "u16"]:
                for v in (0, 1):
                    out.append(Fn(inst, "C24 C03", ts[:2] + [v], lambda n, r, v=v: fee_included(n, r, v == 0), inst.defn + (" rounding up" if v == 0 else " rounding down")))
    return out


def pinned(pr, pc, b):
    """[k] when the path condition forces b == k"""
    if isinstance(b, int):
        return [b]
    sv = z3.Solver()
    sv.set("timeout", 2000)
    for c in pc:
        sv.add(conv(c))
    if sv.check() != z3.sat:
        return []
    k = sv.model().eval(b, model_completion=True).as_long()
    sv.add(b != k)
    return [k] if sv.check() == z3.unsat else []


def cases_of(fn, args, pr, pc):
    """sign and shift cases keep the terms linear or simple; together they cover all arguments"""
    con = fn.contract
    if not isinstance(con, tuple):
        return [((), con)]
    op, t = con
    a, b = args
    if op in ("shl", "shr"):
        w = BITS[t]
        out = [((le(w, b),), lambda x, y: (False, 0))]
        for k in range(w):
            if op == "shr":
                f = lambda x, y, k=k: (True, fdiv(x, 1 << k))
            elif t[0] == "u":
                f = lambda x, y, k=k: (True, fmod(mul(x, 1 << k), 1 << w))
            else:
                def f(x, y, k=k):
                    r = fmod(mul(x, 1 << k), 1 << w)
                    return True, ite(le(1 << (w - 1), r), sub(r, 1 << w), r)
            out.append(((eq(b, k),), f))
        for k in pinned(pr, pc, b):
            return [((eq(b, k),), out[k + 1][1])] if k < w else out[:1]
        return out
    return [((), arith(op, t))]


def run_fn(P, fn):
    """all paths of one function: [(kind, pc, value)]"""
    ex = Exec(P, vbuiltins.B, {}, max_visits=8)
    args, terms = [], []
    for i, t in enumerate(fn.args):
        if isinstance(t, int):
            args.append(Agg((), t))
        else:
            v = mkint("arg%d!%s" % (i, fn.name), *INTS[t])
            args.append(v)
            terms.append(v)
    st = ex.start(fn.inst, args)
    res = []
    ex.run(st, res.append)
    out = []
    for r in res:
        if r.kind == "return":
            v = ex.force(r.info)
            out.append(("ok" if v.v == 0 else "err", list(r.pc), ex.force(v.f[0]) if v.v == 0 else None))
        else:
            out.append((r.kind, list(r.pc), r.info))
    return ex, terms, out


def goal(ex, want, v):
    if isinstance(want, tuple) and isinstance(want[0], str):
        d = v.v if isinstance(v, Agg) else v.d if isinstance(v, SymEnum) else None
        return eq(d, want[1]) if d is not None else False
    if isinstance(want, tuple):
        return land(*[eq(ex.force(x), w) for x, w in zip(v.f, want)])
    return eq(v, want)


def unit(P, prop, tier):
    t0 = time.time()
    pr = prv.Prover()
    pr.deadline = t0 + (300 if tier == "quick" else 600)
    clauses, bad, fns, kinds = {}, [], [], {}
    for fn in functions(P, prop):
        ex, terms, res = run_fn(P, fn)
        fns.append(fn.inst.defn)
        for j, (k, pc, v) in enumerate(res):
            kinds[k] = kinds.get(k, 0) + 1
            for assume, con in cases_of(fn, terms, pr, pc):
                if assume and pr.check(pc + list(assume), ms=2000) == z3.unsat:
                    continue
                okk, want = con(*terms)
                if k == "ok":
                    cl = [("%s: succeeds only within range" % fn.name, okk), ("%s: exact result" % fn.name, goal(ex, want, v))]
                elif k == "err":
                    cl = [("%s: fails only when the result does not fit" % fn.name, lnot(okk))]
                else:
                    cl = [("%s: does not panic" % fn.name, False)]
                for n, _ in cl:
                    clauses[n] = clauses.get(n, 0) + 1
                for n, g, s, m in pr.prove_all(pc + list(assume), cl):
                    md = None
                    if m is not None:
                        md = {d.name(): m[d].as_long() for d in m.decls() if d.arity() == 0 and z3.is_int_value(m[d])}
                    bad.append({"path": j, "kind": k, "clause": n, "goal": str(g)[:600], "status": s, "model": md})
    return {"unit": "functions", "paths": sum(kinds.values()), "kinds": kinds, "clauses": clauses, "bad": bad, "stats": dict(prv.STAT), "live": True,
            "functions": sorted(set(fns)), "contracts": [], "builtins": [], "loops": [],
            "incomplete": {k: v for k, v in kinds.items() if k not in ("ok", "err", "panic")}, "cpu_prove_s": round(time.time() - t0, 2), "wall_s": round(time.time() - t0, 2)}


def value_text(want):
    if isinstance(want, tuple):
        return ",".join(str(w) for w in (want[1:] if isinstance(want[0], str) else want))
    return str(want)


def replay(P, prop, bad):
    """run the function on the verifier's counterexamples; returns the ones the real code fails on"""
    import conc
    fns = {f.name: f for f in functions(P, prop)}
    hits = []
    ok, _ = conc.build("fncall")
    if not ok:
        return hits
    for b in bad:
        fn = fns.get(b["clause"].rsplit(": ", 1)[0])
        if fn is None or not b["model"]:
            continue
        vals, k = [], 0
        for i, t in enumerate(fn.args):
            if not isinstance(t, int):
                x = [v for n, v in b["model"].items() if n == "arg%d" % i or n.startswith("arg%d!" % i)]
                vals.append(x[0] if x else INTS[t][0] if INTS[t][0] == 0 else 0)
        exp = None
        for assume, con in cases_of(fn, vals, None, ()):
            if all(assume):
                exp = con(*vals)
        if exp is None:
            continue
        exp = value_text(exp[1]) if exp[0] else "error"
        got = conc.fncall(fn.name, vals)
        if got is not None and got != exp:
            hits.append(("functions", ["%s(%s) = %s, should be %s" % (fn.name, ", ".join(map(str, vals)), got, exp)],
                         json.dumps({"function": fn.name, "arguments": [str(v) for v in vals]}), got not in ("error", "panic"), None))
            if len(hits) >= 3:
                break
    return hits


if __name__ == "__main__":
    import sys, os, mir
    P = mir.Program(os.environ.get("DUMP"))
    for p in sys.argv[1:]:
        r = unit(P, p, "quick")
        print(p, {k: r[k] for k in ("paths", "kinds", "incomplete", "wall_s")}, "functions", len(r["functions"]), "obligations", sum(r["clauses"].values()))
        for b in r["bad"]:
            print("  BAD", b)
