"""Contract of parse_remaining_accounts_for_transfer_hook (property C20).

Each slice (kind, length) of the request, in order, takes the next `length` of the extra accounts for the hook of
its kind.  A slice of a kind the operation does not use is refused, an empty one is skipped, one longer than
what is left is refused, and so is a second one of the same kind.

The loop is cut at its head: the state (extra accounts left, accounts of the kind, position) is arbitrary, one
iteration is compared with the contract's step, and the exits with its end.  When the loop has another shape, the
same contract is decided for up to BOUND slices only, and the unit is reported as bounded.
"""
import time
import z3
import vexec
from vexec import *
import vbuiltins
import prover as prv
from sym import *

NAME = "presale::token2022::parse_remaining_accounts_for_transfer_hook"
BOUND = 3
KINDS = {0: "base", 1: "quote"}


class Shape(Exception):
    """the loop does not have the expected state"""


def setup(P, kind, k=None):
    inst = P.find(NAME)
    ex = Exec(P, vbuiltins.B, {}, max_visits=BOUND + 8)
    rty = P.types[inst.body.locals[1]]
    rem = ex.expand(Lazy(rty.d.get("to", rty.elem), "rem"))
    sty = P.types[inst.body.locals[2]]
    if k is None:
        sl = ex.expand(Lazy(inst.body.locals[2], "slices"))
    else:
        sl = Ptr(("px", "slices"), (("i", 0),), k)
    st = ex.start(inst, [Ptr(("px", "rem")), sl, Ptr(("px", "valid"), (("i", 0),), 1)])
    st.mem[("px", "rem")] = rem
    st.mem[("px", "valid")] = Agg([Agg((), kind)])
    items = []
    if k is not None:
        ety = P.types[sty.d.get("to", sty.elem)].elem
        for j in range(k):
            items.append(ex.expand(Lazy(ety, "s%d" % j)))
        st.mem[("px", "slices")] = Agg(items)
    res = []
    while True:
        try:
            ex.run(st.copy(), res.append)
            break
        except Restart:
            res.clear()
            ex.cut_stop = ()
    return ex, rem, items, res


def tag(ex, e):
    a = ex.force(e.f[0])
    return a.v if isinstance(a, Agg) else a.d


def pos(p):
    return p.path[-1][1]


def option(ex, v):
    """(present, first account, number)"""
    v = ex.force(v)
    if isinstance(v, Agg):
        if v.v == 0:
            return False, 0, 0
        p = ex.force(v.f[0])
        return True, pos(p), p.meta
    p = ex.force(v.vs[1].f[0])
    return eq(v.d, 1), pos(p), p.meta


def same_option(a, b):
    return land(eq(a[0], b[0]), implies(a[0], land(eq(a[1], b[1]), eq(a[2], b[2]))))


def result(ex, r, kind):
    if r.kind != "return":
        return r.kind, None, None
    v = ex.force(r.info)
    if v.v == 1:
        return "err", None, None
    s = ex.force(v.f[0])
    return "ok", option(ex, s.f[kind]), option(ex, s.f[1 - kind])


def bad_slice(t, l, kind, has, left):
    return lor(lnot(eq(t, kind)), land(lt(0, l), lor(lt(left, l), has)))


def bounded(P, kind, goals):
    for k in range(BOUND + 1):
        ex, rem, items, res = setup(P, kind, k)
        n, o, cur, wrong = rem.meta, pos(rem), (False, 0, 0), False
        for e in items:
            t, l = tag(ex, e), ex.force(e.f[1])
            wrong = lor(wrong, bad_slice(t, l, kind, cur[0], sub(n, o)))
            take = lt(0, l)
            cur = (lor(cur[0], take), ite(take, o, cur[1]), ite(take, l, cur[2]))
            o = add(o, l)
        for r in res:
            what, mine, other = result(ex, r, kind)
            pc = list(r.pc)
            w = "%s hook accounts, %d slices: " % (KINDS[kind], k)
            if what == "ok":
                left = ex.force(r.st.mem[("px", "rem")])
                goals.append((pc, w + "accepted only when well formed", lnot(wrong)))
                goals.append((pc + [lnot(wrong)], w + "the accounts named", same_option(cur, mine)))
                goals.append((pc + [lnot(wrong)], w + "nothing for the other hook", lnot(other[0])))
                goals.append((pc + [lnot(wrong)], w + "the rest is left", land(eq(pos(left), o), eq(left.meta, sub(n, o)))))
            elif what == "err":
                goals.append((pc, w + "refused only when ill formed", wrong))
            else:
                goals.append((pc, w + "no panic", False))
        yield ex, res


def inductive(P, kind, goals):
    ex, rem, _, res = setup(P, kind)
    N = mkint("slices.len", 0, 1 << 62)
    w = "%s hook accounts, any number of slices: " % KINDS[kind]
    if len(ex.loops) != 1:
        raise Shape()
    (nm, L), = ex.loops.items()
    roles = {}
    for k, v in L["sym"].items():
        if k[0] == ("px", "rem"):
            roles["rem"] = k
        elif isinstance(v, Ptr) and v.cell == ("lz", "slices"):
            roles["i"] = k
        elif isinstance(v, SymEnum):
            if "opt" in roles:
                raise Shape()
            roles["opt"] = k
        else:
            raise Shape()
    if set(roles) != {"rem", "i", "opt"}:
        raise Shape()
    s0 = L["sym"]
    I, M = L["sym"][roles["i"]], L["sym"][roles["rem"]]
    i, o, m = pos(I), pos(M), M.meta
    cur = option(ex, s0[roles["opt"]])
    t, l = mkint("slices[%s].accounts_type.tag" % i, 0, 1), mkint("slices[%s].length" % i, 0, 255)
    wrong = bad_slice(t, l, kind, cur[0], m)
    take = lt(0, l)
    i0, m0 = L["init"][roles["i"]], L["init"][roles["rem"]]
    goals.append(([], w + "starts at the first slice with all accounts", land(eq(pos(i0), 0), eq(pos(m0), pos(rem)), eq(m0.meta, rem.meta), lnot(option(ex, L["init"][roles["opt"]])[0]))))
    for pcs, up in L["steps"]:
        pc = list(pcs)
        a, b, c = up[roles["i"]], up[roles["rem"]], option(ex, up[roles["opt"]])
        goals.append((pc, w + "a step takes a slice only when well formed", land(lt(i, N), lnot(wrong))))
        goals.append((pc, w + "a step moves to the next slice", eq(pos(a), add(i, 1))))
        goals.append((pc, w + "a step takes the accounts named", same_option((lor(cur[0], take), ite(take, o, cur[1]), ite(take, l, cur[2])), c)))
        goals.append((pc, w + "a step leaves the rest", land(eq(pos(b), add(o, l)), eq(b.meta, sub(m, l)))))
    lit = z3.Bool(nm)
    for r in res:
        what, mine, other = result(ex, r, kind)
        pc = list(r.pc)
        through = any(is_sym(x) and x.eq(lit) for x in pc)
        if what == "err":
            goals.append((pc, w + "refused only at an ill-formed slice", land(lt(i, N), wrong) if through else False))
        elif what == "ok" and through:
            left = ex.force(r.st.mem[("px", "rem")])
            goals.append((pc, w + "ends after the last slice", eq(i, N)))
            goals.append((pc, w + "returns the accounts taken", same_option(cur, mine)))
            goals.append((pc, w + "returns nothing for the other hook", lnot(other[0])))
            goals.append((pc, w + "leaves the accounts not taken", land(eq(pos(left), o), eq(left.meta, m))))
        elif what == "ok":
            goals.append((pc, w + "without slices nothing is taken", land(eq(N, 0), lnot(mine[0]), lnot(other[0]))))
        else:
            goals.append((pc, w + "no panic", False))
    # the position never passes the end: it starts at 0 and moves by one while below the end
    inv = [le(i, N)]
    for j in range(len(goals)):
        pc, n, g = goals[j]
        if n.startswith(w):
            goals[j] = (pc + inv, n, g)
    return ex, res


def unit(P, prop, tier):
    t0 = time.time()
    pr = prv.Prover()
    pr.deadline = t0 + 240
    try:
        P.find(NAME)
    except Exception:
        return {"unit": "hook account parser", "skipped": "the function does not exist on this tree; its callers' code is executed instead", "paths": 0, "kinds": {},
                "clauses": {}, "bad": [], "stats": {}, "live": True, "functions": [], "contracts": [], "builtins": [], "loops": [], "incomplete": {}}
    goals, n, note, loops = [], 0, None, set()
    for kind in KINDS:
        for ex, res in bounded(P, kind, goals):
            n += len(res)
        g2 = []
        try:
            ex, res = inductive(P, kind, g2)
            goals += g2
            n += len(res)
            loops |= {str(v["fn"]) for v in ex.loops.values()}
        except (Shape, Unsupported, KeyError, AttributeError, TypeError) as e:
            note = "bounded: requests of up to %d slices (%s)" % (BOUND, type(e).__name__)
    clauses, bad = {}, []
    for j, (pc, name, g) in enumerate(goals):
        clauses[name] = clauses.get(name, 0) + 1
        for nm, gg, s, m in pr.prove_all(pc, [(name, g)]):
            md = {d.name(): m[d].as_long() for d in m.decls() if d.arity() == 0 and z3.is_int_value(m[d])} if m is not None else None
            bad.append({"path": j, "kind": "", "clause": nm, "goal": str(gg)[:600], "status": s, "model": md})
    # an inductive obligation that fails while the bounded ones hold is not a violation: the loop's state has another meaning
    if bad and all("any number" in b["clause"] for b in bad):
        note, bad = "bounded: requests of up to %d slices (the step contract does not fit this loop)" % BOUND, []
        clauses = {k: v for k, v in clauses.items() if "any number" not in k}
    return {"unit": "hook account parser", "paths": n, "kinds": {"return": n}, "clauses": clauses, "bad": bad, "stats": dict(prv.STAT), "live": True, "bounded": note,
            "functions": [NAME], "contracts": [], "builtins": [], "loops": sorted(loops), "incomplete": {}, "cpu_prove_s": round(time.time() - t0, 2), "wall_s": round(time.time() - t0, 2)}


if __name__ == "__main__":
    import os, sys, mir
    P = mir.Program(os.environ.get("DUMP"))
    r = unit(P, "C20", "quick")
    print({k: r[k] for k in ("paths", "bounded", "wall_s")}, "obligations", sum(r["clauses"].values()))
    for c in r["clauses"]:
        print("  ", c, r["clauses"][c])
    for b in r["bad"]:
        print("  BAD", b)
