"""Lemmas over the contracts (C07, C09): from what each single operation does to what all of them do together.

The contracts of spec.py fix each payout as a formula over the escrow's, the registry's and the sale's figures, and fix those figures
after the end of the sale (only claims, refunds and one-time flags change afterwards).  Here the solvers prove,
over the *same* formula functions of spec.py, that the payouts of any number of escrows add up to at most what the vault keeps for them.
Sums over escrows are handled by induction on the number of escrows: `base`, `step`, `conclusion` obligations.

One obligation: (property, name, hypotheses, goal).  A hypothesis that is an instance of an earlier lemma says so.
"""
import time
import z3
import prover as prv
import spec
from sym import *

U64 = spec.U64


def var(n, hi=U64):
    return mkint(n, 0, hi)


def sale():
    p = {f: var("p." + f) for f in ("presale_maximum_cap", "presale_minimum_cap", "total_deposit", "total_deposit_fee", "presale_supply",
                                      "immediate_release_timestamp", "vesting_start_time", "vest_duration")}
    p["immediate_release_bps"] = var("p.bps", 10000)
    p["presale_mode"] = var("p.mode", 2)
    p["presale_mode_raw_data[0]"] = var("p.price", (1 << 128) - 1)
    for i in range(spec.NREG):
        for f in ("total_deposit", "total_deposit_fee", "presale_supply", "buyer_minimum_deposit_cap", "buyer_maximum_deposit_cap"):
            p["presale_registries[%d].%s" % (i, f)] = var("r%d.%s" % (i, f))
        p["presale_registries[%d].deposit_fee_bps" % i] = var("r%d.bps" % i, 5000)
    return p


def lemmas():
    out = []

    def lemma(props, name, hyp, goal):
        out.append((props.split(), name, list(hyp), goal))

    # ---- sums of shares rounded down -------------------------------------------------------------
    a, b, S, D = (var("l." + n, 1 << 128) for n in ("a", "b", "S", "D"))
    share = lambda d: fdiv(mul(d, S), D)
    pos = lt(0, D)
    x, y, z = share(a), share(b), share(add(a, b))
    lemma("C07 C09", "shares rounded down are superadditive", [pos], le(add(x, y), z))
    # induction over escrows: paid(k) = sum of shares of the first k, w(k) = sum of their deposits
    w, paid = var("l.w", 1 << 128), var("l.paid", 1 << 128)
    lemma("C07 C09", "sum over escrows, base: nothing paid for nobody", [pos], le(0, share(0)))
    lemma("C07 C09", "sum over escrows, step: one more escrow keeps the sum within the share of the joint deposit",
          [pos, le(paid, share(w)), le(add(share(w), share(a)), share(add(w, a)))],     # third: superadditivity
          le(add(paid, share(a)), share(add(w, a))))
    lemma("C07 C09", "sum over escrows, conclusion: all shares together are at most the whole", [pos, le(w, D), le(paid, share(w))], le(paid, S))
    lemma("C07 C09", "a share is at most the whole", [pos, le(a, D)], le(share(a), S))

    # ---- claims (C07) ----------------------------------------------------------------------------
    p = sale()
    for mode, mname in ((spec.FIXED, "fixed price"), (spec.FCFS, "first come"), (spec.PRORATA, "pro-rata")):
        q = dict(p, presale_mode=mode)
        wf = [lt(0, q["presale_mode_raw_data[0]"])] if mode == spec.FIXED else []
        e = {"total_deposit": var("e.d")}
        Dr = spec.reg(q, 0, "total_deposit")
        s = spec.sold_in(q, 0)
        imm = fdiv(mul(s, q["immediate_release_bps"]), spec.BPS)
        t, t2 = var("t"), var("t2")
        lemma("C07", "%s: a registry sells at most its supply" % mname, wf, le(s, spec.reg(q, 0, "presale_supply")))
        lemma("C07", "%s: the immediate part is part of the sold tokens" % mname, wf, land(le(0, imm), le(imm, s)))
        # released parts, by time
        vested = var("l.vested")
        vd, st = q["vest_duration"], q["vesting_start_time"]
        rel = lambda tt: ite(eq(vd, 0), vested, fdiv(mul(vested, imin(sub(tt, st), vd)), vd))
        if mode == spec.FIXED:
            lemma("C07", "the vested part released is at most all of it", [le(st, t)], land(le(0, rel(t)), le(rel(t), vested)))
            lemma("C07", "the vested part released never shrinks", [le(st, t), le(t, t2)], le(rel(t), rel(t2)))
            lemma("C07", "a share never shrinks when the whole grows", [pos, le(S, var("l.S2", 1 << 128))],
                  le(share(a), fdiv(mul(a, var("l.S2", 1 << 128)), D)))
        # both parts of the release are shares of imm and of a part of the rest; with the sums above,
        # the claims of all escrows of the registry: sum <= imm + released vested <= sold
        cum = spec.cumulative(q, e, 0, t)
        v = sub(s, imm)
        relv = ite(eq(vd, 0), v, fdiv(mul(v, imin(sub(t, st), vd)), vd))
        full = add(fdiv(mul(imm, e["total_deposit"]), Dr), fdiv(mul(v, e["total_deposit"]), Dr))
        live = wf + [lt(0, Dr), le(e["total_deposit"], Dr)]
        # instance of the two lemmas on the vested part
        inst = [lor(lt(t, st), land(le(0, relv), le(relv, v))),
                lor(lt(t, st), le(fdiv(mul(relv, e["total_deposit"]), Dr), fdiv(mul(v, e["total_deposit"]), Dr)))]
        lemma("C07", "%s: a claim total is at most the share of the immediate part plus the share of the vested part" % mname, live + inst, le(cum, full))
    # sum over registries: sold by all plus unsold is the supply (unsold is supply - sold by contract C12)
    for n in range(1, spec.NREG + 1):
        so = [var("so%d" % i) for i in range(n)]
        su = [var("su%d" % i) for i in range(n)]
        cl = [var("cl%d" % i) for i in range(n)]
        tot = lambda l: add_all(l)
        lemma("C07", "%d registries: claims plus unsold tokens never exceed the sale's supply" % n,
              [le(x, y) for x, y in zip(so, su)] + [le(x, y) for x, y in zip(cl, so)],
              le(add(tot(cl), sub(tot(su), tot(so))), tot(su)))

    # ---- refunds, proceeds and fees (C09) --------------------------------------------------------
    T, M = var("T"), var("M")
    over = satsub(T, M)
    Rr = fdiv(mul(over, D), T)
    lemma("C09", "a registry gives back at most its deposits", [lt(0, T), le(D, T)], land(le(0, Rr), le(Rr, D)))
    F, R = var("F", 1 << 128), var("R", 1 << 128)
    lemma("C09", "a registry gives back at most its fees", [pos, le(R, D)], le(fdiv(mul(F, R), D), F))
    # joint refund of the registries: same induction, over registries, with the excess as the whole
    lemma("C09", "registries' refunds together are at most the excess (instance of the sum over shares)",
          [lt(0, T), le(w, T), le(paid, fdiv(mul(w, over), T))], le(paid, over))
    ref, fee_ref, fees = var("ref", 1 << 80), var("fee_ref", 1 << 80), var("fees", 1 << 80)
    lemma("C09", "completed pro-rata: proceeds plus refunds are covered by the deposits", [le(ref, over)], le(add(imin(T, M), ref), T))
    lemma("C09", "completed pro-rata: kept and refunded fees are covered by the fees", [le(fee_ref, fees)], le(add(sub(fees, fee_ref), fee_ref), fees))
    lemma("C09", "completed fixed-price or first-come: proceeds are the deposits", [le(T, M)], eq(imin(T, M), T))
    # the spec's own formulas agree with the abstract ones used above
    for i in range(spec.NREG):
        A, B = spec.registry_refund(p, i)
        Dr, Fr = spec.reg(p, i, "total_deposit"), spec.reg(p, i, "total_deposit_fee")
        h = [le(Dr, p["total_deposit"])]
        ov = satsub(p["total_deposit"], p["presale_maximum_cap"])
        lemma("C09", "registry %d: refundable deposit within its deposits" % i, h, land(le(0, A), le(A, Dr)))
        lemma("C09", "registry %d: refundable fee within its fees" % i, h + [land(le(0, A), le(A, Dr))], land(le(0, B), le(B, Fr)))
        lemma("C09", "registry %d: refundable deposit is the share of the excess" % i, h + [lt(0, p["total_deposit"])],
              eq(A, fdiv(mul(Dr, ov), p["total_deposit"])))
        e = {"total_deposit": var("e.d"), "total_deposit_fee": var("e.f")}
        rd, rf = spec.refund(p, e, i)
        lemma("C09", "registry %d: an escrow's refund after success is its share of the refundable deposit and fee" % i,
              [le(p["presale_minimum_cap"], p["total_deposit"]), lt(0, Dr), lt(0, Fr)],
              land(eq(rd, fdiv(mul(e["total_deposit"], A), Dr)), eq(rf, fdiv(mul(e["total_deposit_fee"], B), Fr))))
        lemma("C09", "registry %d: an escrow's refund after failure is what it paid" % i, [lt(p["total_deposit"], p["presale_minimum_cap"])],
              land(eq(rd, e["total_deposit"]), eq(rf, e["total_deposit_fee"])))
    return out


def add_all(l):
    r = 0
    for x in l:
        r = add(r, x)
    return r


def unit(P, prop, tier):
    t0 = time.time()
    pr = prv.Prover()
    pr.deadline = t0 + (300 if tier == "quick" else 600)
    clauses, bad = {}, []
    for props, name, hyp, goal in lemmas():
        if prop not in props:
            continue
        clauses[name] = 1
        # a lemma with contradictory hypotheses would be worthless
        if pr.check([h for h in hyp if h is not True], ms=5000) == z3.unsat:
            bad.append({"path": None, "kind": "lemma", "clause": name, "goal": "", "status": "vacuous", "model": None})
            continue
        for n, g, s, m in pr.prove_all(hyp, [(name, goal)]):
            bad.append({"path": None, "kind": "lemma", "clause": n, "goal": str(g)[:600], "status": s, "model": None})
    return {"unit": "lemmas", "paths": 0, "kinds": {}, "clauses": clauses, "bad": bad, "stats": dict(prv.STAT), "live": True,
            "functions": [], "contracts": [], "builtins": [], "loops": [], "incomplete": {}, "cpu_prove_s": round(time.time() - t0, 2), "wall_s": round(time.time() - t0, 2)}


if __name__ == "__main__":
    import sys
    for p in sys.argv[1:]:
        r = unit(None, p, "quick")
        print(p, sum(r["clauses"].values()), r["wall_s"])
        for b in r["bad"]:
            print("  BAD", b["clause"], b["status"], b["goal"])
