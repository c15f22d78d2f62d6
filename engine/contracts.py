"""Contracts on functions of the presale program."""
import z3
from sym import *
from vexec import *
import vbuiltins as vb


def kinds_of(ex, st, p):
    """kinds of hook accounts the caller accepts, when they can be read off"""
    try:
        p = ex.unwrap_ptr(p)
        if not isinstance(p.meta, int):
            return None
        out = []
        for i in range(p.meta):
            v = ex.force(ex.load(st, Ptr(p.cell, ex.push_idx(p.path, i) if not (p.path and p.path[-1][0] == "i") else p.path[:-1] + (("i", add(p.path[-1][1], i)),))))
            out.append(v.v if isinstance(v, Agg) else v.d)
        return tuple(out)
    except (Unsupported, AttributeError, IndexError, TypeError):
        return None


def parse_remaining(ex, st, inst, a):
    """frame contract: may only advance *remaining_accounts; result unconstrained"""
    holder = ex.unwrap_ptr(a[0])
    sl = ex.unwrap_ptr(ex.load(st, holder))
    ti = vb.ok_type(ex, inst)
    n = st.gh.get("nparse", 0)
    st.gh = dict(st.gh)
    st.gh["nparse"] = n + 1
    st.gh["parses"] = st.gh.get("parses", ()) + ((n, kinds_of(ex, st, a[2]), ex.unwrap_ptr(a[1]), sl),)
    adv = mkint("parse%d.consumed" % n, 0, 1 << 32)
    failed = z3.Bool("parse%d.err" % n)
    good = land(lnot(failed), le(adv, sl.meta))

    def post(s):
        ex.store(s, holder, Ptr(sl.cell, sl.path[:-1] + (("i", add(sl.path[-1][1], adv)),), sub(sl.meta, adv)))
    return [Outcome(good, ok(Lazy(ti, "parse%d.out" % n)), post),
            Outcome(lnot(good), err(vb.E(("parse", None))))]


CONTRACTS = {
    "presale::token2022::parse_remaining_accounts_for_transfer_hook": parse_remaining,
}
