"""Specification of the presale program: one contract per instruction.

`SPECS[ix](c)` yields clauses (properties, name, formula) that must hold on every successful run;
`ELIG[ix](c)` yields (properties, formula): a well-formed state and call satisfying the formula must not
be refused with one of the program's own (non arithmetic) errors.  The context `c` is either a symbolic
path (ctx.SymCtx) or a concrete execution of the real program (replay.ConcCtx).
"""
from sym import *

SCALE = 1 << 64
U64 = (1 << 64) - 1
U128 = (1 << 128) - 1
BPS = 10000
FIXED, PRORATA, FCFS = 0, 1, 2
PERMISSIONLESS, MERKLE, AUTHORITY = 0, 1, 2
NOT_STARTED, ONGOING, COMPLETED, FAILED = 0, 1, 2, 3
NREG = 5
MAX_DEPOSIT_FEE_BPS = 5000

# the address derived from "presale_authority" for the declared program id
B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"


def b58(s):
    n = 0
    for ch in s:
        n = n * 58 + B58.index(ch)
    return n


TOKEN_ID = b58("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA")
TOKEN22_ID = b58("TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb")
AUTHORITY_KEY = 23717410426275738040624551464102916756465930185013926861860291174519197913489
AUTHORITY_SEEDS = b"presale_authority"


# ------------------------------------------------------------------------------ vocabulary
def phase(p, now):
    return ite(lt(now, p["presale_start_time"]), NOT_STARTED,
               ite(lt(now, p["presale_end_time"]), ONGOING,
                   ite(le(p["presale_minimum_cap"], p["total_deposit"]), COMPLETED, FAILED)))


def in_phase(p, now, ph):
    s, e = le(p["presale_start_time"], now), le(p["presale_end_time"], now)
    m = le(p["presale_minimum_cap"], p["total_deposit"])
    return {NOT_STARTED: lnot(s), ONGOING: land(s, lnot(e)), COMPLETED: land(s, e, m), FAILED: land(s, e, lnot(m))}[ph]


def reg(d, i, f):
    """field f of registry i; i concrete or symbolic"""
    if isinstance(i, int):
        return d["presale_registries[%d].%s" % (min(i, NREG - 1), f)]
    r = d["presale_registries[%d].%s" % (NREG - 1, f)]
    for k in reversed(range(NREG - 1)):
        r = ite(eq(i, k), d["presale_registries[%d].%s" % (k, f)], r)
    return r


def reg_empty(d, i):
    return land(*[eq(reg(d, i, f), 0) for f in ("presale_supply", "buyer_minimum_deposit_cap", "buyer_maximum_deposit_cap", "deposit_fee_bps")])


def bought(amount, q):
    """base lamports bought by `amount` quote lamports at fixed price q (Q64.64), rounded down"""
    return fdiv(mul(amount, SCALE), q)


def cost(base, q):
    """quote lamports needed for `base` base lamports, rounded up"""
    return cdiv(mul(base, q), SCALE)


def q_price(p):
    return p["presale_mode_raw_data[0]"]


def byte(v, k):
    return fmod(fdiv(v, 1 << (8 * k)), 256)


def sold_in(p, i):
    """base tokens a registry sells given its final deposits, for claims"""
    D, S = reg(p, i, "total_deposit"), reg(p, i, "presale_supply")
    return ite(eq(p["presale_mode"], FIXED), imin(bought(D, q_price(p)), S), S)


def cumulative(p, e, i, t):
    """base tokens released to an escrow up to time t"""
    d, D = e["total_deposit"], reg(p, i, "total_deposit")
    s = sold_in(p, i)
    imm = fdiv(mul(s, p["immediate_release_bps"]), BPS)
    vested = sub(s, imm)
    now_part = ite(le(p["immediate_release_timestamp"], t), fdiv(mul(imm, d), D), 0)
    el = sub(t, p["vesting_start_time"])
    vd = p["vest_duration"]
    released = ite(eq(vd, 0), vested, fdiv(mul(vested, imin(el, vd)), vd))
    vest_part = ite(le(p["vesting_start_time"], t), fdiv(mul(released, d), D), 0)
    return ite(lor(eq(d, 0), eq(D, 0)), 0, add(now_part, vest_part))


def early_end_disabled(p):
    m = p["presale_mode"]
    return ite(eq(m, FIXED), ite(eq(byte(p["presale_mode_raw_data[1]"], 1), 0), 0, 1),
               ite(eq(byte(p["presale_mode_raw_data[0]"], 0), 0), 0, 1))


def withdraw_disabled(p):
    return lnot(eq(byte(p["presale_mode_raw_data[1]"], 0), 0))


def deposit_amount(p, e, i, asked):
    """net amount a deposit of at most `asked` is credited with"""
    m = p["presale_mode"]
    glob = sub(p["presale_maximum_cap"], p["total_deposit"])
    pers = satsub(imin(reg(p, i, "buyer_maximum_deposit_cap"), e["deposit_max_cap"]), e["total_deposit"])
    q = q_price(p)
    D, S = reg(p, i, "total_deposit"), reg(p, i, "presale_supply")
    sold = ite(lt(0, D), imin(bought(D, q), S), 0)
    stock = ite(eq(sold, S), 0, cost(sub(S, sold), q))
    quota_fixed = ite(eq(sold, S), 0, imin(imin(glob, pers), stock))
    a_fixed = imin(quota_fixed, asked)
    return ite(eq(m, FIXED), cost(bought(a_fixed, q), q),
               ite(eq(m, FCFS), imin(imin(glob, pers), asked), imin(pers, asked)))


def deposit_fee(net, bps):
    return sub(cdiv(mul(net, BPS), sub(BPS, bps)), net)


def refund(p, e, i):
    """(deposit part, fee part) an escrow gets back after the end of the sale"""
    T, Dr, Fr = p["total_deposit"], reg(p, i, "total_deposit"), reg(p, i, "total_deposit_fee")
    Rr, Rf = registry_refund(p, i)
    dep = ite(eq(Dr, 0), 0, fdiv(mul(e["total_deposit"], Rr), Dr))
    fee = ite(eq(Fr, 0), 0, fdiv(mul(e["total_deposit_fee"], Rf), Fr))
    failed = lt(T, p["presale_minimum_cap"])
    return ite(failed, e["total_deposit"], dep), ite(failed, e["total_deposit_fee"], fee)


def registry_refund(p, i):
    """deposit and fee a registry of a completed pro-rata sale gives back"""
    T, Dr, Fr = p["total_deposit"], reg(p, i, "total_deposit"), reg(p, i, "total_deposit_fee")
    over = satsub(T, p["presale_maximum_cap"])
    Rr = ite(lor(eq(T, 0), eq(Dr, 0)), 0, fdiv(mul(over, Dr), T))
    Rf = ite(lor(eq(T, 0), eq(Dr, 0)), 0, fdiv(mul(Fr, Rr), Dr))
    return Rr, Rf


def total_sold(p):
    tot, live = 0, True
    for i in range(NREG):
        live = land(live, lnot(reg_empty(p, i)))
        D, S = reg(p, i, "total_deposit"), reg(p, i, "presale_supply")
        s = ite(eq(D, 0), 0, ite(eq(p["presale_mode"], FIXED), imin(bought(D, q_price(p)), S), S))
        tot = add(tot, ite(live, s, 0))
    return tot


def fees_earned(p):
    """deposit fees the creator may collect from a completed sale"""
    tot, live = 0, True
    for i in range(NREG):
        live = land(live, lnot(reg_empty(p, i)))
        tot = add(tot, ite(live, sub(reg(p, i, "total_deposit_fee"), registry_refund(p, i)[1]), 0))
    return ite(eq(p["presale_mode"], PRORATA), tot, p["total_deposit_fee"])


def well_formed(p):
    """facts every stored sale satisfies (established by creation, kept by every instruction: property INV)"""
    return land(le(p["presale_mode"], 2), le(p["whitelist_mode"], 2),
                le(p["total_presale_registry_count"], NREG),
                lor(eq(p["presale_mode"], PRORATA), le(p["total_deposit"], p["presale_maximum_cap"])),
                lor(lnot(eq(p["presale_mode"], FIXED)), lt(0, q_price(p))))


# ------------------------------------------------------------------------------ clause helpers
class Out:
    want = None     # the properties being decided (None: all)

    def __init__(self):
        self.cl = []

    def __call__(self, props, name, f):
        props = props.split()
        if self.want is None or set(props) & self.want:
            self.cl.append((props, name, f() if callable(f) else f))


def unchanged(c, o, props, a, but=(), label=None):
    pre, post = a.pre, a.post
    fs = [c.same(post[k], pre[k]) for k in pre if k not in but]
    o(props, "%s: other fields unchanged" % (label or a.type), land(*fs))


def others_unchanged(c, o, props, known):
    """data of every other account of this program is left alone"""
    ks = set(id(k) for k in known)
    for a in c.touched():
        if id(a) not in ks and a.kind != "init":
            unchanged(c, o, props, a, label="untouched " + a.type)


def no_effects(c, o, props, transfers=0, burns=0, closes=0, creates=0, inits=0):
    o(props, "no token movement beyond the specified", len(c.transfers) == transfers and len(c.burns) == burns)
    o(props, "no account opened or closed beyond the specified", len(c.closed) == closes and len(c.created) == creates and len(c.init_tokens) == inits)
    o(props, "no other program invoked", not c.other)


def event(c, o, props, name, **fields):
    ev = [f for n, f in c.events if n == name]
    o(props, "exactly one event, %s" % name, len(c.events) == 1 and len(ev) == 1)
    if len(ev) == 1:
        for k, v in fields.items():
            o(props, "event field %s" % k, c.same(ev[0][k], v))


def from_vault(c, o, props, t, vault, mint, amount, label):
    """an outgoing transfer: out of the recorded vault, of the recorded mint, by the program's authority"""
    o(props, label + ": leaves the recorded vault", eq(t["src"], vault))
    if t["mint"] is not None:
        o(props, label + ": of the recorded mint", eq(t["mint"], mint))
    o(props, label + ": exact amount", eq(t["amount"], amount))
    o("C16 C19", label + ": authorised by the program's vault authority", land(eq(t["auth"], AUTHORITY_KEY), c.authority_seeds(t)))
    c.hook_memo(o, "C20", t, True, label)


def idx(c, e):
    """registry index of an escrow, concretised when the path fixes it"""
    return c.concretise(e["registry_index"])


def bump(c, o, props, P, i, sale_fields, reg_fields):
    """sale and registry fields change by exactly the given deltas"""
    p, p2 = P.pre, P.post
    for f, d in sale_fields.items():
        o(props, "sale %s" % f, eq(p2[f], add(p[f], d)))
    for f, d in reg_fields.items():
        o(props, "registry %s" % f, eq(reg(p2, i, f), add(reg(p, i, f), d)))


def reg_names(i, fs):
    """names of registry fields possibly written (all registries when the index is symbolic)"""
    ks = [i] if isinstance(i, int) else range(NREG)
    return ["presale_registries[%d].%s" % (k, f) for k in ks for f in fs]


def other_regs(c, o, props, P, i, fs):
    if not isinstance(i, int):
        for k in range(NREG):
            o(props, "registry %d untouched unless indexed" % k,
              lor(eq(i, k), land(*[c.same(P.post["presale_registries[%d].%s" % (k, f)], P.pre["presale_registries[%d].%s" % (k, f)]) for f in fs])))


# ------------------------------------------------------------------------------ deposit
def sp_deposit(c):
    o = Out()
    P, E = c.one("Presale"), c.one("Escrow")
    p, p2, e, e2 = P.pre, P.post, E.pre, E.post
    i = idx(c, e)
    now = c.now
    asked = c.arg("max_amount")
    a = sub(e2["total_deposit"], e["total_deposit"])
    fee = sub(e2["total_deposit_fee"], e["total_deposit_fee"])
    m = p["presale_mode"]
    bps = reg(p, i, "deposit_fee_bps")
    o("C02 C05", "only while the sale is open", in_phase(p, now, ONGOING))
    o("C16 C01", "escrow belongs to this sale", eq(e["presale"], P.key))
    o("C02", "registry exists", le(i, NREG - 1))
    o("C01 C02", "credited amount is positive", lt(0, a))
    o("C02", "never more than asked", le(a, asked))
    o("C02 C09", "sale maximum cap", lor(eq(m, PRORATA), le(p2["total_deposit"], p["presale_maximum_cap"])))
    o("C02", "buyer cap of the escrow", le(e2["total_deposit"], imin(reg(p, i, "buyer_maximum_deposit_cap"), e["deposit_max_cap"])))
    o("C02", "buyer minimum", le(reg(p, i, "buyer_minimum_deposit_cap"), e2["total_deposit"]))
    o("C02 C25", "exactly the admissible amount", eq(a, deposit_amount(p, e, i, asked)))
    o("C03 C01", "deposit fee", eq(fee, deposit_fee(a, bps)))
    bump(c, o, "C01 C22 C09 C07", P, i, {"total_deposit": a}, {"total_deposit": a})
    bump(c, o, "C01 C03 C22 C09", P, i, {"total_deposit_fee": fee}, {"total_deposit_fee": fee})
    # early end
    ends = land(lor(eq(m, FIXED), eq(m, FCFS)), eq(early_end_disabled(p), 0), le(p["presale_maximum_cap"], p2["total_deposit"]))
    off = satsub(p["immediate_release_timestamp"], p["presale_end_time"])
    o("C05", "ends at once when the cap is reached", eq(p2["presale_end_time"], ite(ends, now, p["presale_end_time"])))
    o("C05 C06", "vesting start follows", eq(p2["vesting_start_time"], ite(ends, add(now, p["lock_duration"]), p["vesting_start_time"])))
    o("C05 C06", "vesting end follows", eq(p2["vesting_end_time"], ite(ends, add(add(now, p["lock_duration"]), p["vest_duration"]), p["vesting_end_time"])))
    o("C05 C06", "immediate release follows", eq(p2["immediate_release_timestamp"], ite(ends, add(now, off), p["immediate_release_timestamp"])))
    unchanged(c, o, "C01 C05 C22 C17", P, ["total_deposit", "total_deposit_fee", "presale_end_time", "vesting_start_time", "vesting_end_time",
                                         "immediate_release_timestamp"] + reg_names(i, ["total_deposit", "total_deposit_fee"]))
    other_regs(c, o, "C22 C01", P, i, ["total_deposit", "total_deposit_fee"])
    unchanged(c, o, "C01 C22", E, ["total_deposit", "total_deposit_fee"])
    others_unchanged(c, o, "C01", [P, E])
    # charge
    no_effects(c, o, "C01 C19", transfers=1)
    if len(c.transfers) == 1:
        t = c.transfers[0]
        o("C01 C16 C19", "paid into the recorded quote vault", land(eq(t["dst"], p["quote_token_vault"]), t["mint"] is None or eq(t["mint"], p["quote_mint"])))
        o("C16", "payer signed", c.signed(t["auth"]))
        c.fee_included(o, "C01 C20 C09", t, add(a, fee), "vault receives net deposit plus fee")
        c.hook_memo(o, "C20", t, False, "payment")
    event(c, o, "C26", "EvtDeposit", presale=P.key, escrow=E.key, deposit_amount=a, escrow_total_deposit_amount=e2["total_deposit"],
          presale_total_deposit_amount=p2["total_deposit"], deposit_fee=fee)
    return o.cl


def el_deposit(c):
    P, E = c.one("Presale"), c.one("Escrow")
    p, e = P.pre, E.pre
    i = idx(c, e)
    a = deposit_amount(p, e, i, c.arg("max_amount"))
    tot = add(e["total_deposit"], a)
    return "C02", land(well_formed(p), lt(i, NREG), in_phase(p, c.now, ONGOING), lt(0, a),
                       le(reg(p, i, "buyer_minimum_deposit_cap"), tot), le(tot, reg(p, i, "buyer_maximum_deposit_cap")))


# ------------------------------------------------------------------------------ withdraw
def withdraw_amount(p, e, asked):
    q = q_price(p)
    return ite(eq(p["presale_mode"], FIXED), ite(eq(asked, e["total_deposit"]), asked, cost(bought(asked, q), q)), asked)


def sp_withdraw(c):
    o = Out()
    P, E = c.one("Presale"), c.one("Escrow")
    p, p2, e, e2 = P.pre, P.post, E.pre, E.post
    i = idx(c, e)
    asked = c.arg("amount")
    w = sub(e["total_deposit"], e2["total_deposit"])
    m = p["presale_mode"]
    o("C04 C05", "only while the sale is open", in_phase(p, c.now, ONGOING))
    o("C16 C04", "escrow belongs to this sale", eq(e["presale"], P.key))
    o("C16 C04", "only the escrow owner", c.signed(e["owner"]))
    o("C04", "mode allows withdrawing", lor(eq(m, PRORATA), land(eq(m, FIXED), lnot(withdraw_disabled(p)))))
    o("C04", "positive and at most asked", land(lt(0, w), le(w, asked)))
    o("C04", "at most what is deposited", le(asked, e["total_deposit"]))
    o("C04 C25", "amount", eq(w, withdraw_amount(p, e, asked)))
    o("C04 C02", "what remains is nothing or within the buyer limits",
      lor(eq(e2["total_deposit"], 0), land(le(reg(p, i, "buyer_minimum_deposit_cap"), e2["total_deposit"]), le(e2["total_deposit"], reg(p, i, "buyer_maximum_deposit_cap")))))
    bump(c, o, "C04 C22 C09 C07", P, i, {"total_deposit": sub(0, w)}, {"total_deposit": sub(0, w)})
    unchanged(c, o, "C04 C22 C03 C05", P, ["total_deposit"] + reg_names(i, ["total_deposit"]))
    other_regs(c, o, "C22 C04", P, i, ["total_deposit"])
    unchanged(c, o, "C04 C03 C22", E, ["total_deposit"])
    others_unchanged(c, o, "C04", [P, E])
    no_effects(c, o, "C04 C19", transfers=1)
    if len(c.transfers) == 1:
        from_vault(c, o, "C04 C19 C09", c.transfers[0], p["quote_token_vault"], p["quote_mint"], w, "payout")
    event(c, o, "C26", "EvtWithdraw", presale=P.key, escrow=E.key, withdraw_amount=c.received(w, p["quote_mint"]), escrow_total_deposit_amount=e2["total_deposit"],
          presale_total_deposit_amount=p2["total_deposit"], owner=e["owner"])
    return o.cl


def el_withdraw(c):
    P, E = c.one("Presale"), c.one("Escrow")
    p, e = P.pre, E.pre
    i = idx(c, e)
    m = p["presale_mode"]
    asked = c.arg("amount")
    w = withdraw_amount(p, e, asked)
    rem = sub(e["total_deposit"], w)
    return "C04", land(well_formed(p), lt(i, NREG), in_phase(p, c.now, ONGOING),
                       lor(eq(m, PRORATA), land(eq(m, FIXED), lnot(withdraw_disabled(p)))),
                       lt(0, asked), le(asked, e["total_deposit"]), lt(0, w),
                       lor(eq(rem, 0), land(le(reg(p, i, "buyer_minimum_deposit_cap"), rem), le(rem, reg(p, i, "buyer_maximum_deposit_cap")))))


# ------------------------------------------------------------------------------ claim
def sp_claim(c):
    o = Out()
    P, E = c.one("Presale"), c.one("Escrow")
    p, p2, e, e2 = P.pre, P.post, E.pre, E.post
    i = idx(c, e)
    cum = cumulative(p, e, i, c.now)
    pay = sub(e2["total_claimed_token"], e["total_claimed_token"])
    o("C06 C05", "only after a successful sale", in_phase(p, c.now, COMPLETED))
    o("C16 C06", "escrow belongs to this sale", eq(e["presale"], P.key))
    o("C16 C06", "only the escrow owner", c.signed(e["owner"]))
    o("C06 C07", "claimed in total exactly what has been released", eq(e2["total_claimed_token"], cum))
    o("C06 C07", "never negative", le(0, pay))
    o("C06", "nothing left pending", eq(e2["pending_claim_token"], 0))
    o("C06 C21", "refresh time", eq(e2["last_refreshed_at"], c.now))
    bump(c, o, "C06 C22 C07", P, i, {"total_claimed_token": pay}, {"total_claimed_token": pay})
    unchanged(c, o, "C06 C22 C05", P, ["total_claimed_token"] + reg_names(i, ["total_claimed_token"]))
    other_regs(c, o, "C22 C06", P, i, ["total_claimed_token"])
    unchanged(c, o, "C06 C22", E, ["total_claimed_token", "pending_claim_token", "last_refreshed_at"])
    others_unchanged(c, o, "C06", [P, E])
    no_effects(c, o, "C06 C19 C07", transfers=min(1, len(c.transfers)))
    if len(c.transfers) == 1:
        from_vault(c, o, "C06 C19 C07", c.transfers[0], p["base_token_vault"], p["base_mint"], pay, "payout")
    else:
        o("C06 C07", "no payout only when nothing is due", eq(pay, 0))
    event(c, o, "C26", "EvtClaim", presale=P.key, escrow=E.key, claim_amount=c.received(pay, p["base_mint"]), escrow_total_claim_amount=e2["total_claimed_token"],
          presale_total_claim_amount=p2["total_claimed_token"], owner=e["owner"])
    return o.cl


def el_claim(c):
    P, E = c.one("Presale"), c.one("Escrow")
    p, e = P.pre, E.pre
    i = idx(c, e)
    return "C06", land(well_formed(p), lt(i, NREG), in_phase(p, c.now, COMPLETED))


def sp_refresh_escrow(c):
    o = Out()
    P, E = c.one("Presale"), c.one("Escrow")
    p, e, e2 = P.pre, E.pre, E.post
    i = idx(c, e)
    done = in_phase(p, c.now, COMPLETED)
    cum = cumulative(p, e, i, c.now)
    o("C16 C21", "escrow belongs to this sale", eq(e["presale"], P.key))
    o("C21 C06", "pending is what has been released and not claimed",
      eq(e2["pending_claim_token"], ite(done, sub(cum, e["total_claimed_token"]), e["pending_claim_token"])))
    o("C21", "pending never shrinks", le(e["pending_claim_token"], e2["pending_claim_token"]))
    o("C21", "refresh time", eq(e2["last_refreshed_at"], ite(done, c.now, e["last_refreshed_at"])))
    unchanged(c, o, "C21 C22 C05", P)
    unchanged(c, o, "C21 C22 C06", E, ["pending_claim_token", "last_refreshed_at"])
    others_unchanged(c, o, "C21", [P, E])
    no_effects(c, o, "C21 C19")
    event(c, o, "C26", "EvtEscrowRefresh", presale=P.key, escrow=E.key, owner=e["owner"], current_timestamp=c.now, pending_claim_token=e2["pending_claim_token"])
    return o.cl


def el_refresh_escrow(c):
    P, E = c.one("Presale"), c.one("Escrow")
    return "C21", land(well_formed(P.pre), lt(idx(c, E.pre), NREG))


# ------------------------------------------------------------------------------ refunds
def sp_withdraw_remaining_quote(c):
    o = Out()
    P, E = c.one("Presale"), c.one("Escrow")
    p, p2, e, e2 = P.pre, P.post, E.pre, E.post
    i = idx(c, e)
    rd, rf = refund(p, e, i)
    tot = add(rd, rf)
    o("C08 C05", "only after the end, failed or pro-rata",
      lor(in_phase(p, c.now, FAILED), land(in_phase(p, c.now, COMPLETED), eq(p["presale_mode"], PRORATA))))
    o("C16 C08", "escrow belongs to this sale", eq(e["presale"], P.key))
    o("C16 C08", "only the escrow owner", c.signed(e["owner"]))
    o("C08 C09", "at most once", land(lnot(eq(e["is_remaining_quote_withdrawn"], 1)), eq(e2["is_remaining_quote_withdrawn"], 1)))
    bump(c, o, "C08 C22 C09", P, i, {"total_refunded_quote_token": tot}, {"total_refunded_quote_token": tot})
    unchanged(c, o, "C08 C22 C05", P, ["total_refunded_quote_token"] + reg_names(i, ["total_refunded_quote_token"]))
    other_regs(c, o, "C22 C08", P, i, ["total_refunded_quote_token"])
    unchanged(c, o, "C08 C22", E, ["is_remaining_quote_withdrawn"])
    others_unchanged(c, o, "C08", [P, E])
    no_effects(c, o, "C08 C19 C09", transfers=min(1, len(c.transfers)))
    if len(c.transfers) == 1:
        from_vault(c, o, "C08 C19 C09", c.transfers[0], p["quote_token_vault"], p["quote_mint"], tot, "refund")
    else:
        o("C08 C09", "no refund only when nothing is due", eq(tot, 0))
    event(c, o, "C26", "EvtWithdrawRemainingQuote", presale=P.key, escrow=E.key, owner=e["owner"], amount_refunded=c.received(tot, p["quote_mint"]),
          presale_total_refunded_quote_token=p2["total_refunded_quote_token"])
    return o.cl


def el_withdraw_remaining_quote(c):
    P, E = c.one("Presale"), c.one("Escrow")
    p, e = P.pre, E.pre
    return "C08", land(well_formed(p), lt(idx(c, e), NREG), lnot(eq(e["is_remaining_quote_withdrawn"], 1)),
                       lor(in_phase(p, c.now, FAILED), land(in_phase(p, c.now, COMPLETED), eq(p["presale_mode"], PRORATA))))


# ------------------------------------------------------------------------------ creator
def sp_creator_withdraw(c):
    o = Out()
    P = c.one("Presale")
    p, p2 = P.pre, P.post
    done, failed = in_phase(p, c.now, COMPLETED), in_phase(p, c.now, FAILED)
    amount = ite(done, imin(p["total_deposit"], p["presale_maximum_cap"]), p["presale_supply"])
    o("C10 C05", "only after the end", lor(done, failed))
    o("C16 C10", "only the creator", c.signed(p["owner"]))
    o("C10 C09 C07", "at most once", land(eq(p["has_creator_withdrawn"], 0), eq(p2["has_creator_withdrawn"], 1)))
    unchanged(c, o, "C10 C22 C05", P, ["has_creator_withdrawn"])
    others_unchanged(c, o, "C10", [P])
    no_effects(c, o, "C10 C19", transfers=1)
    if len(c.transfers) == 1:
        t = c.transfers[0]
        from_vault(c, o, "C10 C19 C09 C07", t, ite(done, p["quote_token_vault"], p["base_token_vault"]),
                   ite(done, p["quote_mint"], p["base_mint"]), amount, "proceeds")
    event(c, o, "C26", "EvtCreatorWithdraw", presale=P.key, amount=c.received(amount, ite(done, p["quote_mint"], p["base_mint"])), creator=p["owner"], presale_progress=phase(p, c.now))
    return o.cl


def el_creator_withdraw(c):
    P = c.one("Presale")
    p = P.pre
    # which vault and mint accounts are handed in is up to the caller, so that refusal is not constrained
    if c.code in (6029, 6004, 6005):
        return "C10", False
    return "C10", land(well_formed(p), eq(p["has_creator_withdrawn"], 0), lor(in_phase(p, c.now, COMPLETED), in_phase(p, c.now, FAILED)))


def sp_creator_collect_fee(c):
    o = Out()
    P = c.one("Presale")
    p, p2 = P.pre, P.post
    amount = fees_earned(p)
    o("C11 C05", "only after a successful sale", in_phase(p, c.now, COMPLETED))
    o("C16 C11", "only the creator", c.signed(p["owner"]))
    o("C11 C09", "at most once", land(lnot(eq(p["deposit_fee_collected"], 1)), eq(p2["deposit_fee_collected"], 1)))
    unchanged(c, o, "C11 C22 C05", P, ["deposit_fee_collected"])
    others_unchanged(c, o, "C11", [P])
    no_effects(c, o, "C11 C19", transfers=min(1, len(c.transfers)))
    if len(c.transfers) == 1:
        from_vault(c, o, "C11 C19 C09", c.transfers[0], p["quote_token_vault"], p["quote_mint"], amount, "fees")
    else:
        o("C11 C09", "no payout only when no fee was earned", eq(amount, 0))
    event(c, o, "C26", "EvtCreatorCollectFee", presale=P.key, owner=p["owner"], total_collected_fee=c.received(amount, p["quote_mint"]))
    return o.cl


def el_creator_collect_fee(c):
    p = c.one("Presale").pre
    return "C11", land(well_formed(p), lnot(eq(p["deposit_fee_collected"], 1)), in_phase(p, c.now, COMPLETED))


def sp_perform_unsold_base_token_action(c):
    o = Out()
    P = c.one("Presale")
    p, p2 = P.pre, P.post
    amount = sub(p["presale_supply"], total_sold(p))
    burn = eq(p["unsold_token_action"], 1)
    o("C12 C05", "only after a successful sale", in_phase(p, c.now, COMPLETED))
    o("C12 C07", "at most once", land(eq(p["is_unsold_token_action_performed"], 0), eq(p2["is_unsold_token_action_performed"], 1)))
    o("C12", "something is unsold", lt(0, amount))
    unchanged(c, o, "C12 C22 C05", P, ["is_unsold_token_action_performed"])
    others_unchanged(c, o, "C12", [P])
    o("C12 C19", "one burn or one transfer", len(c.transfers) + len(c.burns) == 1)
    no_effects(c, o, "C12 C19", transfers=len(c.transfers), burns=len(c.burns))
    if len(c.transfers) == 1:
        t = c.transfers[0]
        o("C12", "returned only when burning was not chosen", lnot(burn))
        from_vault(c, o, "C12 C19 C07", t, p["base_token_vault"], p["base_mint"], amount, "returned tokens")
        o("C12 C16", "returned to the creator's own token account", eq(t["dst"], c.ata_any(p["owner"], p["base_mint"], t["prog"])))
    for b in c.burns:
        o("C12", "burnt only when chosen", burn)
        o("C12 C07 C19", "burnt from the recorded vault", land(eq(b["from"], p["base_token_vault"]), eq(b["mint"], p["base_mint"])))
        o("C12 C07", "burnt amount", eq(b["amount"], amount))
        o("C16 C19", "burn authorised by the program's vault authority", land(eq(b["authority"], AUTHORITY_KEY), c.authority_seeds(b)))
    event(c, o, "C26", "EvtPerformUnsoldBaseTokenAction", presale=P.key, total_token_unsold=amount, unsold_base_token_action=ite(burn, 1, 0))
    return o.cl


def el_perform_unsold_base_token_action(c):
    p = c.one("Presale").pre
    return "C12", land(well_formed(p), eq(p["is_unsold_token_action_performed"], 0), in_phase(p, c.now, COMPLETED), le(p["unsold_token_action"], 1),
                       lt(0, sub(p["presale_supply"], total_sold(p))))


# ------------------------------------------------------------------------------ closing an escrow
def closable(p, e, i, now):
    flag = eq(e["is_remaining_quote_withdrawn"], 1)
    zero = land(eq(e["total_deposit"], 0), eq(e["total_deposit_fee"], 0))
    rd, rf = refund(p, e, i)
    settled = land(lor(lnot(eq(p["presale_mode"], PRORATA)), flag, eq(add(rd, rf), 0)),
                   eq(e["total_claimed_token"], cumulative(p, e, i, add(p["vesting_start_time"], p["vest_duration"]))))
    return lor(land(in_phase(p, now, ONGOING), zero), land(in_phase(p, now, FAILED), lor(zero, flag)), land(in_phase(p, now, COMPLETED), settled))


def sp_close_escrow(c):
    o = Out()
    P, E = c.one("Presale"), c.one("Escrow")
    p, p2, e = P.pre, P.post, E.pre
    i = idx(c, e)
    o("C16 C13", "escrow belongs to this sale", eq(e["presale"], P.key))
    o("C16 C13", "only the escrow owner", c.signed(e["owner"]))
    o("C13 C05", "nothing owed in either direction", closable(p, e, i, c.now))
    bump(c, o, "C13 C22", P, i, {"total_escrow": -1}, {"total_escrow": -1})
    unchanged(c, o, "C13 C22 C05", P, ["total_escrow"] + reg_names(i, ["total_escrow"]))
    other_regs(c, o, "C22 C13", P, i, ["total_escrow"])
    others_unchanged(c, o, "C13", [P, E])
    no_effects(c, o, "C13 C19", closes=1)
    if len(c.closed) == 1:
        o("C13", "the escrow is closed", eq(c.closed[0][1], E.key))
    ev = [f for n, f in c.events if n == "EvtEscrowClose"]
    if len(ev) == 1 and len(c.closed) == 1:
        o("C26", "event rent receiver", eq(ev[0]["rent_receiver"], c.closed[0][2]))
    event(c, o, "C26", "EvtEscrowClose", presale=P.key, escrow=E.key, owner=e["owner"])
    return o.cl


def el_close_escrow(c):
    P, E = c.one("Presale"), c.one("Escrow")
    p, e = P.pre, E.pre
    i = idx(c, e)
    return "C13", land(well_formed(p), lt(i, NREG), closable(p, e, i, c.now))


# ------------------------------------------------------------------------------ creating an escrow
def escrow_created(c, o, i, cap, owner_known=True):
    P, E = c.one("Presale"), c.one("Escrow")
    p, p2, e2 = P.pre, P.post, E.post
    o("C14 C05", "only while the sale is open", in_phase(p, c.now, ONGOING))
    o("C14", "registry is one of the sale's", lt(i, p["total_presale_registry_count"]))
    some, val = cap
    mx, mn = reg(p, i, "buyer_maximum_deposit_cap"), reg(p, i, "buyer_minimum_deposit_cap")
    o("C14 C02", "personal cap within the buyer limits", lor(lnot(some), land(lt(0, val), le(val, mx), le(mn, val))))
    o("C14 C02", "personal cap recorded", eq(e2["deposit_max_cap"], ite(some, val, mx)))
    o("C14 C22", "escrow names its sale", eq(e2["presale"], P.key))
    o("C14 C22", "escrow registry", eq(e2["registry_index"], i))
    o("C14", "creation time", land(eq(e2["created_at"], c.now), eq(e2["last_refreshed_at"], c.now)))
    o("C14 C22 C07 C09", "escrow starts empty", land(*[eq(e2[f], 0) for f in ("total_deposit", "total_claimed_token", "is_remaining_quote_withdrawn",
                                                                           "pending_claim_token", "total_deposit_fee")]))
    o("C14 C16", "one escrow per sale, owner and registry: derived address",
      eq(E.key, c.pda(b"escrow", ("key", P.key), ("key", e2["owner"]), ("u8", i))))
    o("C14", "the account is newly created", land(len(c.created) == 1, *[land(eq(k, E.key), eq(ow, c.pid)) for k, ow in c.created]))
    bump(c, o, "C14 C22", P, i, {"total_escrow": 1}, {"total_escrow": 1})
    unchanged(c, o, "C14 C22 C05", P, ["total_escrow"] + reg_names(i, ["total_escrow"]))
    other_regs(c, o, "C22 C14", P, i, ["total_escrow"])
    others_unchanged(c, o, "C14", [P, E])
    no_effects(c, o, "C14 C19", creates=1)
    event(c, o, "C26", "EvtEscrowCreate", presale=P.key, owner=e2["owner"], whitelist_mode=p["whitelist_mode"], total_escrow_count=p2["total_escrow"])
    return P, E


def sp_create_permissionless_escrow(c):
    o = Out()
    P, E = escrow_created(c, o, 0, (False, 0))
    o("C14", "only in a permissionless sale", eq(P.pre["whitelist_mode"], PERMISSIONLESS))
    return o.cl


def el_create_permissionless_escrow(c):
    p = c.one("Presale").pre
    return "C14", land(well_formed(p), in_phase(p, c.now, ONGOING), eq(p["whitelist_mode"], PERMISSIONLESS), lt(0, p["total_presale_registry_count"]))


def sp_create_permissioned_escrow_with_creator(c):
    o = Out()
    i = c.concretise(c.arg("registry_index"))
    cap = (True, c.arg("deposit_cap"))
    P, E = escrow_created(c, o, i, cap)
    O = c.one("Operator")
    o("C14", "only in a sale using the operator whitelist", eq(P.pre["whitelist_mode"], AUTHORITY))
    o("C14 C16", "an operator appointed by the creator", eq(O.pre["creator"], P.pre["owner"]))
    o("C14 C16", "the operator signed", c.signed(O.pre["owner"]))
    return o.cl


def cap_ok(p, i, cap):
    some, val = cap
    return lor(lnot(some), land(lt(0, val), le(val, reg(p, i, "buyer_maximum_deposit_cap")), le(reg(p, i, "buyer_minimum_deposit_cap"), val)))


def el_create_permissioned_escrow_with_creator(c):
    p = c.one("Presale").pre
    i = c.concretise(c.arg("registry_index"))
    O = c.one("Operator")
    return "C14", land(well_formed(p), in_phase(p, c.now, ONGOING), eq(p["whitelist_mode"], AUTHORITY), lt(i, p["total_presale_registry_count"]),
                       cap_ok(p, i, (True, c.arg("deposit_cap"))), eq(O.pre["creator"], p["owner"]), eq(c.nth(4).key, O.pre["owner"]))


def sp_create_permissioned_escrow_with_merkle_proof(c):
    o = Out()
    i = c.concretise(c.arg("registry_index"))
    cap = c.arg("deposit_cap")
    P, E = escrow_created(c, o, i, (True, cap))
    M = c.one("MerkleRootConfig")
    o("C14 C15", "only in a sale using the merkle whitelist", eq(P.pre["whitelist_mode"], MERKLE))
    o("C14 C15 C16", "root registered for this sale", eq(M.pre["presale"], P.key))
    inner = c.sha256(("key", E.post["owner"]), ("u8", i), ("u64le", cap))
    leaf = c.sha256(b"\x00", ("b32", inner))
    c.merkle(o, "C15 C14", leaf, M.pre["root"])
    return o.cl


def el_create_permissioned_escrow_with_merkle_proof(c):
    p = c.one("Presale").pre
    i = c.concretise(c.arg("registry_index"))
    return "C14 C15", land(well_formed(p), in_phase(p, c.now, ONGOING), eq(p["whitelist_mode"], MERKLE), lt(i, p["total_presale_registry_count"]),
                       cap_ok(p, i, (True, c.arg("deposit_cap"))), c.merkle_ok(c.one("MerkleRootConfig").pre["root"]))


# ------------------------------------------------------------------------------ administrative accounts
def open_or_upcoming(p, now):
    return lor(in_phase(p, now, NOT_STARTED), in_phase(p, now, ONGOING))


def sp_create_merkle_root_config(c):
    o = Out()
    P, M = c.one("Presale"), c.one("MerkleRootConfig")
    p, m = P.pre, M.post
    o("C23 C16 C15", "only the creator", c.signed(p["owner"]))
    o("C23 C05", "before the sale ends", open_or_upcoming(p, c.now))
    o("C23 C15", "only in a sale using the merkle whitelist", eq(p["whitelist_mode"], MERKLE))
    o("C23 C15", "root recorded for this sale", land(eq(m["presale"], P.key), eq(m["root"], c.arg("root")), eq(m["version"], c.arg("version"))))
    o("C23 C15 C16", "derived address", eq(M.key, c.pda(b"merkle_root", ("key", P.key), ("u64le", c.arg("version")))))
    unchanged(c, o, "C23 C22", P)
    others_unchanged(c, o, "C23", [P, M])
    no_effects(c, o, "C23 C19", creates=1)
    event(c, o, "C26", "EvtMerkleRootConfigCreate", owner=p["owner"], config=M.key, presale=P.key, version=c.arg("version"), root=c.arg("root"))
    return o.cl


def el_create_merkle_root_config(c):
    P = c.one("Presale")
    p = P.pre
    return "C23", land(well_formed(p), open_or_upcoming(p, c.now), eq(p["whitelist_mode"], MERKLE), eq(c.nth(2).key, p["owner"]))


def sp_close_merkle_root_config(c):
    o = Out()
    P, M = c.one("Presale"), c.one("MerkleRootConfig")
    p, m = P.pre, M.pre
    o("C23 C16", "only the creator", c.signed(p["owner"]))
    o("C23 C16", "config belongs to this sale", eq(m["presale"], P.key))
    o("C23 C05", "never while the sale is open", lnot(in_phase(p, c.now, ONGOING)))
    unchanged(c, o, "C23 C22", P)
    others_unchanged(c, o, "C23", [P, M])
    no_effects(c, o, "C23 C19", closes=1)
    if len(c.closed) == 1:
        o("C23", "the config is closed", eq(c.closed[0][1], M.key))
    event(c, o, "C26", "EvtCloseMerkleRootConfig", presale=P.key, merkle_root_config=M.key, owner=p["owner"])
    return o.cl


def el_close_merkle_root_config(c):
    p = c.one("Presale").pre
    return "C23", land(lnot(in_phase(p, c.now, ONGOING)), eq(c.nth(3).key, p["owner"]))


def sp_create_operator(c):
    o = Out()
    O = c.one("Operator")
    n = O.post
    o("C23 C16", "the appointing creator signed", c.signed(n["creator"]))
    o("C23 C16 C14", "derived address", eq(O.key, c.pda(b"operator", ("key", n["creator"]), ("key", n["owner"]))))
    others_unchanged(c, o, "C23", [O])
    no_effects(c, o, "C23 C19", creates=1)
    event(c, o, "C26", "EvtOperatorCreate", creator=n["creator"], operator=O.key, operator_owner=n["owner"])
    return o.cl


def sp_revoke_operator(c):
    o = Out()
    O = c.one("Operator")
    o("C23 C16", "only the appointing creator", c.signed(O.pre["creator"]))
    no_effects(c, o, "C23 C19", closes=1)
    if len(c.closed) == 1:
        o("C23 C14", "the operator account is closed", eq(c.closed[0][1], O.key))
        o("C23 C16", "rent goes back to the creator", eq(c.closed[0][2], O.pre["creator"]))
    return o.cl


def sp_create_permissioned_server_metadata(c):
    o = Out()
    P, S = c.one("Presale"), c.one("PermissionedServerMetadata")
    p = P.pre
    o("C23 C16", "only the creator", c.signed(p["owner"]))
    o("C23 C05", "before the sale ends", open_or_upcoming(p, c.now))
    o("C23", "only in a permissioned sale", lor(eq(p["whitelist_mode"], MERKLE), eq(p["whitelist_mode"], AUTHORITY)))
    o("C23", "recorded for this sale", eq(S.post["presale"], P.key))
    o("C23", "url recorded", c.same_string(S.post["server_url"], c.arg("server_url")))
    o("C23 C16", "derived address", eq(S.key, c.pda(b"server_metadata", ("key", P.key))))
    unchanged(c, o, "C23 C22", P)
    no_effects(c, o, "C23 C19", creates=1)
    event(c, o, "C26", "EvtPermissionedServerMetadataCreate", presale=P.key, permissioned_server_metadata=S.key)
    return o.cl


def el_create_permissioned_server_metadata(c):
    p = c.one("Presale").pre
    return "C23", land(well_formed(p), open_or_upcoming(p, c.now), lnot(eq(p["whitelist_mode"], PERMISSIONLESS)))


def sp_close_permissioned_server_metadata(c):
    o = Out()
    P, S = c.one("Presale"), c.one("PermissionedServerMetadata")
    o("C23 C16", "only the creator", c.signed(P.pre["owner"]))
    o("C23 C16", "metadata belongs to this sale", eq(S.pre["presale"], P.key))
    unchanged(c, o, "C23 C22", P)
    no_effects(c, o, "C23 C19", closes=1)
    if len(c.closed) == 1:
        o("C23", "the metadata is closed", eq(c.closed[0][1], S.key))
    event(c, o, "C26", "EvtPermissionedServerMetadataClose", presale=P.key, permissioned_server_metadata=S.key)
    return o.cl


def sp_initialize_fixed_price_presale_args(c):
    o = Out()
    F = c.one("FixedPricePresaleExtraArgs")
    f = F.post
    o("C23 C25 C17", "price is positive", lt(0, c.arg("q_price")))
    o("C23 C04", "withdraw switch is a boolean", le(c.arg("disable_withdraw"), 1))
    o("C23 C25 C17", "recorded as given", land(eq(f["q_price"], c.arg("q_price")), eq(f["presale"], c.arg("presale")),
                                      eq(f["disable_withdraw"], c.arg("disable_withdraw"))))
    o("C23", "owner is one of the accounts passed", c.has_key(f["owner"]))
    o("C23 C16 C17", "derived address", eq(F.key, c.pda(b"fixed_price_param", ("key", c.arg("presale")))))
    no_effects(c, o, "C23 C19", creates=1)
    event(c, o, "C26", "EvtFixedPricePresaleArgsCreate", presale=c.arg("presale"), q_price=c.arg("q_price"))
    return o.cl


def el_initialize_fixed_price_presale_args(c):
    return "C23", land(lt(0, c.arg("q_price")), le(c.arg("disable_withdraw"), 1))


def sp_close_fixed_price_presale_args(c):
    o = Out()
    F = c.one("FixedPricePresaleExtraArgs")
    o("C23 C16", "only its owner", c.signed(F.pre["owner"]))
    no_effects(c, o, "C23 C19", closes=1)
    if len(c.closed) == 1:
        o("C23", "the account is closed", eq(c.closed[0][1], F.key))
        o("C23 C16", "rent goes back to the owner", eq(c.closed[0][2], F.pre["owner"]))
    return o.cl


# ------------------------------------------------------------------------------ creating a sale
MIN_DURATION, MAX_DURATION, MAX_AHEAD, MAX_LOCK_VEST = 60, 2592000, 2592000, 315360000


def creation_rules(c, n, R):
    """validity of the creation parameters: list of (name, formula)"""
    g = lambda f: c.arg("presale_params." + f)
    v = lambda f: c.arg("locked_vesting_params." + f)
    mn, mx = g("presale_minimum_cap"), g("presale_maximum_cap")
    start, end = imax(g("presale_start_time"), c.now), g("presale_end_time")
    wl, mode = g("whitelist_mode"), g("presale_mode")
    none = land(*[eq(v(f), 0) for f in ("immediately_release_bps", "lock_duration", "vest_duration", "immediate_release_timestamp", "padding")])
    bps, lock, vest, ir = v("immediately_release_bps"), v("lock_duration"), v("vest_duration"), v("immediate_release_timestamp")
    out = [
        ("caps", land(lt(0, mn), le(mn, mx))),
        ("window", land(lt(start, end), le(MIN_DURATION, sub(end, start)), le(sub(end, start), MAX_DURATION), le(sub(start, c.now), MAX_AHEAD))),
        ("modes and flags", land(le(wl, 2), le(mode, 2), le(g("disable_earlier_presale_end_once_cap_reached"), 1))),
        ("registry count", land(le(1, n), le(n, NREG), lor(eq(n, 1), lnot(eq(wl, PERMISSIONLESS))))),
        ("vesting limits", lor(none, land(lt(add(lock, vest), MAX_LOCK_VEST), le(bps, BPS)))),
        ("vesting consistency", lor(none, ite(eq(bps, BPS), land(eq(lock, 0), eq(vest, 0), lor(eq(ir, 0), eq(ir, end))),
                                              land(lor(lt(0, lock), lt(0, vest)),
                                                   lor(eq(ir, 0), ite(eq(bps, 0), eq(ir, end), land(le(end, ir), le(ir, add(end, add(lock, vest)))))))))),
    ]
    tot = 0
    for i, r in enumerate(R):
        a, b = r["buyer_minimum_deposit_cap"], r["buyer_maximum_deposit_cap"]
        out.append(("registry %d" % i, land(le(a, b), lt(0, b), le(b, mx), lt(0, r["presale_supply"]), le(r["deposit_fee_bps"], MAX_DEPOSIT_FEE_BPS))))
        tot = add(tot, r["presale_supply"])
    out.append(("total supply", le(tot, U64)))
    perm = lnot(eq(wl, PERMISSIONLESS))
    for i, r in enumerate(R):
        a, b = r["buyer_minimum_deposit_cap"], r["buyer_maximum_deposit_cap"]
        out.append(("registry %d limits of a permissioned sale" % i, implies(land(perm, lnot(eq(mode, FIXED))), land(eq(a, 1), eq(b, mx)))))
    return out, none, tot, start, end


def fixed_price_rules(c, F, key, R, tot):
    g = lambda f: c.arg("presale_params." + f)
    mn, mx = g("presale_minimum_cap"), g("presale_maximum_cap")
    perm = lnot(eq(g("whitelist_mode"), PERMISSIONLESS))
    q = F["q_price"]
    out = [("price parameters are of this sale", eq(F["presale"], key)), ("price", lt(0, q)),
           ("the cap is covered by the supply", le(bought(mx, q), tot)),
           ("caps differ by at least one token", lt(bought(mn, q), bought(mx, q)))]
    for i, r in enumerate(R):
        a, b = r["buyer_minimum_deposit_cap"], r["buyer_maximum_deposit_cap"]
        out.append(("registry %d limits buy tokens" % i, land(*[land(lt(0, bought(x, q)), le(bought(x, q), U64)) for x in (a, b)])))
        out.append(("registry %d limits of a permissioned sale, fixed price" % i, implies(perm, land(eq(a, cost(1, q)), eq(b, mx)))))
    return out


def sp_initialize_presale(c):
    o = Out()
    P = c.one("Presale")
    p2 = P.post
    g = lambda f: c.arg("presale_params." + f)
    v = lambda f: c.arg("locked_vesting_params." + f)
    ln, R = c.vec("presale_registries", NREG)
    n = c.split(ln, NREG + 1)
    o("C17", "at least one registry and at most five", land(le(1, ln), le(ln, NREG)))
    if not isinstance(n, int) or n == 0 or n > NREG:
        return o.cl
    R = R[:n]
    rules, none, tot, start, end = creation_rules(c, n, R)
    for nm, f in rules:
        o("C17" + (" C03" if nm.startswith("registry") else "") + (" C06" if "vesting" in nm else "") + (" C05" if nm == "window" else ""), "valid " + nm, f)
    mode = g("presale_mode")
    Fs = c.of_type("FixedPricePresaleExtraArgs")
    fixed = eq(mode, FIXED)
    if Fs:
        for nm, f in fixed_price_rules(c, Fs[0].pre, P.key, R, tot):
            o("C17 C25", "valid fixed price: " + nm, implies(fixed, f))
        o("C17 C25", "price recorded", implies(fixed, eq(p2["presale_mode_raw_data[0]"], Fs[0].pre["q_price"])))
        o("C17 C04", "withdraw switch recorded", implies(fixed, eq(byte(p2["presale_mode_raw_data[1]"], 0), Fs[0].pre["disable_withdraw"])))
        others_unchanged(c, o, "C17", [P])
    else:
        o("C17 C25", "a fixed-price sale needs its price parameters", lnot(fixed))
    dis = g("disable_earlier_presale_end_once_cap_reached")
    o("C17 C05", "early end switch recorded", implies(lnot(eq(mode, PRORATA)),
      eq(ite(fixed, byte(p2["presale_mode_raw_data[1]"], 1), byte(p2["presale_mode_raw_data[0]"], 0)), dis)))
    # recorded as given
    for f in ("presale_mode", "whitelist_mode", "presale_maximum_cap", "presale_minimum_cap", "unsold_token_action"):
        o("C17", "recorded %s" % f, eq(p2[f], g(f)))
    o("C17 C05", "recorded start and end", land(eq(p2["presale_start_time"], start), eq(p2["presale_end_time"], end)))
    for f, a in (("immediate_release_bps", "immediately_release_bps"), ("lock_duration", "lock_duration"), ("vest_duration", "vest_duration"),
                 ("immediate_release_timestamp", "immediate_release_timestamp")):
        o("C17 C06", "recorded %s" % f, eq(p2[f], ite(none, 0, v(a))))
    vs = add(end, v("lock_duration"))
    o("C17 C06", "vesting start", eq(p2["vesting_start_time"], ite(none, 0, vs)))
    o("C17 C06", "vesting end", eq(p2["vesting_end_time"], ite(none, 0, add(vs, v("vest_duration")))))
    o("C17 C07 C22", "total supply is the registries' sum", eq(p2["presale_supply"], tot))
    o("C17 C22", "registry count recorded", eq(p2["total_presale_registry_count"], n))
    for i in range(NREG):
        for f in ("presale_supply", "buyer_minimum_deposit_cap", "buyer_maximum_deposit_cap", "deposit_fee_bps"):
            o("C17 C22", "registry %d %s" % (i, f), eq(reg(p2, i, f), R[i][f] if i < n else 0))
        o("C17 C22 C07 C09", "registry %d ledgers start at zero" % i,
          land(*[eq(reg(p2, i, f), 0) for f in ("total_deposit", "total_escrow", "total_claimed_token", "total_refunded_quote_token", "total_deposit_fee")]))
    o("C17 C22 C07 C09", "ledgers and flags start at zero",
      land(*[eq(p2[f], 0) for f in ("total_deposit", "total_escrow", "total_claimed_token", "total_refunded_quote_token", "total_deposit_fee",
                                    "deposit_fee_collected", "has_creator_withdrawn", "is_unsold_token_action_performed")]))
    o("C17", "creation time", eq(p2["created_at"], c.now))
    # accounts
    o("C17 C16", "derived address of base key and both mints", eq(P.key, c.pda(b"presale", ("key", p2["base"]), ("key", p2["base_mint"]), ("key", p2["quote_mint"]))))
    o("C17 C16", "base key signed", c.signed(p2["base"]))
    o("C17 C16 C19", "vaults at derived addresses", land(eq(p2["base_token_vault"], c.pda(b"base_vault", ("key", P.key))),
                                                      eq(p2["quote_token_vault"], c.pda(b"quote_vault", ("key", P.key)))))
    mints = c.of_type("Mint")
    o("C17 C20", "supported mints", lambda: land(*[implies(lor(eq(m.key, p2["base_mint"]), eq(m.key, p2["quote_mint"])), c.supported_mint(m)) for m in mints]))
    o("C17", "mints are mint accounts", land(c.has_key(p2["base_mint"], "Mint"), c.has_key(p2["quote_mint"], "Mint")))
    o("C17", "owner is one of the accounts passed", c.has_key(p2["owner"]))
    no_effects(c, o, "C17 C19", transfers=1, creates=3, inits=2)
    if len(c.init_tokens) == 2 and len(c.created) == 3:
        for vault, mint, flag in (("base_token_vault", "base_mint", "base_token_program_flag"), ("quote_token_vault", "quote_mint", "quote_token_program_flag")):
            fs = [land(eq(t["account"], p2[vault]), eq(t["mint"], p2[mint]), eq(t["authority"], AUTHORITY_KEY),
                       eq(p2[flag], ite(eq(t["prog"], TOKEN_ID), 0, 1))) for t in c.init_tokens]
            o("C17 C19 C16", "%s is held by the program's authority" % vault, lor(*fs))
    if len(c.transfers) == 1:
        t = c.transfers[0]
        o("C17 C19 C16", "supply goes into the base vault", land(eq(t["dst"], p2["base_token_vault"]), eq(t["mint"], p2["base_mint"])))
        o("C17 C16", "payer signed", c.signed(t["auth"]))
        c.fee_included(o, "C17 C20 C07", t, tot, "base vault receives the whole supply")
        c.hook_memo(o, "C20", t, False, "supply")
    event(c, o, "C26", "EvtPresaleVaultCreate", base_mint=p2["base_mint"], quote_mint=p2["quote_mint"], lock_duration=v("lock_duration"),
          vest_duration=v("vest_duration"), whitelist_mode=g("whitelist_mode"), presale_mode=mode, presale_end_time=end,
          presale_start_time=g("presale_start_time"), presale_maximum_cap=g("presale_maximum_cap"), presale_minimum_cap=g("presale_minimum_cap"),
          presale_registries=c.arg("presale_registries"))
    return o.cl


def el_initialize_presale(c):
    P = c.one("Presale") if c.of_type("Presale") else None
    if c.code not in CREATION_ERRORS or P is None:
        return "C17", False
    ln, R = c.vec("presale_registries", NREG)
    n = c.split(ln, NREG + 1)
    if not isinstance(n, int) or n == 0 or n > NREG:
        return "C17", False
    R = R[:n]
    rules, none, tot, start, end = creation_rules(c, n, R)
    mode = c.arg("presale_params.presale_mode")
    Fs = c.of_type("FixedPricePresaleExtraArgs")
    f = land(*[x for _, x in rules])
    if Fs:
        f = land(f, lor(lnot(eq(mode, FIXED)), land(*[x for _, x in fixed_price_rules(c, Fs[0].pre, P.key, R, tot)])))
    else:
        f = land(f, lnot(eq(mode, FIXED)))
    return "C17", f


CREATION_ERRORS = (6001, 6002, 6003, 6006, 6007, 6038, 6039, 6042, 6044)

SPECS = {k[3:]: v for k, v in list(globals().items()) if k.startswith("sp_")}
ELIG = {k[3:]: v for k, v in list(globals().items()) if k.startswith("el_")}


# ------------------------------------------------------------------------------ arithmetic does not stand in the way
# `ARITH[ix](c)`: an eligible call on a consistent ledger is not refused with an arithmetic error and does not panic either.
# Judged on concrete executions of the program only (bounded, see DESIGN.md): the solvers do not decide these in time.
def consistent(p, e=None, i=None):
    """ledger facts kept by every operation (C17 at creation, C22 afterwards; the sums over escrows are the lemmas of C07 and C09)"""
    fs = [eq(p["total_deposit"], add_up([reg(p, k, "total_deposit") for k in range(NREG)])),
          eq(p["total_deposit_fee"], add_up([reg(p, k, "total_deposit_fee") for k in range(NREG)])),
          eq(p["presale_supply"], add_up([reg(p, k, "presale_supply") for k in range(NREG)])),
          lor(lnot(eq(p["presale_mode"], FIXED)), le(bought(p["presale_maximum_cap"], q_price(p)), p["presale_supply"])),
          lor(eq(p["presale_mode"], PRORATA), le(p["total_deposit"], p["presale_maximum_cap"])),
          le(p["immediate_release_bps"], BPS), le(add(p["vesting_start_time"], p["vest_duration"]), U64)]
    if e is not None:
        fs += [le(e["total_deposit"], reg(p, i, "total_deposit")), le(e["total_deposit_fee"], reg(p, i, "total_deposit_fee")),
               le(add(reg(p, i, "total_deposit"), reg(p, i, "total_deposit_fee")), U64)]
    return land(*fs)


def add_up(l):
    r = 0
    for x in l:
        r = add(r, x)
    return r


def released_ok(p, e, i, now):
    """what was released earlier is still released (lemma: releases never shrink), and counters hold it (lemma: claims within supply)"""
    cum = cumulative(p, e, i, now)
    had = add(e["total_claimed_token"], e["pending_claim_token"])
    due = sub(cum, e["total_claimed_token"])
    return land(le(had, cum), le(add(reg(p, i, "total_claimed_token"), due), U64), le(add(p["total_claimed_token"], due), U64))


def ar_claim(c):
    P, E = c.one("Presale"), c.one("Escrow")
    i = idx(c, E.pre)
    return "C06", land(el_claim(c)[1], le(0, c.now), consistent(P.pre, E.pre, i), released_ok(P.pre, E.pre, i, c.now))


def ar_refresh_escrow(c):
    P, E = c.one("Presale"), c.one("Escrow")
    i = idx(c, E.pre)
    return "C21", land(el_refresh_escrow(c)[1], le(0, c.now), consistent(P.pre, E.pre, i), released_ok(P.pre, E.pre, i, c.now))


def ar_withdraw_remaining_quote(c):
    P, E = c.one("Presale"), c.one("Escrow")
    i = idx(c, E.pre)
    rd, rf = refund(P.pre, E.pre, i)
    return "C08", land(el_withdraw_remaining_quote(c)[1], le(0, c.now), consistent(P.pre, E.pre, i),
                       le(add(P.pre["total_refunded_quote_token"], add(rd, rf)), U64), le(add(reg(P.pre, i, "total_refunded_quote_token"), add(rd, rf)), U64))


def ar_withdraw(c):
    P, E = c.one("Presale"), c.one("Escrow")
    return "C04", land(el_withdraw(c)[1], le(0, c.now), consistent(P.pre, E.pre, idx(c, E.pre)))


def ar_creator_withdraw(c):
    p = c.one("Presale").pre
    return "C10", land(el_creator_withdraw(c)[1], le(0, c.now), consistent(p))


def ar_creator_collect_fee(c):
    p = c.one("Presale").pre
    return "C11", land(el_creator_collect_fee(c)[1], le(0, c.now), consistent(p))


def ar_perform_unsold_base_token_action(c):
    p = c.one("Presale").pre
    return "C12", land(el_perform_unsold_base_token_action(c)[1], le(0, c.now), consistent(p))


def ar_close_escrow(c):
    P, E = c.one("Presale"), c.one("Escrow")
    i = idx(c, E.pre)
    return "C13", land(el_close_escrow(c)[1], le(0, c.now), consistent(P.pre, E.pre, i), lt(0, P.pre["total_escrow"]), lt(0, reg(P.pre, i, "total_escrow")))


def ar_deposit(c):
    P, E = c.one("Presale"), c.one("Escrow")
    p, e = P.pre, E.pre
    i = idx(c, e)
    a = deposit_amount(p, e, i, c.arg("max_amount"))
    f = deposit_fee(a, reg(p, i, "deposit_fee_bps"))
    return "C02", land(el_deposit(c)[1], le(0, c.now), consistent(p, e, i), lt(reg(p, i, "deposit_fee_bps"), BPS),
                       le(add(p["total_deposit"], a), U64), le(add(p["total_deposit_fee"], f), U64), le(add(a, f), U64),
                       le(add(add(reg(p, i, "total_deposit"), a), add(reg(p, i, "total_deposit_fee"), f)), U64),
                       le(add(c.now, add(p["lock_duration"], p["vest_duration"])), U64), le(add(c.now, p["immediate_release_timestamp"]), U64),
                       eq(c.received(add(a, f), p["quote_mint"]), add(a, f)))


ARITH = {k[3:]: v for k, v in list(globals().items()) if k.startswith("ar_")}
