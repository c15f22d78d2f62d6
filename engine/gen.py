"""Scenarios: a sale in a reachable-looking state, its people and one instruction call."""
import hashlib
import random
from conc import *

S64 = 1 << 64
T0 = 1_700_000_000
SALE_SUMS = ("total_deposit", "total_deposit_fee", "total_escrow", "total_claimed_token", "total_refunded_quote_token")


def key(*xs):
    return int.from_bytes(hashlib.sha256(repr(xs).encode()).digest(), "big")


def acc(owner, data=b"", lamports=10_000_000, executable=False):
    return {"owner": owner, "lamports": lamports, "data": data, "executable": executable}


class Gen:
    def __init__(self, cd, rng):
        self.cd, self.r = cd, rng

    def chance(self, p):
        return self.r.random() < p

    def val(self, hi, lo=0):
        """an integer of [lo, hi], biased to the ends and small values"""
        if hi <= lo:
            return lo
        c = self.r.random()
        if c < .12:
            return lo
        if c < .24:
            return hi
        if c < .34:
            return min(hi, lo + self.r.choice((1, 2, 3)))
        if c < .4:
            return max(lo, hi - self.r.choice((1, 2)))
        if c < .5:
            return (lo + hi) // 2
        if c < .75:
            return self.r.randint(lo, min(hi, lo + 30))
        return self.r.randint(lo, hi)

    def shares(self, total, caps):
        """split total into parts below caps"""
        out = [0] * len(caps)
        left = total
        for k in self.r.sample(range(len(caps)), len(caps)):
            x = min(caps[k], left if self.chance(.3) else self.val(min(left, caps[k])))
            out[k] = x
            left -= x
        for k in range(len(caps)):
            x = min(caps[k] - out[k], left)
            out[k] += x
            left -= x
        return out

    # -- parameters of a valid sale -----------------------------------------------------------
    def params(self):
        r = self.r
        p = {}
        mode, wl = r.randrange(3), r.randrange(3)
        n = 1 if wl == 0 else r.choice((1, 2, 2, 3, 5))
        big = r.choice((20, 1000, 10 ** 6, 10 ** 9, 10 ** 12, 10 ** 15, 1 << 62))
        q = 0
        if mode == 0:
            q = r.choice((S64, S64, S64 * 3, S64 // 3, S64 * 7 // 2, S64 * 1000, S64 // 1000, r.randint(1, S64 * 10), S64 + 1, S64 - 1))
            while q > S64 and big * q // S64 > 1 << 62:
                big //= 10
            while q < S64 and big * S64 // q > 1 << 62:
                big //= 10
            big = max(big, 20)
        mx = self.val(big, max(2, 2 * q // S64 + 2))
        mn = self.val(mx, 1)
        if mode == 0 and spec.bought(mn, q) >= spec.bought(mx, q):
            mn = max(1, mx - q // S64 - 1)
        supply = max(n, spec.bought(mx, q)) if mode == 0 else big
        supplies = [1 + x for x in self.shares(supply - n + (self.val(big) if self.chance(.3) and supply < 1 << 60 else 0), [1 << 63] * n)]
        if mode == 0 and sum(supplies) < 1 << 61 and self.chance(.05):      # far more for sale than the cap can buy
            supplies[-1] += (1 << 62) - sum(supplies)
        regs = []
        for i in range(n):
            bps = r.choice((0, 0, 1, 100, 300, 2500, 5000, r.randint(0, 5000)))
            if wl == 0:
                bmx = self.val(mx, 1) if self.chance(.7) else mx
                bmn = self.val(bmx, 0 if mode else 1)
                if mode == 0:
                    c1 = spec.cost(1, q)
                    bmx, bmn = min(max(bmx, c1), mx), max(min(bmn, bmx), min(c1, bmx))
            else:
                bmx = mx
                bmn = spec.cost(1, q) if mode == 0 else 1
            regs.append({"presale_supply": supplies[i], "buyer_minimum_deposit_cap": bmn, "buyer_maximum_deposit_cap": bmx, "deposit_fee_bps": bps})
        start = T0 + r.choice((0, 10, 1000))
        end = start + r.choice((60, 61, 1000, 2592000, 86400))
        v = dict(immediate_release_bps=0, lock_duration=0, vest_duration=0, immediate_release_timestamp=0)
        none = self.chance(.2)
        if not none:
            bps = r.choice((0, 10000, 1, 2500, 5000, 9999, r.randint(0, 10000)))
            if bps == 10000:
                v = dict(immediate_release_bps=bps, lock_duration=0, vest_duration=0, immediate_release_timestamp=end)
            else:
                lock, vest = r.choice((0, 1, 50, 1000, 100000)), r.choice((0, 1, 7, 100, 1000, 1000000))
                if lock + vest == 0:
                    vest = 10
                v = dict(immediate_release_bps=bps, lock_duration=lock, vest_duration=vest,
                         immediate_release_timestamp=end if bps == 0 else r.choice((end, end + lock, end + lock + vest, end + (lock + vest) // 2)))
        return dict(mode=mode, wl=wl, n=n, q=q, mx=mx, mn=mn, regs=regs, start=start, end=end, v=v, none=none, early=r.choice((0, 1)), nowd=r.choice((0, 0, 1)))

    # -- a sale ---------------------------------------------------------------------------------
    def sale(self, k, phase):
        """(state, now) of a sale in the given phase (or any)"""
        r = self.r
        P = self.params()
        d = self.cd.zero("Presale")
        d.update(owner=k["creator"], quote_mint=k["quote_mint"], base_mint=k["base_mint"], base_token_vault=k["base_vault"],
                 quote_token_vault=k["quote_vault"], base=k["base"], presale_mode=P["mode"], whitelist_mode=P["wl"],
                 presale_maximum_cap=P["mx"], presale_minimum_cap=P["mn"], presale_start_time=P["start"], presale_end_time=P["end"],
                 created_at=T0 - 5, total_presale_registry_count=P["n"], unsold_token_action=r.randrange(2),
                 base_token_program_flag=int(k["base_prog"] == TOKEN22), quote_token_program_flag=int(k["quote_prog"] == TOKEN22), **P["v"])
        if not P["none"]:
            d["vesting_start_time"] = P["end"] + P["v"]["lock_duration"]
            d["vesting_end_time"] = d["vesting_start_time"] + P["v"]["vest_duration"]
        if P["mode"] == 0:
            d["presale_mode_raw_data[0]"] = P["q"]
            d["presale_mode_raw_data[1]"] = P["nowd"] + 256 * P["early"]
        elif P["mode"] == 2:
            d["presale_mode_raw_data[0]"] = P["early"]
        d["presale_supply"] = sum(x["presale_supply"] for x in P["regs"])
        # deposits
        caps = []
        for x in P["regs"]:
            c = 1 << 62
            if P["mode"] == 0:
                c = spec.cost(x["presale_supply"], P["q"])
            caps.append(c)
        hi = P["mx"] if P["mode"] != 1 else P["mx"] * r.choice((1, 1, 2, 3, 10))
        T = r.choice((0, P["mn"] - 1, P["mn"], P["mn"] + 1, P["mx"], P["mx"] - 1, hi, self.val(hi), self.val(hi)))
        if phase == spec.COMPLETED:
            T = max(T, P["mn"])
        if phase == spec.FAILED:
            T = min(T, P["mn"] - 1)
        T = min(T, hi)
        D = self.shares(T, caps)
        for i, x in enumerate(P["regs"]):
            f = 0
            if x["deposit_fee_bps"]:
                f = spec.deposit_fee(D[i], x["deposit_fee_bps"]) + (self.val(max(1, D[i] // 10)) if self.chance(.3) else 0)
            for kk, vv in dict(x, total_deposit=D[i], total_deposit_fee=f, total_escrow=r.randint(1, 5) if D[i] or self.chance(.5) else 0).items():
                d["presale_registries[%d].%s" % (i, kk)] = vv
        d["has_creator_withdrawn"], d["deposit_fee_collected"], d["is_unsold_token_action_performed"] = [int(self.chance(.15)) for _ in range(3)]
        now = self.when(d, phase)
        if phase is not None and now >= d["presale_end_time"] and P["mode"] != 1 and self.chance(.2):
            # ended early
            e2 = self.r.randint(P["start"], d["presale_end_time"])
            off = max(0, d["immediate_release_timestamp"] - d["presale_end_time"])
            d["presale_end_time"] = e2
            d["vesting_start_time"] = e2 + d["lock_duration"]
            d["vesting_end_time"] = d["vesting_start_time"] + d["vest_duration"]
            d["immediate_release_timestamp"] = e2 + off
        self.sum_up(d)
        over = [x for x in (spec.COMPLETED, spec.FAILED) if spec.in_phase(d, now, x)]
        if over and self.chance(.4):
            for i in range(P["n"]):
                D_, F_ = d["presale_registries[%d].total_deposit" % i], d["presale_registries[%d].total_deposit_fee" % i]
                if over[0] == spec.FAILED:
                    d["presale_registries[%d].total_refunded_quote_token" % i] = self.val(D_ + F_)
                elif P["mode"] == 1:
                    d["presale_registries[%d].total_refunded_quote_token" % i] = self.val(sum(spec.registry_refund(d, i)))
                if over[0] == spec.COMPLETED and D_:
                    d["presale_registries[%d].total_claimed_token" % i] = self.val(spec.sold_in(d, i))
            self.sum_up(d)
        return d, now, P

    def sum_up(self, d):
        for f in SALE_SUMS:
            d[f] = sum(d["presale_registries[%d].%s" % (i, f)] for i in range(5))

    def when(self, d, phase):
        s, e = d["presale_start_time"], d["presale_end_time"]
        vs, ve, ir = d["vesting_start_time"], d["vesting_end_time"], d["immediate_release_timestamp"]
        if phase is None:
            phase = self.r.randrange(4)
        if phase == spec.NOT_STARTED:
            return self.r.choice((s - 1, s - 10))
        if phase == spec.ONGOING:
            return self.r.choice((s, s + 1, e - 1, (s + e) // 2))
        c = [t for t in (e, e + 1, e + 2, ir - 1, ir, ir + 1, vs - 1, vs, vs + 1, (vs + ve) // 2, ve - 1, ve, ve + 1, ve + 1000, self.r.randint(min(e, ve), max(e, ve))) if t >= e]
        return self.r.choice(c)

    def escrow(self, k, p, now, reg):
        r = self.r
        e = self.cd.zero("Escrow")
        g = lambda f: p["presale_registries[%d].%s" % (reg, f)]
        e.update(presale=k["presale"], owner=k["owner"], registry_index=reg, created_at=p["presale_start_time"], last_refreshed_at=p["presale_start_time"])
        bmx = g("buyer_maximum_deposit_cap")
        e["deposit_max_cap"] = bmx if p["whitelist_mode"] == 0 else self.val(bmx, min(bmx, max(1, g("buyer_minimum_deposit_cap"))))
        dep = self.val(min(g("total_deposit"), e["deposit_max_cap"]))
        if dep and dep < g("buyer_minimum_deposit_cap"):
            dep = min(g("total_deposit"), e["deposit_max_cap"], g("buyer_minimum_deposit_cap"))
        if self.chance(.12):
            dep = 0
        e["total_deposit"] = dep
        if g("deposit_fee_bps"):
            lo = spec.deposit_fee(dep, g("deposit_fee_bps"))
            e["total_deposit_fee"] = min(g("total_deposit_fee"), lo + (self.val(max(1, lo)) if self.chance(.2) else 0))
        if spec.in_phase(p, now, spec.COMPLETED):
            t1, t2 = sorted(self.r.choice((p["presale_end_time"], now, self.r.randint(p["presale_end_time"], now))) for _ in range(2))
            c1, c2 = spec.cumulative(p, e, reg, t1), spec.cumulative(p, e, reg, t2)
            if self.chance(.7):
                e["total_claimed_token"] = c1
                e["last_refreshed_at"] = t1
                if self.chance(.6):
                    e["pending_claim_token"] = c2 - c1
                    e["last_refreshed_at"] = t2
            f = "presale_registries[%d].total_claimed_token" % reg
            p[f] = max(p[f], e["total_claimed_token"])
        if spec.in_phase(p, now, spec.FAILED) or (spec.in_phase(p, now, spec.COMPLETED) and p["presale_mode"] == 1):
            if self.chance(.2):
                e["is_remaining_quote_withdrawn"] = 1
                f = "presale_registries[%d].total_refunded_quote_token" % reg
                p[f] = max(p[f], sum(spec.refund(p, e, reg)))
        self.sum_up(p)
        return e

    # -- everything around it ------------------------------------------------------------------
    def world(self):
        r = self.r
        tag = r.choice(("a", "b"))
        k = {}
        k["base_prog"] = r.choice((TOKEN, TOKEN, TOKEN22))
        k["quote_prog"] = r.choice((TOKEN, TOKEN, TOKEN22))
        for n in ("base", "creator", "payer", "owner", "operator_owner", "rent", "base_mint", "quote_mint", "owner_quote", "owner_base",
                  "payer_base", "payer_quote", "creator_quote", "stranger"):
            k[n] = key(tag, n)
        k["system"], k["memo"], k["program"], k["authority"] = SYSTEM, MEMO, PID, spec.AUTHORITY_KEY
        k["event"] = find_pda([b"__event_authority"])
        self.derive(k)
        a = {}
        for p in (SYSTEM, TOKEN, TOKEN22, MEMO, PID):
            a[p] = acc(p, b"", 1, True)
        for n in ("base", "creator", "payer", "owner", "operator_owner", "rent", "stranger"):
            a[k[n]] = acc(SYSTEM, b"", 10 ** 12)
        epoch = 100
        mex, tex = {}, {}
        self.hooks = {}
        for w in ("base", "quote"):
            prog = k[w + "_prog"]
            ex, tx = (), ()
            if prog == TOKEN22 and self.chance(.7):
                bps = r.choice((0, 1, 50, 100, 1000, 9999, 10000)) if self.chance(.3) else r.choice((0, 1, 50, 333))
                b2 = r.choice((bps, 500, 0))
                mx = r.choice((U64, 5, 1000, 0))
                ex = (fee_ext((0, mx, bps), (r.choice((99, 100, 101, 100)), r.choice((mx, U64)), b2)),)
                tx = ((2, bytes(8)),)
            self.hooks[w] = 0
            if prog == TOKEN22 and self.chance(.25):
                self.hooks[w] = key("hook", w)
                ex += ((14, bytes(32) + kb(self.hooks[w])),)
                tx += ((15, bytes(1)),)
            mex[w], tex[w] = ex, tx
            a[k[w + "_mint"]] = acc(prog, mint_data(prog, r.choice((0, 6, 9)), ex))
        big = U64 // 8
        tok = lambda kk, w, o, amt, more=(): a.__setitem__(k[kk], acc(k[w + "_prog"], token_data(k[w + "_prog"], k[w + "_mint"], o, amt, tex[w] + more)))
        memo = lambda w: ((8, bytes([r.randrange(2)])),) if k[w + "_prog"] == TOKEN22 and self.chance(.5) else ()
        for w in ("base", "quote"):
            tok(w + "_vault", w, k["authority"], big)
            tok("owner_" + w, w, k["owner"], big, memo(w))
            tok("payer_" + w, w, k["payer"], big)
            tok("creator_" + w, w, k["creator"], 0, memo(w))
        self.tex = tex
        return k, a, epoch

    def derive(self, k):
        k["presale"] = find_pda([b"presale", kb(k["base"]), kb(k["base_mint"]), kb(k["quote_mint"])])
        for w in ("base", "quote"):
            k[w + "_vault"] = find_pda([(w + "_vault").encode(), kb(k["presale"])])
        k["creator_base"] = find_pda([kb(k["creator"]), kb(k["base_prog"]), kb(k["base_mint"])], ATA)
        k["operator"] = find_pda([b"operator", kb(k["creator"]), kb(k["operator_owner"])])
        k["meta"] = find_pda([b"server_metadata", kb(k["presale"])])
        k["fixed"] = find_pda([b"fixed_price_param", kb(k["presale"])])

    def escrow_key(self, k, reg):
        return find_pda([b"escrow", kb(k["presale"]), kb(k["owner"]), bytes([reg])])

    PHASE = {"deposit": (1,), "withdraw": (1,), "claim": (2,), "refresh_escrow": (2, 2, 1), "close_escrow": (1, 2, 2, 3), "withdraw_remaining_quote": (2, 3, 3, 2),
             "creator_withdraw": (2, 3), "creator_collect_fee": (2,), "perform_unsold_base_token_action": (2,), "create_permissionless_escrow": (1,),
             "create_permissioned_escrow_with_creator": (1,), "create_permissioned_escrow_with_merkle_proof": (1,), "create_merkle_root_config": (0, 1),
             "close_merkle_root_config": (0, 1, 2, 3), "create_permissioned_server_metadata": (0, 1), "close_permissioned_server_metadata": (0, 1, 2, 3)}

    def scenario(self, ix, overlay=None):
        r = self.r
        if ix == "initialize_presale":
            return self.creation(overlay)
        k, a, epoch = self.world()
        dev = None if overlay else r.random() < .3
        ph = r.choice(self.PHASE.get(ix, (None,))) if self.chance(.85) else None
        p, now, P = self.sale(k, ph)
        wl = {"create_permissionless_escrow": 0, "create_permissioned_escrow_with_merkle_proof": 1, "create_merkle_root_config": 1,
              "create_permissioned_escrow_with_creator": 2}.get(ix)
        for _ in range(6):
            if wl is None or p["whitelist_mode"] == wl or self.chance(.03):
                break
            p, now, P = self.sale(k, ph)
        want_mode = {"withdraw": (0, 1), "withdraw_remaining_quote": (1,)}.get(ix)
        for _ in range(4):
            if want_mode is None or p["presale_mode"] in want_mode or self.chance(.2):
                break
            p, now, P = self.sale(k, ph)
        reg = r.randrange(P["n"])
        k["escrow"] = self.escrow_key(k, reg)
        e = self.escrow(k, p, now, reg)
        args = {}
        for n, kind, size, _ in self.cd.leaves(self.cd.ti(camel(ix), "presale::instruction::"), "args:"):
            args[n] = [] if kind == "vec" else b"" if kind == "string" else 0
        g = lambda f: p["presale_registries[%d].%s" % (reg, f)]
        st = {"presale": ("Presale", p), "escrow": ("Escrow", e)}
        m, S, W, SW, R = None, (1, 0), (0, 1), (1, 1), (0, 0)
        init = ()
        if ix == "deposit":
            cap = min(g("buyer_maximum_deposit_cap"), e["deposit_max_cap"])
            left = p["presale_maximum_cap"] - p["total_deposit"]
            args["max_amount"] = r.choice((1, cap, max(0, cap - e["total_deposit"]), max(0, left), max(0, left - 1), left + 1 if left > 0 else 1, U64, self.val(max(1, cap)),
                                           max(0, g("buyer_minimum_deposit_cap") - e["total_deposit"]), self.val(max(1, min(cap, max(left, 0))))))
            m = [("presale", W), ("quote_vault", W), ("quote_mint", R), ("escrow", W), ("owner_quote", W), ("owner", S), ("quote_prog", R)]
        elif ix in ("withdraw", "withdraw_remaining_quote"):
            if ix == "withdraw":
                t = e["total_deposit"]
                args["amount"] = min(U64, max(0, r.choice((t, t, t - 1, t + 1, 1, self.val(max(1, t)), t - g("buyer_minimum_deposit_cap"), t - g("buyer_minimum_deposit_cap") + 1, 0))))
            m = [("presale", W), ("quote_vault", W), ("quote_mint", R), ("authority", R), ("escrow", W), ("owner_quote", W), ("owner", S), ("quote_prog", R), ("memo", R)]
        elif ix == "claim":
            m = [("presale", W), ("base_vault", W), ("base_mint", R), ("authority", R), ("escrow", W), ("owner_base", W), ("owner", S), ("base_prog", R), ("memo", R)]
        elif ix == "refresh_escrow":
            m = [("presale", W), ("escrow", W)]
        elif ix == "close_escrow":
            m = [("presale", W), ("escrow", W), ("owner", S), ("rent", W)]
            if self.chance(.7):
                ph2 = [x for x in range(4) if spec.in_phase(p, now, x)][0]
                if ph2 == 1:
                    e["total_deposit"] = 0
                    if self.chance(.6):
                        e["total_deposit_fee"] = 0
                elif ph2 == 3:
                    if self.chance(.6):
                        e["is_remaining_quote_withdrawn"] = 1
                elif ph2 == 2:
                    e["pending_claim_token"] = 0
                    full = spec.cumulative(p, e, reg, max(now, p["vesting_end_time"], p["immediate_release_timestamp"]) + 1)
                    e["total_claimed_token"] = max(0, full - (1 if self.chance(.15) else 0))
                    f = "presale_registries[%d].total_claimed_token" % reg
                    p[f] = max(p[f], e["total_claimed_token"])
                    if p["presale_mode"] == 1 and self.chance(.7):
                        e["is_remaining_quote_withdrawn"] = 1
                self.sum_up(p)
        elif ix == "creator_withdraw":
            done = p["total_deposit"] >= p["presale_minimum_cap"]
            if self.chance(.05):
                done = not done
            w = "quote" if done else "base"
            m = [("presale", W), ("authority", R), ("creator_" + w, W), ("creator", S), (w + "_prog", R), ("memo", R), ("event", R), ("program", R), (w + "_vault", W), (w + "_mint", R)]
        elif ix == "creator_collect_fee":
            m = [("presale", W), ("authority", R), ("quote_vault", W), ("quote_mint", R), ("creator_quote", W), ("creator", S), ("quote_prog", R), ("memo", R)]
        elif ix == "perform_unsold_base_token_action":
            m = [("presale", W), ("base_vault", W), ("base_mint", W), ("authority", R), ("creator_base", W), ("base_prog", R), ("memo", R)]
        elif ix == "create_permissionless_escrow":
            k["escrow"] = self.escrow_key(k, 0)
            m = [("presale", W), ("escrow", W), ("owner", R), ("payer", SW), ("system", R)]
            init = ("escrow",)
        elif ix.startswith("create_permissioned_escrow"):
            if self.chance(.1):
                reg = r.choice((P["n"], 5, 255, (reg + 1) % 6))
            k["escrow"] = self.escrow_key(k, reg)
            rr = min(reg, 4)
            bmx, bmn = p["presale_registries[%d].buyer_maximum_deposit_cap" % rr], p["presale_registries[%d].buyer_minimum_deposit_cap" % rr]
            cap = r.choice((bmx, bmn, bmx + 1, max(0, bmn - 1), self.val(bmx, min(bmn, bmx)), 0, self.val(bmx, min(bmn, bmx))))
            args["params.registry_index"], args["params.deposit_cap"] = reg, cap
            init = ("escrow",)
            if ix.endswith("creator"):
                o = self.cd.zero("Operator")
                o.update(owner=k["operator_owner"], creator=k["creator"])
                st["operator"] = ("Operator", o)
                m = [("presale", W), ("escrow", W), ("owner", R), ("operator", R), ("operator_owner", S), ("payer", SW), ("system", R)]
            else:
                ver = self.val(3)
                k["root"] = find_pda([b"merkle_root", kb(k["presale"]), ver.to_bytes(8, "little")])
                c = self.cd.zero("MerkleRootConfig")
                lreg, lcap, lown = reg, cap, k["owner"]
                if self.chance(.12):
                    lreg, lcap, lown = r.choice(((reg ^ 1, cap, lown), (reg, cap + 1, lown), (reg, cap, k["stranger"])))
                h = hashlib.sha256(b"\0" + hashlib.sha256(kb(lown) + bytes([lreg & 255]) + min(lcap, U64).to_bytes(8, "little")).digest()).digest()
                proof = []
                for i in range(r.choice((0, 1, 2, 3, 7))):
                    x = hashlib.sha256(bytes([i, r.randrange(256)])).digest()
                    proof.append(int.from_bytes(x, "big"))
                    h = hashlib.sha256(b"\1" + min(h, x) + max(h, x)).digest()
                if self.chance(.06) and proof:
                    proof.pop(r.randrange(len(proof)))
                if self.chance(.05):
                    proof.append(key("x"))
                c.update(root=int.from_bytes(h, "big"), presale=k["presale"], version=ver)
                args["params.proof"] = proof
                st["root"] = ("MerkleRootConfig", c)
                m = [("presale", W), ("escrow", W), ("owner", R), ("root", R), ("payer", SW), ("system", R)]
        elif ix == "create_merkle_root_config":
            ver = self.val(U64)
            k["root"] = find_pda([b"merkle_root", kb(k["presale"]), ver.to_bytes(8, "little")])
            args["params.root"], args["params.version"] = key("root", r.random()), ver
            m = [("presale", R), ("root", W), ("creator", SW), ("system", R)]
            init = ("root",)
        elif ix == "close_merkle_root_config":
            ver = self.val(3)
            k["root"] = find_pda([b"merkle_root", kb(k["presale"]), ver.to_bytes(8, "little")])
            c = self.cd.zero("MerkleRootConfig")
            c.update(root=key("r"), presale=k["presale"], version=ver)
            st["root"] = ("MerkleRootConfig", c)
            m = [("presale", R), ("root", W), ("rent", W), ("creator", S)]
        elif ix == "create_operator":
            m = [("operator", W), ("operator_owner", R), ("creator", SW), ("system", R)]
            init = ("operator",)
        elif ix == "revoke_operator":
            o = self.cd.zero("Operator")
            o.update(owner=k["operator_owner"], creator=k["creator"])
            st["operator"] = ("Operator", o)
            m = [("operator", W), ("creator", SW)]
        elif ix == "create_permissioned_server_metadata":
            args["server_url"] = bytes(r.choice(b"abc:/.") for _ in range(r.choice((0, 1, 20, 100))))
            m = [("presale", R), ("meta", W), ("creator", SW), ("system", R)]
            init = ("meta",)
        elif ix == "close_permissioned_server_metadata":
            o = self.cd.zero("PermissionedServerMetadata")
            o.update(presale=k["presale"], server_url=b"https://x")
            st["meta"] = ("PermissionedServerMetadata", o)
            m = [("presale", R), ("meta", W), ("rent", W), ("creator", S)]
        elif ix == "initialize_fixed_price_presale_args":
            args["params.presale"] = k["presale"]
            args["params.q_price"] = r.choice((0, 1, S64, r.randrange(1 << 128)))
            args["params.disable_withdraw"] = r.choice((0, 1, 1, 2, 255))
            m = [("fixed", W), ("creator", R), ("payer", SW), ("system", R)]
            init = ("fixed",)
        elif ix == "close_fixed_price_presale_args":
            o = self.cd.zero("FixedPricePresaleExtraArgs")
            o.update(owner=k["creator"], presale=k["presale"], q_price=S64)
            st["fixed"] = ("FixedPricePresaleExtraArgs", o)
            m = [("fixed", W), ("creator", SW)]
        else:
            raise Skip(ix)
        if overlay:
            now = overlay(st, args, now, m)
        metas = [[k[n], f[0], f[1]] for n, f in m]
        if ix != "creator_withdraw":
            metas += [[k["event"], 0, 0], [PID, 0, 0]]
        for n, (t, d) in st.items():
            if n not in init:
                a[k[n]] = acc(PID, self.cd.account(t, d))
        if init and self.chance(.04):
            d = self.cd.zero({"escrow": "Escrow", "root": "MerkleRootConfig", "operator": "Operator", "meta": "PermissionedServerMetadata", "fixed": "FixedPricePresaleExtraArgs"}[init[0]])
            a[k[init[0]]] = acc(PID, self.cd.account({"escrow": "Escrow", "root": "MerkleRootConfig", "operator": "Operator", "meta": "PermissionedServerMetadata", "fixed": "FixedPricePresaleExtraArgs"}[init[0]], d))
        if dev:
            now = self.deviate(ix, k, a, st, m, metas, now, init)
        side = None
        if ix == "creator_withdraw":
            side = "quote" if spec.in_phase(st["presale"][1], now, spec.COMPLETED) else "base"
        self.hook_request(ix, a, metas, args, side, bool(overlay))
        return self.pack(ix, now, epoch, a, metas, args)

    SIDE = {"deposit": "quote", "withdraw": "quote", "withdraw_remaining_quote": "quote", "creator_collect_fee": "quote", "claim": "base",
            "perform_unsold_base_token_action": "base", "initialize_presale": "base"}

    def hook_request(self, ix, a, metas, args, side=None, plain=False):
        """extra accounts for the transfer hook and the slices naming them; sometimes ill formed"""
        r = self.r
        side = side or self.SIDE.get(ix)
        name = [n for n in args if n.endswith(".slices")]
        if side is None:
            return
        if not name:
            name = [n for n, kind, _, _ in self.cd.leaves(self.cd.ti(camel(ix), "presale::instruction::"), "args:") if kind == "vec" and n.endswith(".slices")]
            if not name:
                return
        h, kind = self.hooks[side], 0 if side == "base" else 1
        if not h and self.chance(.93):
            return
        hk = h or key("nohook")
        a[hk] = acc(SYSTEM, b"", 1, True)
        for j in range(3):
            a[key("extra", j)] = acc(SYSTEM, b"", 5)
        one = lambda n: [hk] + [key("extra", j) for j in range(n - 1)] if h else []
        keys, req = [], []
        if h:
            n = r.choice((1, 1, 2, 3))
            keys, req = one(n), [(kind, n)]
        c = 1 if plain else r.random()
        if c < .15:
            req.insert(r.randrange(len(req) + 1), (kind, 0))
        elif c < .25:
            req.insert(r.randrange(len(req) + 1), (1 - kind, 0))
        elif c < .33 and req:
            req, keys = req + [(kind, 1)], keys + [hk]
        elif c < .38:
            req.insert(r.randrange(len(req) + 1), (1 - kind, 1))
            keys += [hk]
        elif c < .43 and req:
            req[-1] = (kind, req[-1][1] + 1)
        elif c < .48:
            keys = keys[:-1]
        for x in keys:
            metas.append([x, 0, 0])
        args[name[0]] = [{"accounts_type": t, "length": n} for t, n in req]

    def pack(self, ix, now, epoch, a, metas, args):
        used = {mt[0] for mt in metas}
        return {"ix": ix, "now": now, "epoch": epoch, "accs": {k: v for k, v in a.items() if k in used}, "metas": [tuple(x) for x in metas], "args": args,
                "data": self.cd.ixdata(ix, args)}

    def deviate(self, ix, k, a, st, m, metas, now, init):
        """one thing that is not as it should be: another account in place of one, a missing signature, a foreign link"""
        r = self.r
        c = r.random()
        sig = [i for i, x in enumerate(metas) if x[1]]
        if c < .2 and sig:
            metas[r.choice(sig)][1] = 0
            return now
        if c < .35 and sig:
            i = r.choice(sig)
            metas[i][0] = k["stranger"]
            return now
        if c < .7:
            # an account of another sale, with everything but the sale it names the same
            links = [(n, f) for n, f in (("escrow", "presale"), ("escrow", "owner"), ("root", "presale"), ("meta", "presale"), ("operator", "creator"), ("operator", "owner"),
                                         ("fixed", "owner"), ("presale", "owner"), ("presale", "quote_token_vault"), ("presale", "base_token_vault"), ("presale", "quote_mint"), ("presale", "base_mint"))
                     if n in st and n not in init and any(x[0] == n for x in m)]
            if links:
                n, f = r.choice(links)
                t, d = st[n]
                d = dict(d)
                d[f] = r.choice([k[x] for x in ("stranger", "stranger", "owner", "creator", "operator_owner", "payer", "base", "presale", "rent") if k[x] != d[f]])
                a[k[n]] = acc(PID, self.cd.account(t, d))
                return now
        # a vault, mint or token account that is not the recorded one
        i = r.randrange(len(m))
        n = m[i][0]
        other = key("other", n)
        if n in ("quote_vault", "base_vault"):
            w = n[:-6]
            owner = r.choice((k["authority"], k["stranger"], k["owner"]))
            a[other] = acc(k[w + "_prog"], token_data(k[w + "_prog"], k[w + "_mint"], owner, U64 // 8, self.tex[w]))
        elif n in ("quote_mint", "base_mint"):
            a[other] = acc(a[k[n]]["owner"], a[k[n]]["data"])
        elif n.startswith("owner_") or n.startswith("creator_"):
            w = n.split("_")[1]
            a[other] = acc(k[w + "_prog"], token_data(k[w + "_prog"], k[w + "_mint"], k["stranger"], U64 // 8, self.tex[w]))
        elif n in init:
            pass
        elif n in st:
            t, d = st[n]
            a[other] = acc(PID, self.cd.account(t, d))
        else:
            a[other] = acc(SYSTEM, b"", 10 ** 12)
        metas[i][0] = other
        return now

    # -- creating a sale -------------------------------------------------------------------------
    def creation(self, overlay=None):
        r = self.r
        k, a, epoch = self.world()
        P = self.params()
        now = P["start"] - r.choice((0, 0, 1, 100, 2592000)) if self.chance(.8) else P["start"] + r.choice((1, 5, 2000, 30))
        A = {}
        for n, kind, size, _ in self.cd.leaves(self.cd.ti("InitializePresale", "presale::instruction::"), "args:"):
            A[n] = [] if kind == "vec" else 0
        g = "params.presale_params."
        v = "params.locked_vesting_params."
        A.update({g + "presale_maximum_cap": P["mx"], g + "presale_minimum_cap": P["mn"], g + "presale_start_time": P["start"], g + "presale_end_time": P["end"],
                  g + "whitelist_mode": P["wl"], g + "presale_mode": P["mode"], g + "unsold_token_action": r.randrange(2),
                  g + "disable_earlier_presale_end_once_cap_reached": P["early"] if P["mode"] != 1 else 0,
                  v + "immediately_release_bps": P["v"]["immediate_release_bps"], v + "lock_duration": P["v"]["lock_duration"],
                  v + "vest_duration": P["v"]["vest_duration"], v + "immediate_release_timestamp": P["v"]["immediate_release_timestamp"]})
        regs = [dict(x, padding=0) for x in P["regs"]]
        A["params.presale_registries"] = regs
        if self.chance(.5) and not overlay:
            for _ in range(r.choice((1, 1, 2))):
                self.perturb(A, regs, P, now)
        m = [("base_mint", 0, 0), ("presale", 0, 1), ("authority", 0, 0), ("quote_mint", 0, 0), ("base_vault", 0, 1), ("quote_vault", 0, 1), ("payer_base", 0, 1),
             ("creator", 0, 0), ("base", 1, 0), ("payer", 1, 1), ("base_prog", 0, 0), ("quote_prog", 0, 0), ("system", 0, 0), ("event", 0, 0), ("program", 0, 0)]
        f = self.cd.zero("FixedPricePresaleExtraArgs")
        q = P["q"] if P["q"] else r.choice((S64, 1))
        f.update(owner=k["creator"], presale=k["presale"] if self.chance(.96) else k[r.choice(("stranger", "base", "creator", "base_mint", "payer"))], q_price=q, disable_withdraw=P["nowd"])
        a[k["fixed"]] = acc(PID, self.cd.account("FixedPricePresaleExtraArgs", f))
        if A[g + "presale_mode"] == 0 and self.chance(.97):
            m.append(("fixed", 0, 0))
        for n in ("base_vault", "quote_vault"):
            a.pop(k[n])
        if self.chance(.15):
            w = r.choice(("base", "quote"))
            if k[w + "_prog"] == TOKEN22:
                t = r.choice((3, 6, 9, 10, 12, 14, 18, 19, 20, 16, 4))
                body = {3: 32, 6: 1, 9: 0, 10: 52, 12: 32, 14: 64, 18: 64, 19: 80, 20: 64, 16: 129, 4: 65}[t]
                old = tuple(exts_of(a[k[w + "_mint"]]["data"]).items())
                a[k[w + "_mint"]]["data"] = mint_data(TOKEN22, 6, tuple(x for x in old if x[0] != t) + ((t, bytes(body)),))
        metas = [[k[n], s, w] for n, s, w in m]
        if overlay:
            now = overlay({"fixed": ("FixedPricePresaleExtraArgs", f)}, A, now, [(x[0], 0) for x in m])
            a[k["fixed"]] = acc(PID, self.cd.account("FixedPricePresaleExtraArgs", f))
        elif self.chance(.1):
            i = r.randrange(len(metas))
            if metas[i][1]:
                metas[i][1] = 0
            else:
                metas[i][0] = k["stranger"]
        self.hook_request("initialize_presale", a, metas, A, None, bool(overlay))
        return self.pack("initialize_presale", now, epoch, a, metas, A)

    def perturb(self, A, regs, P, now):
        r = self.r
        c = r.randrange(4)
        if c == 0 and regs:
            x = r.choice(regs)
            f = r.choice(("presale_supply", "buyer_minimum_deposit_cap", "buyer_maximum_deposit_cap", "deposit_fee_bps"))
            x[f] = min(U64, max(0, r.choice((0, 1, x[f] + 1, x[f] - 1, 5001, 5000, P["mx"], P["mx"] + 1, U64))))
            if f == "deposit_fee_bps":
                x[f] = min(x[f], 65535)
        elif c == 1:
            if self.chance(.5) and regs:
                regs.pop()
            else:
                regs.extend(dict(regs[0] if regs else {"presale_supply": 1, "buyer_minimum_deposit_cap": 1, "buyer_maximum_deposit_cap": 1, "deposit_fee_bps": 0, "padding": 0})
                            for _ in range(r.choice((1, 4, 5))))
        else:
            n = r.choice([x for x in A if isinstance(A[x], int) and "padding" not in x])
            big = {"presale_mode": 4, "whitelist_mode": 4, "unsold_token_action": 3, "disable_earlier_presale_end_once_cap_reached": 3, "immediately_release_bps": 65535}.get(n.split(".")[-1])
            e = P["end"]
            x = r.choice((0, 1, A[n] + 1, A[n] - 1, e, e + 1, e - 1, now, now + 59, now + 60, now + 2592000, now + 2592001, 10000, 10001, 315360000, 315359999, U64, P["mx"], P["mn"]))
            A[n] = min(U64, max(0, x)) if big is None else max(0, x) % (big + 1) if big < 65535 else min(max(0, x), 65535)
