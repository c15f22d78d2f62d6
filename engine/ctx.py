"""View of one symbolic path of an instruction as (pre-state, post-state, effects).

The specifications (spec.py) are written against this interface only.  A concrete run of the real
program (replay.py) offers the same interface over Python integers, so one and the same text is
proved symbolically and evaluated on executions.
"""
import json
import os
import z3
from sym import *
from vexec import *
import vbuiltins as vb

AUTH_SEEDS = b"presale_authority\xff"

ALLOWED_EXT = (1, 14, 18, 19)   # transfer fee config, transfer hook, metadata pointer, token metadata
B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"


def b58(s):
    n = 0
    for ch in s:
        n = n * 58 + B58.index(ch)
    return n


NATIVE22 = b58("9pan9bMn5HatX4EJdBwg9VgCa7Uz5HL8N1m5D3NdXejP")

HERE = os.path.dirname(os.path.abspath(__file__))
_names = None


def canon_names():
    global _names
    if _names is None:
        p = os.path.join(HERE, "names.json")
        _names = json.load(open(p)) if os.path.exists(p) else {}
    return _names


def type_leaves(P, ti, prefix=""):
    """(name, kind, size) leaves of a plain data type in declaration order"""
    t = P.types[ti]
    if t.k in ("int", "uint", "bool"):
        return [(prefix, t.k, t.size)]
    if t.k == "array":
        et = P.types[t.elem]
        if et.k == "uint" and et.bits == 8:
            return [(prefix, "bytes", t.len)]
        out = []
        for i in range(t.len):
            out += type_leaves(P, t.elem, "%s[%d]" % (prefix, i))
        return out
    if t.k == "tuple":
        out = []
        for i, e in enumerate(t.elems):
            out += type_leaves(P, e, "%s.%d" % (prefix, i))
        return out
    if t.k == "adt":
        s = t.name.split("::")[-1]
        if s in ("Pubkey", "Address"):
            return [(prefix, "pubkey", 32)]
        if t.name.endswith("vec::Vec"):
            return [(prefix, "vec", t.args[0])]
        if t.name.endswith("string::String"):
            return [(prefix, "string", None)]
        if len(t.variants) == 1:
            out = []
            for f in t.variants[0]["fields"]:
                n = f["name"]
                out += type_leaves(P, f["ty"], (prefix + "." + n) if prefix else n)
            return out
        return [(prefix, "enum", ti)]
    return [(prefix, "opaque", t.s)]


def canonical(P, ti, pre=""):
    """names of the leaves of type ti, canonical by position when the shape is the known one"""
    t = P.types[ti]
    short = (t.name or t.s).split("::")[-1]
    lv = type_leaves(P, ti)
    c = canon_names().get(pre + short)
    if c is not None and len(c) == len(lv):
        return short, c, lv
    return short, [l[0] for l in lv], lv


def value_leaves(ex, st, ti, v):
    """leaf values of v : ti in the order of type_leaves"""
    P = ex.P
    t = P.types[ti]
    v = ex.force(v) if isinstance(v, Lazy) else v
    if t.k in ("int", "uint", "bool"):
        return [v]
    if t.k == "array":
        et = P.types[t.elem]
        if et.k == "uint" and et.bits == 8:
            if isinstance(v, Agg):
                v = ex.mk_bytes([x if isinstance(x, Bytes) else Bytes(1, x) for x in v.f])
            return [ex.bytes_be(v)]
        out = []
        if isinstance(v, Bytes):
            raise Unsupported("flatten bytes as " + t.s)
        for x in v.f:
            out += value_leaves(ex, st, t.elem, x)
        return out
    if t.k == "tuple":
        out = []
        for e, x in zip(t.elems, v.f):
            out += value_leaves(ex, st, e, x)
        return out
    if t.k == "adt":
        s = t.name.split("::")[-1]
        if s in ("Pubkey", "Address"):
            return [vb.pkt(ex, st, v)]
        if t.name.endswith("vec::Vec") or t.name.endswith("string::String"):
            return [v]
        if len(t.variants) == 1:
            if isinstance(v, Opq):
                return [v] * len(type_leaves(P, ti))
            out = []
            for f, x in zip(t.variants[0]["fields"], v.f):
                out += value_leaves(ex, st, f["ty"], x)
            return out
        return [v]
    return [v]


def cursor(v):
    """the position of an index or of a pointer into a slice"""
    if isinstance(v, Ptr):
        return v.path[-1][1] if v.path and v.path[-1][0] == "i" else None
    return v


class NeedSplit(Exception):
    def __init__(self, term, n):
        self.term = term
        self.n = n


class Acct:
    """an account: key, flags, data before and after"""

    def __init__(self, c, name):
        self.c = c
        self.name = name
        self.key = vb.acct_key(name)
        self.signer = z3.Bool(name + ".is_signer")
        self.writable = z3.Bool(name + ".is_writable")
        self.owner = vb.acct_owner(name)
        self.type = None
        self.kind = None
        self._pre = self._post = None

    def __getattr__(self, a):
        if a in ("pre", "post"):
            return self.data(a)
        raise AttributeError(a)

    def data(self, when):
        k = "_" + when
        v = getattr(self, k)
        if v is None:
            v = self.c.flat(self, when)
            setattr(self, k, v)
        return v


class SymCtx:
    concrete = False

    def __init__(self, ex, r, ix, fixed=None):
        self.ex, self.r, self.ix = ex, r, ix
        self.fixed = fixed or {}
        self.st = r.st
        self.now = mkint("clock.unix_timestamp", -(1 << 63), (1 << 63) - 1)
        self.epoch = mkint("clock.epoch", 0, (1 << 64) - 1)
        self.pid = r.gh["program_id"]
        names = list(r.gh.get("accts", ()))
        for n in r.gh.get("data", {}):
            if n not in names:
                names.append(n)
        names.sort(key=lambda s: (len(s), s))
        self.accts = {}
        for n in names:
            a = Acct(self, n)
            d = r.gh.get("data", {}).get(n)
            if d:
                a.ti, a.kind = d
                a.type = ex.T[d[0]].name.split("::")[-1]
            self.accts[n] = a
        self.transfers = [e[1] for e in r.eff if e[0] == "transfer"]
        self.burns = [e[1] for e in r.eff if e[0] in ("burn", "burn_checked")]
        self.closed = [(e[1], e[2], e[3]) for e in r.eff if e[0] == "close"]
        self.created = [(e[2], e[3]) for e in r.eff if e[0] == "system" and e[1] == "create_account"]
        self.init_tokens = [e[1] for e in r.eff if e[0] == "init_token_account"]
        self.memos = sum(1 for e in r.eff if e[0] == "memo")
        self.hooks = [e for e in r.eff if e[0] == "hook_accounts"]
        self.other = [e for e in r.eff if e[0] not in (
            "transfer", "burn", "burn_checked", "close", "system", "init_token_account", "memo", "hook_accounts", "event")
            and e[:2] != ("cpi", "event")]
        self.order = [e[0] for e in r.eff]
        self._events = None

    # -- arguments --------------------------------------------------------------------------
    @property
    def args(self):
        ti = getattr(self.ex, "arg_ti", None)
        if ti is None:
            return {}
        a = self.ex.__dict__.setdefault("_args_flat", None)
        if a is None:
            short, names, lv = canonical(self.ex.P, ti, "args:")
            vals = value_leaves(self.ex, self.st, ti, Lazy(ti, "args"))
            a = {}
            for n, l, v in zip(names, lv, vals):
                a[n] = v
                if l[1] == "enum":
                    v = self.ex.force(v)
                    a[n] = v
            self.ex._args_flat = a
        return a

    def option(self, v):
        """(is_some, payload) of an Option leaf"""
        v = self.ex.force(v)
        if isinstance(v, Agg):
            return (v.v == 1, v.f[0] if v.v == 1 else 0)
        return eq(v.d, 1), self.ex.force(v.vs[1].f[0])

    def arg(self, name):
        a = self.args
        if name in a:
            return a[name]
        l = [v for k, v in a.items() if k.endswith("." + name)]
        if len(l) != 1:
            raise Unsupported("argument " + name)
        return l[0]

    def concretise(self, t):
        """the value the path has fixed for t, if it has"""
        if isinstance(t, int):
            return t
        return self.split(t, 5)

    def split(self, t, n):
        """case split of an obligation on t = 0..n-1 or t >= n"""
        if isinstance(t, int):
            return t
        k = self.r.known.get(t.get_id())
        if k is None:
            k = self.fixed.get(t.get_id())
        if k is None:
            raise NeedSplit(t, n)
        return t if k == "other" else k

    # -- accounts ---------------------------------------------------------------------------
    def nth(self, i):
        return self.accts["acc[%d]" % i]

    def has_key(self, key, tn=None):
        return lor(*[eq(a.key, key) for a in self.accts.values() if tn is None or a.type == tn])

    def of_type(self, tn):
        return [a for a in self.accts.values() if a.type == tn]

    def one(self, tn):
        l = self.of_type(tn)
        if len(l) != 1:
            raise Unsupported("expected one %s account, got %d" % (tn, len(l)))
        return l[0]

    def by_key_type(self, tn):
        return self.of_type(tn)

    def signed(self, key):
        return lor(*[land(eq(a.key, key), a.signer) for a in self.accts.values()])

    def flat(self, a, when):
        ex, r = self.ex, self.r
        ti = a.ti
        cell = ("data", a.name, ti)
        if a.kind == "account":
            v = Lazy(ti, "%s.%s" % (a.name, a.type))
            if when == "post":
                v = r.gh.get(("exit", a.name), v)
        elif when == "pre":
            v = vb.zero_value(ex, ti) if a.kind == "init" else Lazy(ti, "%s.%s" % (a.name, a.type))
        else:
            v = r.mem.get(cell)
            if v is None:
                v = ex.lazy_cells.get(cell, Lazy(ti, "%s.%s" % (a.name, a.type)))
        short, names, lv = canonical(ex.P, ti)
        return dict(zip(names, value_leaves(ex, self.st, ti, v)))

    def touched(self):
        """accounts of the program whose data may differ after the call"""
        return [a for a in self.accts.values() if a.kind in ("loader", "init") or ("exit", a.name) in self.r.gh]

    # -- effects ----------------------------------------------------------------------------
    @property
    def events(self):
        if self._events is None:
            self._events = []
            for e in self.r.eff:
                if e[0] == "event":
                    short, names, lv = canonical(self.ex.P, e[2])
                    self._events.append((e[1], dict(zip(names, value_leaves(self.ex, self.st, e[2], e[3])))))
        return self._events

    def same(self, a, b):
        """equality of two leaves (terms or structured values)"""
        if a is b:
            return True
        if isinstance(a, (int, bool, z3.ExprRef)) and isinstance(b, (int, bool, z3.ExprRef)):
            return eq(a, b)
        sa, sb = repr(a), repr(b)
        return sa == sb

    # -- derived addresses ------------------------------------------------------------------
    def pda(self, *seeds, program=None):
        """address derived from seeds: bytes, ("key", t), ("u8", t), ("u64le", t)"""
        ch = self.chunks(seeds)
        pr = self.pid if program is None else program
        ch.append(Bytes(32, pr))
        ch = vb.norm_chunks(self.ex, ch)
        return vb.uf_bytes("pda", ch, 256)

    def sha256(self, *parts):
        return vb.uf_bytes("sha256", vb.norm_chunks(self.ex, self.chunks(parts)), 256)

    def ata(self, owner, program, mint):
        return vb.uf_bytes("ata", [(32, False, t) if is_sym(t) else (32, None, t.to_bytes(32, "big"))
                                   for t in (owner, mint, program)], 256)

    def chunks(self, parts):
        ch = []
        for s in parts:
            if isinstance(s, bytes):
                ch.append(Bytes(len(s), int.from_bytes(s, "big")))
            elif s[0] in ("key", "b32"):
                ch.append(Bytes(32, s[1]))
            elif s[0] == "u8":
                ch.append(Bytes(1, s[1]))
            elif s[0] == "u64le":
                ch.append(Bytes(8, s[1], True))
        return ch

    # -- token-2022 -------------------------------------------------------------------------
    def mint_view(self, key):
        """transfer-fee view of the mint account with this key: list of (cond, has_fee, bps, max_fee)"""
        out = []
        for a in self.of_type("Mint"):
            n = a.name
            has = land(lnot(eq(a.owner, vb.TOKEN_ID)), z3.Bool(n + ".has_ext_TransferFeeConfig"))
            bps = mkint("rev2(%s.epochfee.transfer_fee_basis_points)" % n, 0, 65535)
            mx = mkint("rev8(%s.epochfee.maximum_fee)" % n, 0, (1 << 64) - 1)
            out.append((eq(a.key, key), a, has, bps, mx))
        return out

    def fee_included(self, o, props, t, net, label):
        """the transfer leaves exactly `net` at the destination after the mint's transfer fee"""
        fs = []
        for cond, a, has, bps, mx in self.mint_view(t["mint"]):
            A = t["amount"]
            fee = ite(eq(bps, 0), 0, imin(cdiv(mul(A, bps), 10000), mx))
            fs.append(land(cond, eq(sub(A, ite(has, fee, 0)), net)))
            ep = self.r.gh.get(("epoch_of", a.name))
            if ep is not None:
                o(props, label + ": fee of the current epoch", eq(ep, self.epoch))
        o(props, label, lor(*fs))

    def received(self, amount, mint):
        """what the receiver of a transfer of `amount` gets after the mint's transfer fee"""
        r = amount
        for cond, a, has, bps, mx in self.mint_view(mint):
            fee = ite(eq(bps, 0), 0, imin(cdiv(mul(amount, bps), 10000), mx))
            r = sub(amount, ite(has, fee, 0))
        return r

    def authority_seeds(self, t):
        s = t.get("seeds")
        if not s:
            return False
        if len(s) == 1 and isinstance(s[0][2], bytes):
            return s[0][2] == AUTH_SEEDS
        return False

    def ata_any(self, owner, mint, prog):
        return self.ata(owner, prog, mint)

    def same_string(self, a, b):
        return self.same(a, b)

    # -- vectors in the arguments ------------------------------------------------------------
    def vec(self, name, n):
        """(length, fields of the first n elements) of a vector argument"""
        ex = self.ex
        ti = ex.arg_ti
        short, names, lv = canonical(ex.P, ti, "args:")
        full = [k for k in names if k == name or k.endswith("." + name)][0]
        et = lv[names.index(full)][2]
        v = self.args[full]
        cn, enames, elv = canonical(ex.P, et)
        out = []
        for i in range(n):
            vals = value_leaves(ex, self.st, et, Lazy(et, "%s[%d]" % (v.cell[1], i)))
            out.append(dict(zip(enames, vals)))
        return v.len, out

    # -- token-2022 handling ------------------------------------------------------------------
    def by_key(self, key):
        """name of the account whose key symbol is `key`"""
        for a in self.accts.values():
            if a.key is key or repr(a.key) == repr(key):
                return a
        return None

    def hook_memo(self, o, props, t, memo, label):
        mint, dst = self.by_key(t["mint"]), self.by_key(t["dst"])
        pos = [i for i, e in enumerate(self.r.eff) if e[0] == "transfer" and e[1] is t][0]
        before = self.r.eff[:pos]
        if mint is not None:
            hook = land(lnot(eq(mint.owner, vb.TOKEN_ID)), z3.Bool(mint.name + ".has_hook"))
            hp = mkint(mint.name + ".hook_program", 0, (1 << 256) - 1)
            hs = [land(eq(e[2], t["amount"]), eq(e[3], hp), *[eq(e[1][k], t[k]) for k in ("src", "mint", "dst", "auth", "amount")])
                  for e in before if e[0] == "hook_accounts"]
            o(props, label + ": hook accounts supplied exactly when the mint has a hook", land(implies(hook, lor(*hs)), implies(lnot(hook), len(hs) == 0)))
            if mint.type == "Mint" and t.get("decimals") is not None:
                o(props, label + ": checked with the mint's decimals", eq(t["decimals"], mkint(mint.name + ".Mint.decimals", 0, 255)))
        ps = self.r.gh.get("parses", ())
        sale = [a for a in self.accts.values() if a.type == "Presale"]
        if len(ps) == 1 and len(sale) == 1 and t["mint"] is not None:
            n, kinds, sl, _ = ps[0]
            p = sale[0].post
            side = lambda k: eq(t["mint"], p["base_mint" if k == 0 else "quote_mint"])
            if kinds is not None:
                o(props, label + ": only hook accounts of the token moved may be requested",
                  land(len(kinds) > 0, *[side(k) if isinstance(k, int) else land(implies(eq(k, 0), side(0)), implies(eq(k, 1), side(1))) for k in kinds]))
            if sl.cell[0] == "lz" and sl.path and isinstance(sl.path[-1][1], int) and sl.cell[1].endswith(".slices"):
                o(props, label + ": the whole request is looked at", land(eq(sl.path[-1][1], 0), eq(sl.meta, z3.Int(sl.cell[1] + ".len"))))
            for e in before:
                h = e[4] if e[0] == "hook_accounts" else None
                if isinstance(h, Ptr) and h.cell[0] == "lz":
                    for k, w in ((0, "base"), (1, "quote")):
                        if h.cell[1] == "parse%d.out.transfer_hook_%s.Some.0" % (n, w):
                            o(props, label + ": the accounts named for its hook are passed", land(side(k), eq(h.path[-1][1], 0), eq(h.meta, z3.Int(h.cell[1] + ".len"))))
        if memo and dst is not None:
            need = land(lnot(eq(dst.owner, vb.TOKEN_ID)), z3.Bool(dst.name + ".has_ext_MemoTransfer"),
                        lnot(eq(mkint(dst.name + ".ext.MemoTransfer.require_incoming_transfer_memos", 0, 255), 0)))
            o(props, label + ": memo sent when the receiver requires one", implies(need, any(e[0] == "memo" for e in before)))

    def supported_mint(self, a):
        """plain token-program mint, or token-2022 mint (not the native one) whose extensions were all found allowed"""
        alts = []
        pre = a.name + ".exts"
        ln = mkint(pre + ".len", 0, (1 << 64) - 1)
        on = set()
        for l in self.r.pc:
            if not isinstance(l, bool):
                st = [l]
                while st:
                    x = st.pop()
                    if z3.is_const(x):
                        on.add(x.decl().name())
                    elif z3.is_bool(x):
                        st += x.children()
        for nm, L in self.ex.loops.items():
            if nm not in on:
                continue
            for k, v in L["sym"].items():
                if not (is_sym(v) and isinstance(L["init"].get(k), int) and L["init"][k] == 0):
                    continue
                steps, mine = [], True
                tag = mkint("%s[%s].tag" % (pre, v), 0, 255)
                for pcs, up in L["steps"]:
                    if not any((pre + "[") in str(x) for x in pcs):
                        mine = False
                    steps.append(implies(land(*pcs), land(lor(*[eq(tag, x) for x in ALLOWED_EXT]), eq(up.get(k, v), add(v, 1)))))
                if mine and L["steps"]:
                    alts.append(land(z3.Bool(nm), le(ln, v), *steps))
        nat = eq(a.key, NATIVE22)
        return lor(eq(a.owner, vb.TOKEN_ID), land(lnot(nat), lor(*alts)))

    # -- proof folding ----------------------------------------------------------------------
    def folds(self):
        """loops over unbounded input this path went through: (hash state, index, record)"""
        out = []
        for l in self.r.pc:
            if z3.is_const(l) and z3.is_bool(l) and l.decl().name() in self.ex.loops:
                L = self.ex.loops[l.decl().name()]
                hs = [k for k, v in L["sym"].items() if isinstance(v, Bytes) and v.n == 32]
                ii = [k for k, v in L["sym"].items() if is_sym(cursor(v)) and isinstance(cursor(L["init"][k]), int) and not isinstance(cursor(L["init"][k]), bool) and cursor(L["init"][k]) == 0]
                out += [(h, i, L) for h in hs for i in ii]
        return out

    def merkle(self, o, props, leaf, root):
        """the proof elements, in order, are folded into the leaf with sorted pairs under prefix 1 and give the root"""
        vec = self.arg("proof")
        name = vec.cell[1]
        fs = self.folds()
        o(props, "the proof is folded", len(fs) > 0)

        def alt(which):
            out = []
            for h, i, L in fs:
                hv, iv = self.ex.bytes_be(L["sym"][h]), cursor(L["sym"][i])
                p = mkint("%s[%s]" % (name, iv), 0, (1 << 256) - 1)
                nxt = self.sha256(b"\x01", ("b32", imin(hv, p)), ("b32", imax(hv, p)))
                steps = []
                for pcs, up in L["steps"]:
                    h2 = self.ex.bytes_be(up.get(h, L["sym"][h]))
                    steps.append(implies(land(*pcs), land(eq(h2, nxt), eq(cursor(up.get(i, iv)), add(iv, 1)), lt(iv, vec.len))))
                out.append({"start": eq(self.ex.bytes_be(L["init"][h]), leaf), "step": land(*steps),
                            "end": land(eq(hv, root), le(vec.len, iv))}[which])
            return lor(*out)
        o(props, "folding starts from the leaf of owner, registry and cap", alt("start"))
        o(props, "each step hashes the sorted pair with the node prefix", alt("step"))
        o(props, "all proof elements used and the result is the registered root", alt("end"))

    def merkle_ok(self, root):
        fs = self.folds()
        return lor(*[eq(self.ex.bytes_be(L["sym"][h]), root) for h, i, L in fs]) if fs else True
