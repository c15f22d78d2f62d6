"""Concrete executions of the real program, judged by the same specification.

The native harness (harness/, built from /repo) runs the program's own entry point with the real token
programs.  ConcCtx shows one such run through the interface of ctx.SymCtx, so spec.py is evaluated on it.
Used to turn a failed obligation into a failing input, and as a bounded stand-in for an instruction the
symbolic executor cannot handle.
"""
import hashlib
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import ctx as CT
import spec
from sym import *

TARGET = os.path.join(os.environ.get("VBUILD", os.path.join(VERIF, ".build")), "harness")
HARNESS = os.environ.get("HARNESS", os.path.join(VERIF, "harness"))
BUSINESS = set(range(6000, 6060)) - {6020, 6028, 6030, 6031, 6032, 6033, 6041}


def b58(s):
    return CT.b58(s)


PID = b58("presSVxnf9UU8jMxhgSMqaRwNiT36qeBdNeTRKjTdbj")
TOKEN, TOKEN22 = spec.TOKEN_ID, spec.TOKEN22_ID
SYSTEM = 0
MEMO = b58("MemoSq4gqABAXKb96qnH8TysNcWxMyWCqXgDLGmfcHr")
ATA = b58("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL")
U64 = (1 << 64) - 1


class Skip(Exception):
    pass


# ------------------------------------------------------------------------------ addresses
_P = 2 ** 255 - 19
_D = -121665 * pow(121666, _P - 2, _P) % _P


def on_curve(b):
    y = int.from_bytes(b, "little")
    y &= (1 << 255) - 1
    if y >= _P:
        y %= _P
    u, v = (y * y - 1) % _P, (_D * y * y + 1) % _P
    if u == 0:
        return True
    w = u * pow(v, _P - 2, _P) % _P
    return pow(w, (_P - 1) // 2, _P) == 1


_pdas = {}


def find_pda(seeds, program=None):
    prog = (PID if program is None else program).to_bytes(32, "big")
    k = (tuple(seeds), prog)
    r = _pdas.get(k)
    if r is None:
        pre = b"".join(seeds)
        for bump in range(255, -1, -1):
            h = hashlib.sha256(pre + bytes([bump]) + prog + b"ProgramDerivedAddress").digest()
            if not on_curve(h):
                r = int.from_bytes(h, "big")
                break
        _pdas[k] = r
    return r


def kb(k):
    return k.to_bytes(32, "big")


def disc(kind, name):
    return hashlib.sha256(("%s:%s" % (kind, name)).encode()).digest()[:8]


def camel(s):
    return "".join(w.capitalize() for w in s.split("_"))


# ------------------------------------------------------------------------------ types and encoding
ACCOUNT_TYPES = ("Presale", "Escrow", "Operator", "MerkleRootConfig", "PermissionedServerMetadata", "FixedPricePresaleExtraArgs")


class Codec:
    def __init__(self, P):
        self.P = P
        self.by = {}
        for i, t in P.types.items():
            if t.k == "adt" and t.name.startswith("presale::"):
                self.by.setdefault(t.name.split("::")[-1], []).append((i, t.name))
        self.layout = {}

    def ti(self, short, part):
        l = [i for i, n in self.by.get(short, ()) if part in n]
        if len(l) != 1:
            raise Skip("type %s" % short)
        return l[0]

    def leaves(self, ti, pre=""):
        k = (ti, pre)
        if k not in self.layout:
            short, names, lv = CT.canonical(self.P, ti, pre)
            self.layout[k] = [(n, l[1], l[2], l[0]) for n, l in zip(names, lv)]
        return self.layout[k]

    def enc_leaf(self, kind, size, v):
        if kind in ("uint", "int", "bool"):
            return int(v).to_bytes(size, "little", signed=kind == "int")
        if kind in ("bytes", "pubkey"):
            return int(v).to_bytes(size, "big")
        if kind == "enum":
            return bytes([v])
        if kind == "string":
            return len(v).to_bytes(4, "little") + v
        if kind == "vec":
            out = len(v).to_bytes(4, "little")
            for x in v:
                out += self.enc(size, x)
            return out
        raise Skip("encode " + kind)

    def enc(self, ti, d, pre=""):
        lv = self.leaves(ti, pre)
        if len(lv) == 1 and lv[0][3] == "":
            return self.enc_leaf(lv[0][1], lv[0][2], d)
        return b"".join(self.enc_leaf(k, s, d.get(n, [] if k == "vec" else b"" if k == "string" else 0)) for n, k, s, _ in lv)

    def dec(self, ti, b, off=0, pre=""):
        """(dict of leaves, end)"""
        out = {}
        lv = self.leaves(ti, pre)
        for n, k, s, _ in lv:
            if k in ("uint", "int", "bool"):
                out[n] = int.from_bytes(b[off:off + s], "little", signed=k == "int")
                off += s
            elif k in ("bytes", "pubkey"):
                out[n] = int.from_bytes(b[off:off + s], "big")
                off += s
            elif k == "enum":
                out[n] = b[off]
                off += 1
            elif k == "string":
                ln = int.from_bytes(b[off:off + 4], "little")
                out[n] = bytes(b[off + 4:off + 4 + ln])
                off += 4 + ln
            elif k == "vec":
                ln = int.from_bytes(b[off:off + 4], "little")
                off += 4
                xs = []
                for _ in range(ln):
                    x, off = self.dec(s, b, off)
                    xs.append(x)
                out[n] = xs
            else:
                raise Skip("decode " + k)
        if len(lv) == 1 and lv[0][3] == "":
            return out[lv[0][0]], off
        return out, off

    def account(self, short, d):
        return disc("account", short) + self.enc(self.ti(short, "::state::"), d)

    def zero(self, short):
        return {n: b"" if k == "string" else 0 for n, k, s, _ in self.leaves(self.ti(short, "::state::"))}

    def ixdata(self, ix, args):
        ti = self.ti(camel(ix), "presale::instruction::")
        return disc("global", ix) + self.enc(ti, args, "args:")


# ------------------------------------------------------------------------------ token accounts
def mint_data(prog, decimals=6, exts=()):
    b = bytes(36) + U64.to_bytes(8, "little") + bytes([decimals, 1]) + bytes(36)
    if prog == TOKEN22 and exts:
        b += bytes(165 - 82) + b"\x01"
        for t, d in exts:
            b += t.to_bytes(2, "little") + len(d).to_bytes(2, "little") + d
    return b


def fee_ext(older, newer):
    f = lambda x: x[0].to_bytes(8, "little") + x[1].to_bytes(8, "little") + x[2].to_bytes(2, "little")
    return (1, bytes(64) + bytes(8) + f(older) + f(newer))


def token_data(prog, mint, owner, amount, exts=()):
    b = kb(mint) + kb(owner) + amount.to_bytes(8, "little") + bytes(36) + b"\x01" + bytes(12) + bytes(8) + bytes(36)
    if prog == TOKEN22 and exts:
        b += b"\x02"
        for t, d in exts:
            b += t.to_bytes(2, "little") + len(d).to_bytes(2, "little") + d
    return b


def exts_of(data):
    out = {}
    o = 166
    while o + 4 <= len(data):
        t, n = int.from_bytes(data[o:o + 2], "little"), int.from_bytes(data[o + 2:o + 4], "little")
        if t == 0:
            break
        out.setdefault(t, data[o + 4:o + 4 + n])
        o += 4 + n
    return out


def fee_of(acc, epoch):
    """(bps, maximum) of the mint's transfer fee in this epoch, or None"""
    if acc is None or acc["owner"] != TOKEN22:
        return None
    e = exts_of(acc["data"]).get(1)
    if e is None:
        return None
    rd = lambda o: (int.from_bytes(e[o:o + 8], "little"), int.from_bytes(e[o + 8:o + 16], "little"), int.from_bytes(e[o + 16:o + 18], "little"))
    old, new = rd(72), rd(90)
    ep, mx, bps = new if epoch >= new[0] else old
    return bps, mx


# ------------------------------------------------------------------------------ one run
class Acct:
    def __init__(self, c, i, m, pre, post):
        self.c, self.name = c, "acc[%d]" % i
        self.key, self.signer, self.writable = m
        self.a0, self.a1 = pre, post
        self.owner = pre["owner"] if pre else 0
        self.type = self.kind = None
        for a, init in ((pre, False), (post, True)):
            if a is None or self.type:
                continue
            if a["owner"] == PID:
                for t in ACCOUNT_TYPES:
                    if a["data"][:8] == disc("account", t):
                        self.type = t
                        self.kind = "init" if init else "loader"
            elif a["owner"] in (TOKEN, TOKEN22):
                d = a["data"]
                self.type = "Mint" if len(d) == 82 or (len(d) > 165 and d[165] == 1) else "TokenAccount"
                self.kind = "init" if init else "account"
        self._pre = self._post = None

    def decode(self, a):
        if self.type not in ACCOUNT_TYPES:
            return {}
        if a is None or a["data"][:8] != disc("account", self.type):
            return self.c.cd.zero(self.type)
        return self.c.cd.dec(self.c.cd.ti(self.type, "::state::"), a["data"], 8)[0]

    @property
    def pre(self):
        if self._pre is None:
            self._pre = self.decode(None if self.kind == "init" else self.a0)
        return self._pre

    @property
    def post(self):
        if self._post is None:
            self._post = self.decode(self.a1)
        return self._post


class ConcCtx:
    concrete = True

    def __init__(self, cd, sc, out):
        self.cd, self.sc, self.out = cd, sc, out
        self.ix = sc["ix"]
        self.now, self.epoch, self.pid = sc["now"], sc["epoch"], PID
        self.accs0 = sc["accs"]
        self.outcome, self.code = ("ok", None) if out["ok"] else ("err", out["code"])
        self.accs1 = out["accs"] if out["ok"] else self.accs0
        self.accts = {}
        for i, m in enumerate(sc["metas"]):
            a = Acct(self, i, m, self.accs0.get(m[0]), self.accs1.get(m[0]))
            self.accts[a.name] = a
        self.args = sc["args"]
        self.transfers, self.burns, self.init_tokens, self.other, self.events = [], [], [], [], []
        self.memos = 0
        self.log = []
        if out["ok"]:
            for cpi in out["cpis"]:
                self.cpi(cpi)
        self.created = [(k, a["owner"]) for k, a in self.accs1.items()
                        if a["owner"] != SYSTEM and (k not in self.accs0 or self.accs0[k]["owner"] == SYSTEM)]
        self.closed = []
        for k, a in self.accs0.items():
            if a["owner"] == PID and not a["executable"] and (k not in self.accs1 or self.accs1[k]["owner"] != PID):
                gain = [x for x, y in self.accs1.items() if y["lamports"] > self.accs0.get(x, {"lamports": 0})["lamports"]]
                nm = [x.name for x in self.accts.values() if x.key == k]
                self.closed.append((nm[0] if nm else None, k, gain[0] if len(gain) == 1 else None))

    def cpi(self, x):
        d, ms, prog = x["data"], [m[0] for m in x["metas"]], x["program"]
        u = lambda o: int.from_bytes(d[o:o + 8], "little")
        e = None
        if prog in (TOKEN, TOKEN22):
            if d[0] == 12:
                e = ("transfer", {"src": ms[0], "mint": ms[1], "dst": ms[2], "auth": ms[3], "amount": u(1), "decimals": d[9]})
            elif d[0] == 26 and d[1] == 1:
                e = ("transfer", {"src": ms[0], "mint": ms[1], "dst": ms[2], "auth": ms[3], "amount": u(2), "decimals": d[10]})
            elif d[0] == 3:
                e = ("transfer", {"src": ms[0], "mint": None, "dst": ms[1], "auth": ms[2], "amount": u(1), "decimals": None})
            elif d[0] in (8, 15):
                e = ("burn", {"from": ms[0], "mint": ms[1], "authority": ms[2], "amount": u(1)})
            elif d[0] == 18:
                e = ("init", {"account": ms[0], "mint": ms[1], "authority": int.from_bytes(d[1:33], "big")})
            elif d[0] in (21, 22):
                return
            else:
                e = ("other", {})
            e[1]["prog"] = prog
            e[1]["extra"] = ms[4:]
            e[1]["signers"] = x["signers"]
        elif prog == MEMO:
            self.memos += 1
            e = ("memo", None)
        elif prog == PID and d[:8] == bytes.fromhex("e445a52e51cb9a1d"):
            for t in self.cd.by:
                if t.startswith("Evt") and disc("event", t) == d[8:16]:
                    try:
                        v, _ = self.cd.dec(self.cd.ti(t, "::events::"), d, 16)
                    except IndexError:
                        v = {}
                    self.events.append((t, v))
                    return
            e = ("other", d)
        elif prog == SYSTEM:
            return
        else:
            e = ("other", None)
        self.log.append(e)
        {"transfer": self.transfers, "burn": self.burns, "init": self.init_tokens, "other": self.other, "memo": []}[e[0]].append(e[1])

    # -- interface of SymCtx ------------------------------------------------------------------
    def arg(self, name):
        l = [v for k, v in self.args.items() if k == name or k.endswith("." + name)]
        if len(l) != 1:
            raise Skip("argument " + name)
        return l[0]

    def vec(self, name, n):
        v = self.arg(name)
        et = [s for k, kind, s, _ in self.cd.leaves(self.cd.ti(camel(self.ix), "presale::instruction::"), "args:") if kind == "vec" and (k == name or k.endswith("." + name))][0]
        z = {k: 0 for k, _, _, _ in self.cd.leaves(et)}
        return len(v), [v[i] if i < len(v) else z for i in range(n)]

    def concretise(self, t):
        return t

    def split(self, t, n):
        return t

    def nth(self, i):
        return self.accts["acc[%d]" % i]

    def of_type(self, tn):
        out, seen = [], set()
        for a in self.accts.values():
            if a.type == tn and a.key not in seen:
                seen.add(a.key)
                out.append(a)
        return out

    def one(self, tn):
        l = self.of_type(tn)
        if len(l) != 1:
            raise Skip("expected one " + tn)
        return l[0]

    def has_key(self, key, tn=None):
        return any(a.key == key for a in self.accts.values() if tn is None or a.type == tn)

    def signed(self, key):
        return any(a.key == key and a.signer for a in self.accts.values())

    def touched(self):
        seen, out = set(), []
        for a in self.accts.values():
            if a.type in ACCOUNT_TYPES and a.key not in seen:
                seen.add(a.key)
                out.append(a)
        return out

    def same(self, a, b):
        return a == b

    same_string = same

    def raw(self, parts):
        out = []
        for s in parts:
            if isinstance(s, bytes):
                out.append(s)
            elif s[0] in ("key", "b32"):
                out.append(kb(s[1]))
            elif s[0] == "u8":
                out.append(bytes([s[1] & 255]))
            else:
                out.append(s[1].to_bytes(8, "little"))
        return out

    def pda(self, *seeds, program=None):
        return find_pda(self.raw(seeds), program)

    def sha256(self, *parts):
        return int.from_bytes(hashlib.sha256(b"".join(self.raw(parts))).digest(), "big")

    def ata(self, owner, program, mint):
        return find_pda([kb(owner), kb(program), kb(mint)], ATA)

    def ata_any(self, owner, mint, prog):
        return self.ata(owner, prog, mint)

    def amount_of(self, accs, key):
        a = accs.get(key)
        return int.from_bytes(a["data"][64:72], "little") if a and a["owner"] in (TOKEN, TOKEN22) and len(a["data"]) >= 165 else 0

    def fee_included(self, o, props, t, net, label):
        o(props, label, self.amount_of(self.accs1, t["dst"]) - self.amount_of(self.accs0, t["dst"]) == net)

    def received(self, amount, mint):
        f = fee_of(self.accs0.get(mint), self.epoch)
        if f is None or f[0] == 0:
            return amount
        return amount - min(-(-amount * f[0] // 10000), f[1])

    def authority_seeds(self, t):
        return spec.AUTHORITY_KEY in t["signers"]

    def hook_memo(self, o, props, t, memo, label):
        mint, dst = self.accs0.get(t["mint"]), self.accs0.get(t["dst"])
        if mint and t["decimals"] is not None:
            o(props, label + ": checked with the mint's decimals", t["decimals"] == mint["data"][44])
        if mint and t["decimals"] is not None:
            hp = hook_of(mint)
            o(props, label + ": hook accounts supplied exactly when the mint has a hook", hp in t["extra"] if hp else not t["extra"])
        if memo and dst and dst["owner"] == TOKEN22 and exts_of(dst["data"]).get(8, b"\0")[0]:
            pos = [i for i, e in enumerate(self.log) if e[1] is t][0]
            o(props, label + ": memo sent when the receiver requires one", any(e[0] == "memo" for e in self.log[:pos]))

    def supported_mint(self, a):
        if a.owner == TOKEN:
            return True
        return a.key != CT.NATIVE22 and all(t in CT.ALLOWED_EXT for t in exts_of(a.a0["data"]))

    def merkle(self, o, props, leaf, root):
        h = leaf
        for p in self.arg("proof"):
            h = self.sha256(b"\x01", ("b32", min(h, p)), ("b32", max(h, p)))
        o(props, "the proof leads from the leaf of owner, registry and cap to the registered root", h == root)

    def merkle_ok(self, root):
        i = self.arg("registry_index")
        inner = self.sha256(("key", self.nth(2).key), ("u8", i), ("u64le", self.arg("deposit_cap")))
        h = self.sha256(b"\x00", ("b32", inner))
        for p in self.arg("proof"):
            h = self.sha256(b"\x01", ("b32", min(h, p)), ("b32", max(h, p)))
        return h == root


def hook_of(mint):
    h = exts_of(mint["data"]).get(14, b"") if mint["owner"] == TOKEN22 else b""
    return int.from_bytes(h[32:64], "big") if len(h) == 64 else 0


def hook_request(c, sc):
    """is the request for hook accounts well formed: only the operation's kind, once, and no more accounts than are left; None: no request"""
    req = [v for n, v in sc["args"].items() if n.endswith(".slices")]
    if not req or not any(m[0] == PID for m in sc["metas"]):
        return None
    left = len(sc["metas"]) - 1 - max(i for i, m in enumerate(sc["metas"][:17]) if m[0] == PID)
    ix = sc["ix"]
    kind = 0 if ix in ("claim", "perform_unsold_base_token_action", "initialize_presale") else 1
    if ix == "creator_withdraw":
        left -= 2
        kind = 1 if spec.in_phase(c.one("Presale").pre, c.now, spec.COMPLETED) else 0
    if ix == "initialize_presale" and c.arg("presale_mode") == 0:
        left -= 1
    seen = False
    for s in req[0]:
        if s["accounts_type"] != kind:
            return False
        if s["length"]:
            if seen or s["length"] > left:
                return False
            seen = True
            left -= s["length"]
    return True


def judge(cd, sc, out, want):
    """names of the violated clauses of the wanted properties"""
    try:
        c = ConcCtx(cd, sc, out)
        if out["ok"]:
            cl = spec.SPECS[sc["ix"]](c)
            if (want is None or "C20" in want) and c.transfers:
                cl = list(cl) + [(["C20"], "an ill-formed request for hook accounts is refused", hook_request(c, sc) is not False)]
            return [n for p, n, f in cl if (want is None or set(p) & want) and f is not True]
        if out["code"] in (6030, 6031) and (want is None or "C20" in want) and hook_request(c, sc) is True:
            return ["a well-formed request for hook accounts is not refused (error %d)" % out["code"]]
        if out["code"] in BUSINESS and sc["ix"] in spec.ELIG:
            props, f = spec.ELIG[sc["ix"]](c)
            if (want is None or set(props.split()) & want) and f is True:
                return ["not refused (error %s) when eligible" % out["code"]]
        if (out["code"] == 6020 or out.get("err") == "panic") and sc["ix"] in spec.ARITH:
            props, f = spec.ARITH[sc["ix"]](c)
            if (want is None or set(props.split()) & want) and f is True:
                return ["not refused (%s) when eligible and consistent" % (out["code"] or "panic")]
    except Skip:
        pass
    return []


# ------------------------------------------------------------------------------ running
def build(binary="replay"):
    env = dict(os.environ, RUSTUP_TOOLCHAIN="1.87.0", CARGO_TARGET_DIR=TARGET)
    r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--no-default-features", "--bin", binary], cwd=HARNESS,
                       env=env, capture_output=True, text=True)
    return r.returncode == 0, r.stderr[-2000:]


def fncall(name, args):
    """result of one function of the real code: its value(s), "error" or "panic"; None when it cannot be called"""
    r = subprocess.run([os.path.join(TARGET, "debug", "fncall"), name] + [str(a) for a in args], capture_output=True, text=True)
    out = r.stdout.strip()
    if r.returncode == 3:
        return None
    return out if r.returncode == 0 else "panic"


def to_wire(sc):
    return json.dumps({"now": sc["now"], "epoch": sc["epoch"],
                       "accs": {"%064x" % k: {"owner": "%064x" % a["owner"], "lamports": a["lamports"], "data": a["data"].hex(), "executable": a["executable"]}
                                for k, a in sc["accs"].items()},
                       "metas": [["%064x" % k, bool(s), bool(w)] for k, s, w in sc["metas"]], "data": sc["data"].hex()})


def scenario_from_wire(cd, ix, w):
    accs = {int(k, 16): {"owner": int(a["owner"], 16), "lamports": a["lamports"], "data": bytes.fromhex(a["data"]), "executable": a["executable"]}
            for k, a in w["accs"].items()}
    data = bytes.fromhex(w["data"])
    args, _ = cd.dec(cd.ti(camel(ix), "presale::instruction::"), data, 8, "args:")
    return {"ix": ix, "now": w["now"], "epoch": w["epoch"], "accs": accs, "metas": [(int(k, 16), s, wr) for k, s, wr in w["metas"]], "data": data, "args": args}


def from_wire(o):
    if o["accs"]:
        o["accs"] = {int(k, 16): {"owner": int(a["owner"], 16), "lamports": a["lamports"], "data": bytes.fromhex(a["data"]), "executable": a["executable"]}
                     for k, a in o["accs"].items()}
    o["cpis"] = [{"program": int(c["program"], 16), "data": bytes.fromhex(c["data"]), "signers": [int(s, 16) for s in c["signers"]],
                  "metas": [(int(m[0], 16), m[1], m[2]) for m in c["metas"]]} for c in o["cpis"]]
    return o


class Runner:
    def __init__(self):
        self.p = subprocess.Popen([os.path.join(TARGET, "debug", "replay")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)

    def run(self, sc):
        try:
            self.p.stdin.write(to_wire(sc) + "\n")
            self.p.stdin.flush()
            while True:
                l = self.p.stdout.readline()
                if not l:
                    raise BrokenPipeError
                if l.startswith("{"):
                    return from_wire(json.loads(l))
        except BrokenPipeError:
            self.__init__()
            return {"ok": False, "err": "crash", "code": None, "cpis": [], "accs": None}

    def close(self):
        self.p.kill()


# ------------------------------------------------------------------------------ searching
def sane(p, e=None, now=None):
    """a stored state as the instructions can leave it (the part that matters for arithmetic)"""
    n = p["total_presale_registry_count"]
    R = lambda i, f: p["presale_registries[%d].%s" % (i, f)]
    ok = p["presale_mode"] <= 2 and p["whitelist_mode"] <= 2 and 1 <= n <= 5 and 0 < p["presale_minimum_cap"] <= p["presale_maximum_cap"]
    ok = ok and p["presale_start_time"] <= p["presale_end_time"] < 1 << 40 and p["immediate_release_bps"] <= 10000 and p["unsold_token_action"] <= 1
    ok = ok and p["lock_duration"] + p["vest_duration"] < 315360000 and p["immediate_release_timestamp"] < 1 << 41
    ok = ok and max(p["has_creator_withdrawn"], p["deposit_fee_collected"], p["is_unsold_token_action_performed"]) <= 1
    zero = p["lock_duration"] == p["vest_duration"] == p["immediate_release_bps"] == p["vesting_start_time"] == p["vesting_end_time"] == 0
    ok = ok and (zero or (p["vesting_start_time"] == p["presale_end_time"] + p["lock_duration"] and p["vesting_end_time"] == p["vesting_start_time"] + p["vest_duration"]))
    if not ok:
        return False
    for i in range(5):
        if i >= n:
            ok = ok and all(v == 0 for k, v in p.items() if k.startswith("presale_registries[%d]." % i))
        else:
            ok = ok and R(i, "presale_supply") > 0 and R(i, "deposit_fee_bps") <= 5000 and R(i, "buyer_minimum_deposit_cap") <= R(i, "buyer_maximum_deposit_cap")
            ok = ok and 0 < R(i, "buyer_maximum_deposit_cap") <= p["presale_maximum_cap"]
            if R(i, "deposit_fee_bps") == 0:
                ok = ok and R(i, "total_deposit_fee") == 0
    for f in ("presale_supply", "total_deposit", "total_deposit_fee", "total_escrow", "total_claimed_token", "total_refunded_quote_token"):
        ok = ok and p[f] == sum(R(i, f) for i in range(5))
    if p["presale_mode"] != 1:
        ok = ok and p["total_deposit"] <= p["presale_maximum_cap"]
    if p["presale_mode"] == 0:
        ok = ok and p["presale_mode_raw_data[0]"] > 0
    if e is not None and ok:
        i = e["registry_index"]
        ok = i < n
        if ok:
            ok = e["total_deposit"] <= R(i, "total_deposit") and e["total_deposit_fee"] <= R(i, "total_deposit_fee") and e["deposit_max_cap"] <= R(i, "buyer_maximum_deposit_cap")
            ok = ok and e["total_claimed_token"] <= R(i, "total_claimed_token") and e["is_remaining_quote_withdrawn"] <= 1
    return ok


def overlay_of(cd, ix, model):
    """puts the numbers of a solver model over a generated scenario"""
    ti = cd.ti(camel(ix), "presale::instruction::")

    def f(st, args, now, m):
        for pos, x in enumerate(m):
            if x[0] in st:
                t, d = st[x[0]]
                for n, kind, size, real in cd.leaves(cd.ti(t, "::state::")):
                    v = model.get("acc[%d].%s.%s" % (pos, t, real))
                    if kind == "uint" and isinstance(v, int) and not isinstance(v, bool) and 0 <= v < 1 << (8 * size):
                        d[n] = v
        for n, kind, size, real in cd.leaves(ti, "args:"):
            v = model.get("args." + real)
            if kind == "uint" and isinstance(v, int) and 0 <= v < 1 << (8 * size):
                args[n] = v
        if "presale" in st and not sane(st["presale"][1], st["escrow"][1] if any(x[0] == "escrow" for x in m) and not ix.startswith("create_perm") else None):
            raise Skip("not a reachable state")
        return model.get("clock.unix_timestamp", now)
    return f


def worker(P, ixs, want, seed, deadline, q, cond, stats, hints=()):
    import gen
    cd = Codec(P)
    rng = random.Random(seed)
    G = gen.Gen(cd, rng)
    run = Runner()
    n = ok = 0
    per = {}
    try:
        todo = [(ix, overlay_of(cd, ix, m)) for ix, m in hints for _ in range(6)]
        while time.time() < deadline and not cond.is_set():
            batch, todo = (todo, []) if todo else ([(ix, None) for ix in ixs], [])
            for ix, ov in batch:
                try:
                    sc = G.scenario(ix, ov)
                except (Skip, OverflowError):
                    continue
                out = run.run(sc)
                n += 1
                s = per.setdefault(ix, [0, 0])
                s[0] += 1
                s[1] += out["ok"]
                bad = judge(cd, sc, out, want)
                if bad:
                    q.put((ix, bad, to_wire(sc), out["ok"], out["code"]))
                    if stats is None:
                        cond.set()
                        break
    finally:
        run.close()
        q.put(("done", per))


def search(P, ixs, want, seconds, procs=8, seed=1, all_=False, hints=()):
    """run random scenarios until one violates a clause of the wanted properties (or time is over)"""
    q, cond = mp.Queue(), mp.Event()
    ps = [mp.Process(target=worker, args=(P, ixs, want, seed * 1000 + i, time.time() + seconds, q, cond, True if all_ else None, hints), daemon=True) for i in range(procs)]
    for p in ps:
        p.start()
    hits, per, done = [], {}, 0
    while done < len(ps):
        try:
            m = q.get(timeout=seconds + 60)
        except Exception:
            break
        if m[0] == "done":
            done += 1
            for k, v in m[1].items():
                x = per.setdefault(k, [0, 0])
                x[0] += v[0]
                x[1] += v[1]
        else:
            hits.append(m)
    for p in ps:
        p.join(5)
    return hits, per


if __name__ == "__main__":
    import mir
    P = mir.Program(os.environ.get("DUMP", os.path.join(VERIF, ".build", "dump", "presale.json")))
    okb, msg = build() if not os.environ.get("NOBUILD") else (True, "")
    if not okb:
        print(msg)
        sys.exit(2)
    if sys.argv[1] == "--replay":
        cd, run_ = Codec(P), Runner()
        bad = 0
        for f in json.load(open(sys.argv[2]))["failing_inputs"]:
            sc = scenario_from_wire(cd, f["instruction"], f["scenario"])
            out = run_.run(sc)
            names = judge(cd, sc, out, None)
            bad += bool(names)
            print(f["instruction"], "succeeded" if out["ok"] else "refused %s" % out["code"], "violates:", names)
        run_.close()
        sys.exit(1 if bad else 0)
    secs = float(sys.argv[1])
    ixs = sys.argv[2:] or list(spec.SPECS)
    hits, per = search(P, ixs, None, secs, all_=True)
    for k, v in per.items():
        print("%-48s runs %6d ok %6d" % (k, v[0], v[1]))
    seen = {}
    for h in hits:
        for b in h[1]:
            seen.setdefault((h[0], b), []).append(h)
    for (ix, b), l in seen.items():
        print("  BAD", ix, "/", b, "x", len(l), l[0][3:], l[0][2][:0])
        open("/tmp/hit-%s.json" % ix, "w").write(l[0][2])
