"""Contracts assumed for the language runtime and the dependencies (Anchor, Solana, SPL, std).

Everything in this file is part of the trusted base: each entry states what the dependency does
with its arguments.  Entries marked `std` restate arithmetic of the Rust standard library exactly.
"""
import hashlib
import re
import z3
from sym import *
from vexec import *

U64 = (1 << 64) - 1
P256 = (1 << 256) - 1

B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"


def b58(s):
    n = 0
    for c in s:
        n = n * 58 + B58.index(c)
    return n


SYSTEM_ID = b58("11111111111111111111111111111111")
TOKEN_ID = b58("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA")
TOKEN22_ID = b58("TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb")
MEMO_ID = b58("MemoSq4gqABAXKb96qnH8TysNcWxMyWCqXgDLGmfcHr")
PROGRAM_IDS = {
    "System": [SYSTEM_ID],
    "TokenInterface": [TOKEN_ID, TOKEN22_ID],
    "Token": [TOKEN_ID],
    "Token2022": [TOKEN22_ID],
    "Memo": [MEMO_ID],
    "AssociatedToken": [b58("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL")],
}


class Builtins:
    def __init__(self):
        self.exact = {}
        self.regex = []
        self.intr = {}
        self.cache = {}
        self.doc = {}

    def lookup(self, inst):
        r = self.cache.get(inst.key, 0)
        if r != 0:
            return r
        h = None
        if inst.intrinsic and inst.intrinsic in self.intr:
            h = self.intr[inst.intrinsic]
        elif inst.defn in self.exact:
            h = self.exact[inst.defn]
        else:
            for rx, f in self.regex:
                if rx.search(inst.defn):
                    h = f
                    break
        self.cache[inst.key] = h
        return h


B = Builtins()


def b(*names):
    def d(f):
        for n in names:
            B.exact[n] = f
        return f
    return d


def rx(*pats):
    def d(f):
        for p in pats:
            B.regex.append((re.compile(p), f))
        return f
    return d


def intr(*names):
    def d(f):
        for n in names:
            B.intr[n] = f
        return f
    return d


def E(code=None):
    return Opq("err", code=code)


def maybe(v, tag="dep", post=None):
    """Ok(v) or Err, chosen by the dependency"""
    c = fresh_bool("fail_" + tag)
    return [Outcome(lnot(c), ok(v), post), Outcome(c, err(E(("dep", tag))))]


# ---------------------------------------------------------------------------- errors, logging
@b("anchor_lang::error::Error::with_account_name", "anchor_lang::error::Error::with_pubkeys",
   "anchor_lang::error::Error::with_values")
def _(ex, st, inst, a):
    return a[0]


@b("<anchor_lang::error::Error as std::convert::From<anchor_lang::error::AnchorError>>::from")
def _(ex, st, inst, a):
    v = ex.force(a[0])
    code = None
    if isinstance(v, Agg):
        code = ex.scalar_of(v.f[1])
    elif isinstance(v, Opq):
        code = v.d.get("code")
    return Opq("err", code=code)


@b("<anchor_lang::error::Error as std::convert::From<anchor_lang::error::ErrorCode>>::from")
def _(ex, st, inst, a):
    v = ex.force(a[0])
    return Opq("err", code=("anchor", v.v if isinstance(v, Agg) else None))


@rx(r"^<anchor_lang::error::Error as std::convert::From<")
def _(ex, st, inst, a):
    return Opq("err", code=("prog", None))


@b("anchor_lang::error::ErrorCode::name")
def _(ex, st, inst, a):
    return Opq("string")


@rx(r"::sol_log(_data|_)?$", r"solana_msg::sol_log", r"sol_log_compute")
def _(ex, st, inst, a):
    return UNIT


@rx(r"^(std|alloc|core)::fmt::", r"^std::fmt::format", r"core::fmt::rt::", r"as std::string::ToString>::to_string$",
    r" as std::fmt::", r"^std::string::String as std::clone::Clone", r"^<std::string::String as std::clone::Clone>::clone")
def _(ex, st, inst, a):
    if inst.defn.endswith("clone"):
        v = ex.load(st, ex.unwrap_ptr(a[0]))
        return v
    t = ex.T[inst.body.locals[0]].s if inst.has_body else ""
    return Opq("fmt")


@rx(r"^core::panicking::", r"^std::panicking", r"^std::rt::(begin_)?panic", r"^core::option::(expect|unwrap)_failed",
    r"^std::option::(expect|unwrap)_failed", r"result::unwrap_failed$", r"option::unwrap_failed$", r"option::expect_failed$",
    r"slice_(start|end|index)\w*_fail", r"slice_index_fail", r"::handle_alloc_error", r"capacity_overflow",
    r"^core::slice::index::slice_", r"len_mismatch_fail", r"^std::process::abort", r"panic_already", r"panic_bounds")
def _(ex, st, inst, a):
    raise PathEnd("panic", inst.defn)


@b("std::hint::must_use")
def _(ex, st, inst, a):
    return a[0]


@rx(r"^std::panic::Location::<'a>::", r"caller_location")
def _(ex, st, inst, a):
    if inst.defn.endswith("caller"):
        return Opq("loc")
    return Opq("loc")


@rx(r"^alloc::io::error::<impl std::io::Error>::new", r"^std::io::Error::")
def _(ex, st, inst, a):
    return Opq("ioerr")


# ---------------------------------------------------------------------------- std arithmetic (exact)
def _int_ty(ex, inst):
    m = re.search(r"impl ([ui]\d+|usize|isize)>", inst.defn)
    return ex.T[ex.P.by_s[m.group(1)]]


def sc(ex, v):
    return ex.scalar_of(v)


def fits(ex, r, t, op=None):
    lo, hi = int_range(t)
    if t.k == "uint" and op in ("add", "mul"):
        return le(r, hi)
    if t.k == "uint" and op == "sub":
        return le(lo, r)
    return land(le(lo, r), le(r, hi))


@rx(r"^core::num::<impl [ui](\d+|size)>::(checked|saturating|wrapping|overflowing)_(add|sub|mul)$")
def _(ex, st, inst, a):
    t = _int_ty(ex, inst)
    x, y = sc(ex, a[0]), sc(ex, a[1])
    if isinstance(x, Opq) or isinstance(y, Opq):
        return None
    kind, op = inst.defn.rsplit("::", 1)[1].split("_")
    r = {"add": add, "sub": sub, "mul": mul}[op](x, y)
    lo, hi = int_range(t)
    f = fits(ex, r, t, op)
    if kind == "checked":
        return sym_option(f, r)
    if kind == "saturating":
        if t.k == "uint":
            return ite(f, r, lo if op == "sub" else hi)
        return ite(lt(r, lo), lo, ite(lt(hi, r), hi, r))
    if kind == "wrapping":
        return ite(f, r, wrap_int(r, t))
    return Agg((ite(f, r, wrap_int(r, t)), lnot(f)))


@rx(r"^core::num::<impl u(\d+|size)>::checked_(div|rem)$", r"^core::num::<impl u(\d+|size)>::checked_(div|rem)_euclid$")
def _(ex, st, inst, a):
    x, y = sc(ex, a[0]), sc(ex, a[1])
    op = "div" if "checked_div" in inst.defn else "rem"
    return sym_option(lnot(eq(y, 0)), fdiv(x, y) if op == "div" else fmod(x, y))


@rx(r"^core::num::<impl u(\d+|size)>::div_ceil$")
def _(ex, st, inst, a):
    x, y = sc(ex, a[0]), sc(ex, a[1])
    z = eq(y, 0)
    v = cdiv(x, y)
    if z is False:
        return v
    if z is True:
        raise PathEnd("panic", "div by zero")
    return [Outcome(lnot(z), v)]


@rx(r"^core::num::<impl u(\d+|size)>::checked_(shl|shr)$")
def _(ex, st, inst, a):
    t = _int_ty(ex, inst)
    x, y = sc(ex, a[0]), ex.resolve_int(st, sc(ex, a[1]))
    if not isinstance(y, int):
        return None
    if y >= t.bits:
        return NONE
    if inst.defn.endswith("shl"):
        # fork on whether bits are shifted out, to keep terms linear
        r = mul(x, 1 << y)
        f = fits(ex, r, t, "mul")
        if f is True:
            return some(r)
        return some(ite(f, r, wrap_int(r, t)))
    return some(fdiv(x, 1 << y))


@rx(r"^core::num::<impl u(\d+|size)>::(abs_diff)$")
def _(ex, st, inst, a):
    x, y = sc(ex, a[0]), sc(ex, a[1])
    return ite(le(x, y), sub(y, x), sub(x, y))


@rx(r"^std::cmp::impls::<impl std::cmp::Ord for [ui](\d+|size)>::(min|max|clamp)$", r"^std::cmp::Ord::(min|max)$", r"^std::cmp::(min|max)$")
def _(ex, st, inst, a):
    xs = [ex.force(v) for v in a]
    if not all(isinstance(v, (int, z3.ArithRef)) and not isinstance(v, bool) for v in xs):
        return None
    if inst.defn.endswith("min"):
        return imin(xs[0], xs[1])
    if inst.defn.endswith("max"):
        return imax(xs[0], xs[1])
    return None


@rx(r"^core::num::<impl [ui](\d+|size)>::(to|from)_(le|be|ne)_bytes$")
def _(ex, st, inst, a):
    t = _int_ty(ex, inst)
    big = "_be_" in inst.defn
    n = t.size
    if "::to_" in inst.defn:
        v = sc(ex, a[0])
        if t.k == "int":
            v = wrap_int(v, ex.T[ex.P.by_s["u%d" % t.bits]])
        return Bytes(n, v, not big)
    v = ex.force(a[0])
    if isinstance(v, Agg):
        v = ex.mk_bytes([sc(ex, x) for x in v.f])
    if isinstance(v, Bytes):
        r = ex.bytes_be(v) if big else ex.bytes_le(v)
        return wrap_int(r, t) if t.k == "int" else r
    return None


# ---------------------------------------------------------------------------- intrinsics
@intr("size_of", "size_of_val", "min_align_of", "align_of")
def _(ex, st, inst, a):
    return None if inst.has_body else fresh_int("sizeof", 0, 1 << 40)


@intr("saturating_add", "saturating_sub")
def _(ex, st, inst, a):
    t = None
    # type from the generic argument
    m = re.search(r"<([ui](\d+|size))>", inst.name)
    t = ex.T[ex.P.by_s[m.group(1)]] if m else ex.T[ex.P.by_s["u64"]]
    x, y = sc(ex, a[0]), sc(ex, a[1])
    op = "add" if inst.intrinsic.endswith("add") else "sub"
    r = add(x, y) if op == "add" else sub(x, y)
    lo, hi = int_range(t)
    if t.k == "uint":
        return ite(fits(ex, r, t, op), r, lo if op == "sub" else hi)
    return ite(lt(r, lo), lo, ite(lt(hi, r), hi, r))


@intr("integer_min", "integer_max")
def _(ex, st, inst, a):
    x, y = sc(ex, a[0]), sc(ex, a[1])
    return imin(x, y) if inst.intrinsic.endswith("min") else imax(x, y)


@intr("assert_inhabited", "cold_path", "assert_zero_valid", "assume", "write_bytes", "volatile_store", "atomic_store")
def _(ex, st, inst, a):
    return UNIT


@intr("abort", "abort_immediate")
def _(ex, st, inst, a):
    raise PathEnd("panic", "abort")


@intr("caller_location")
def _(ex, st, inst, a):
    return Opq("loc")


@intr("ptr_offset_from_unsigned", "ptr_offset_from")
def _(ex, st, inst, a):
    p, q = ex.unwrap_ptr(a[0]), ex.unwrap_ptr(a[1])
    if isinstance(p, Ptr) and isinstance(q, Ptr):
        if p.cell == q.cell and p.path[:-1] == q.path[:-1]:
            return sub(p.path[-1][1], q.path[-1][1])
    return fresh_int("ptrdiff", 0, 1 << 40)


@intr("arith_offset")
def _(ex, st, inst, a):
    return ex.ptr_binop(st, "Offset", ex.unwrap_ptr(a[0]), sc(ex, a[1]))


@intr("copy")
def _(ex, st, inst, a):
    ex.copy_n(st, a[0], a[1], sc(ex, a[2]))
    return UNIT


@intr("disjoint_bitor")
def _(ex, st, inst, a):
    return add(sc(ex, a[0]), sc(ex, a[1]))


@intr("raw_eq")
def _(ex, st, inst, a):
    x, y = ex.force(ex.load(st, a[0])), ex.force(ex.load(st, a[1]))
    return val_eq(ex, x, y)


@intr("compare_bytes")
def _(ex, st, inst, a):
    n = ex.resolve_int(st, sc(ex, a[2]))
    x = region(ex, st, ex.unwrap_ptr(a[0]), n)
    y = region(ex, st, ex.unwrap_ptr(a[1]), n)
    if x is None or y is None:
        return fresh_int("memcmp", -1, 1)
    ok_, u, v = regions_num(ex, x, y)
    if not ok_:
        return fresh_int("memcmp", -1, 1)
    return ite(lt(u, v), -1, ite(eq(u, v), 0, 1))


def val_eq(ex, x, y):
    x, y = ex.force(x), ex.force(y)
    if isinstance(x, Bytes) and isinstance(y, Bytes):
        if x.le == y.le:
            return eq(x.t, y.t)
        return eq(ex.bytes_be(x), ex.bytes_be(y))
    if isinstance(x, Agg) and isinstance(y, Bytes):
        x = ex.mk_bytes([sc(ex, f) for f in x.f])
        return val_eq(ex, x, y)
    if isinstance(y, Agg) and isinstance(x, Bytes):
        return val_eq(ex, y, x)
    if isinstance(x, Agg) and isinstance(y, Agg):
        if x.v != y.v:
            return False
        return land(*[val_eq(ex, p, q) for p, q in zip(x.f, y.f)])
    if isinstance(x, (int, z3.ExprRef)) and isinstance(y, (int, z3.ExprRef)):
        return eq(x, y)
    raise Unsupported("val_eq %r %r" % (x, y))


# ---------------------------------------------------------------------------- byte regions
def region(ex, st, p, n=None):
    """list of byte chunks (Bytes) of the n bytes at p, or None"""
    if isinstance(p, Opq) or p is None:
        return None
    if n is None:
        n = p.meta
    n = ex.resolve_int(st, n) if n is not None else None
    if isinstance(n, int) and n == 0:
        return []
    if p.cell == ("dangling",):
        return []
    path = p.path
    if not path:
        v = ex.force(ex.load(st, p))
        while isinstance(v, Agg) and len(v.f) == 1:
            v = ex.force(v.f[0])
        return [v] if isinstance(v, Bytes) else None
    if path[-1][0] != "i":
        v = ex.force(ex.load(st, p))
        if isinstance(v, Bytes) and (n is None or v.n == n):
            return [v]
        return None
    base = ex.force(ex.getp(st, ex.cell_val(st, p.cell), path[:-1]))
    s = ex.resolve_int(st, path[-1][1])
    if isinstance(base, Bytes):
        if not isinstance(n, int) or not isinstance(s, int):
            return None
        if s == 0 and n == base.n:
            return [base]
        if isinstance(base.t, int):
            raw = base.t.to_bytes(base.n, "little" if base.le else "big")[s:s + n]
            return [Bytes(n, int.from_bytes(raw, "big"))]
        return [Bytes(1, ex.byte_at(base, i)) for i in range(s, s + n)]
    if isinstance(base, (ListV, Agg, Seq)) and (n is None or isinstance(n, int) and n > 1):
        try:        # the address of one element which is itself an array of bytes
            v = sc(ex, ex.getp(st, base, (path[-1],)))
        except (Unsupported, PathEnd, IndexError):
            v = None
        if isinstance(v, Bytes):
            return [v] if n is None or v.n == n else None
    if isinstance(base, (ListV, Agg)) and isinstance(n, int) and isinstance(s, int):
        items = (base.items if isinstance(base, ListV) else base.f)[s:s + n]
        out = []
        for x in items:
            x = sc(ex, x)
            if isinstance(x, Bytes):
                out.append(x)
            elif isinstance(x, (int, z3.ArithRef)):
                out.append(Bytes(1, x))
            else:
                return None
        return out
    if isinstance(base, (int, z3.ArithRef)) and not isinstance(base, bool):
        return [Bytes(1, base)]
    if isinstance(base, Seq):
        if isinstance(s, int) and not isinstance(n, int) and s == 0:
            return [Bytes(-1, mkint("content(%s)" % base.name, 0, None)), ]
        if isinstance(n, int) and isinstance(s, int):
            return [Bytes(1, sc(ex, ex.getp(st, base, (("i", s + i),)))) for i in range(n)]
    return None


def norm_chunks(ex, cs):
    """merge adjacent constant chunks; return list of (n, le, term)"""
    out = []
    for c in cs:
        if c.n == 0:
            continue
        if isinstance(c.t, int):
            raw = c.t.to_bytes(c.n, "little" if c.le else "big")
            if out and isinstance(out[-1][2], bytes):
                out[-1] = (out[-1][0] + c.n, None, out[-1][2] + raw)
            else:
                out.append((c.n, None, raw))
        else:
            out.append((c.n, c.le if c.n > 1 else False, c.t))
    return out


def regions_num(ex, x, y):
    def num(cs):
        t, n = 0, 0
        for c in cs:
            if c.n < 0:
                return None, -1
            t = add(mul(t, 1 << (8 * c.n)), ex.bytes_be(c))
            n += c.n
        return t, n
    # same shape: compare chunkwise where possible
    if len(x) == 1 and len(y) == 1 and x[0].n == y[0].n and x[0].le == y[0].le and not x[0].le:
        return True, x[0].t, y[0].t
    u, n = num(x)
    v, m = num(y)
    if u is None or v is None or n != m:
        return False, 0, 0
    return True, u, v


def regions_eq(ex, x, y):
    nx, ny = norm_chunks(ex, x), norm_chunks(ex, y)
    if len(nx) == len(ny) and all(p[0] == q[0] and (p[1] == q[1]) for p, q in zip(nx, ny)):
        return land(*[(p[2] == q[2]) if isinstance(p[2], bytes) and isinstance(q[2], bytes) else
                      eq(int.from_bytes(p[2], "big") if isinstance(p[2], bytes) else p[2],
                         int.from_bytes(q[2], "big") if isinstance(q[2], bytes) else q[2]) for p, q in zip(nx, ny)])
    if sum(p[0] for p in nx) != sum(p[0] for p in ny):
        return False
    ok_, u, v = regions_num(ex, x, y)
    if ok_:
        return eq(u, v)
    return None


def uf_bytes(name, chunks, nbits):
    """uninterpreted function of a chunk list; concrete parts go into the name"""
    sig = []
    args = []
    for n, le_, t in chunks:
        if isinstance(t, bytes):
            sig.append("'" + (t.decode() if t.isalnum() else t.hex()) + "'")
        else:
            sig.append("%s%d" % ("l" if le_ else "b", n))
            args.append(conv(t))
    nm = name + "(" + ",".join(sig) + ")"
    if not args:
        return mkint(nm, 0, (1 << nbits) - 1)
    key = nm + "|" + "|".join(a.sexpr() for a in args)
    lab = "|".join(a.sexpr().replace("|", "") for a in args)
    if len(lab) > 100:
        lab = hashlib.sha1(lab.encode()).hexdigest()
    v = mkint("%s#%s" % (nm, lab), 0, (1 << nbits) - 1)
    UF_APPS[v.decl().name()] = (name, list(chunks))
    return v


DEBUG = False
UF_APPS = {}  # constant name -> (function name, args): congruence is added by the obligation solver
UF_INJECTIVE = ("sha256", "pda")


def seeds_chunks(ex, st, p):
    """&[&[u8]] -> chunk list"""
    n = ex.resolve_int(st, p.meta)
    if not isinstance(n, int):
        return None
    out = []
    for i in range(n):
        q = ex.load(st, Ptr(p.cell, p.path[:-1] + (("i", add(p.path[-1][1], i)),)))
        q = ex.unwrap_ptr(q)
        r = region(ex, st, q)
        if r is None:
            return None
        out.extend(r)
    return norm_chunks(ex, out)


# ---------------------------------------------------------------------------- keys, pubkeys
def pk(t):
    return Agg((Bytes(32, t),))


def pkt(ex, st, v):
    """pubkey value -> integer term"""
    v = ex.force(v)
    while isinstance(v, (Agg, Ptr, Lazy)):
        if isinstance(v, Ptr):
            v = ex.force(ex.load(st, v))
        elif isinstance(v, Lazy):
            v = ex.expand(v)
        else:
            v = ex.force(v.f[0])
    if isinstance(v, Bytes):
        return ex.bytes_be(v)
    raise Unsupported("pubkey %r" % (v,))


def acct_name(ex, st, v):
    """AccountInfo value (or anything holding one) -> account name"""
    for _ in range(12):
        v = ex.force(v)
        if isinstance(v, Ptr):
            v = ex.load(st, v)
            continue
        if isinstance(v, Agg):
            if len(v.f) == 8:
                p = ex.unwrap_ptr(v.f[0])
                if isinstance(p, Ptr) and p.cell[0] == "lz" and p.cell[1].endswith(".key"):
                    return p.cell[1][:-4]
                raise Unsupported("account key %r" % (p,))
            if len(v.f) == 2 and isinstance(v.f[1], (Lazy, Agg)) and isinstance(ex.force(v.f[0]), Agg):
                # InterfaceAccount {account, owner}
                a = ex.force(v.f[0])
                if len(a.f) == 2 and isinstance(ex.force(a.f[1]), Ptr):
                    v = a.f[1]
                    continue
            ptr = [x for x in v.f if isinstance(ex.force(x) if isinstance(x, Lazy) else x, Ptr)]
            if ptr:
                v = ptr[0]
                continue
            v = v.f[0]
            continue
        break
    raise Unsupported("account info %r" % (v,))


def acct_key(name):
    return mkint(name + ".key", 0, P256)


def acct_owner(name):
    return mkint(name + ".owner", 0, P256)


def acct_info_value(ex, name):
    return ex.expand(Lazy(ex.P.ty_by_name["anchor_lang::prelude::AccountInfo"], name))


@rx(r"^<anchor_lang::prelude::(Account|AccountLoader|InterfaceAccount|Signer|UncheckedAccount)<.*> as anchor_lang::Key>::key$",
    r"<impl anchor_lang::Key for anchor_lang::prelude::AccountInfo<'_>>::key$",
    r"^<anchor_lang::prelude::(Program|Interface|SystemAccount)<.*> as anchor_lang::Key>::key$",
    r"<impl anchor_lang::Key for std::boxed::Box<T>>::key$")
def _(ex, st, inst, a):
    return pk(acct_key(acct_name(ex, st, a[0])))


@rx(r"as anchor_lang::ToAccountInfo<'info>>::to_account_info$", r"<impl std::clone::Clone for anchor_lang::prelude::AccountInfo",
    r"^<anchor_lang::prelude::AccountInfo<'.*> as std::clone::Clone>::clone$")
def _(ex, st, inst, a):
    return acct_info_value(ex, acct_name(ex, st, a[0]))


@rx(r"ToAccountInfos<'info>>::to_account_infos$", r"ToAccountMetas>::to_account_metas$", r"ToAccountMetas::to_account_metas$")
def _(ex, st, inst, a):
    return Opq("accinfos")


@rx(r"as std::convert::AsRef<anchor_lang::prelude::AccountInfo<'info>>>::as_ref$")
def _(ex, st, inst, a):
    n = acct_name(ex, st, a[0])
    c = ex.new_cell(st, acct_info_value(ex, n))
    return Ptr(c)


def pubkey_eq(ex, st, x, y):
    return eq(pkt(ex, st, x), pkt(ex, st, y))


@b("<anchor_lang::prelude::Pubkey as std::cmp::PartialEq>::eq")
def _(ex, st, inst, a):
    return pubkey_eq(ex, st, a[0], a[1])


def err_eq(ex, st, x, y):
    """anchor errors compare by error code number"""
    c = []
    for v in (x, y):
        v = ex.force(ex.load(st, ex.unwrap_ptr(v)))
        c.append(v.d.get("code") if isinstance(v, Opq) else None)
    if isinstance(c[0], int) and isinstance(c[1], int):
        return c[0] == c[1]
    for u, v in ((c[0], c[1]), (c[1], c[0])):
        # anchor framework codes are < 6000; program errors are a different variant
        if isinstance(u, int) and isinstance(v, tuple) and v[0] in ("anchor", "prog"):
            return False
    return fresh_bool("err_eq")


@rx(r"^<anchor_lang::error::(Error|AnchorError|ProgramErrorWithOrigin) as std::cmp::PartialEq.*>::(eq|ne)$",
    r"^<anchor_lang::prelude::(Error|ProgramError) as std::cmp::PartialEq.*>::(eq|ne)$")
def _(ex, st, inst, a):
    r = err_eq(ex, st, a[0], a[1])
    return lnot(r) if inst.defn.endswith("::ne") else r


@b("<anchor_lang::prelude::Pubkey as std::cmp::PartialEq>::ne")
def _(ex, st, inst, a):
    return lnot(pubkey_eq(ex, st, a[0], a[1]))


@b("std::cmp::PartialEq::ne")
def _(ex, st, inst, a):
    if "Pubkey" in inst.name.split("::ne")[0][:60]:
        return lnot(pubkey_eq(ex, st, a[0], a[1]))
    if inst.name.startswith("<anchor_lang::prelude::Error as") or inst.name.startswith("<anchor_lang::error::Error as"):
        return lnot(err_eq(ex, st, a[0], a[1]))
    return None


@b("anchor_lang::prelude::Pubkey::find_program_address")
def _(ex, st, inst, a):
    ch = seeds_chunks(ex, st, ex.unwrap_ptr(a[0]))
    pid = pkt(ex, st, a[1])
    if ch is None:
        return Agg((pk(fresh_int("pda", 0, P256)), fresh_int("bump", 0, 255)))
    if isinstance(pid, int):
        ch = ch + [(32, None, pid.to_bytes(32, "big"))]
    else:
        ch = ch + [(32, False, pid)]
    k = uf_bytes("pda", ch, 256)
    bump = uf_bytes("pdabump", ch, 8)
    return Agg((pk(k), bump))


@rx(r"Pubkey::create_program_address$")
def _(ex, st, inst, a):
    ch = seeds_chunks(ex, st, ex.unwrap_ptr(a[0]))
    pid = pkt(ex, st, a[1])
    if ch is None:
        return maybe(pk(fresh_int("pda", 0, P256)))
    ch = ch + [(32, None, pid.to_bytes(32, "big"))] if isinstance(pid, int) else ch + [(32, False, pid)]
    return maybe(pk(uf_bytes("cpda", ch, 256)))


@rx(r"::hash::hashv$", r"hasher::hashv$", r"sha256_hasher::hashv$")
def _(ex, st, inst, a):
    ch = seeds_chunks(ex, st, ex.unwrap_ptr(a[0]))
    if ch is None:
        return Agg((Bytes(32, fresh_int("hash", 0, P256)),))
    return Agg((Bytes(32, uf_bytes("sha256", ch, 256)),))


@rx(r"get_associated_token_address(_with_program_id)?$")
def _(ex, st, inst, a):
    ch = [(32, False if is_sym(t) else None, t if is_sym(t) else t.to_bytes(32, "big")) for t in [pkt(ex, st, x) for x in a]]
    return pk(uf_bytes("ata", ch, 256))


@rx(r"^<T as std::convert::AsRef<\[u8\]>>::as_ref$", r"^<anchor_lang::prelude::Pubkey as std::convert::AsRef<\[u8\]>>::as_ref$")
def _(ex, st, inst, a):
    p = ex.unwrap_ptr(a[0])
    return Ptr(p.cell, p.path + (("f", 0), ("i", 0)), 32)


# slices / arrays of bytes equality and order
@rx(r"^std::array::equality::<impl std::cmp::PartialEq<\[U; N\]> for \[T; N\]>::(eq|ne)$",
    r"std::array::<impl std::cmp::PartialOrd for \[T; N\]>::(le|lt|ge|gt)$")
def _(ex, st, inst, a):
    x = region(ex, st, ex.unwrap_ptr(a[0]))
    y = region(ex, st, ex.unwrap_ptr(a[1]))
    if not x or not y:
        return None
    op = inst.defn.rsplit("::", 1)[1]
    if op in ("eq", "ne"):
        r = regions_eq(ex, x, y)
        if r is None:
            return None
        return r if op == "eq" else lnot(r)
    ok_, u, v = regions_num(ex, x, y)
    if not ok_:
        return None
    return {"le": le(u, v), "lt": lt(u, v), "ge": le(v, u), "gt": lt(v, u)}[op]


@rx(r"std::slice::cmp::<impl std::cmp::PartialEq<\[U\]> for \[T\]>::(eq|ne)$", r"core::slice::cmp::<impl .*PartialEq<\[U\]> for \[T\]>::(eq|ne)$")
def _(ex, st, inst, a):
    p, q = ex.unwrap_ptr(a[0]), ex.unwrap_ptr(a[1])
    x = region(ex, st, p)
    y = region(ex, st, q)
    op = inst.defn.rsplit("::", 1)[1]
    if x is None or y is None:
        if isinstance(p, Opq) or isinstance(q, Opq):
            return fresh_bool("slice_eq")
        return None
    if any(c.n < 0 for c in x + y):
        return fresh_bool("slice_eq")
    r = regions_eq(ex, x, y)
    if r is None:
        return fresh_bool("slice_eq")
    return r if op == "eq" else lnot(r)


# ---------------------------------------------------------------------------- accounts
def pop_account(ex, st, a):
    """-> (condition that an account is left, name, commit(state))"""
    holder = ex.unwrap_ptr(a[1])
    sl = ex.unwrap_ptr(ex.load(st, holder))
    idx = ex.resolve_int(st, sl.path[-1][1])
    base = ex.cell_val(st, sl.cell)
    if isinstance(idx, int):
        name = "%s[%d]" % (base.name, idx)
    else:
        name = "%s[%s]" % (base.name, idx.sexpr().replace("|", ""))
    n = sl.meta

    def commit(s):
        ex.store(s, holder, Ptr(sl.cell, sl.path[:-1] + (("i", add(idx, 1)),), sub(n, 1)))
        s.gh = dict(s.gh)
        s.gh["accts"] = s.gh.get("accts", ()) + (name,)
    return lt(0, n), name, commit, Ptr(sl.cell, sl.path, None)


def leaf(ex, st, a, cond, mk, commit):
    """outcomes of a leaf try_accounts"""
    good = cond

    def post(s):
        commit(s)
        return ok(mk(s))
    return [Outcome(good, None, post), Outcome(lnot(good), err(E(("anchor", "constraint"))))]


def _targ(ex, inst, wrapper=None):
    """the generic argument type of the account wrapper (Self type's last type arg)"""
    rt = inst.body.locals[0] if inst.has_body else None
    return rt


def ok_type(ex, inst):
    """type index of T in a function returning Result<T, _>"""
    rt = ex.T[inst.body.locals[0]]
    return rt.variants[0]["fields"][0]["ty"]


def adt_arg(ex, ti, cls):
    for x in ex.T[ti].args or []:
        if isinstance(x, int) and ex.T[x].k == "adt":
            return x
    return None


def info_of(name):
    return name


@rx(r"<impl anchor_lang::Accounts<'info, B> for anchor_lang::prelude::AccountInfo<'info>>::try_accounts$")
def _(ex, st, inst, a):
    c, name, commit, p = pop_account(ex, st, a)
    return leaf(ex, st, a, c, lambda s: acct_info_value(ex, name), commit)


@rx(r"^<anchor_lang::prelude::UncheckedAccount<'info> as anchor_lang::Accounts<'info, B>>::try_accounts$")
def _(ex, st, inst, a):
    c, name, commit, p = pop_account(ex, st, a)
    return leaf(ex, st, a, c, lambda s: Agg((p,)), commit)


@rx(r"^<anchor_lang::prelude::Signer<'info> as anchor_lang::Accounts<'info, B>>::try_accounts$")
def _(ex, st, inst, a):
    c, name, commit, p = pop_account(ex, st, a)
    return leaf(ex, st, a, land(c, z3.Bool(name + ".is_signer")), lambda s: Agg((p,)), commit)


@rx(r"^<anchor_lang::prelude::SystemAccount<'info> as anchor_lang::Accounts<'info, B>>::try_accounts$")
def _(ex, st, inst, a):
    c, name, commit, p = pop_account(ex, st, a)
    return leaf(ex, st, a, land(c, eq(acct_owner(name), SYSTEM_ID)), lambda s: Agg((p,)), commit)


@rx(r"^<anchor_lang::prelude::(Program|Interface)<'info, T> as anchor_lang::Accounts<'info, B>>::try_accounts$")
def _(ex, st, inst, a):
    c, name, commit, p = pop_account(ex, st, a)
    ti = ok_type(ex, inst)
    arg = adt_arg(ex, ti, None)
    tn = ex.T[arg].name.split("::")[-1]
    ids = PROGRAM_IDS.get(tn)
    if ids is None:
        if "presale" in ex.T[arg].name.lower():
            ids = [st.gh["program_id"]]
        else:
            raise Unsupported("program id of " + ex.T[arg].name)
    cond = lor(*[eq(acct_key(name), i) for i in ids])
    cond = land(c, cond, z3.Bool(name + ".executable"))
    isint = "Interface<'info, T> as" in inst.defn

    def mk(s):
        pr = Agg((p, UNIT))
        return Agg((pr,)) if isint else pr
    return leaf(ex, st, a, cond, mk, commit)


@rx(r"^<anchor_lang::prelude::Interface<'info, T> as std::ops::Deref>::deref$")
def _(ex, st, inst, a):
    return Ptr(*_acc_ptr(ex, st, a[0]))


def _acc_ptr(ex, st, v):
    n = acct_name(ex, st, v)
    c = ex.new_cell(st, acct_info_value(ex, n))
    return (c,)


def zc_name(ex, ti):
    return ex.T[ti].name.split("::")[-1]


def data_cell(ex, st, name, ti):
    """cell holding the (zero-copy) data of account `name` seen as type ti"""
    cell = ("data", name, ti)
    if cell not in st.mem and cell not in ex.lazy_cells:
        ex.lazy_cells[cell] = Lazy(ti, "%s.%s" % (name, zc_name(ex, ti)))
    return cell


def note_data(st, name, tn, kind):
    d = dict(st.gh.get("data", {}))
    d[name] = (tn, kind)
    st.gh = dict(st.gh)
    st.gh["data"] = d


@rx(r"^<anchor_lang::prelude::AccountLoader<'info, T> as anchor_lang::Accounts<'info, B>>::try_accounts$")
def _(ex, st, inst, a):
    c, name, commit, p = pop_account(ex, st, a)
    ti = ok_type(ex, inst)
    arg = adt_arg(ex, ti, None)
    cond = land(c, eq(acct_owner(name), st.gh["program_id"]), z3.Bool("%s.is_%s" % (name, zc_name(ex, arg))))

    def mk(s):
        note_data(s, name, arg, "loader")
        return Agg((p, UNIT))
    return leaf(ex, st, a, cond, mk, commit)


@rx(r"^anchor_lang::prelude::AccountLoader::<'info, T>::(try_from|try_from_unchecked)$")
def _(ex, st, inst, a):
    ti = ok_type(ex, inst)
    arg = adt_arg(ex, ti, None)
    p = ex.unwrap_ptr(a[-1])
    name = acct_name(ex, st, p)
    if inst.defn.endswith("unchecked"):
        note_data(st, name, arg, "init")
        return ok(Agg((p, UNIT)))
    cond = land(eq(acct_owner(name), st.gh["program_id"]), z3.Bool("%s.is_%s" % (name, zc_name(ex, arg))))

    def post(s):
        note_data(s, name, arg, "loader")
    return [Outcome(cond, ok(Agg((p, UNIT))), post), Outcome(lnot(cond), err(E(("anchor", "owner"))))]


def zero_value(ex, ti):
    t = ex.T[ti]
    if t.k in ("uint", "int"):
        return 0
    if t.k == "bool":
        return False
    if t.k == "array":
        et = ex.T[t.elem]
        if et.k == "uint" and et.bits == 8:
            return Bytes(t.len, 0)
        return Agg([zero_value(ex, t.elem)] * t.len)
    if t.k == "tuple":
        return Agg([zero_value(ex, e) for e in t.elems])
    if t.k == "adt":
        return Agg([zero_value(ex, f["ty"]) for f in t.variants[0]["fields"]])
    raise Unsupported("zero of " + t.s)


def find_pointee(ex, ti, depth=0):
    """pointee of Ref/RefMut in Result<Ref<T>, _>"""
    t = ex.T[ti]
    for x in t.args or []:
        if isinstance(x, int) and ex.T[x].k == "adt":
            return x
    return None


@rx(r"^anchor_lang::prelude::AccountLoader::<'info, T>::(load|load_mut|load_init)$")
def _(ex, st, inst, a):
    rt = ok_type(ex, inst)  # Ref<T> / RefMut<T>
    arg = find_pointee(ex, rt)
    name = acct_name(ex, st, a[0])
    cell = data_cell(ex, st, name, arg)
    t = ex.T[rt]
    fs = t.variants[0]["fields"]
    v = Agg([ex.wrap(f["ty"], Ptr(cell)) if f["name"] == "value" else (UNIT if ex.T[f["ty"]].is_zst() else Opq("borrow")) for f in fs])
    kind = inst.defn.rsplit("::", 1)[1]
    if kind == "load":
        return ok(v)
    w = z3.Bool(name + ".is_writable")
    if kind == "load_mut":
        return [Outcome(w, ok(v)), Outcome(lnot(w), err(E(("anchor", "notmut"))))]
    # load_init: the discriminator must still be zero; a newly allocated account is all zero
    fresh = z3.Bool(name + ".is_fresh")

    def post(s):
        s.mem[cell] = zero_value(ex, arg)
        note_data(s, name, arg, "init")
    return [Outcome(land(w, fresh), ok(v), post), Outcome(lnot(land(w, fresh)), err(E(("anchor", "init"))))]


@rx(r"^<anchor_lang::prelude::(Account|InterfaceAccount)<'info, T> as anchor_lang::Accounts<'info, B>>::try_accounts$",
    r"^anchor_lang::prelude::(Account|InterfaceAccount)::<'a, T>::(try_from|try_from_unchecked)$")
def _(ex, st, inst, a):
    ti = ok_type(ex, inst)
    arg = adt_arg(ex, ti, None)
    tn = zc_name(ex, arg)
    isint = "InterfaceAccount" in inst.defn
    if inst.defn.endswith("try_accounts"):
        c, name, commit, p = pop_account(ex, st, a)
    else:
        p = ex.unwrap_ptr(a[-1])
        name = acct_name(ex, st, p)
        c = True

        def commit(s):
            pass
    if inst.defn.endswith("unchecked"):
        cond = c
    elif tn in ("Mint", "TokenAccount"):
        cond = land(c, lor(eq(acct_owner(name), TOKEN_ID), eq(acct_owner(name), TOKEN22_ID)) if isint else eq(acct_owner(name), TOKEN_ID),
                    z3.Bool("%s.is_%s" % (name, tn)))
    else:
        cond = land(c, eq(acct_owner(name), st.gh["program_id"]), z3.Bool("%s.is_%s" % (name, tn)))
    unchecked = inst.defn.endswith("unchecked")

    def mk(s):
        note_data(s, name, arg, "account")
        inner = Agg((Lazy(arg, "%s.%s" % (name, tn)), p))
        return Agg((inner, pk(acct_owner(name)))) if isint else inner
    return leaf(ex, st, a, cond, mk, commit)


@rx(r"<impl anchor_lang::Accounts<'info, B> for std::boxed::Box<T>>::try_accounts$")
def _(ex, st, inst, a):
    return None  # inlined: calls T::try_accounts and boxes the result


@rx(r"as anchor_lang::AccountsExit<'info>>::exit$", r"<impl anchor_lang::AccountsExit<'info> for std::boxed::Box<T>>::exit$", r"^anchor_lang::AccountsExit::exit$")
def _(ex, st, inst, a):
    if inst.local:
        return None
    if "Account<'info, T>" in inst.defn and "Interface" not in inst.defn:
        try:
            n = acct_name(ex, st, a[0])
            v = ex.force(ex.load(st, ex.unwrap_ptr(a[0])))
            st.gh = dict(st.gh)
            st.gh[("exit", n)] = v.f[0]
        except Unsupported:
            pass
    return ok(UNIT)


@rx(r"as anchor_lang::AccountsClose<'info>>::close$", r"^anchor_lang::common::close$")
def _(ex, st, inst, a):
    n = acct_name(ex, st, a[0])
    d = acct_name(ex, st, a[1])
    st.eff = st.eff + (("close", n, acct_key(n), acct_key(d)),)
    return ok(UNIT)


@rx(r"^anchor_lang::prelude::AccountInfo::<'a>::(data_len|try_data_len|lamports|try_lamports|data_is_empty)$")
def _(ex, st, inst, a):
    n = acct_name(ex, st, a[0])
    k = inst.defn.rsplit("::", 1)[1]
    created = st.gh.get(("created", n))
    if k == "lamports" and "try_accounts" in st.frames[-1].inst.name:
        # Anchor-generated `init` code: the branches for a funded and an unfunded address differ only
        # in how the rent is paid; the unfunded one is followed
        return 0
    if k == "lamports":
        return fresh_int("lam", 0, U64) if created else mkint(n + ".lamports", 0, U64)
    if k == "data_is_empty":
        return eq(mkint(n + ".data.len", 0, 1 << 32), 0)
    v = fresh_int("dlen", 0, 1 << 32) if created else mkint(n + ".data.len", 0, 1 << 32)
    if k == "data_len":
        return v
    return [Outcome(True, ok(v))]


@rx(r"^anchor_lang::prelude::AccountInfo::<'a>::(try_borrow_data|try_borrow_mut_data)$")
def _(ex, st, inst, a):
    n = acct_name(ex, st, a[0])
    return ok(Opq("data", acct=n))


@rx(r"^anchor_lang::system_program::(allocate|assign|create_account|transfer)$")
def _(ex, st, inst, a):
    ctx = ex.force(a[0])
    kind = inst.defn.rsplit("::", 1)[1]
    accs = ex.force(ctx.f[0])
    names = [acct_name(ex, st, x) for x in accs.f]
    tgt = {"create_account": 1, "transfer": 1, "allocate": 0, "assign": 0}[kind]
    owner = None
    if kind == "create_account":
        owner = pkt(ex, st, a[3])
    if kind == "assign":
        owner = pkt(ex, st, a[1])

    def post(s):
        s.gh = dict(s.gh)
        s.gh[("created", names[tgt])] = True
        s.eff = s.eff + (("system", kind, acct_key(names[tgt]), owner),)
    return maybe(UNIT, "system", post)


# Rent / Clock
@rx(r"<impl anchor_lang::prelude::SolanaSysvar for anchor_lang::prelude::Clock>::get$")
def _(ex, st, inst, a):
    ti = ok_type(ex, inst)
    return ok(Lazy(ti, "clock"))


@rx(r"<impl anchor_lang::prelude::SolanaSysvar for anchor_lang::prelude::Rent>::get$")
def _(ex, st, inst, a):
    return ok(Opq("rent"))


@b("anchor_lang::prelude::Rent::minimum_balance")
def _(ex, st, inst, a):
    return fresh_int("rentmin", 0, U64)


@b("anchor_lang::prelude::Rent::is_exempt")
def _(ex, st, inst, a):
    return fresh_bool("exempt")


# ---------------------------------------------------------------------------- (de)serialisation, events
@rx(r"^<.* as anchor_lang::AnchorDeserialize>::(deserialize|deserialize_reader|try_from_slice)$", r"^anchor_lang::AnchorDeserialize::(deserialize|try_from_slice)$")
def _(ex, st, inst, a):
    ti = ok_type(ex, inst)
    tn = ex.T[ti].s.split("<")[0].split("::")[-1]
    nm = "args"
    if "__Args" not in (ex.T[ti].name or "") and "instruction::" in (ex.T[ti].name or ""):
        ex.arg_ti = ti
    elif getattr(ex, "arg_ti", None) is not None and ex.T[ti].k == "adt" and len(ex.T[ti].variants) == 1:
        # #[instruction(..)] reads the same data again: field j is argument j whatever it is called
        fs, gs = ex.T[ti].variants[0]["fields"], ex.T[ex.arg_ti].variants[0]["fields"]
        if len(fs) <= len(gs) and all(ex.T[f["ty"]].s == ex.T[g["ty"]].s for f, g in zip(fs, gs)):
            return maybe(Agg([ex.lazy(f["ty"], "args." + g["name"]) for f, g in zip(fs, gs)]), "deser")
    return maybe(Lazy(ti, nm), "deser")


@rx(r"^<.* as anchor_lang::Event>::data$", r"^anchor_lang::Event::data$")
def _(ex, st, inst, a):
    p = ex.unwrap_ptr(a[0])
    v = ex.force(ex.load(st, p))
    ti = ex.pointee(inst.body.locals[1])
    st.eff = st.eff + (("event", ex.T[ti].name.split("::")[-1], ti, v),)
    return Opq("payload")


@b("std::iter::Iterator::chain", "std::iter::Iterator::map", "std::iter::Iterator::collect", "std::iter::IntoIterator::into_iter",
   "<I as std::iter::IntoIterator>::into_iter", "<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter")
def _(ex, st, inst, a):
    if any(isinstance(x, Opq) for x in a):
        return Opq("payload")
    if inst.defn.startswith("<std::vec::Vec"):
        return vec_into_iter(ex, st, inst, a)
    return None


@rx(r"Instruction::new_with_(bytes|borsh|bincode)$")
def _(ex, st, inst, a):
    return Opq("ix", kind="other")


@rx(r"AccountMeta::new(_readonly)?$")
def _(ex, st, inst, a):
    return Opq("meta")


# ---------------------------------------------------------------------------- token program CPIs
@rx(r"spl_token_2022::instruction::transfer_checked$", r"spl_token::instruction::transfer_checked$")
def _(ex, st, inst, a):
    prog, src, mint, dst, auth = [pkt(ex, st, x) for x in a[:5]]
    d = dict(kind="transfer", prog=prog, src=src, mint=mint, dst=dst, auth=auth, amount=sc(ex, a[6]), decimals=sc(ex, a[7]))
    return maybe(Opq("ix", **d), "ix")


@rx(r"spl_token(_2022)?::instruction::transfer$")
def _(ex, st, inst, a):
    prog, src, dst, auth = [pkt(ex, st, x) for x in a[:4]]
    d = dict(kind="transfer", prog=prog, src=src, mint=None, dst=dst, auth=auth, amount=sc(ex, a[5]), decimals=None)
    return maybe(Opq("ix", **d), "ix")


@rx(r"add_extra_accounts_for_execute_cpi$")
def _(ex, st, inst, a):
    ix = ex.force(ex.load(st, a[0]))
    st.eff = st.eff + (("hook_accounts", ix.d if isinstance(ix, Opq) else None, sc(ex, a[7]), pkt(ex, st, a[2]), ex.force(a[8]) if len(a) > 8 else None),)
    return maybe(UNIT, "hook")


@rx(r"solana_program::program::invoke(_signed)?(_unchecked)?$", r"solana_cpi::invoke(_signed)?(_unchecked)?$")
def _(ex, st, inst, a):
    ix = ex.force(ex.load(st, ex.unwrap_ptr(a[0])))
    seeds = None
    if len(a) > 2:
        p = ex.unwrap_ptr(a[2])
        if isinstance(p, Ptr) and p.meta == 1:
            q = ex.unwrap_ptr(ex.load(st, p))
            seeds = seeds_chunks(ex, st, q)
        elif isinstance(p, Ptr) and p.meta == 0:
            seeds = []
    if isinstance(ix, Opq) and ix.d.get("kind") == "transfer":
        d = dict(ix.d)
        d["seeds"] = seeds

        def post(s):
            s.eff = s.eff + (("transfer", d),)
        return maybe(UNIT, "cpi", post)

    def post2(s):
        s.eff = s.eff + (("cpi", "event" if not isinstance(ix, Opq) or ix.d.get("kind") == "other" else ix.tag),)
    return maybe(UNIT, "cpi", post2)


@rx(r"^anchor_spl::token(_2022|_interface)?::(burn|transfer_checked|transfer|close_account|mint_to|burn_checked)$")
def _(ex, st, inst, a):
    ctx = ex.force(a[0])
    accs = ex.force(ctx.f[0])
    names = [acct_name(ex, st, x) for x in accs.f]
    kind = inst.defn.rsplit("::", 1)[1]
    t = ex.T[ex.T[inst.body.locals[1]].args[-1]] if False else None
    ti = inst.body.locals[1]
    accty = None
    for f in ex.P.fields(ti):
        if f["name"] == "accounts":
            accty = f["ty"]
    d = {"kind": kind}
    for n, f in zip(names, ex.P.fields(accty)):
        d[f["name"]] = acct_key(n)
    d["prog"] = acct_key(acct_name(ex, st, ctx.f[2]))
    d["amount"] = sc(ex, a[1]) if len(a) > 1 else None
    seeds = None
    p = ex.unwrap_ptr(ctx.f[3])
    if isinstance(p, Ptr) and p.meta == 1:
        seeds = seeds_chunks(ex, st, ex.unwrap_ptr(ex.load(st, p)))
    d["seeds"] = seeds
    if kind in ("transfer", "transfer_checked"):
        d = dict(kind="transfer", prog=d["prog"], src=d["from"], mint=d.get("mint"), dst=d["to"], auth=d["authority"], amount=d["amount"], decimals=None, seeds=seeds)

    def post(s):
        s.eff = s.eff + ((d["kind"], d),)
    return maybe(UNIT, "cpi", post)


@rx(r"^anchor_spl::token(_2022|_interface)?::(initialize_account3|initialize_mint2|initialize_account)$")
def _(ex, st, inst, a):
    ctx = ex.force(a[0])
    accs = ex.force(ctx.f[0])
    ti = inst.body.locals[1]
    d = {"kind": "init_token_account"}
    for f in ex.P.fields(ti):
        if f["name"] == "accounts":
            for x, g in zip(accs.f, ex.P.fields(f["ty"])):
                d[g["name"]] = acct_key(acct_name(ex, st, x))
    d["prog"] = acct_key(acct_name(ex, st, ctx.f[2]))

    def post(s):
        s.eff = s.eff + (("init_token_account", d),)
    return maybe(UNIT, "cpi", post)


@b("anchor_spl::memo::build_memo")
def _(ex, st, inst, a):
    def post(s):
        s.eff = s.eff + (("memo",),)
    return maybe(UNIT, "cpi", post)


@b("anchor_lang::context::CpiContext::<'a, 'b, 'c, 'info, T>::new")
def _(ex, st, inst, a):
    return Agg((a[1], Opq("nvec"), a[0], Ptr(("dangling",), (("i", 0),), 0)))


@b("anchor_lang::context::CpiContext::<'a, 'b, 'c, 'info, T>::new_with_signer")
def _(ex, st, inst, a):
    return Agg((a[1], Opq("nvec"), a[0], a[2]))


@b("anchor_lang::context::CpiContext::<'a, 'b, 'c, 'info, T>::with_signer")
def _(ex, st, inst, a):
    v = ex.force(a[0])
    return Agg((v.f[0], v.f[1], v.f[2], a[1]))


@rx(r"ExtensionType::(try_calculate_account_len|get_required_init_account_extensions|try_get_account_len)$", r"find_mint_account_size$")
def _(ex, st, inst, a):
    if "get_required" in inst.defn:
        return Opq("exts")
    return maybe(fresh_int("acclen", 0, 1 << 32), "len")


# Token-2022 extension data of an account
def _acct_of_data(ex, st, v):
    for _ in range(8):
        if isinstance(v, Opq):
            if "acct" in v.d:
                return v.d["acct"]
            print("DBG acct_of_data", v) if DEBUG else None
            return None
        v = ex.force(v)
        if isinstance(v, Ptr):
            v = ex.load(st, v)
            continue
        if isinstance(v, Agg) and v.f:
            v = v.f[0]
            continue
        return None
    return None


@rx(r"extension::StateWithExtensions::<'data, S>::unpack$", r"extension::PodStateWithExtensions::<.*>::unpack$")
def _(ex, st, inst, a):
    n = _acct_of_data(ex, st, a[0])
    f = z3.Bool("%s.unpack_ok" % n) if n else fresh_bool("unpack")
    return [Outcome(f, ok(Opq("state", acct=n))), Outcome(lnot(f), err(Opq("progerr")))]


@rx(r"^std::ops::Deref::deref$", r"^<std::cell::Ref<'_, T> as std::ops::Deref>::deref$")
def _(ex, st, inst, a):
    v = ex.unwrap_ptr(a[0])
    if isinstance(v, Ptr):
        w = ex.force(ex.load(st, v))
        if isinstance(w, Opq):
            return Ptr(ex.new_cell(st, w))
    return None


@rx(r"BaseStateWithExtensions::get_extension$")
def _(ex, st, inst, a):
    n = _acct_of_data(ex, st, a[0])
    ti = ok_type(ex, inst)
    pt = ex.pointee(ti)
    tn = zc_name(ex, pt)
    has = z3.Bool("%s.has_ext_%s" % (n, tn)) if n else fresh_bool("has_ext")
    cell = ("ext", n, tn)
    ex.lazy_cells[cell] = Lazy(pt, "%s.ext.%s" % (n, tn))
    return [Outcome(has, ok(Ptr(cell))), Outcome(lnot(has), err(Opq("progerr")))]


@rx(r"BaseStateWithExtensions::get_extension_types$")
def _(ex, st, inst, a):
    n = _acct_of_data(ex, st, a[0])
    ti = ok_type(ex, inst)
    f = z3.Bool("%s.exttypes_ok" % n) if n else fresh_bool("exttypes")
    if ex.T[ti].k == "adt" and ex.T[ti].name.endswith("vec::Vec") and n:
        v = Lazy(ti, n + ".exts")
    else:
        v = Opq("exts")
    return [Outcome(f, ok(v)), Outcome(lnot(f), err(Opq("progerr")))]


@rx(r"extension::transfer_hook::get_program_id$")
def _(ex, st, inst, a):
    n = _acct_of_data(ex, st, a[0])
    has = z3.Bool("%s.has_hook" % n) if n else fresh_bool("hook")
    return sym_option(has, pk(mkint("%s.hook_program" % n, 0, P256)))


@rx(r"TransferFeeConfig::get_epoch_fee$")
def _(ex, st, inst, a):
    p = ex.unwrap_ptr(a[0])
    if isinstance(p, Ptr) and p.cell[0] == "ext":
        n = p.cell[1]
        cell = ("epochfee", n)
        ti = ex.pointee(inst.body.locals[0])
        ex.lazy_cells[cell] = Lazy(ti, "%s.epochfee" % n)
        st.gh = dict(st.gh)
        st.gh[("epoch_of", n)] = sc(ex, a[1])
        return Ptr(cell)
    return None


@rx(r"extension::transfer_fee::TransferFee as std::clone::Clone>::clone$")
def _(ex, st, inst, a):
    return ex.load(st, ex.unwrap_ptr(a[0]))


@rx(r"primitives::<impl std::convert::From<.*PodU(16|64)> for u(16|64)>::from$")
def _(ex, st, inst, a):
    v = ex.force(a[0])
    while isinstance(v, Agg):
        v = ex.force(v.f[0])
    if isinstance(v, Bytes):
        return ex.bytes_le(v)
    return None


# ---------------------------------------------------------------------------- Box / Vec / iterators
@b("std::boxed::Box::<T>::new")
def _(ex, st, inst, a):
    c = ex.new_cell(st, a[0])
    return ex.wrap(inst.body.locals[0], Ptr(c))


@b("std::boxed::Box::<T>::new_uninit")
def _(ex, st, inst, a):
    c = ex.new_cell(st, None)
    st.mem[c] = Agg(())
    # Box<MaybeUninit<[T; N]>>: writes go through a pointer cast to *mut [T; N]
    return ex.wrap(inst.body.locals[0], Ptr(c))


@b("std::boxed::box_assume_init_into_vec_unsafe")
def _(ex, st, inst, a):
    p = ex.unwrap_ptr(a[0])
    v = ex.force(ex.load(st, p))
    while isinstance(v, Agg) and len(v.f) == 2 and v.f[0] is None:
        v = ex.force(v.f[1])  # MaybeUninit { value }
        if isinstance(v, Agg) and len(v.f) == 1 and isinstance(v.f[0], (Agg, Bytes)):
            v = ex.force(v.f[0])
    if isinstance(v, Bytes):
        items = [ex.byte_at(v, i) for i in range(v.n)]
    else:
        items = v.f
    c = ex.new_cell(st, ListV(items))
    return VecV(c, len(items))


def the_vec(ex, st, v):
    v = ex.force(v)
    while isinstance(v, Ptr):
        v = ex.force(ex.load(st, v))
    if isinstance(v, Agg) and len(v.f) == 1:
        v = ex.force(v.f[0])
    return v


@rx(r"^std::vec::Vec::<T>::(with_capacity|new)$", r"^std::vec::Vec::<T, A>::(with_capacity_in|new_in)$", r"<std::vec::Vec<T> as std::default::Default>::default$")
def _(ex, st, inst, a):
    return VecV(ex.new_cell(st, ListV()), 0)


@rx(r"^<std::vec::Vec<T, A> as std::ops::Deref(Mut)?>::deref(_mut)?$", r"^std::vec::Vec::<T, A>::(as_slice|as_mut_slice)$",
    r"^<std::vec::Vec<T, A> as std::convert::AsRef<\[T\]>>::as_ref$", r"^<std::vec::Vec<T, A> as std::borrow::Borrow",
    r"^<std::string::String as std::ops::Deref>::deref$", r"^std::string::String::(as_bytes|as_str)$")
def _(ex, st, inst, a):
    v = the_vec(ex, st, a[0])
    if isinstance(v, VecV):
        return Ptr(v.cell, (("i", 0),), v.len)
    if isinstance(v, Opq):
        c = ex.new_cell(st, v)
        return Ptr(c, (("i", 0),), fresh_int("opqlen", 0, 1 << 32))
    raise Unsupported("vec deref %r" % (v,))


@rx(r"^std::vec::Vec::<T, A>::(len|is_empty|capacity|as_ptr|as_mut_ptr|reserve|shrink_to_fit)$")
def _(ex, st, inst, a):
    v = the_vec(ex, st, a[0])
    k = inst.defn.rsplit("::", 1)[1]
    if isinstance(v, Opq):
        return {"len": fresh_int("opqlen", 0, 1 << 32), "is_empty": fresh_bool("opqe")}.get(k, UNIT)
    if k == "len":
        return v.len
    if k == "capacity":
        return 1 << 40
    if k == "is_empty":
        return eq(v.len, 0)
    if k in ("reserve", "shrink_to_fit"):
        return UNIT
    return Ptr(v.cell, (("i", 0),), None)


@rx(r"^std::vec::Vec::<T, A>::set_len$")
def _(ex, st, inst, a):
    v = the_vec(ex, st, a[0])
    p = ex.unwrap_ptr(a[0])
    if isinstance(v, VecV):
        ex.store(st, p, VecV(v.cell, sc(ex, a[1])))
    return UNIT


@rx(r"^std::vec::Vec::<T, A>::push(_mut)?$")
def _(ex, st, inst, a):
    v = the_vec(ex, st, a[0])
    if isinstance(v, Opq):
        return UNIT
    p = ex.unwrap_ptr(a[0])
    base = ex.cell_val(st, v.cell) if v.cell != ("emptyvec",) else ListV()
    if isinstance(base, ListV) and isinstance(v.len, int):
        c = ex.new_cell(st, ListV(base.items[:v.len] + (a[1],)))
        ex.store(st, p, VecV(c, v.len + 1))
        return UNIT
    raise Unsupported("push on symbolic vec")


@rx(r"^std::vec::Vec::<T, A>::(extend_from_slice|append|extend_trusted)$", r"^<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend$")
def _(ex, st, inst, a):
    v = the_vec(ex, st, a[0])
    p = ex.unwrap_ptr(a[0])
    q = ex.unwrap_ptr(a[1])
    if isinstance(v, VecV) and isinstance(v.len, int) and isinstance(q, Ptr) and isinstance(q.meta, int):
        base = ex.cell_val(st, v.cell) if v.cell != ("emptyvec",) else ListV()
        if isinstance(base, ListV):
            items = [ex.load(st, Ptr(q.cell, q.path[:-1] + (("i", add(q.path[-1][1], j)),))) for j in range(q.meta)]
            c = ex.new_cell(st, ListV(base.items[:v.len] + tuple(items)))
            ex.store(st, p, VecV(c, v.len + len(items)))
            return UNIT
    ex.store(st, p, Opq("vec"))
    return UNIT


def vec_into_iter(ex, st, inst, a):
    v = the_vec(ex, st, a[0])
    if isinstance(v, VecV):
        return Agg((Ptr(v.cell, (("i", 0),), v.len), 0), 0)  # (slice, position)
    return Opq("payload")


@rx(r"^<std::vec::IntoIter<T, A> as std::iter::Iterator>::next$")
def _(ex, st, inst, a):
    p = ex.unwrap_ptr(a[0])
    v = ex.force(ex.load(st, p))
    if isinstance(v, Opq):
        raise Unsupported("iterating an opaque vector")
    sl, pos = v.f
    more = lt(pos, sl.meta)

    def post(s):
        x = ex.load(s, Ptr(sl.cell, sl.path[:-1] + (("i", add(sl.path[-1][1], pos)),)))
        ex.store(s, p, Agg((sl, add(pos, 1))))
        return some(x)
    return [Outcome(more, None, post), Outcome(lnot(more), NONE)]


@rx(r"^<std::vec::Vec<T, A> as std::clone::Clone>::clone$")
def _(ex, st, inst, a):
    v = the_vec(ex, st, a[0])
    return v


@rx(r"^std::collections::BTreeSet::<T>::new$", r"BTreeMap::<.*>::new$")
def _(ex, st, inst, a):
    return Opq("btreeset")


@rx(r"^std::collections::BTreeSet::<.*>::(insert|contains|remove)$")
def _(ex, st, inst, a):
    return fresh_bool("btree")


# index by ranges on slices
@rx(r"^core::slice::index::<impl std::ops::Index(Mut)?<I> for \[T\]>::index(_mut)?$",
    r"^std::array::<impl std::ops::Index(Mut)?<I> for \[T; N\]>::index(_mut)?$")
def _(ex, st, inst, a):
    p = ex.unwrap_ptr(a[0])
    nm = inst.name
    if isinstance(p, Opq):
        return p
    ity = ex.T[inst.body.locals[2]]
    if "[T; N]" in inst.defn:
        # array reference -> slice
        at = ex.T[ex.pointee(inst.body.locals[1])]
        p = Ptr(p.cell, p.path[:-1], at.len) if p.path and p.path[-1][0] == "a" else Ptr(p.cell, p.path + (("i", 0),), at.len)
    r = ex.force(a[1])
    s = ity.s
    n = p.meta

    def subslice(lo, hi):
        good = land(le(lo, hi), le(hi, n))
        q = Ptr(p.cell, p.path[:-1] + (("i", add(p.path[-1][1], lo)),), sub(hi, lo))
        if good is True:
            return q
        return [Outcome(good, q)]
    if s.endswith("RangeFull"):
        return p
    if "RangeFrom<usize>" in s:
        return subslice(sc(ex, r.f[0]), n)
    if "RangeToInclusive<usize>" in s:
        return subslice(0, add(sc(ex, r.f[0]), 1))
    if "RangeTo<usize>" in s:
        return subslice(0, sc(ex, r.f[0]))
    if "RangeInclusive<usize>" in s:
        return None
    if "Range<usize>" in s:
        return subslice(sc(ex, r.f[0]), sc(ex, r.f[1]))
    if s == "usize":
        i = sc(ex, r)
        good = lt(i, n)
        q = Ptr(p.cell, p.path[:-1] + (("i", add(p.path[-1][1], i)),), None)
        return q if good is True else [Outcome(good, q)]
    return None


# ---------------------------------------------------------------------------- bytemuck
def _cast_ptr(ex, st, a, inst, kind):
    p = ex.unwrap_ptr(a[0])
    return p


@rx(r"^bytemuck::(try_)?cast_slice(_mut)?$")
def _(ex, st, inst, a):
    p = ex.unwrap_ptr(a[0])
    tr = "try_" in inst.defn
    src = ex.T[ex.pointee(inst.body.locals[1])]
    rt = ex.T[inst.body.locals[0]]
    dst = ex.T[ex.pointee(rt.variants[0]["fields"][0]["ty"] if tr else inst.body.locals[0])]
    se, de = ex.T[src.elem], ex.T[dst.elem]
    if de.size != 1 or not isinstance(p.meta, int):
        raise Unsupported("cast_slice")
    q = Ptr(p.cell, p.path + (("raw", se.size),), p.meta * se.size)
    return ok(q) if tr else q


@rx(r"^bytemuck::(try_)?from_bytes(_mut)?$")
def _(ex, st, inst, a):
    p = ex.unwrap_ptr(a[0])
    tr = "try_" in inst.defn
    rt = ex.T[inst.body.locals[0]]
    pti = ex.pointee(rt.variants[0]["fields"][0]["ty"] if tr else inst.body.locals[0])
    t = ex.T[pti]
    # path shape: (..., ("i", k), ("raw", unit), ("i", off)?)
    path = p.path
    off = 0
    if path and path[-1][0] == "i" and len(path) > 1 and path[-2][0] == "raw":
        off = path[-1][1]
        path = path[:-1]
    if not path or path[-1][0] != "raw":
        raise Unsupported("from_bytes on %r" % (p,))
    unit = path[-1][1]
    base = path[:-1]
    start = base[-1][1]
    n = ex.resolve_int(st, p.meta)
    if n != t.size:
        if tr:
            return err(Opq("podcast"))
        raise PathEnd("panic", "from_bytes size")
    q = Ptr(p.cell, base[:-1] + (("pod", pti, start * unit + off, unit),), None)
    return ok(q) if tr else q


@rx(r"^bytemuck::(bytes_of|bytes_of_mut)$")
def _(ex, st, inst, a):
    p = ex.unwrap_ptr(a[0])
    t = ex.T[ex.pointee(inst.body.locals[1])]
    if t.k == "array" and ex.T[t.elem].k == "uint":
        u = ex.T[t.elem].size
        return Ptr(p.cell, p.path + (("i", 0), ("raw", u)), t.size)
    if t.k == "uint":
        return Ptr(p.cell, p.path + (("raw1", t.size),), t.size)
    raise Unsupported("bytes_of " + t.s)


@b("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call")
def _(ex, st, inst, a):
    if inst.has_body:
        return None
    v = ex.force(a[0])
    while isinstance(v, Ptr):
        v = ex.force(ex.load(st, v))
    tup = ex.force(a[1])
    if isinstance(v, FnV):
        return Tail(ex.P.insts[v.inst], list(tup.f))
    raise Unsupported("call_once on %r" % (v,))
