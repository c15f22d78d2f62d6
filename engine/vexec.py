"""Symbolic execution of rustc MIR (the verification condition generator).

Every value a MIR statement computes is represented exactly (mathematical integers with explicit
machine ranges and overflow conditions).  Paths are enumerated depth first; infeasible branches are
pruned with a sound linear abstraction.  A call is replaced by the callee's contract when one is
registered, by a model of the dependency when one is registered (builtins.py), and otherwise the
callee's own MIR is executed.
"""
import z3
from sym import *
import sym


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    def __init__(self, kind, info=None):
        self.kind = kind
        self.info = info
        self.st = None


class Restart(Exception):
    """a loop of unknown length was met: start again with that loop cut"""


class NeedConcrete(Exception):
    def __init__(self, term, lo, hi):
        self.term = term
        self.lo = lo
        self.hi = hi


class NeedCond(Exception):
    """fork the current step on a boolean term"""

    def __init__(self, term):
        self.term = term


def same(a, b):
    """syntactically the same value"""
    if is_sym(a) and is_sym(b):
        return a.eq(b)
    return not is_sym(a) and not is_sym(b) and a == b


class Agg:
    __slots__ = ("f", "v")

    def __init__(self, f, v=0):
        self.f = tuple(f)
        self.v = v

    def __repr__(self):
        return "Agg(%s%s)" % ("v%d " % self.v if self.v else "", ", ".join(map(repr, self.f)))


class SymEnum:
    """enum value whose variant index is the term `d`; vs maps variant index -> Agg"""
    __slots__ = ("d", "vs")

    def __init__(self, d, vs):
        self.d = d
        self.vs = vs

    def __repr__(self):
        return "SymEnum(%s)" % (self.d,)


class Lazy:
    __slots__ = ("ty", "name")

    def __init__(self, ty, name):
        self.ty = ty
        self.name = name

    def __repr__(self):
        return "Lazy(%s)" % self.name


class Ptr:
    __slots__ = ("cell", "path", "meta")

    def __init__(self, cell, path=(), meta=None):
        self.cell = cell
        self.path = path
        self.meta = meta

    def __repr__(self):
        return "Ptr(%s,%s,%s)" % (self.cell, self.path, self.meta)

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.cell == o.cell and self.path == o.path

    __hash__ = None


class Bytes:
    """fixed number of bytes as one number; le=False: big endian, le=True: little endian"""
    __slots__ = ("n", "t", "le")

    def __init__(self, n, t, le=False):
        self.n = n
        self.t = t
        self.le = le

    def __repr__(self):
        return "Bytes(%d%s %s)" % (self.n, "le" if self.le else "", self.t)


class Seq:
    """symbolic sequence of unknown length (elements are lazies)"""
    __slots__ = ("elem", "name", "over")

    def __init__(self, elem, name, over=()):
        self.elem = elem
        self.name = name
        self.over = over

    def __repr__(self):
        return "Seq(%s)" % self.name


class ListV:
    """growable backing store of a Vec"""
    __slots__ = ("items",)

    def __init__(self, items=()):
        self.items = tuple(items)

    def __repr__(self):
        return "ListV(%d)" % len(self.items)


class VecV:
    __slots__ = ("cell", "len")

    def __init__(self, cell, len_):
        self.cell = cell
        self.len = len_

    def __repr__(self):
        return "VecV(%s,%s)" % (self.cell, self.len)


class Opq:
    __slots__ = ("tag", "d")

    def __init__(self, tag="?", **d):
        self.tag = tag
        self.d = d

    def child(self, tag):
        o = Opq(tag[:60])
        if "acct" in self.d:
            o.d["acct"] = self.d["acct"]
        return o

    def __repr__(self):
        return "Opq(%s)" % self.tag


class FnV:
    __slots__ = ("inst",)

    def __init__(self, inst):
        self.inst = inst

    def __repr__(self):
        return "FnV(%s)" % self.inst


class View:
    """reinterpretation of raw integer storage as a plain-old-data struct (bytemuck)"""
    pass


UNIT = Agg(())


def ok(v):
    return Agg((v,), 0)


def err(e):
    return Agg((e,), 1)


def some(v):
    return Agg((v,), 1)


NONE = Agg((), 0)


def sym_option(cond, v):
    if isinstance(cond, bool):
        return some(v) if cond else NONE
    return SymEnum(ite(cond, 1, 0), {0: NONE, 1: Agg((v,), 1)})


class Frame:
    __slots__ = ("inst", "body", "bb", "si", "dest", "target", "fid", "hook")

    def __init__(self, inst, body, fid, dest, target, hook=None):
        self.inst = inst
        self.body = body
        self.bb = 0
        self.si = 0
        self.fid = fid
        self.dest = dest
        self.target = target
        self.hook = hook

    def copy(self):
        f = Frame(self.inst, self.body, self.fid, self.dest, self.target, self.hook)
        f.bb = self.bb
        f.si = self.si
        return f


class State:
    __slots__ = ("mem", "frames", "pc", "eff", "known", "gh", "steps", "visits")

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.frames = [f.copy() for f in self.frames]
        s.pc = self.pc
        s.eff = self.eff
        s.known = dict(self.known)
        s.gh = dict(self.gh)
        s.steps = self.steps
        s.visits = self.visits
        return s


class Outcome:
    """one possible result of a builtin"""
    __slots__ = ("cond", "value", "post")

    def __init__(self, cond, value, post=None):
        self.cond = cond
        self.value = value
        self.post = post


class Tail:
    """builtin result: continue by calling another instance with these args"""

    def __init__(self, inst, args):
        self.inst = inst
        self.args = args


class Result:
    __slots__ = ("kind", "value", "pc", "mem", "eff", "gh", "known", "info", "st")

    def __init__(self, kind, st, value=None, info=None):
        self.kind = kind
        self.value = value
        self.pc = st.pc
        self.mem = st.mem
        self.eff = st.eff
        self.gh = st.gh
        self.known = st.known
        self.info = info
        self.st = st


INT_RANGE = {}


def int_range(t):
    b = t.bits
    if t.k == "int":
        return -(1 << (b - 1)), (1 << (b - 1)) - 1
    return 0, (1 << b) - 1


def wrap_int(v, t):
    lo, hi = int_range(t)
    if isinstance(v, int):
        m = 1 << t.bits
        v %= m
        return v - m if v > hi else v
    m = 1 << t.bits
    r = fmod(v, m)
    if t.k == "int":
        r = ite(le(r, hi), r, sub(r, m))
    return r


class Exec:
    def __init__(self, prog, builtins, contracts=None, max_visits=64, log=None):
        self.P = prog
        self.T = prog.types
        self.builtins = builtins
        self.contracts = contracts or {}
        self.feas = Feas()
        self.lazy_cells = {}
        self.expand_cache = {}
        self.const_cache = {}
        self.fidc = 0
        self.cellc = 0
        self.max_visits = max_visits
        self.max_steps = 20000000
        self.used_contracts = set()
        self.used_builtins = {}
        self.inlined = set()
        self.log = log
        self.base_axioms = []
        self.steps = 0
        self.calls = {}
        self.want_err = True
        self.merge = True
        self.merge_cache = {}
        self.cut = set()
        self.nocut = set()
        self.auto_cut = True
        self.cut_stop = ()
        self.loops = {}
        self.live_cache = {}
        self._onres = None
        self.call_filter = None

    # ------------------------------------------------------------------ types
    def ty(self, i):
        return self.T[i]

    def pointee(self, ti):
        t = self.T[ti]
        if t.k in ("ref", "ptr"):
            return t.elem
        if t.k == "pat":
            return self.pointee(t.elem)
        if t.k == "adt":
            if t.name and t.name.endswith("boxed::Box"):
                return t.args[0]
            for f in t.variants[0]["fields"]:
                try:
                    p = self.pointee(f["ty"])
                except Exception:
                    continue
                if p is not None:
                    return p
        return None

    def place_ty(self, body, pl):
        ti = body.locals[pl[0]]
        for pr in pl[1]:
            k = pr[0]
            if k == "*":
                ti = self.pointee(ti)
            elif k == "f":
                ti = pr[2]
            elif k == "d":
                pass
            elif k in ("x", "ci"):
                ti = self.T[ti].elem
            elif k == "ss":
                pass
        return ti

    def op_ty(self, body, op):
        if op[0] == "p":
            return self.place_ty(body, op[1])
        if op[0] == "c":
            return op[2]
        return self.P.by_s["bool"]

    # ------------------------------------------------------------------ lazies
    def scalar(self, t, name):
        if t.k == "bool":
            return z3.Bool(name)
        lo, hi = int_range(t)
        return mkint(name, lo, hi)

    def lazy(self, ti, name):
        """value of type ti named `name`: scalars are expanded at once"""
        t = self.T[ti]
        if t.k in ("int", "uint", "bool"):
            return self.scalar(t, name)
        return Lazy(ti, name)

    def expand(self, lz):
        key = (lz.ty, lz.name)
        r = self.expand_cache.get(key)
        if r is None:
            r = self._expand(lz.ty, lz.name)
            self.expand_cache[key] = r
        return r

    def _expand(self, ti, name):
        t = self.T[ti]
        k = t.k
        if k in ("int", "uint", "bool"):
            return self.scalar(t, name)
        if k == "pat":
            return self._expand(t.elem, name)
        if k == "tuple":
            return Agg([self.lazy(e, "%s.%d" % (name, i)) for i, e in enumerate(t.elems)])
        if k == "array":
            et = self.T[t.elem]
            n = t.len
            if et.k == "uint" and et.bits == 8:
                return Bytes(n, mkint(name, 0, (1 << (8 * n)) - 1) if n else 0)
            return Agg([self.lazy(t.elem, "%s[%d]" % (name, i)) for i in range(n)])
        if k in ("ref", "ptr"):
            pt = self.T[t.elem]
            cell = ("lz", name)
            if pt.k in ("slice", "str"):
                et = pt.elem if pt.k == "slice" else self.P.by_s["u8"]
                self.lazy_cells[cell] = Seq(et, name)
                return Ptr(cell, (("i", 0),), mkint(name + ".len", 0, (1 << 32)))
            if pt.k == "dyn":
                return Opq("dynptr:" + name)
            self.lazy_cells[cell] = self.lazy(t.elem, name)
            return Ptr(cell, (), None)
        if k == "adt":
            nm = t.name
            if nm.endswith("::vec::Vec"):
                cell = ("lz", name)
                self.lazy_cells[cell] = Seq(t.args[0], name)
                return VecV(cell, mkint(name + ".len", 0, (1 << 32)))
            if nm.endswith("string::String"):
                return Agg((self._expand(t.variants[0]["fields"][0]["ty"], name),))
            if nm.endswith("rc::Rc") or nm.endswith("boxed::Box"):
                cell = ("lz", name)
                self.lazy_cells[cell] = self.lazy(t.args[0], name)
                return self.wrap(ti, Ptr(cell))
            if nm.endswith("cell::RefCell"):
                fs = t.variants[0]["fields"]
                return Agg([self.lazy(f["ty"], name) if f["name"] == "value" else Opq("borrow") for f in fs])
            if t.d.get("adt") == "union" or t.d.get("union"):
                return Opq("union:" + name)
            if len(t.variants) == 1:
                fs = t.variants[0]["fields"]
                nonz = [f for f in fs if not self.T[f["ty"]].is_zst()]
                if len(nonz) == 1 and not t.name.startswith("presale") and nonz[0]["name"] in ("0", "value"):
                    # newtype: keep the name short
                    return Agg([self.lazy(f["ty"], name) for f in fs])
                return Agg([self.lazy(f["ty"], "%s.%s" % (name, f["name"])) for f in fs])
            if not t.variants:
                return Opq("never")
            d = mkint(name + ".tag", 0, len(t.variants) - 1)
            vs = {}
            for i, v in enumerate(t.variants):
                vs[i] = Agg([self.lazy(f["ty"], "%s.%s.%s" % (name, v["name"], f["name"])) for f in v["fields"]], i)
            return SymEnum(d, vs)
        if k in ("slice", "str"):
            raise Unsupported("lazy unsized " + t.s)
        return Opq("lazy:" + t.s[:40] + ":" + name)

    def wrap(self, ti, p):
        """rebuild a single-pointer wrapper type (Box, NonNull, Rc, Unique...) around p"""
        t = self.T[ti]
        if t.k == "adt" and not isinstance(p, Agg):
            fs = t.variants[0]["fields"]
            out = []
            done = False
            for f in fs:
                ft = self.T[f["ty"]]
                if not done and not ft.is_zst() and self.pointee_safe(f["ty"]) is not None or \
                        (not done and ft.k in ("ptr", "ref")):
                    out.append(self.wrap(f["ty"], p))
                    done = True
                elif ft.is_zst():
                    out.append(UNIT)
                else:
                    out.append(Opq("wrapfield"))
            return Agg(out)
        return p

    def pointee_safe(self, ti):
        try:
            return self.pointee(ti)
        except Exception:
            return None

    def unwrap_ptr(self, v):
        seen = 0
        while isinstance(v, Lazy):
            v = self.expand(v)
        if isinstance(v, (Ptr, Opq, FnV)):
            return v
        if isinstance(v, Agg):
            for f in v.f:
                if isinstance(f, Lazy):
                    t = self.T[f.ty]
                    if t.is_zst():
                        continue
                    f = self.expand(f)
                if isinstance(f, (Ptr, FnV)):
                    return f
                if isinstance(f, Agg):
                    r = self.unwrap_ptr(f)
                    if r is not None:
                        return r
            for f in v.f:
                if isinstance(f, Opq):
                    return f
        if isinstance(v, VecV):
            return Ptr(v.cell, (("i", 0),), v.len)
        return None

    # ------------------------------------------------------------------ memory
    def new_cell(self, st, val, tag="h"):
        self.cellc += 1
        c = (tag, self.cellc)
        st.mem[c] = val
        return c

    def cell_val(self, st, cell):
        v = st.mem.get(cell)
        if v is None:
            v = self.lazy_cells.get(cell)
            if v is None:
                if cell[0] == "g":
                    v = self.decode_global(cell)
                    self.lazy_cells[cell] = v
                    return v
                raise Unsupported("read of uninitialised cell %s" % (cell,))
        return v

    def getp(self, st, v, path):
        for n, e in enumerate(path):
            if isinstance(v, Lazy):
                v = self.expand(v)
            k = e[0]
            if k == "f":
                if isinstance(v, Agg):
                    if e[1] < len(v.f):
                        v = v.f[e[1]]
                    else:
                        raise Unsupported("field %d of %r" % (e[1], v))
                elif isinstance(v, SymEnum):
                    if len(v.vs) == 1:
                        v = list(v.vs.values())[0].f[e[1]]
                    else:
                        raise Unsupported("field of symbolic enum")
                elif isinstance(v, Opq):
                    v = v.child(v.tag + "." + str(e[1]))
                elif v is None:
                    raise Unsupported("field of uninit")
                elif isinstance(v, Ptr) or isinstance(v, (int, z3.ExprRef)):
                    # projection through a transparent wrapper
                    pass
                else:
                    raise Unsupported("field %d of %r" % (e[1], v))
            elif k == "d":
                if isinstance(v, SymEnum):
                    v = v.vs[e[1]]
                elif isinstance(v, Agg):
                    if v.v != e[1]:
                        raise PathEnd("infeasible", "downcast")
                elif isinstance(v, Opq):
                    pass
                else:
                    raise Unsupported("downcast of %r" % (v,))
            elif k == "i":
                i = self.resolve_int(st, e[1])
                if isinstance(v, Agg):
                    if not isinstance(i, int):
                        raise NeedConcrete(i, 0, len(v.f) - 1)
                    if not 0 <= i < len(v.f):
                        raise PathEnd("oob")
                    v = v.f[i]
                elif isinstance(v, Bytes):
                    if not isinstance(i, int):
                        raise NeedConcrete(i, 0, v.n - 1)
                    if not 0 <= i < v.n:
                        raise PathEnd("oob")
                    v = self.byte_at(v, i)
                elif isinstance(v, ListV):
                    if not isinstance(i, int):
                        raise NeedConcrete(i, 0, len(v.items) - 1)
                    if i >= len(v.items):
                        raise PathEnd("oob")
                    v = v.items[i]
                elif isinstance(v, Seq):
                    r = None
                    for j, x in v.over:
                        if isinstance(j, int) and isinstance(i, int) and j == i:
                            r = x
                    if r is None:
                        nm = "%s[%s]" % (v.name, i if isinstance(i, int) else i.sexpr().replace("|", ""))
                        r = self.lazy(v.elem, nm)
                    v = r
                elif isinstance(v, Opq):
                    v = v.child(v.tag + "[]")
                elif isinstance(v, (int, z3.ExprRef, Ptr)) and i == 0:
                    pass  # slice::from_ref
                else:
                    raise Unsupported("index of %r" % (v,))
            elif k == "a":
                raise Unsupported("array view read")
            elif k == "pod":
                v = self.pod_read(st, v, e)
            else:
                raise Unsupported("path %r" % (e,))
        return v

    def byte_at(self, b, i):
        if isinstance(b.t, int):
            return b.t.to_bytes(b.n, "little" if b.le else "big")[i]
        sh = i if b.le else b.n - 1 - i
        return fmod(fdiv(b.t, 1 << (8 * sh)), 256)

    def setp(self, st, v, path, nv):
        if not path:
            return nv
        if isinstance(v, Lazy):
            v = self.expand(v)
        e = path[0]
        k = e[0]
        if k == "f":
            if isinstance(v, Agg):
                f = list(v.f)
                while len(f) <= e[1]:
                    f.append(None)
                f[e[1]] = self.setp(st, f[e[1]], path[1:], nv)
                return Agg(f, v.v)
            if v is None:
                f = [None] * (e[1] + 1)
                f[e[1]] = self.setp(st, None, path[1:], nv)
                return Agg(f)
            if isinstance(v, Opq):
                return v
            if isinstance(v, SymEnum) and len(path) >= 1:
                raise Unsupported("write to symbolic enum field")
            raise Unsupported("write field of %r" % (v,))
        if k == "d":
            if isinstance(v, SymEnum):
                a = v.vs[e[1]]
                d = dict(v.vs)
                d[e[1]] = self.setp(st, a, path[1:], nv)
                return SymEnum(v.d, d)
            if v is None:
                v = Agg((), e[1])
            return self.setp(st, v, path[1:], nv)
        if k == "i":
            i = self.resolve_int(st, e[1])
            if isinstance(v, Agg):
                if not isinstance(i, int):
                    raise NeedConcrete(i, 0, len(v.f) - 1)
                f = list(v.f)
                f[i] = self.setp(st, f[i], path[1:], nv)
                return Agg(f, v.v)
            if isinstance(v, ListV):
                if not isinstance(i, int):
                    raise NeedConcrete(i, 0, len(v.items) - 1)
                f = list(v.items)
                while len(f) <= i:
                    f.append(None)
                f[i] = self.setp(st, f[i], path[1:], nv)
                return ListV(f)
            if isinstance(v, Bytes):
                if not isinstance(i, int):
                    raise NeedConcrete(i, 0, v.n - 1)
                bs = [self.byte_at(v, j) for j in range(v.n)]
                bs[i] = nv
                return self.mk_bytes(bs)
            if isinstance(v, Seq):
                if not isinstance(i, int):
                    raise NeedConcrete(i, 0, 64)
                old = self.getp(st, v, (("i", i),))
                new = self.setp(st, old, path[1:], nv)
                return Seq(v.elem, v.name, tuple(x for x in v.over if x[0] != i) + ((i, new),))
            if isinstance(v, Opq):
                return v
            raise Unsupported("write index of %r" % (v,))
        if k == "pod":
            return self.pod_write(st, v, e, path[1:], nv)
        raise Unsupported("setp %r" % (e,))

    def mk_bytes(self, bs):
        n = len(bs)
        if all(isinstance(b, int) for b in bs):
            return Bytes(n, int.from_bytes(bytes(bs), "big"))
        t = 0
        for b in bs:
            t = add(mul(t, 256), b)
        return Bytes(n, t)

    # plain-old-data view: e = ("pod", struct type index, byte offset); underlying value is an
    # array of unsigned integers (little endian machine)
    def pod_fields(self, ti, off=0, acc=None, path=()):
        t = self.T[ti]
        acc = [] if acc is None else acc
        if t.k in ("uint", "int", "bool"):
            acc.append((path, off, t.size, t))
        elif t.k == "array":
            es = self.T[t.elem].size
            for i in range(t.len):
                self.pod_fields(t.elem, off + i * es, acc, path + (("i", i),))
        elif t.k == "adt":
            for i, f in enumerate(t.variants[0]["fields"]):
                self.pod_fields(f["ty"], off + t.offs[i], acc, path + (("f", i),))
        elif t.k == "tuple" and not t.elems:
            pass
        else:
            raise Unsupported("pod view of " + t.s)
        return acc

    def raw_unit(self, v):
        """bytes per element of raw storage"""
        return self._unit

    def pod_read(self, st, v, e):
        ti, off, unit, uname = e[1], e[2], e[3], None
        t = self.T[ti]

        def words(i):
            return self.getp(st, v, (("i", i),))

        def rd(o, n):
            w, r = divmod(o, unit)
            if r + n <= unit:
                x = words(w)
                x = fdiv(x, 1 << (8 * r))
                if r + n < unit:
                    x = fmod(x, 1 << (8 * n))
                return x
            out = 0
            for j in range(n):
                out = add(out, mul(rd(o + j, 1), 1 << (8 * j)))
            return out

        def build(ti, o):
            t = self.T[ti]
            if t.k in ("uint",):
                return rd(o, t.size)
            if t.k == "int":
                return wrap_int(rd(o, t.size), t)
            if t.k == "array":
                es = self.T[t.elem].size
                return Agg([build(t.elem, o + i * es) for i in range(t.len)])
            if t.k == "adt":
                return Agg([build(f["ty"], o + t.offs[i]) for i, f in enumerate(t.variants[0]["fields"])])
            raise Unsupported("pod read " + t.s)
        return build(ti, off)

    def pod_write(self, st, v, e, rest, nv):
        ti, off, unit = e[1], e[2], e[3]
        whole = self.pod_read(st, v, e)
        whole = self.setp(st, whole, rest, nv)
        for path, o, n, t in self.pod_fields(ti, off):
            x = self.getp(st, whole, path)
            if t.k == "int":
                x = fmod(x, 1 << (8 * n))
            w, r = divmod(o, unit)
            if r + n > unit:
                raise Unsupported("pod write across words")
            old = self.getp(st, v, (("i", w),))
            if n == unit:
                new = x
            else:
                lo = fmod(old, 1 << (8 * r)) if r else 0
                hi = mul(fdiv(old, 1 << (8 * (r + n))), 1 << (8 * (r + n))) if r + n < unit else 0
                new = add(add(lo, mul(x, 1 << (8 * r))), hi)
            v = self.setp(st, v, (("i", w),), new)
        return v

    def load(self, st, p):
        p = self.unwrap_ptr(p) if not isinstance(p, Ptr) else p
        if isinstance(p, Opq):
            return p.child("*" + p.tag)
        path = p.path
        if path and path[-1][0] == "a":
            n = path[-1][1]
            base = path[-2]
            items = [self.getp(st, self.cell_val(st, p.cell), path[:-2] + (("i", add(base[1], j)),)) for j in range(n)]
            # keep byte arrays compact
            src = self.getp(st, self.cell_val(st, p.cell), path[:-2])
            if isinstance(src, Lazy):
                src = self.expand(src)
            if isinstance(src, Bytes) and src.n == n and base[1] == 0:
                return src
            if all(isinstance(x, int) and not isinstance(x, bool) for x in items) or isinstance(src, Bytes):
                return self.mk_bytes(items)
            return Agg(items)
        v = self.getp(st, self.cell_val(st, p.cell), path)
        return v

    def store(self, st, p, nv):
        p = self.unwrap_ptr(p) if not isinstance(p, Ptr) else p
        if isinstance(p, Opq):
            return
        path = p.path
        if path and path[-1][0] == "a":
            n = path[-1][1]
            for j in range(n):
                x = self.getp(st, nv, (("i", j),))
                q = path[:-2] + (("i", add(path[-2][1], j)),)
                st.mem[p.cell] = self.setp(st, self.cell_val(st, p.cell), q, x)
            return
        if not path:
            st.mem[p.cell] = nv
            return
        st.mem[p.cell] = self.setp(st, st.mem.get(p.cell) if p.cell in st.mem else self.lazy_cells.get(p.cell), path, nv)

    # ------------------------------------------------------------------ places
    def resolve_int(self, st, v):
        if isinstance(v, int):
            return v
        if not isinstance(v, z3.ExprRef):
            raise Unsupported("integer expected, got %r" % (v,))
        k = st.known.get(v.get_id())
        return v if k is None else k

    def known_bool(self, st, v):
        if isinstance(v, bool):
            return v
        return st.known.get(v.get_id(), v)

    def push_idx(self, path, i):
        if path and path[-1][0] == "a":
            return path[:-2] + (("i", add(path[-2][1], i)),)
        return path + (("i", i),)

    def place(self, st, fr, pl):
        """-> Ptr designating the place"""
        cell = (fr.fid, pl[0])
        path = ()
        meta = None
        ti = fr.body.locals[pl[0]]
        for pr in pl[1]:
            k = pr[0]
            if k == "*":
                v = self.getp(st, self.cell_val(st, cell), path) if not (path and path[-1][0] == "a") else self.load(st, Ptr(cell, path))
                p = self.unwrap_ptr(v)
                if p is None:
                    raise Unsupported("deref of %r" % (v,))
                if isinstance(p, Opq):
                    nc = self.new_cell(st, p.child("*" + p.tag))
                    p = Ptr(nc)
                cell, path, meta = p.cell, p.path, p.meta
                ti = self.pointee_safe(ti)
            elif k == "f":
                path = path + (("f", pr[1]),)
                meta = meta if meta is not None and isinstance(meta, tuple) else None
                ti = pr[2]
            elif k == "d":
                path = path + (("d", pr[1]),)
            elif k in ("x", "ci"):
                if k == "x":
                    i = self.cell_val(st, (fr.fid, pr[1]))
                    i = self.resolve_int(st, i)
                else:
                    if pr[3]:
                        if meta is not None:
                            n = meta
                        else:
                            n = self.T[ti].len
                        i = sub(n, pr[1])
                    else:
                        i = pr[1]
                if ti is not None and self.T[ti].k in ("slice", "str"):
                    path = path[:-1] + (("i", add(path[-1][1], i)),)
                else:
                    path = self.push_idx(path, i)
                meta = None
                ti = self.T[ti].elem if ti is not None else None
            elif k == "ss":
                if meta is None:
                    n = self.T[ti].len
                    if not (path and path[-1][0] == "i" and False):
                        path = path + (("i", 0),) if not (path and path[-1][0] == "a") else path[:-1]
                else:
                    n = meta
                lo = pr[1]
                hi = sub(n, pr[2]) if pr[3] else pr[2]
                path = path[:-1] + (("i", add(path[-1][1], lo)),)
                meta = sub(hi, lo)
            else:
                raise Unsupported("proj %r" % (pr,))
        return Ptr(cell, path, meta)

    def read_place(self, st, fr, pl):
        if not pl[1]:
            v = st.mem.get((fr.fid, pl[0]))
            if v is None:
                t = self.T[fr.body.locals[pl[0]]]
                if t.is_zst():
                    return UNIT
                raise Unsupported("uninit local _%d in %s" % (pl[0], fr.inst.name))
            return v
        return self.load(st, self.place(st, fr, pl))

    def write_place(self, st, fr, pl, v):
        if not pl[1]:
            st.mem[(fr.fid, pl[0])] = v
            return
        self.store(st, self.place(st, fr, pl), v)

    # ------------------------------------------------------------------ constants
    def decode_global(self, cell):
        _, aid, ti = cell
        a = self.P.allocs.get(aid)
        if a is None:
            return Opq("alloc")
        if "static" in a and "mem" not in a:
            return Opq("static")
        m = a.get("mem")
        if m is None:
            return Opq("galloc")
        if ti is None:
            return Bytes(len(m["bytes"]), int.from_bytes(bytes(b or 0 for b in m["bytes"]), "big"))
        t = self.T[ti]
        if t.k in ("slice", "str"):
            et = self.P.by_s["u8"] if t.k == "str" else t.elem
            es = self.T[et].size
            bs = m["bytes"]
            if self.T[et].k == "uint" and self.T[et].bits == 8:
                return Bytes(len(bs), int.from_bytes(bytes(b or 0 for b in bs), "big"))
            n = len(bs) // es if es else 0
            return ListV([self.decode(m, et, i * es) for i in range(n)])
        return self.decode(m, ti, 0)

    def decode(self, m, ti, off):
        t = self.T[ti]
        k = t.k
        bs = m["bytes"]
        if k == "bool":
            return bool(bs[off])
        if k in ("uint", "int"):
            raw = bs[off:off + t.size]
            if any(x is None for x in raw):
                return Opq("uninit")
            return int.from_bytes(bytes(raw), "little", signed=(k == "int"))
        if k == "pat":
            return self.decode(m, t.elem, off)
        if k in ("ref", "ptr"):
            pt = self.T[t.elem]
            for o, aid in m["provenance"]["ptrs"]:
                if o == off:
                    return self.global_ptr(aid, t.elem, m, off)
            if pt.k in ("slice", "str"):
                n = int.from_bytes(bytes(bs[off + 8:off + 16]), "little")
                return Ptr(("dangling",), (("i", 0),), n)
            return Opq("nullptr")
        if k == "tuple":
            return Agg([self.decode(m, e, off + (t.offs[i] if t.offs else 0)) for i, e in enumerate(t.elems)])
        if k == "array":
            et = self.T[t.elem]
            if et.k == "uint" and et.bits == 8:
                raw = bs[off:off + t.len]
                if any(x is None for x in raw):
                    return Opq("uninit")
                return Bytes(t.len, int.from_bytes(bytes(raw), "big"))
            return Agg([self.decode(m, t.elem, off + i * et.size) for i in range(t.len)])
        if k == "fnptr":
            for o, aid in m["provenance"]["ptrs"]:
                if o == off:
                    a = self.P.allocs.get(aid) or {}
                    if "fn" in a:
                        return FnV(a["fn"])
            return Opq("fnptr")
        if k in ("fndef", "never"):
            return UNIT
        if k == "closure":
            return Agg([self.decode(m, f["ty"], off + (t.offs[i] if t.offs else 0)) for i, f in enumerate(self.P.fields(ti))])
        if k == "adt":
            if t.name.endswith("::vec::Vec"):
                # only empty vectors can be constants
                return VecV(("emptyvec",), 0)
            if t.name.endswith("string::String"):
                return Agg((VecV(("emptyvec",), 0),))
            if len(t.variants) == 1:
                return Agg([self.decode(m, f["ty"], off + (t.offs[i] if t.offs else 0)) for i, f in enumerate(t.variants[0]["fields"])])
            if not t.variants:
                return Opq("never")
            tg = t.tag
            if "single" in tg:
                vi = tg["single"]
                return Agg([self.decode(m, f["ty"], off) for f in t.variants[vi]["fields"]], vi)
            tagoff = off + t.offs[tg["field"]]
            tsz = self.tag_size(tg)
            raw = bs[tagoff:tagoff + tsz]
            isptr = any(o == tagoff for o, _ in m["provenance"]["ptrs"])
            if any(x is None for x in raw):
                return Opq("uninit")
            val = int.from_bytes(bytes(raw), "little")
            enc = tg["enc"]
            if enc == "Direct" or (isinstance(enc, dict) and "Direct" in enc):
                vi = None
                for i, v in enumerate(t.variants):
                    if int(v["discr"]) % (1 << (8 * tsz)) == val:
                        vi = i
                if vi is None:
                    raise Unsupported("decode enum")
            else:
                n = enc["Niche"]
                un = n["untagged_variant"]
                nv = n["niche_variants"]
                lo = nv["start"] if isinstance(nv, dict) else nv[0]
                hi = nv["end"] if isinstance(nv, dict) else nv[1]
                ns = n["niche_start"]
                rel = (val - ns) % (1 << (8 * tsz))
                if not isptr and rel <= hi - lo:
                    vi = lo + rel
                else:
                    vi = un
            offs = tg["offs"][vi]
            return Agg([self.decode(m, f["ty"], off + offs[i]) for i, f in enumerate(t.variants[vi]["fields"])], vi)
        if k == "float":
            return Opq("float")
        return Opq("const:" + k)

    def tag_size(self, tg):
        tag = tg["tag"]
        s = str(tag)
        import re
        mm = re.search(r"'length': '(I\d+)'", s)
        if mm:
            return int(mm.group(1)[1:]) // 8
        if "Pointer" in s:
            return 8
        raise Unsupported("tag " + s[:80])

    def global_ptr(self, aid, pointee, m, off):
        pt = self.T[pointee]
        a = self.P.allocs.get(aid)
        bs = m["bytes"]
        if a is None:
            return Opq("alloc")
        if "fn" in a:
            return FnV(a["fn"])
        inner = int.from_bytes(bytes(b or 0 for b in bs[off:off + 8]), "little")
        if pt.k in ("slice", "str"):
            n = int.from_bytes(bytes(bs[off + 8:off + 16]), "little")
            if inner:
                es = 1 if pt.k == "str" else self.T[pt.elem].size
                return Ptr(("g", aid, pointee), (("i", inner // es),), n)
            return Ptr(("g", aid, pointee), (("i", 0),), n)
        if pt.k == "dyn":
            return Opq("dynconst")
        if inner:
            # pointer into the middle of a constant: decode a fresh cell
            mm = a.get("mem")
            if mm:
                c = ("gi", aid, pointee, inner)
                self.lazy_cells[c] = self.decode(mm, pointee, inner)
                return Ptr(c)
        return Ptr(("g", aid, pointee))

    def const(self, kind, ti):
        t = self.T[ti]
        if kind == "ZeroSized":
            if t.k == "fndef":
                return FnV(t.d.get("inst"))
            return UNIT if t.k != "closure" else Agg(())
        if isinstance(kind, dict) and "Allocated" in kind:
            key = id(kind)
            r = self.const_cache.get(key)
            if r is None:
                r = self.decode(kind["Allocated"], ti, 0)
                self.const_cache[key] = r
            return r
        if isinstance(kind, dict) and "Ty" in kind:
            raise Unsupported("ty const %s" % str(kind)[:100])
        return Opq("const")

    def operand(self, st, fr, op):
        if op[0] == "p":
            return self.read_place(st, fr, op[1])
        if op[0] == "c":
            return self.const(op[1], op[2])
        return op[1]

    def force(self, v):
        while isinstance(v, Lazy):
            v = self.expand(v)
        return v

    # ------------------------------------------------------------------ rvalues
    def scalar_of(self, v):
        v = self.force(v)
        while isinstance(v, Agg) and len([x for x in v.f if x is not UNIT]) == 1:
            v = self.force([x for x in v.f if x is not UNIT][0])
        return v

    def binop(self, st, op, a, b, ta, precise=True):
        a = self.scalar_of(a)
        b = self.scalar_of(b)
        t = self.T[ta]
        if isinstance(a, (Ptr, Opq, FnV)) or isinstance(b, (Ptr, Opq, FnV)):
            return self.ptr_binop(st, op, a, b)
        if isinstance(a, SymEnum) or isinstance(a, Agg):
            raise Unsupported("binop %s on %r" % (op, a))
        if op == "Eq":
            return eq(a, b)
        if op == "Ne":
            return lnot(eq(a, b))
        if t.k == "bool":
            if op == "BitAnd":
                return land(a, b)
            if op == "BitOr":
                return lor(a, b)
            if op == "BitXor":
                return lnot(eq(a, b))
            a = ite(a, 1, 0)
            b = ite(b, 1, 0)
        if op == "Lt":
            return lt(a, b)
        if op == "Le":
            return le(a, b)
        if op == "Gt":
            return lt(b, a)
        if op == "Ge":
            return le(b, a)
        if op == "Cmp":
            return SymEnum(ite(lt(a, b), 0, ite(eq(a, b), 1, 2)), {0: Agg((), 0), 1: Agg((), 1), 2: Agg((), 2)})
        if op in ("AddUnchecked",):
            return add(a, b)
        if op == "SubUnchecked":
            return sub(a, b)
        if op == "MulUnchecked":
            return mul(a, b)
        if op == "Add":
            r = add(a, b)
            return wrap_int(r, t) if precise else r
        if op == "Sub":
            r = sub(a, b)
            return wrap_int(r, t) if precise else r
        if op == "Mul":
            r = mul(a, b)
            return wrap_int(r, t) if precise else r
        if op in ("Div", "Rem"):
            if t.k == "int":
                if isinstance(a, int) and isinstance(b, int):
                    q = abs(a) // abs(b) * (1 if (a >= 0) == (b >= 0) else -1)
                    return q if op == "Div" else a - q * b
                if isinstance(b, int) and b > 0:
                    q = ite(le(0, a), fdiv(a, b), sub(0, fdiv(sub(0, a), b)))
                    return q if op == "Div" else sub(a, mul(q, b))
                q = tdiv(a, b)
                return q if op == "Div" else sub(a, mul(q, b))
            return fdiv(a, b) if op == "Div" else fmod(a, b)
        if op in ("Shl", "ShlUnchecked"):
            b = self.resolve_int(st, b)
            if isinstance(b, int):
                r = mul(a, 1 << (b % t.bits))
                return wrap_int(r, t)
            raise NeedConcrete(b, 0, t.bits - 1)
        if op in ("Shr", "ShrUnchecked"):
            b = self.resolve_int(st, b)
            if isinstance(b, int):
                return fdiv(a, 1 << (b % t.bits))
            raise NeedConcrete(b, 0, t.bits - 1)
        if op in ("BitAnd", "BitOr", "BitXor"):
            if isinstance(a, int) and isinstance(b, int):
                return {"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b}[op]
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                if op == "BitAnd":
                    if b == 0:
                        return 0
                    if (b & (b + 1)) == 0:
                        return fmod(a, b + 1)
                if op in ("BitOr", "BitXor") and b == 0:
                    return a
            if op == "BitOr" and t.k == "uint":
                # disjoint or of byte pieces
                pass
            lo, hi = int_range(t)
            f = z3.Function("bit_%s_%d" % (op, t.bits), z3.IntSort(), z3.IntSort(), z3.IntSort())
            r = f(conv(a), conv(b))
            n = fresh_int("bitop", lo, hi)
            st.pc = st.pc + (n == r,)
            return n
        raise Unsupported("binop " + op)

    def ptr_binop(self, st, op, a, b):
        if op == "Offset":
            if isinstance(a, Ptr):
                p = a.path
                if p and p[-1][0] == "i":
                    return Ptr(a.cell, p[:-1] + (("i", add(p[-1][1], self.scalar_of(b))),), None)
                if isinstance(b, int) and b == 0:
                    return a
                if a.cell == ("dangling",):
                    return a
                # pointer to a single object treated as a one-element slice
                return Ptr(a.cell, p + (("one", b),), None)
            return a
        if op in ("Eq", "Ne"):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.cell != b.cell:
                    r = False
                else:
                    pa, pb = a.path, b.path
                    if pa == pb:
                        r = True
                    elif len(pa) == len(pb) and pa[:-1] == pb[:-1] and pa[-1][0] == "i" and pb[-1][0] == "i":
                        r = eq(self.resolve_int(st, pa[-1][1]), self.resolve_int(st, pb[-1][1]))
                    else:
                        r = False
                return r if op == "Eq" else lnot(r)
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                return op == "Ne"  # null comparisons
            b_ = fresh_bool("opqcmp")
            return b_
        if op in ("Lt", "Le", "Gt", "Ge") and isinstance(a, Ptr) and isinstance(b, Ptr) and a.cell == b.cell:
            x, y = a.path[-1][1], b.path[-1][1]
            return {"Lt": lt(x, y), "Le": le(x, y), "Gt": lt(y, x), "Ge": le(y, x)}[op]
        if isinstance(a, Opq) or isinstance(b, Opq):
            if op in ("Lt", "Le", "Gt", "Ge"):
                return fresh_bool("opqcmp")
            return Opq("binop")
        raise Unsupported("ptr op %s %r %r" % (op, a, b))

    def overflow(self, op, a, b, t):
        lo, hi = int_range(t)
        r = {"Add": add, "Sub": sub, "Mul": mul}[op](a, b)
        if t.k == "uint":
            return r, (lt(r, lo) if op == "Sub" else lt(hi, r))
        return r, lor(lt(r, lo), lt(hi, r))

    def transmute(self, st, v, src, dst):
        v = self.force(v) if not isinstance(v, Lazy) else v
        ts, td = self.T[src], self.T[dst]
        if src == dst:
            return v
        if isinstance(v, Lazy):
            v = self.force(v)
        if td.k == "pat":
            return self.transmute(st, v, src, td.elem)
        if isinstance(v, Opq):
            return v
        if td.k in ("ptr", "ref", "fnptr"):
            p = self.unwrap_ptr(v)
            if p is not None:
                return p
            if isinstance(v, int):
                return Ptr(("dangling",), (("i", 0),), None)
            return Opq("intptr")
        if isinstance(v, (Ptr, FnV)):
            if td.k == "adt" and len(td.variants) == 1:
                return self.wrap(dst, v)
            if td.k in ("uint", "int"):
                return Opq("addr")
            if td.k == "adt" and len(td.variants) == 2:
                # Option<NonNull>
                for vi, vv in enumerate(td.variants):
                    if vv["fields"]:
                        return Agg([self.wrap(vv["fields"][0]["ty"], v)], vi)
        if td.k in ("uint", "int"):
            if isinstance(v, Bytes):
                return wrap_int(self.bytes_le(v), td)
            s = self.scalar_of(v)
            if isinstance(s, bool) or (isinstance(s, z3.BoolRef)):
                return ite(s, 1, 0)
            if isinstance(s, (int, z3.ArithRef)):
                return wrap_int(s, td) if ts.k in ("int", "uint") and ts.k != td.k else s
            if isinstance(v, Agg) and all(isinstance(x, (int, z3.ArithRef)) for x in v.f) and len(v.f) == td.size:
                return self.bytes_le(self.mk_bytes(list(v.f)))
            if isinstance(v, Agg) and not v.f:
                # fieldless enum
                return int(ts.variants[v.v]["discr"]) if ts.k == "adt" else 0
            if isinstance(v, SymEnum):
                return self.discr_of(v, src)
        if td.k == "bool":
            s = self.scalar_of(v)
            if isinstance(s, (int, z3.ArithRef)):
                return eq(s, 1)
            return s
        if td.k == "array" and self.T[td.elem].size == 1:
            if isinstance(v, Bytes):
                return v
            s = self.scalar_of(v)
            if isinstance(s, (int, z3.ArithRef)):
                return Bytes(td.len, fmod(s, 1 << (8 * td.len)) if ts.k == "int" else s, True)
            if isinstance(s, Bytes):
                return s
            return v
        if td.k == "array" and ts.k == "array":
            return v
        if td.k == "adt":
            if ts.k == "adt" and isinstance(v, Agg):
                sv = self.unwrap_ptr(v)
                if isinstance(sv, Ptr) and self.pointee_safe(dst) is not None:
                    return self.wrap(dst, sv)
                nz = [x for x in v.f if x is not UNIT]
                if len(td.variants) == 1:
                    fs = td.variants[0]["fields"]
                    nzf = [f for f in fs if not self.T[f["ty"]].is_zst()]
                    nzs = [f for f in ts.variants[0]["fields"] if not self.T[f["ty"]].is_zst()] if len(ts.variants) == 1 else []
                    if len(nzf) == 1 and self.T[nzf[0]["ty"]].size == ts.size:
                        if len(nzs) == 1:
                            i = [n for n, f in enumerate(ts.variants[0]["fields"]) if f is nzs[0]][0]
                            inner = self.transmute(st, v.f[i], nzs[0]["ty"], nzf[0]["ty"])
                        else:
                            inner = self.transmute(st, v, src, nzf[0]["ty"])
                        return Agg([inner if f is nzf[0] else UNIT for f in fs])
                return v
            if len(td.variants) == 1:
                fs = td.variants[0]["fields"]
                nzf = [f for f in fs if not self.T[f["ty"]].is_zst()]
                if len(nzf) == 1:
                    inner = self.transmute(st, v, src, nzf[0]["ty"])
                    return Agg([inner if f is nzf[0] else UNIT for f in fs])
            elif all(not vv["fields"] for vv in td.variants):
                s = self.scalar_of(v)
                if isinstance(s, int):
                    for i, vv in enumerate(td.variants):
                        if int(vv["discr"]) == s:
                            return Agg((), i)
                    raise PathEnd("infeasible")
                d = None
                for i, vv in reversed(list(enumerate(td.variants))):
                    d = i if d is None else ite(eq(s, int(vv["discr"])), i, d)
                return SymEnum(d, {i: Agg((), i) for i in range(len(td.variants))})
            return v
        return v

    def bytes_le(self, b):
        """little endian number of a Bytes"""
        if b.le:
            return b.t
        if isinstance(b.t, int):
            return int.from_bytes(b.t.to_bytes(b.n, "big"), "little")
        if b.n == 1:
            return b.t
        # byte reversal as an uninterpreted bijection
        f = z3.Function("rev%d" % b.n, z3.IntSort(), z3.IntSort())
        nm = "rev%d(%s)" % (b.n, b.t.sexpr().replace("|", ""))
        v = mkint(nm, 0, (1 << (8 * b.n)) - 1)
        return v

    def bytes_be(self, b):
        if not b.le:
            return b.t
        if isinstance(b.t, int):
            return int.from_bytes(b.t.to_bytes(b.n, "little"), "big")
        if b.n == 1:
            return b.t
        nm = "rev%d(%s)" % (b.n, b.t.sexpr().replace("|", ""))
        return mkint(nm, 0, (1 << (8 * b.n)) - 1)

    def discr_of(self, v, ti):
        v = self.force(v)
        t = self.T[ti]
        if t.k != "adt":
            return 0
        if isinstance(v, Agg):
            return int(t.variants[v.v]["discr"])
        if isinstance(v, SymEnum):
            ds = [int(x["discr"]) for x in t.variants]
            if ds == list(range(len(ds))):
                return v.d
            r = None
            for i in reversed(sorted(v.vs)):
                r = ds[i] if r is None else ite(eq(v.d, i), ds[i], r)
            return r
        if isinstance(v, Opq):
            key = ("discr", v.tag)
            nm = fresh_name("opqdiscr")
            d = mkint(nm, 0, max(0, len(t.variants) - 1))
            ds = [int(x["discr"]) for x in t.variants]
            r = None
            for i in reversed(range(len(ds))):
                r = ds[i] if r is None else ite(eq(d, i), ds[i], r)
            return r
        raise Unsupported("discriminant of %r" % (v,))

    def rvalue(self, st, fr, rv, dst):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k == "ref":
            pl = rv[1]
            p = self.place(st, fr, pl)
            if pl[1] and p.meta is None and pl[1][-1][0] == "f" and False:
                pass
            return p
        if k == "bin":
            a = self.operand(st, fr, rv[2])
            b = self.operand(st, fr, rv[3])
            return self.binop(st, rv[1], a, b, self.op_ty(fr.body, rv[2]))
        if k == "cbin":
            a = self.scalar_of(self.operand(st, fr, rv[2]))
            b = self.scalar_of(self.operand(st, fr, rv[3]))
            t = self.T[self.op_ty(fr.body, rv[2])]
            if isinstance(a, Opq) or isinstance(b, Opq):
                return Agg((Opq("arith"), False))
            r, o = self.overflow(rv[1], a, b, t)
            term = fr.body.blocks[fr.bb][1]
            if not (term[0] == "assert" and term[4] == "Overflow"):
                r = ite(o, wrap_int(r, t), r) if not isinstance(o, bool) else (wrap_int(r, t) if o else r)
            return Agg((r, o))
        if k == "un":
            v = self.operand(st, fr, rv[2])
            if rv[1] == "PtrMetadata":
                p = self.unwrap_ptr(v)
                if isinstance(p, Ptr):
                    return UNIT if p.meta is None else p.meta
                return fresh_int("opqlen", 0, 1 << 32)
            v = self.scalar_of(v)
            t = self.T[self.op_ty(fr.body, rv[2])]
            if rv[1] == "Not":
                if t.k == "bool":
                    return lnot(v)
                lo, hi = int_range(t)
                return sub(hi, v) if t.k == "uint" else sub(sub(0, v), 1)
            if rv[1] == "Neg":
                return wrap_int(sub(0, v), t)
        if k == "cast":
            return self.cast(st, fr, rv)
        if k == "discr":
            v = self.read_place(st, fr, rv[1])
            ti = self.place_ty(fr.body, rv[1])
            return self.discr_of(v, ti)
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in rv[3]]
            if rv[1] == "adt":
                var, act = rv[2]
                ti = self.place_ty(fr.body, dst)
                if act is not None:
                    return ops[0] if False else Agg([ops[0] if i == act else None for i in range(len(self.T[ti].variants[0]["fields"]))])
                t = self.T[ti]
                return Agg(ops, var)
            if rv[1] == "array":
                ti = self.place_ty(fr.body, dst)
                et = self.T[self.T[ti].elem]
                if et.k == "uint" and et.bits == 8:
                    ops = [self.scalar_of(o) for o in ops]
                    if ops and all(isinstance(o, (int, z3.ArithRef)) for o in ops):
                        return self.mk_bytes(ops)
                return Agg(ops)
            if rv[1] == "rawptr":
                p = self.unwrap_ptr(ops[0])
                meta = ops[1]
                if isinstance(p, Ptr):
                    m = None if isinstance(meta, Agg) and not meta.f else self.scalar_of(meta)
                    if m is not None and (not p.path or p.path[-1][0] != "i"):
                        # slice made from a pointer to a single object
                        if p.cell == ("dangling",):
                            return Ptr(p.cell, (("i", 0),), m)
                        return Ptr(p.cell, p.path + (("i", 0),), m)
                    return Ptr(p.cell, p.path, m)
                return Opq("rawptr")
            return Agg(ops)
        if k == "len":
            p = self.place(st, fr, rv[1])
            if p.meta is not None:
                return p.meta
            return self.T[self.place_ty(fr.body, rv[1])].len
        if k == "repeat":
            v = self.operand(st, fr, rv[1])
            ti = self.place_ty(fr.body, dst)
            n = self.T[ti].len
            et = self.T[self.T[ti].elem]
            if et.k == "uint" and et.bits == 8 and isinstance(v, int):
                return Bytes(n, int.from_bytes(bytes([v] * n), "big"))
            if n > 5000:
                return Opq("bigarray")
            return Agg([v] * n)
        raise Unsupported("rvalue " + k)

    def in_pc(self, st, c):
        if isinstance(c, bool):
            return c
        k = c.get_id()
        return any(l.get_id() == k for l in st.pc)

    def cast(self, st, fr, rv):
        _, ck, op, dst = rv
        v = self.operand(st, fr, op)
        src = self.op_ty(fr.body, op)
        ts, td = self.T[src], self.T[dst]
        if ck == "IntToInt":
            v = self.force(v)
            if isinstance(v, (Agg, SymEnum)):
                v = self.discr_of(v, src)
                ts = None
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, z3.BoolRef):
                return ite(v, 1, 0)
            if isinstance(v, Opq):
                return v
            if td.k == "bool":
                return v
            if ts is not None and ts.k in ("int", "uint"):
                slo, shi = int_range(ts)
                dlo, dhi = int_range(td)
                if slo >= dlo and shi <= dhi:
                    return v
            if isinstance(v, int):
                return wrap_int(v, td)
            if ts is not None and ts.k == "int" and td.k == "uint" and ts.bits <= td.bits:
                if not self.feasible(st, lt(v, 0)):
                    return v
                return ite(le(0, v), v, add(v, 1 << td.bits))
            dlo, dhi = int_range(td)
            typed = ts is not None and ts.k in ("int", "uint")
            if ((typed and int_range(ts)[1] <= dhi) or self.in_pc(st, le(v, dhi))) and ((typed and int_range(ts)[0] >= dlo) or self.in_pc(st, le(dlo, v))):
                return v
            if not self.feasible(st, lor(lt(v, dlo), lt(dhi, v))):
                return v
            return wrap_int(v, td)
        if ck == "Transmute":
            return self.transmute(st, v, src, dst)
        if ck in ("PtrToPtr", "FnPtrToPtr"):
            p = self.unwrap_ptr(v)
            if isinstance(p, Ptr):
                se, de = self.pointee_safe(src), self.pointee_safe(dst)
                te = self.T[de] if de is not None else None
                if te is not None and te.k in ("slice", "str", "dyn"):
                    return p
                if te is not None and te.k == "array" and se is not None:
                    sp = self.T[se]
                    if (sp.i == te.elem or (sp.k == "slice" and sp.elem != de)) and p.path and p.path[-1][0] == "i":
                        return Ptr(p.cell, p.path + (("a", te.len),), None)
                if se is not None and te is not None and self.T[se].k == "array" and self.T[se].elem == de:
                    if p.path and p.path[-1][0] == "a":
                        return Ptr(p.cell, p.path[:-1], None)
                    return Ptr(p.cell, p.path + (("i", 0),), None)
                return Ptr(p.cell, p.path, None)
            return p if p is not None else Opq("ptr")
        if ck == "BoxDerefTransmute":
            p = self.unwrap_ptr(v)
            return p if p is not None else Opq("boxptr")
        if ck == "PointerCoercion:Unsize":
            return self.unsize(st, v, src, dst)
        if ck in ("PointerCoercion:ReifyFnPointer", "PointerCoercion:MutToConstPointer", "PointerCoercion:UnsafeFnPointer"):
            if ck.endswith("MutToConstPointer"):
                return v
            return v if isinstance(v, FnV) else FnV(ts.d.get("inst"))
        if ck.startswith("PointerCoercion:ClosureFnPointer"):
            return FnV(ts.d.get("inst_once"))
        if ck.startswith("PointerCoercion"):
            return v
        if ck in ("PointerExposeAddress",):
            return Opq("addr")
        return Opq("cast:" + ck)

    def unsize(self, st, v, src, dst):
        se, de = self.pointee_safe(src), self.pointee_safe(dst)
        p = self.unwrap_ptr(v)
        if not isinstance(p, Ptr):
            return v
        ts, td = self.T[se], self.T[de]
        if ts.k == "array" and td.k == "slice":
            if p.path and p.path[-1][0] == "a":
                np_ = Ptr(p.cell, p.path[:-1], ts.len)
            else:
                np_ = Ptr(p.cell, p.path + (("i", 0),), ts.len)
        elif ts.k == "dyn":
            np_ = p
        elif td.k == "dyn":
            np_ = Ptr(p.cell, p.path, ("vt", se, de))
        else:
            # e.g. Rc<RefCell<[T;N]>> -> Rc<RefCell<[T]>>
            np_ = p
        tdst = self.T[dst]
        if tdst.k in ("ref", "ptr"):
            return np_
        return self.wrap(dst, np_)

    # ------------------------------------------------------------------ driver
    def start(self, inst, args, pc=(), mem=None, gh=None):
        st = State()
        st.mem = dict(mem or {})
        st.frames = []
        st.pc = tuple(pc)
        st.eff = ()
        st.known = {}
        st.gh = dict(gh or {})
        st.steps = 0
        st.visits = {}
        self.push_frame(st, inst, args, None, None)
        return st

    def push_frame(self, st, inst, args, dest, target, hook=None):
        body = inst.body
        self.fidc += 1
        fr = Frame(inst, body, self.fidc, dest, target, hook)
        if body.spread is not None and len(args) > 0:
            pass
        if len(args) != body.argc:
            # closure call conventions: untuple the last argument
            last = self.force(args[-1]) if args else UNIT
            if isinstance(last, Agg) and len(args) - 1 + len(last.f) == body.argc:
                args = list(args[:-1]) + list(last.f)
            elif len(args) > body.argc and body.argc == len(args) - 1:
                args = list(args[1:])
            else:
                raise Unsupported("argument count of %s" % inst.name)
        for i, a in enumerate(args):
            st.mem[(fr.fid, i + 1)] = a
        st.frames.append(fr)
        if len(st.frames) > 400:
            raise Unsupported("recursion depth in " + inst.name)
        self.inlined.add(inst.key)

    def feasible(self, st, c):
        if isinstance(c, bool):
            return c
        return self.feas.check(st.pc, c)

    def run(self, st0, on_result):
        work = [st0]
        while work:
            st = work.pop()
            try:
                kids = self.run_path(st, on_result)
            except PathEnd as e:
                if e.kind != "infeasible":
                    on_result(Result(e.kind, e.st or st, info=e.info))
                continue
            if kids:
                work.extend(reversed(kids))

    def fork_on(self, st, alts):
        """alts: list of (cond, fn(state)) -> children"""
        kids = []
        live = [(c, f) for c, f in alts if c is not False]
        if len(live) == 1:
            c, f = live[0]
            if c is not True:
                if not self.feasible(st, c):
                    return []
                st.pc = st.pc + (c,)
            f(st)
            return [st]
        feas = [(c, f) for c, f in live if self.feasible(st, c)]
        for n, (c, f) in enumerate(feas):
            s = st if n == len(feas) - 1 else st.copy()
            if c is not True:
                s.pc = s.pc + (c,)
                if len(feas) == 1 and False:
                    pass
            kids.append((s, f))
        out = []
        for s, f in kids:
            try:
                f(s)
                out.append(s)
            except PathEnd as e:
                if e.kind != "infeasible" and self._onres:
                    self._onres(Result(e.kind, s, info=e.info))
        return out

    def run_path(self, st, on_result):
        self._onres = on_result
        while True:
            fr = st.frames[-1]
            if self.cut and fr.si == 0 and (fr.inst.key, fr.bb) in self.cut and not any(
                    c[0] == fr.fid and c[1] == fr.bb for c in self.cut_stop) and ("cut", fr.fid, fr.bb) not in st.gh:
                st.gh = dict(st.gh)
                kids = self.cut_loop(st, fr, fr.bb)
                if len(kids) == 1:
                    st = kids[0]
                    continue
                return kids
            sts, term = fr.body.blocks[fr.bb]
            try:
                n = len(sts)
                while fr.si < n:
                    s = sts[fr.si]
                    self.steps += 1
                    if s[0] == "=":
                        v = self.rvalue(st, fr, s[2], s[1])
                        self.write_place(st, fr, s[1], v)
                    elif s[0] == "setd":
                        p = self.place(st, fr, s[1])
                        try:
                            old = self.force(self.load(st, p))
                        except Unsupported:
                            old = None
                        f = old.f if isinstance(old, Agg) else ()
                        self.store(st, p, Agg(f, s[2]))
                    elif s[0] == "intr":
                        self.intr_stmt(st, fr, s[1])
                    fr.si += 1
                if self.steps > self.max_steps:
                    raise Unsupported("step budget exhausted")
                kids = self.terminator(st, fr, term)
            except NeedConcrete as nc:
                alts = []
                for i in range(nc.lo, nc.hi + 1):
                    def setk(s, i=i):
                        s.known[nc.term.get_id()] = i
                        self.feas.keep.append(nc.term)
                    alts.append((eq(nc.term, i), setk))
                kids = self.fork_on(st, alts)
            except NeedCond as nc:
                def setb(b):
                    def f(s):
                        s.known[nc.term.get_id()] = b
                        self.feas.keep.append(nc.term)
                    return f
                kids = self.fork_on(st, [(nc.term, setb(True)), (lnot(nc.term), setb(False))])
            except PathEnd as e:
                if e.st is None:
                    e.st = st
                raise
            except Unsupported as e:
                if not getattr(e, "where", None):
                    e.where = [(f.inst.name, f.bb, (f.inst.lines or [None])[min(f.bb, len(f.inst.lines or [None]) - 1)]) for f in st.frames[-6:]]
                raise
            if kids is None:
                continue
            if len(kids) == 1:
                st = kids[0]
                continue
            return kids

    def goto(self, st, fr, bb):
        for fid, head, blocks in self.cut_stop:
            if fr.fid == fid:
                if bb == head:
                    raise PathEnd("loopback")
                if bb not in blocks:
                    fr.bb = bb
                    fr.si = 0
                    raise PathEnd("loopexit", (fid, head))
        if bb <= fr.bb:
            key = (fr.fid, bb)
            v = dict(st.visits)
            v[key] = v.get(key, 0) + 1
            st.visits = v
            if v[key] > self.max_visits:
                lk = (fr.inst.key, bb)
                if self.auto_cut and lk not in self.cut and lk not in self.nocut:
                    self.cut.add(lk)
                    raise Restart()
                raise PathEnd("loopbound", (fr.inst.name, bb))
        fr.bb = bb
        fr.si = 0

    # ------------------------------------------------ loops over sequences of unknown length
    # The loop is cut at its head: everything one iteration may modify is replaced by a fresh
    # symbol, one iteration is executed from that arbitrary state (checking that it modifies
    # nothing else), and execution continues from the loop exits.  What the iteration does is
    # recorded in self.loops so that specifications can refer to it (fold / for-all facts).
    def liveness(self, body):
        r = self.live_cache.get(id(body))
        if r is not None:
            return r
        n = len(body.blocks)
        use, dfn, succ = [set() for _ in range(n)], [set() for _ in range(n)], [[] for _ in range(n)]
        taken = set()

        def rd_place(b, pl):
            if pl[0] not in dfn[b]:
                use[b].add(pl[0])
            for e in pl[1]:
                if e[0] == "x" and e[1] not in dfn[b]:
                    use[b].add(e[1])

        def rd_op(b, op):
            if op[0] == "p":
                rd_place(b, op[1])

        def walk(b, x):
            if isinstance(x, tuple) and x and x[0] == "p" and len(x) == 3 and isinstance(x[1], tuple):
                rd_op(b, x)
            elif isinstance(x, (tuple, list)):
                for y in x:
                    walk(b, y)
        for b, (sts, t) in enumerate(body.blocks):
            for s in sts:
                if s[0] == "=":
                    rv = s[2]
                    if rv[0] in ("ref", "discr", "len"):
                        rd_place(b, rv[1])
                        if rv[0] == "ref" and not any(e[0] == "*" for e in rv[1][1]):
                            taken.add(rv[1][0])
                    else:
                        walk(b, rv)
                    if s[1][1]:
                        rd_place(b, s[1])
                    else:
                        dfn[b].add(s[1][0])
                else:
                    walk(b, s)
            if t[0] == "goto":
                succ[b] = [t[1]]
            elif t[0] == "switch":
                rd_op(b, t[1])
                succ[b] = [x[1] for x in t[2]] + [t[3]]
            elif t[0] == "assert":
                rd_op(b, t[1])
                succ[b] = [t[3]]
            elif t[0] == "call":
                walk(b, t[1])
                walk(b, t[2])
                if t[3][1]:
                    rd_place(b, t[3])
                else:
                    dfn[b].add(t[3][0])
                if t[4] is not None:
                    succ[b] = [t[4]]
            elif t[0] == "Return":
                if 0 not in dfn[b]:
                    use[b].add(0)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                o = set()
                for x in succ[b]:
                    o |= live[x]
                nl = use[b] | (o - dfn[b])
                if nl != live[b]:
                    live[b] = nl
                    ch = True
        # locals whose address is taken and that may be written before being read again are still
        # treated as live
        pred = [[] for _ in range(n)]
        for b in range(n):
            for x in succ[b]:
                pred[x].append(b)
        r = (live, taken, succ, pred, dfn)
        self.live_cache[id(body)] = r
        return r

    def natural_loop(self, body, head):
        live, taken, succ, pred, dfn = self.liveness(body)
        reach, w = {head}, [head]
        while w:
            for x in succ[w.pop()]:
                if x not in reach:
                    reach.add(x)
                    w.append(x)
        L = {head}
        w = [b for b in pred[head] if b in reach]
        while w:
            b = w.pop()
            if b not in L:
                L.add(b)
                w.extend(x for x in pred[b] if x in reach)
        return L

    def diffv(self, a, b, path, out):
        if a is b:
            return
        a = self.force(a) if isinstance(a, Lazy) else a
        b = self.force(b) if isinstance(b, Lazy) else b
        if a is b:
            return
        if isinstance(a, Agg) and isinstance(b, Agg) and a.v == b.v and len(a.f) == len(b.f):
            for i, (x, y) in enumerate(zip(a.f, b.f)):
                self.diffv(x, y, path + (i,), out)
            return
        if isinstance(a, (int, z3.ExprRef)) and isinstance(b, (int, z3.ExprRef)):
            if is_sym(a) and is_sym(b) and a.eq(b):
                return
            if not is_sym(a) and not is_sym(b) and a == b:
                return
        if isinstance(a, Bytes) and isinstance(b, Bytes) and a.n == b.n and a.le == b.le:
            if a.t is b.t or (is_sym(a.t) and is_sym(b.t) and a.t.eq(b.t)):
                return
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a == b:
            return
        out.append((path, a, b))

    def replace_leaf(self, v, path, nv):
        if not path:
            return nv
        v = self.force(v) if isinstance(v, Lazy) else v
        f = list(v.f)
        f[path[0]] = self.replace_leaf(f[path[0]], path[1:], nv)
        return Agg(f, v.v)

    def leaf_at(self, v, path):
        for i in path:
            v = self.force(v) if isinstance(v, Lazy) else v
            v = v.f[i]
        return self.force(v) if isinstance(v, Lazy) else v

    def havoc_leaf(self, v, new=None):
        """an arbitrary value in place of v, which an iteration may change to `new`"""
        if isinstance(v, (Agg, SymEnum)) and isinstance(new, (Agg, SymEnum)):
            # an option: absent, or present with an arbitrary payload
            some = new.f if isinstance(new, Agg) else None
            if isinstance(v, Agg) and some is not None and v.v == 0 and not v.f and new.v == 1 and len(some) == 1:
                x = self.force(some[0])
                return SymEnum(fresh_int("loopd", 0, 1), {0: Agg((), 0), 1: Agg((self.havoc_leaf(x, None),), 1)})
            raise Unsupported("loop modifies %r" % (v,))
        if isinstance(v, bool) or isinstance(v, z3.BoolRef):
            return fresh_bool("loopb")
        if isinstance(v, (int, z3.ExprRef)):
            return fresh_int("loopv", 0 if not isinstance(v, int) or v >= 0 else -(1 << 127), 1 << 128)
        if isinstance(v, Bytes):
            return Bytes(v.n, fresh_int("looph", 0, 256 ** v.n - 1), v.le)
        if isinstance(v, Ptr) and v.path and v.path[-1][0] == "i":
            m = v.meta
            if m is not None and not (isinstance(new, Ptr) and same(new.meta, m)):
                m = fresh_int("loopm", 0, 1 << 62)
            return Ptr(v.cell, v.path[:-1] + (("i", fresh_int("loopi", 0, 1 << 62)),), m)
        raise Unsupported("loop modifies %r" % (v,))

    def one_iteration(self, st, fid, head, blocks):
        res = []
        outer = self._onres
        self.cut_stop = self.cut_stop + ((fid, head, blocks),)
        try:
            self.run(st, res.append)
        finally:
            self.cut_stop = self.cut_stop[:-1]
            self._onres = outer
        return res

    def cut_loop(self, st, fr, head):
        body = fr.body
        blocks = self.natural_loop(body, head)
        live, taken, _, _, dfn = self.liveness(body)
        lv = live[head] | taken

        def modified(s0, results):
            m = {}
            for r in results:
                if r.kind != "loopback":
                    continue
                for k, v in s0.mem.items():
                    if isinstance(k[0], int) and k[0] == fr.fid and k[1] not in lv:
                        continue
                    out = []
                    nv = r.mem.get(k)
                    if nv is v:
                        continue
                    self.diffv(v, nv, (), out)
                    for p, a, b in out:
                        if k[0] == fr.fid and k[1] in taken and k[1] not in live[head] and not isinstance(b, (int, z3.ExprRef, Ptr, Bytes)):
                            continue
                        m[(k, p)] = a
                        if (k, p) not in ex_new or isinstance(b, (Agg, SymEnum)) or (isinstance(a, Ptr) and isinstance(b, Ptr) and not same(a.meta, b.meta)):
                            ex_new[(k, p)] = b
            return m
        ex_new = {}
        trial = self.one_iteration(st.copy(), fr.fid, head, blocks)
        M = modified(st, trial)
        for _ in range(4):
            g = st.copy()
            sy = {}
            for (k, p), a in M.items():
                h = self.havoc_leaf(a, ex_new.get((k, p)))
                sy[(k, p)] = h
                g.mem[k] = self.replace_leaf(g.mem[k], p, h)
            base = dict(g.mem)
            npc = len(g.pc)
            res = self.one_iteration(g, fr.fid, head, blocks)
            gb = State()
            gb.mem = base
            M2 = modified(gb, res)
            new = [x for x in M2 if x not in M]
            if not new:
                break
            for x in new:
                M[x] = self.leaf_at(st.mem[x[0]], x[1])
        else:
            raise Unsupported("loop in %s: no fixed point" % fr.inst.name)
        name = fresh_name("loop")
        steps = []
        for r in res:
            if r.kind == "loopback":
                steps.append((r.pc[npc:], {x: self.leaf_at(r.mem[x[0]], x[1]) for x in M}))
        self.loops[name] = dict(fn=fr.inst.name, init={x: M[x] for x in M}, sym=sy, steps=steps)
        lit = z3.Bool(name)
        out = []
        for r in res:
            if r.kind == "loopexit" and r.info == (fr.fid, head):
                s = r.st
                s.pc = s.pc + (lit,)
                out.append(s)
            elif r.kind != "loopback":
                self._onres(r)
        return out

    def terminator(self, st, fr, t):
        k = t[0]
        if k == "goto":
            self.goto(st, fr, t[1])
            return None
        if k == "switch":
            v = self.scalar_of(self.operand(st, fr, t[1]))
            v = self.resolve_int(st, v) if not isinstance(v, bool) else v
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, int):
                for x, b in t[2]:
                    if x == v or (v < 0 and x == v % (1 << self.T[self.op_ty(fr.body, t[1])].bits)):
                        self.goto(st, fr, b)
                        return None
                self.goto(st, fr, t[3])
                return None
            if isinstance(v, Opq):
                v = fresh_int("opqsw", 0, 255)
            alts = []
            others = []
            for x, b in t[2]:
                if isinstance(v, z3.BoolRef):
                    c = lnot(v) if x == 0 else v
                else:
                    sw = self.T[self.op_ty(fr.body, t[1])]
                    if sw.k == "int" and x >= 1 << (sw.bits - 1):
                        x -= 1 << sw.bits
                    c = eq(v, x)
                others.append(lnot(c))
                alts.append((c, lambda s, b=b: self.goto(s, s.frames[-1], b)))
            if fr.body.blocks[t[3]][1][0] != "Unreachable":
                alts.append((land(*others), lambda s: self.goto(s, s.frames[-1], t[3])))
            return self.fork_on(st, alts)
        if k == "assert":
            c = self.scalar_of(self.operand(st, fr, t[1]))
            if isinstance(c, Opq):
                c = True if t[2] else False
            if not t[2]:
                c = lnot(c)
            if c is False:
                raise PathEnd("panic", t[4])
            if c is not True:
                if not self.feasible(st, c):
                    raise PathEnd("panic", t[4])
                nc = lnot(c)
                if self.want_panic(st, fr, t):
                    s2 = st.copy()
                    s2.pc = s2.pc + (nc,)
                    self._onres(Result("panic", s2, info=(t[4], fr.inst.name)))
                st.pc = st.pc + (c,)
            self.goto(st, fr, t[3])
            return None
        if k == "call":
            return self.call(st, fr, t)
        if k == "Return":
            return self.ret(st, fr)
        if k == "Unreachable":
            raise PathEnd("infeasible")
        raise PathEnd("panic", k)

    def want_panic(self, st, fr, t):
        return False

    def ret(self, st, fr):
        rv = st.mem.get((fr.fid, 0))
        if rv is None:
            rv = UNIT
        st.frames.pop()
        for l in range(len(fr.body.locals)):
            if l in ():
                continue
        if not st.frames:
            raise PathEnd("return", rv)
        caller = st.frames[-1]
        if fr.hook:
            rv = fr.hook(st, rv)
        self.write_place(st, caller, fr.dest, rv)
        if fr.target is None:
            raise PathEnd("panic", "noreturn")
        self.goto(st, caller, fr.target)
        return None

    # ------------------------------------------------------------------ calls
    def callee(self, st, fr, op):
        if op[0] == "c":
            t = self.T[op[2]]
            if t.k == "fndef":
                return self.P.insts.get(t.d["inst"]), None
        v = self.operand(st, fr, op)
        v = self.force(v)
        if isinstance(v, Ptr):
            v = self.load(st, v)
        if isinstance(v, FnV):
            return self.P.insts.get(v.inst), None
        raise Unsupported("indirect call %r" % (v,))

    def call(self, st, fr, t):
        inst, _ = self.callee(st, fr, t[1])
        args = [self.operand(st, fr, a) for a in t[2]]
        if inst is None:
            raise Unsupported("missing instance %s" % (self.T[t[1][2]].s,))
        return self.invoke(st, fr, inst, args, t[3], t[4])

    def virt_index(self, inst):
        if inst.virt is not None:
            return inst.virt
        if inst.shim and not inst.has_body and inst.name.startswith("<dyn "):
            m = getattr(self.P, "_virt_names", None)
            if m is None:
                m = {i.name: i.virt for i in self.P.insts.values() if i.virt is not None}
                self.P._virt_names = m
            return m.get(inst.name)
        return None

    def invoke(self, st, fr, inst, args, dest, target):
        for _ in range(8):
            vi = self.virt_index(inst)
            if vi is not None:
                p = self.unwrap_ptr(args[0])
                if isinstance(p, Ptr) and isinstance(p.meta, tuple) and p.meta[0] == "vt":
                    m = self.P.vtables.get((p.meta[1], p.meta[2]))
                    if m is None:
                        raise Unsupported("vtable %s" % self.T[p.meta[1]].s)
                    inst = self.P.insts[m[vi]]
                    args = [Ptr(p.cell, p.path, None)] + list(args[1:])
                else:
                    raise Unsupported("virtual call on %r" % (p,))
            self.calls[inst.defn] = self.calls.get(inst.defn, 0) + 1
            con = self.contracts.get(inst.defn)
            r = None
            if con is not None:
                self.used_contracts.add(inst.defn)
                r = con(self, st, inst, args)
            else:
                h = self.builtins.lookup(inst)
                if h is not None:
                    self.used_builtins[inst.defn] = self.used_builtins.get(inst.defn, 0) + 1
                    r = h(self, st, inst, args)
            if isinstance(r, Tail):
                inst, args = r.inst, r.args
                continue
            if r is not None:
                return self.deliver(st, r, dest, target)
            break
        if inst.has_body:
            if self.mergeable(inst):
                return self.summarise(st, inst, args, dest, target)
            self.push_frame(st, inst, args, dest, target)
            return None
        raise Unsupported("no body: %s [%s]" % (inst.name, inst.defn))

    # -------------------------------------------------------- joining the paths of pure functions
    def mergeable(self, inst):
        m = self.merge_cache.get(inst.key)
        if m is None:
            m = False
            if self.merge and (inst.local or inst.crate.startswith("spl_")) and "{closure" not in inst.name and inst.body.argc <= 12:
                body = inst.body
                m = True
                for i in range(1, body.argc + 1):
                    t = self.T[body.locals[i]]
                    if t.k in ("ref", "ptr") and t.s.startswith(("&mut", "*mut")):
                        m = False
                    if t.k == "adt" and ("Context" in t.name or "Program" in t.name):
                        m = False
            self.merge_cache[inst.key] = m
        return m

    def shape(self, v):
        v = self.force(v) if isinstance(v, Lazy) else v
        if isinstance(v, bool) or isinstance(v, z3.BoolRef):
            return "b"
        if isinstance(v, (int, z3.ExprRef)):
            return "i"
        if isinstance(v, Agg):
            if not v.f:
                return "e"
            return (v.v,) + tuple(self.shape(x) for x in v.f)
        if isinstance(v, SymEnum):
            return "e" if all(not x.f for x in v.vs.values()) else ("id", id(v))
        if isinstance(v, Bytes):
            return ("B", v.n, v.le)
        if isinstance(v, Opq) and v.tag == "err":
            return ("err", str(v.d.get("code")))
        return ("id", id(v))

    def mergev(self, c, a, b):
        if a is b:
            return a
        a = self.force(a) if isinstance(a, Lazy) else a
        b = self.force(b) if isinstance(b, Lazy) else b
        if isinstance(a, SymEnum) or isinstance(b, SymEnum) or (isinstance(a, Agg) and not a.f and a.v != b.v):
            da, va = (a.d, a.vs) if isinstance(a, SymEnum) else (a.v, {a.v: a})
            db, vb = (b.d, b.vs) if isinstance(b, SymEnum) else (b.v, {b.v: b})
            vs = dict(va)
            vs.update(vb)
            return SymEnum(ite(c, da, db), vs)
        if isinstance(a, Agg):
            return Agg([self.mergev(c, x, y) for x, y in zip(a.f, b.f)], a.v)
        if isinstance(a, Bytes):
            return Bytes(a.n, ite(c, a.t, b.t), a.le)
        if isinstance(a, Opq):
            return a
        return ite(c, a, b)

    def merge_tree(self, items, k):
        """items: [(literals, value)] -> (condition, value)"""
        if len(items) == 1:
            return land(*items[0][0][k:]), items[0][1]
        pre = []
        while all(len(l) > k for l, _ in items) and len({l[k].get_id() for l, _ in items}) == 1:
            pre.append(items[0][0][k])
            k += 1
        groups = {}
        for it in items:
            key = it[0][k].get_id() if len(it[0]) > k else None
            groups.setdefault(key, []).append(it)
        if len(groups) == 1:
            # identical literals up to the end
            raise Unsupported("merge: duplicate paths")
        conds, val = [], None
        for key, g in reversed(list(groups.items())):
            if key is None:
                c, v = True, g[0][1]
            else:
                c, v = self.merge_tree(g, k + 1)
                c = land(g[0][0][k], c)
            sel = g[0][0][k] if key is not None else True
            conds.append(c)
            val = v if val is None else self.mergev(sel if len(groups) == 2 else c, v, val)
        return land(*(pre + [lor(*conds)])), val

    def summarise(self, st, inst, args, dest, target):
        sub_ = st.copy()
        sub_.frames = []
        self.push_frame(sub_, inst, args, None, None)
        outer = self._onres
        res = []
        fid0, cell0 = self.fidc, self.cellc
        self.run(sub_, res.append)
        self._onres = outer
        n = len(st.pc)
        frames = st.frames
        groups, order = {}, []
        live = []
        for r in res:
            if r.kind != "return":
                s = r.st
                s.frames = [f.copy() for f in frames] + s.frames
                outer(Result(r.kind, s, info=r.info))
                continue
            live.append(r)
        pure = []
        if len(live) > 1:
            for r in live:
                if r.eff is st.eff and r.gh == st.gh and self.frame_kept(st.mem, r.mem, fid0, cell0):
                    pure.append(r)
        items = []
        if len(pure) > 1:
            for r in pure:
                sh = self.shape(r.info)
                if sh not in groups:
                    groups[sh] = []
                    order.append(sh)
                groups[sh].append(r)
            ps = set(map(id, pure))
            items = [[r] for r in live if id(r) not in ps] + [groups[s_] for s_ in order]
        else:
            items = [[r] for r in live]
        out = []
        for g in items:
            if len(g) == 1:
                r = g[0]
                s = r.st
                s.frames = [f.copy() for f in frames]
                v = r.info
            else:
                c, v = self.merge_tree([(r.pc[n:], r.info) for r in g], 0)
                s = st.copy()
                if c is not True:
                    s.pc = s.pc + (c,)
            s.visits = st.visits
            try:
                if target is None:
                    raise PathEnd("panic", "noreturn")
                self.write_place(s, s.frames[-1], dest, v)
                self.goto(s, s.frames[-1], target)
                out.append(s)
            except PathEnd as e:
                if e.kind != "infeasible":
                    outer(Result(e.kind, s, info=e.info))
        return out

    def frame_kept(self, m0, m, fid0, cell0):
        """no cell that existed before the sub-run changed (its own locals and
        heap cells excepted)"""
        for k, v in m.items():
            if k in m0:
                if m0[k] is not v:
                    return False
                continue
            if isinstance(k[0], int):
                if k[0] >= fid0:
                    continue
            elif len(k) == 2 and isinstance(k[1], int) and k[1] > cell0 and k not in self.lazy_cells:
                continue
            if self.lazy_cells.get(k) is not v:
                return False
        return True

    def deliver(self, st, r, dest, target):
        def fin(val, post):
            def f(s):
                v = val
                if post:
                    x = post(s)
                    if x is not None:
                        v = x
                if target is None:
                    raise PathEnd("panic", "noreturn")
                self.write_place(s, s.frames[-1], dest, v)
                self.goto(s, s.frames[-1], target)
            return f
        if isinstance(r, list):
            return self.fork_on(st, [(o.cond, fin(o.value, o.post)) for o in r])
        fin(r, None)(st)
        return None

    def intr_stmt(self, st, fr, s):
        if isinstance(s, dict):
            if "Assume" in s:
                return
            if "CopyNonOverlapping" in s:
                import mir
                c = s["CopyNonOverlapping"]
                src = self.operand(st, fr, mir._op(c["src"]))
                dst = self.operand(st, fr, mir._op(c["dst"]))
                cnt = self.scalar_of(self.operand(st, fr, mir._op(c["count"])))
                self.copy_n(st, src, dst, cnt)
                return
        raise Unsupported("intrinsic stmt %s" % str(s)[:80])

    def copy_n(self, st, src, dst, cnt):
        sp, dp = self.unwrap_ptr(src), self.unwrap_ptr(dst)
        cnt = self.resolve_int(st, cnt)
        if not isinstance(cnt, int):
            raise Unsupported("symbolic copy")
        if isinstance(sp, Opq) or isinstance(dp, Opq):
            return
        if cnt == 1:
            self.store(st, dp, self.load(st, sp))
            return
        for j in range(cnt):
            a = Ptr(sp.cell, sp.path[:-1] + (("i", add(sp.path[-1][1], j)),))
            b = Ptr(dp.cell, dp.path[:-1] + (("i", add(dp.path[-1][1], j)),))
            self.store(st, b, self.load(st, a))
