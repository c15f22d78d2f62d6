"""Symbolic values and the solver front end.

Integers are mathematical integers (z3 Int) that carry their exact machine range as side
constraints; every arithmetic MIR operation produces the exact machine result (with explicit
overflow flags / wrap-around), so machine arithmetic is not abstracted.
"""
import z3

I = z3.IntVal
_ranges = {}  # const name -> (lo, hi)


def is_sym(v):
    return isinstance(v, z3.ExprRef)


def mkint(name, lo, hi):
    old = _ranges.get(name)
    if old is not None and old != (lo, hi):
        # one name, two ranges: only what both allow is excluded
        lo, hi = min(lo, old[0]), None if hi is None or old[1] is None else max(hi, old[1])
        _range_expr.pop(name, None)
    _ranges[name] = (lo, hi)
    return z3.Int(name)


_fresh = [0]


def fresh_name(p):
    _fresh[0] += 1
    return "%s!%d" % (p, _fresh[0])


def reset_fresh():
    _fresh[0] = 0


def fresh_bool(p="b"):
    return z3.Bool(fresh_name(p))


def fresh_int(p, lo, hi):
    return mkint(fresh_name(p), lo, hi)


def conv(v):
    """python int or z3 expr -> z3 expr"""
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    return v


def simp(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    return simp(conv(a) + conv(b))


def sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isinstance(b, int) and b == 0:
        return a
    return simp(conv(a) - conv(b))


def mul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    if (isinstance(a, int) and a == 0) or (isinstance(b, int) and b == 0):
        return 0
    if isinstance(a, int) and a == 1:
        return b
    if isinstance(b, int) and b == 1:
        return a
    return simp(conv(a) * conv(b))


# Named subterms: every division, remainder and integer if-then-else becomes a variable with a
# definitional axiom (kept in DEFS), so that all other terms stay polynomials over variables.
DEFS = {}
_names = {}


def _named(kind, args):
    key = (kind,) + tuple(x.get_id() if isinstance(x, z3.ExprRef) else ("k", x) for x in args)
    v = _names.get(key)
    if v is None:
        name = "%s!%d" % (kind, len(DEFS))
        v = z3.Int(name)
        DEFS[name] = (kind, [conv(x) for x in args])
        _names[key] = v
    return v


def def_term(name):
    """the defining z3 term of a named subterm"""
    kind, a = DEFS[name]
    if kind == "div":
        return a[0] / a[1]
    if kind == "mod":
        return a[0] % a[1]
    return z3.If(a[0], a[1], a[2])


def _split(a, b):
    """a = b*q + r syntactically, with 0 <= r < b by the ranges; (q, r) or None"""
    a = simp(a) if is_sym(a) else a
    if isinstance(a, int):
        return divmod(a, b)
    ts = a.children() if a.decl().kind() == z3.Z3_OP_ADD else [a]
    q, r = 0, 0
    for t in ts:
        c, x = 1, t
        if z3.is_int_value(t):
            c, x = t.as_long(), 1
        elif t.decl().kind() == z3.Z3_OP_MUL and z3.is_int_value(t.arg(0)):
            c = t.arg(0).as_long()
            x = t.arg(1) if t.num_args() == 2 else z3.Product(t.children()[1:])
        if c % b == 0:
            q = add(q, mul(c // b, x))
        else:
            r = add(r, mul(c, x))
    lo, hi = bounds(r)
    if lo is not None and hi is not None and lo >= 0 and hi < b:
        return q, r
    return None


def fdiv(a, b):
    """floor division, b > 0 assumed by the caller"""
    if isinstance(a, int) and isinstance(b, int):
        return a // b if b else 0
    if isinstance(b, int) and b > 1:
        s = _split(a, b)
        if s is not None:
            return s[0]
    if isinstance(b, int) and b == 1:
        return a
    if isinstance(a, int) and a == 0:
        return 0
    if not isinstance(b, int) or b <= 0 or not isinstance(a, int):
        s = simp(conv(a) / conv(b)) if isinstance(b, int) and b > 0 else None
        if s is not None and (isinstance(s, int) or s.decl().kind() != z3.Z3_OP_IDIV):
            return s
    return _named("div", [a, b])


def neg(x):
    return sub(0, x)


def iabs(x):
    return ite(lt(x, 0), neg(x), x)


def tdiv(a, b):
    """quotient truncated towards zero"""
    q = fdiv(iabs(a), iabs(b))
    return ite(eq(lt(a, 0), lt(b, 0)), q, neg(q)) if not (isinstance(a, int) and isinstance(b, int)) else (q if (a < 0) == (b < 0) else -q)


def fmod(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a % b if b else 0
    if isinstance(b, int) and b == 1:
        return 0
    if isinstance(b, int) and b > 1:
        s = _split(a, b)
        if s is not None:
            return s[1]
    if isinstance(b, int) and b > 0:
        s = simp(conv(a) % conv(b))
        if isinstance(s, int) or s.decl().kind() != z3.Z3_OP_MOD:
            return s
    return _named("mod", [a, b])


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
        return simp(z3.If(c, conv(a), conv(b)))
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    if is_sym(a) and is_sym(b) and a.eq(b):
        return a
    if z3.is_not(c):
        return ite(c.arg(0), b, a)
    return _named("ite", [c, a, b])


# -- interval bounds implied by the machine ranges of the symbols (always part of every query)
_bounds = {}
_bkeep = []


def bounds(e):
    if isinstance(e, int):
        return (e, e)
    k = e.get_id()
    r = _bounds.get(k)
    if r is None:
        r = _bnd(e)
        _bounds[k] = r
        _bkeep.append(e)
    return r


def _badd(a, b):
    return (None if a[0] is None or b[0] is None else a[0] + b[0], None if a[1] is None or b[1] is None else a[1] + b[1])


def _bmul(a, b):
    if None in a or None in b:
        if a[0] is not None and b[0] is not None and a[0] >= 0 and b[0] >= 0:
            return (a[0] * b[0], None)
        return (None, None)
    ps = [x * y for x in a for y in b]
    return (min(ps), max(ps))


def _bnd(e, bounds=None):
    bounds = bounds or globals()["bounds"]
    if z3.is_int_value(e):
        v = e.as_long()
        return (v, v)
    k = e.decl().kind()
    if not e.num_args():
        n = e.decl().name()
        if n in _ranges:
            return _ranges[n]
        d = DEFS.get(n)
        if d is None:
            return (None, None)
        kind, a = d
        if kind == "ite":
            x, y = bounds(a[1]), bounds(a[2])
            return (None if x[0] is None or y[0] is None else min(x[0], y[0]), None if x[1] is None or y[1] is None else max(x[1], y[1]))
        x, y = bounds(a[0]), bounds(a[1])
        if kind == "div":
            # by zero the value is unconstrained
            if y[0] is None or y[0] < 1 or x[0] is None or x[0] < 0:
                return (None, None)
            return (x[0] // y[1] if y[1] is not None else 0, None if x[1] is None else x[1] // y[0])
        if y[0] is None or y[0] < 1:
            return (None, None)
        return (0, None if y[1] is None else y[1] - 1)
    if k == z3.Z3_OP_ADD:
        r = (0, 0)
        for c in e.children():
            r = _badd(r, bounds(c))
        return r
    if k == z3.Z3_OP_MUL:
        r = (1, 1)
        for c in e.children():
            r = _bmul(r, bounds(c))
        return r
    if k == z3.Z3_OP_UMINUS:
        b = bounds(e.arg(0))
        return (None if b[1] is None else -b[1], None if b[0] is None else -b[0])
    if k == z3.Z3_OP_SUB:
        r = bounds(e.arg(0))
        for c in e.children()[1:]:
            b = bounds(c)
            r = _badd(r, (None if b[1] is None else -b[1], None if b[0] is None else -b[0]))
        return r
    if k == z3.Z3_OP_MOD and z3.is_int_value(e.arg(1)) and e.arg(1).as_long() > 0:
        return (0, e.arg(1).as_long() - 1)
    if k == z3.Z3_OP_IDIV and z3.is_int_value(e.arg(1)) and e.arg(1).as_long() > 0:
        b, d = bounds(e.arg(0)), e.arg(1).as_long()
        return (None if b[0] is None else b[0] // d, None if b[1] is None else b[1] // d)
    return (None, None)


def cmp_bounds(a, b):
    """sign of a - b when the ranges decide it: True a<=b always, False a>b always"""
    x, y = bounds(a), bounds(b)
    if x[1] is not None and y[0] is not None and x[1] <= y[0]:
        return True
    if x[0] is not None and y[1] is not None and x[0] > y[1]:
        return False
    return None


def _le(a, b):
    """canonical atom: `x <= y`, constants on the right"""
    if isinstance(a, int):
        return simp(z3.Not(_mkle(conv(b), z3.IntVal(a - 1))))
    return simp(_mkle(conv(a), conv(b)))


def _mkle(a, b):
    return z3.BoolRef(z3.Z3_mk_le(a.ctx_ref(), a.as_ast(), b.as_ast()), a.ctx)


def le(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    r = cmp_bounds(a, b)
    if r is not None:
        return r
    return _le(a, b)


def lt(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    r = cmp_bounds(b, a)
    if r is not None:
        return not r
    return lnot(_le(b, a))


def eq(a, b):
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        return a == b
    if not isinstance(a, (bool, z3.BoolRef)) and not isinstance(b, (bool, z3.BoolRef)):
        x, y = bounds(a), bounds(b)
        if (x[1] is not None and y[0] is not None and x[1] < y[0]) or (x[0] is not None and y[1] is not None and x[0] > y[1]):
            return False
    if isinstance(b, int) and not isinstance(b, bool) and is_sym(a):
        a, b = b, a
    if isinstance(a, int) and not isinstance(a, bool) and z3.is_const(b) and b.decl().name() in DEFS:
        # comparisons of an if-then-else over constants resolve to its condition
        kind, d = DEFS[b.decl().name()]
        if kind == "ite" and z3.is_int_value(d[1]):
            rest = eq(a, simp(d[2]))
            if d[1].as_long() == a:
                return lor(d[0], rest)
            return land(lnot(d[0]), rest)
    return simp(conv(a) == conv(b))


def land(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
            continue
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return simp(z3.And(*out))


def lor(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
            continue
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return simp(z3.Or(*out))


def lnot(x):
    if isinstance(x, bool):
        return not x
    return simp(z3.Not(x))


def implies(a, b):
    return lor(lnot(a), b)


def imin(a, b):
    return ite(le(a, b), a, b)


def imax(a, b):
    return ite(le(a, b), b, a)


def satsub(a, b):
    return ite(le(b, a), sub(a, b), 0)


def cdiv(a, b):
    """ceiling division for a >= 0, b > 0"""
    return fdiv(add(a, sub(b, 1)), b)


# ---------------------------------------------------------------------------------------------
# Linear abstraction: nonlinear monomials and divisions become integer variables with a fixed set
# of sound axioms.  unsat in the abstraction => unsat.
# ---------------------------------------------------------------------------------------------
class Lin:
    def __init__(self):
        self.cache = {}
        self.mono = {}
        self.divs = {}
        self.axioms = {}  # var name -> list of axioms (z3 exprs over abstracted vars)
        self.keep = []
        self.consts_cache = {}
        self.defs = {}  # abstracted var name -> (kind, args) for nonlinear expansion

    def lin(self, e):
        k = e.get_id()
        r = self.cache.get(k)
        if r is not None:
            return r
        s = z3.simplify(e, som=True, arith_lhs=False)
        r = self._lin(s)
        self.keep.append(e)
        self.cache[k] = r
        return r

    def _lin(self, e):
        k = e.get_id()
        r = self.cache.get(k)
        if r is not None:
            return r
        self.keep.append(e)
        if z3.is_quantifier(e) or not e.num_args():
            r = e
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = e.decl().name()
                if n in DEFS and n not in self.axioms:
                    self.axioms[n] = []
                    self.def_axioms(n, e)
        else:
            args = [self._lin(a) for a in e.children()]
            kind = e.decl().kind()
            if kind == z3.Z3_OP_MUL:
                nums = [a for a in args if z3.is_int_value(a)]
                rest = [a for a in args if not z3.is_int_value(a)]
                if len(rest) >= 2:
                    c = 1
                    for n in nums:
                        c *= n.as_long()
                    r = self.monomial(rest)
                    if c != 1:
                        r = c * r
                else:
                    r = e.decl()(*args)
            elif kind == z3.Z3_OP_POWER:
                r = self.monomial([args[0]] * args[1].as_long()) if z3.is_int_value(args[1]) else e.decl()(*args)
            elif kind == z3.Z3_OP_IDIV and not z3.is_int_value(args[1]):
                r = self.div(args[0], args[1])[0]
            elif kind == z3.Z3_OP_MOD and not z3.is_int_value(args[1]):
                q, m = self.div(args[0], args[1])
                r = args[0] - m
            else:
                r = e.decl()(*args)
        self.cache[k] = r
        return r

    def def_axioms(self, n, v):
        kind, a = DEFS[n]
        a = [self.lin(x) for x in a]
        if kind == "ite":
            self.axioms[n] = [v == z3.If(a[0], a[1], a[2])]
        elif z3.is_int_value(a[1]) and a[1].as_long() > 0:
            k = a[1]
            if kind == "div":
                self.axioms[n] = [k * v <= a[0], a[0] < k * v + k]
            else:
                q = z3.Int(n + ".q")
                self.axioms[n] = [a[0] == k * q + v, 0 <= v, v < k]
        elif kind == "div":
            m = self.monomial([v, a[1]])
            self.axioms[n] = [z3.Implies(a[1] >= 1, z3.And(m <= a[0], a[0] < m + a[1])),
                              z3.Implies(z3.And(a[1] >= 1, a[0] >= 0), z3.And(v >= 0, v <= a[0]))]
        else:
            q = z3.Int(n + ".q")
            m = self.monomial([q, a[1]])
            self.axioms[n] = [z3.Implies(a[1] >= 1, z3.And(a[0] == m + v, 0 <= v, v < a[1]))]

    def monomial(self, fs):
        # flatten factors that are themselves monomials
        flat = []
        for f in fs:
            d = self.defs.get(f.decl().name()) if z3.is_const(f) else None
            if d and d[0] == "mono":
                flat.extend(d[1])
            else:
                flat.append(f)
        flat.sort(key=lambda x: x.get_id())
        key = tuple(x.get_id() for x in flat)
        v = self.mono.get(key)
        if v is None:
            name = "mono!%d" % len(self.mono)
            v = z3.Int(name)
            self.mono[key] = v
            self.keep.append(flat)
            self.defs[name] = ("mono", flat)
            ax = []
            if len(flat) == 2:
                a, b = flat
            else:
                a = flat[0]
                b = self.monomial(flat[1:])
            ax.append(z3.Implies(z3.Or(a == 0, b == 0), v == 0))
            ax.append(z3.Implies(z3.And(a >= 1, b >= 0), v >= b))
            ax.append(z3.Implies(z3.And(b >= 1, a >= 0), v >= a))
            ax.append(z3.Implies(z3.And(a >= 0, b >= 0), v >= 0))
            ax.append(z3.Implies(a == 1, v == b))
            ax.append(z3.Implies(b == 1, v == a))
            self.axioms[name] = ax
        return v

    def div(self, n, d):
        key = (n.get_id(), d.get_id())
        r = self.divs.get(key)
        if r is None:
            name = "ldiv!%d" % len(self.divs)
            q = z3.Int(name)
            self.defs[name] = ("div", [n, d])
            m = self.monomial([q, d])
            r = (q, m)
            self.divs[key] = r
            self.keep.append((n, d))
            self.axioms[name] = [
                z3.Implies(d >= 1, z3.And(m <= n, n < m + d)),
                z3.Implies(z3.And(d >= 1, n >= 0), z3.And(q >= 0, q <= n)),
            ]
        return r

    def consts(self, e):
        """names of uninterpreted integer constants in e (transitively through axioms)"""
        k = e.get_id()
        r = self.consts_cache.get(k)
        if r is not None:
            return r
        out = set()
        seen = set()
        st = [e]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_const(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
            else:
                st.extend(x.children())
        self.keep.append(e)
        self.consts_cache[k] = out
        return out


_range_expr = {}


def range_lits(name):
    r = _range_expr.get(name)
    if r is None:
        b = _ranges.get(name)
        if b is None:
            r = []
        else:
            x = z3.Int(name)
            r = [x >= b[0]]
            if b[1] is not None:
                r.append(x <= b[1])
        _range_expr[name] = r
    return r


class Feas:
    """Incremental feasibility solver over the linear abstraction, following a DFS path stack."""

    def __init__(self, timeout=300):
        self.lin = Lin()
        self.s = z3.Solver()
        self.s.set("timeout", timeout)
        self.stack = []  # list of literal ids
        self.known = [set()]  # per level: const names whose side constraints are asserted
        self.nchecks = 0
        self.keep = []

    def _assert(self, e):
        l = self.lin.lin(e)
        todo = list(self.lin.consts(l))
        self.s.add(l)
        lvl = self.known[-1]
        allk = self.known
        while todo:
            n = todo.pop()
            if any(n in k for k in allk):
                continue
            lvl.add(n)
            for c in range_lits(n):
                self.s.add(c)
            for ax in self.lin.axioms.get(n, ()):
                self.s.add(ax)
                todo.extend(self.lin.consts(ax))

    def sync(self, pc):
        ids = [c.get_id() for c in pc]
        n = 0
        while n < len(ids) and n < len(self.stack) and ids[n] == self.stack[n]:
            n += 1
        k = len(self.stack) - n
        if k:
            self.s.pop(k)
            del self.stack[n:]
            del self.known[-k:]
        for c in pc[n:]:
            self.s.push()
            self.known.append(set())
            self.stack.append(c.get_id())
            self.keep.append(c)
            self._assert(c)

    def check(self, pc, extra):
        self.sync(pc)
        self.s.push()
        self.known.append(set())
        self._assert(extra)
        self.nchecks += 1
        r = self.s.check()
        self.s.pop()
        self.known.pop()
        return r != z3.unsat
