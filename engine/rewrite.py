"""Contextual rewriting of obligations.

Under the literals of a path (and case assumptions) conditions of if-then-else terms are decided and
terms rebuilt through the smart constructors of sym.py, so the code's term and the specification's term
often become the same polynomial.  Every step is an equality valid under the literals: if the rewritten
obligation is valid the original one is.
"""
import z3
from sym import *
import sym


class Rewriter:
    def __init__(self, lits):
        self.truth = {}   # atom id -> bool
        self.val = {}     # constant name -> int
        self.lo, self.hi = {}, {}
        self.keep = []
        self.units = []
        self.given = set()  # ids of compound literals known to hold
        self.rest = []
        self.contradiction = False
        todo = list(lits)
        for _ in range(4):
            self.memo, self.bmem = {}, {}
            new = False
            nxt = []
            while todo:
                l = todo.pop(0)
                if isinstance(l, bool):
                    if not l:
                        self.contradiction = True
                    continue
                fl = self.flatten(l)
                if fl is not None:
                    todo = fl + todo
                    continue
                at, pos = self.atom(l)
                if at is None:
                    nxt.append(l)
                    self.keep.append(l)
                    self.given.add(l.get_id())
                    continue
                if at.get_id() not in self.truth:
                    new = True
                    self.learn(at, pos)
                    self.units.append(l)
                elif self.truth[at.get_id()] != pos:
                    self.contradiction = True
            self.memo, self.bmem = {}, {}
            if not new:
                self.rest = nxt
                break
            self.rest = nxt
            todo = [self._f(l) for l in nxt]
            # interior of unit literals may now simplify to further facts
            for u in list(self.units):
                v = self.inner(u)
                if isinstance(v, bool):
                    if not v:
                        self.contradiction = True
                elif not v.eq(u):
                    todo.append(v)
        else:
            self.rest = todo
        self.memo, self.bmem = {}, {}

    def lits(self):
        out = []
        for u in self.units:
            out.append(u)
        for l in self.rest:
            v = self._f(l)
            if v is True:
                continue
            out.append(z3.BoolVal(False) if v is False else v)
        if self.contradiction:
            out.append(z3.BoolVal(False))
        return out

    # -- facts --------------------------------------------------------------------------------
    def flatten(self, l):
        if z3.is_and(l):
            return list(l.children())
        if z3.is_not(l) and z3.is_or(l.arg(0)):
            return [simp(z3.Not(x)) for x in l.arg(0).children()]
        return None

    def atom(self, l):
        pos = True
        while z3.is_not(l):
            l, pos = l.arg(0), not pos
        if z3.is_or(l) or z3.is_and(l) or l.decl().kind() == z3.Z3_OP_ITE:
            return None, pos
        if z3.is_eq(l) and z3.is_bool(l.arg(0)):
            return None, pos
        if l.decl().kind() in (z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_LT, z3.Z3_OP_LE):
            a, b = [x.as_long() if z3.is_int_value(x) else x for x in l.children()]
            k = l.decl().kind()
            c = {z3.Z3_OP_GE: lambda: sym._le(b, a), z3.Z3_OP_LE: lambda: sym._le(a, b),
                 z3.Z3_OP_GT: lambda: lnot(sym._le(a, b)), z3.Z3_OP_LT: lambda: lnot(sym._le(b, a))}[k]()
            if isinstance(c, bool):
                return None, pos
            while z3.is_not(c):
                c, pos = c.arg(0), not pos
            l = c
        return l, pos

    def learn(self, at, pos):
        self.keep.append(at)
        self.truth[at.get_id()] = pos
        k = at.decl().kind()
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_EQ):
            return
        a, b = at.arg(0), at.arg(1)
        if z3.is_int_value(a):
            a, b = b, a
            k = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE}.get(k, k)
        if not z3.is_int_value(b) or a.num_args():
            return
        n, c = a.decl().name(), b.as_long()
        if k == z3.Z3_OP_EQ:
            if pos:
                self.val[n] = c
                self.lo[n] = self.hi[n] = c
            else:
                lo, hi = self.cb(n)
                if lo == c:
                    self.lo[n] = c + 1
                if hi == c:
                    self.hi[n] = c - 1
            return
        if k == z3.Z3_OP_GE:
            lo, hi = (c, None) if pos else (None, c - 1)
        else:
            lo, hi = (None, c) if pos else (c + 1, None)
        l0, h0 = self.cb(n)
        if lo is not None and (l0 is None or lo > l0):
            self.lo[n] = lo
        if hi is not None and (h0 is None or hi < h0):
            self.hi[n] = hi
        l0, h0 = self.cb(n)
        if l0 is not None and l0 == h0:
            self.val[n] = l0

    def cb(self, n):
        r = sym.bounds(z3.Int(n))
        return self.lo.get(n, r[0]), self.hi.get(n, r[1])

    # -- contextual bounds --------------------------------------------------------------------
    def bnd(self, e):
        if isinstance(e, int):
            return (e, e)
        k = e.get_id()
        r = self.bmem.get(k)
        if r is None:
            self.keep.append(e)
            r = sym._bnd(e, self.bnd)
            if not e.num_args() and not z3.is_int_value(e):
                n = e.decl().name()
                lo, hi = self.lo.get(n), self.hi.get(n)
                r = (r[0] if lo is None else lo if r[0] is None else max(lo, r[0]), r[1] if hi is None else hi if r[1] is None else min(hi, r[1]))
            self.bmem[k] = r
        return r

    # -- rewriting ----------------------------------------------------------------------------
    def t(self, e):
        """integer term"""
        if isinstance(e, int):
            return e
        if z3.is_int_value(e):
            return e.as_long()
        k = e.get_id()
        if k in self.memo:
            return self.memo[k]
        self.keep.append(e)
        r = self._t(e)
        self.memo[k] = r
        return r

    def _t(self, e):
        if not e.num_args():
            n = e.decl().name()
            if n in self.val:
                return self.val[n]
            d = DEFS.get(n)
            if d is None:
                return e
            kind, a = d
            if kind == "ite":
                c = self.f(a[0])
                if isinstance(c, bool):
                    return self.t(a[1] if c else a[2])
                return ite(c, self.t(a[1]), self.t(a[2]))
            x, y = self.t(a[0]), self.t(a[1])
            x, y = som(x), som(y)
            if kind == "div":
                return fdiv(x, y)
            if isinstance(y, int) and y > 0:
                b = self.bnd(x)
                if b[0] is not None and b[1] is not None and 0 <= b[0] and b[1] < y:
                    return x
            return fmod(x, y)
        if e.decl().kind() == z3.Z3_OP_ITE:
            c = self.f(e.arg(0))
            if isinstance(c, bool):
                return self.t(e.arg(1 if c else 2))
            return ite(c, self.t(e.arg(1)), self.t(e.arg(2)))
        ch = [self.t(x) for x in e.children()]
        if all((x == y.as_long() if isinstance(x, int) else x.eq(y)) if isinstance(x, int) and z3.is_int_value(y) or not isinstance(x, int) else False
               for x, y in zip(ch, e.children())):
            return e
        k = e.decl().kind()
        if k == z3.Z3_OP_ADD:
            return simp(z3.Sum(*[conv(x) for x in ch]))
        return simp(e.decl()(*[conv(x) for x in ch]))

    def f(self, e):
        """formula"""
        if isinstance(e, bool):
            return e
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        k = e.get_id()
        if k in self.truth:
            return self.truth[k]
        if k in self.given:
            return True
        if k in self.memo:
            return self.memo[k]
        self.keep.append(e)
        r = self._f(e)
        if not isinstance(r, bool) and r.get_id() in self.given:
            r = True
        self.memo[k] = r
        return r

    def _f(self, e):
        if z3.is_not(e):
            return lnot(self.f(e.arg(0)))
        if z3.is_and(e):
            return land(*[self.f(x) for x in e.children()])
        if z3.is_or(e):
            return lor(*[self.f(x) for x in e.children()])
        r = self.inner(e)
        if isinstance(r, bool):
            return r
        neg = False
        a = r
        while z3.is_not(a):
            a, neg = a.arg(0), not neg
        if a.get_id() in self.truth:
            return self.truth[a.get_id()] != neg
        return r

    def inner(self, e):
        """rewrite below an atom (possibly negated), deciding it only by bounds"""
        if z3.is_not(e):
            return lnot(self.inner(e.arg(0)))
        k = e.decl().kind()
        if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            a, b = e.arg(0), e.arg(1)
            if z3.is_bool(a):
                x, y = self.f(a), self.f(b)
                r = simp(conv(x) == conv(y))
                return r if k == z3.Z3_OP_EQ else lnot(r)
            x, y = self.t(a), self.t(b)
            bx, by = self.bnd(x), self.bnd(y)
            if k == z3.Z3_OP_GE:
                x, y, bx, by, k = y, x, by, bx, z3.Z3_OP_LE
            elif k == z3.Z3_OP_GT:
                x, y, bx, by, k = y, x, by, bx, z3.Z3_OP_LT
            if k == z3.Z3_OP_LE:
                if bx[1] is not None and by[0] is not None and bx[1] <= by[0]:
                    return True
                if bx[0] is not None and by[1] is not None and bx[0] > by[1]:
                    return False
                return le(x, y)
            if k == z3.Z3_OP_LT:
                if bx[1] is not None and by[0] is not None and bx[1] < by[0]:
                    return True
                if bx[0] is not None and by[1] is not None and bx[0] >= by[1]:
                    return False
                return lt(x, y)
            if (bx[1] is not None and by[0] is not None and bx[1] < by[0]) or (bx[0] is not None and by[1] is not None and bx[0] > by[1]):
                r = False
            else:
                r = eq(x, y)
            return r if k == z3.Z3_OP_EQ else lnot(r)
        if k == z3.Z3_OP_ITE:
            c = self.f(e.arg(0))
            if isinstance(c, bool):
                return self.f(e.arg(1 if c else 2))
            return simp(z3.If(c, conv(self.f(e.arg(1))), conv(self.f(e.arg(2)))))
        if z3.is_and(e) or z3.is_or(e):
            return (land if z3.is_and(e) else lor)(*[self.f(x) for x in e.children()])
        return e

    # -- undecided conditions -----------------------------------------------------------------
    def conditions(self, fs):
        """conditions of the if-then-else terms reachable from the formulas"""
        out, seen, st = {}, set(), [conv(f) for f in fs]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if not x.num_args():
                d = DEFS.get(x.decl().name())
                if d:
                    if d[0] == "ite":
                        out.setdefault(d[1][0].get_id(), d[1][0])
                    st.extend(d[1])
            else:
                st.extend(x.children())
        return list(out.values())


_som = {}
_somk = []


def som(e):
    if isinstance(e, int):
        return e
    k = e.get_id()
    r = _som.get(k)
    if r is None:
        r = z3.simplify(e, som=True)
        if z3.is_int_value(r):
            r = r.as_long()
        _som[k] = r
        _somk.append(e)
    return r
