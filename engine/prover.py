"""Discharging obligations  pc |- goal.

Order: syntactic simplification; z3 on the linear abstraction (sound: unsat there is unsat); z3 on the
exact nonlinear integer problem; cvc5 on the same.  A goal is `proved` only on an unsat answer.
"""
import subprocess
import time
import itertools
import z3
from sym import *
import sym
import vbuiltins as vb
from rewrite import Rewriter

STAT = {"queries": 0, "time": 0.0, "simp": 0, "rewrite": 0, "splits": 0, "cached": 0, "lin": 0, "linlem": 0, "z3nia": 0, "cvc5": 0}


class Prover:
    def __init__(self):
        self.lin = Lin()
        self.tl = 8000
        self.nia_ms = 12000
        self.keep = []
        self.wmemo = {}
        self.fuel = 300
        self.vmemo = {}
        self.cache = {}
        self.stop = False
        self.deadline = None
        self.halt = None

    def late(self):
        """give up when the path's or the check's time is over, or another path has failed enough"""
        if self.halt is not None and self.halt():
            raise Late
        if self.deadline is not None and time.time() > self.deadline:
            raise Late

    # -- assembling -------------------------------------------------------------------------
    def closure(self, lits):
        """all constants reachable from lits through definitions; returns side constraints"""
        side = []
        seen = set()
        todo = []
        for l in lits:
            todo.extend(self.lin.consts(l))
        ufs = {}
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            side.extend(range_lits(n))
            for ax in self.lin.axioms.get(n, ()):
                side.append(ax)
                todo.extend(self.lin.consts(ax))
            if n in vb.UF_APPS:
                fn, ch = vb.UF_APPS[n]
                cc = []
                for k, le_, t in ch:
                    if not isinstance(t, bytes):
                        t = self.lin.lin(conv(t))
                        todo.extend(self.lin.consts(t))
                    cc.append((k, le_, t))
                ufs.setdefault(fn, []).append((n, cc))
        for fn, apps in ufs.items():
            for (a, ca), (b_, cb) in itertools.combinations(apps, 2):
                if [x[0] for x in ca] != [x[0] for x in cb]:
                    continue
                eqs = []
                okk = True
                for (k, la, ta), (_, lb, tb) in zip(ca, cb):
                    if isinstance(ta, bytes) and isinstance(tb, bytes):
                        if ta != tb:
                            okk = False
                        continue
                    if isinstance(ta, bytes):
                        ta, la = int.from_bytes(ta, "little" if lb else "big"), lb
                    elif isinstance(tb, bytes):
                        tb, lb = int.from_bytes(tb, "little" if la else "big"), la
                    if bool(la) != bool(lb):
                        okk = False
                        continue
                    if not (is_sym(ta) and is_sym(tb) and ta.eq(tb)):
                        eqs.append(conv(ta) == conv(tb))
                if okk:
                    side.append(z3.Implies(z3.And(*eqs) if eqs else z3.BoolVal(True), z3.Int(a) == z3.Int(b_)))
        return side, seen

    def lemmas(self, seen):
        """instances of: floor division and products are monotone / functional (valid for all integers)"""
        out = []
        divs = []
        for n in seen:
            if n in sym.DEFS:
                kind, a = sym.DEFS[n]
                if kind == "div":
                    divs.append((z3.Int(n), self.lin.lin(a[0]), self.lin.lin(a[1])))
        for (q1, x1, d1), (q2, x2, d2) in itertools.combinations(divs, 2):
            if d1.eq(d2):
                out.append(z3.Implies(z3.And(d1 >= 1, x1 <= x2), q1 <= q2))
                out.append(z3.Implies(z3.And(d1 >= 1, x2 <= x1), q2 <= q1))
            else:
                out.append(z3.Implies(z3.And(d1 == d2, x1 == x2), q1 == q2))
        monos = [(n, self.lin.defs[n][1]) for n in seen if n in self.lin.defs and self.lin.defs[n][0] == "mono"]
        monos = [(n, f) for n, f in monos if len(f) == 2]
        for (n1, f1), (n2, f2) in itertools.combinations(monos, 2):
            for i, j in ((0, 0), (0, 1), (1, 0), (1, 1)):
                if f1[i].eq(f2[j]):
                    c, a, b_ = f1[i], f1[1 - i], f2[1 - j]
                    out.append(z3.Implies(z3.And(c >= 0, a <= b_), z3.Int(n1) <= z3.Int(n2)))
                    out.append(z3.Implies(z3.And(c >= 0, b_ <= a), z3.Int(n2) <= z3.Int(n1)))
                    break
            else:
                a, b_ = f1
                c, d = f2
                out.append(z3.Implies(z3.Or(z3.And(a == c, b_ == d), z3.And(a == d, b_ == c)), z3.Int(n1) == z3.Int(n2)))
        for n, (a, b_) in monos:
            # bounds from the machine ranges of the factors
            ra = self.upper(a)
            rb = self.upper(b_)
            if ra is not None and rb is not None:
                out.append(z3.Implies(z3.And(a >= 0, b_ >= 0), z3.And(z3.Int(n) <= ra * b_, z3.Int(n) <= rb * a)))
        return out

    def upper(self, v):
        if z3.is_const(v) and v.decl().name() in sym._ranges:
            return sym._ranges[v.decl().name()][1]
        return None

    def exact(self, seen):
        """exact definitions of the products named by the abstraction"""
        out = []
        for n in seen:
            d = self.lin.defs.get(n)
            if d and d[0] == "mono":
                p = d[1][0]
                for f in d[1][1:]:
                    p = p * f
                out.append(z3.Int(n) == p)
        return out

    # -- deciding ---------------------------------------------------------------------------
    def check(self, lits, goal=None, ms=None, lem=False, exact=False, model=False, solver=None):
        t0 = time.time()
        L = [self.lin.lin(l) for l in lits]
        if goal is not None:
            L.append(z3.Not(self.lin.lin(goal)))
        side, seen = self.closure(L)
        if lem:
            extra = self.lemmas(seen)
            s2, seen2 = self.closure(extra)
            side = side + extra + s2
            seen = seen | seen2
        if exact:
            side = side + self.exact(seen)
        s = z3.Solver()
        s.set("timeout", ms or self.tl)
        s.add(*L)
        s.add(*side)
        if solver == "cvc5":
            r = self.cvc5(s, ms or self.nia_ms)
        else:
            r = s.check()
        STAT["queries"] += 1
        STAT["time"] += time.time() - t0
        if model and r == z3.sat:
            return r, s.model()
        return r

    def cvc5(self, s, ms):
        txt = "(set-logic ALL)\n" + s.to_smt2()
        try:
            p = subprocess.run(["cvc5", "--lang", "smt2", "--tlimit=%d" % ms, "-"], input=txt, capture_output=True, text=True,
                               timeout=ms / 1000 + 10)
        except subprocess.TimeoutExpired:
            return z3.unknown
        o = p.stdout.strip().split("\n")[0] if p.stdout else ""
        return {"unsat": z3.unsat, "sat": z3.sat}.get(o, z3.unknown)

    # -- splitting on conditions ------------------------------------------------------------
    def weight(self, e):
        """number of defined terms an expression depends on"""
        k = e.get_id()
        r = self.wmemo.get(k)
        if r is None:
            self.keep.append(e)
            seen, names, st = set(), set(), [e]
            while st:
                x = st.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if not x.num_args():
                    n = x.decl().name()
                    if n in sym.DEFS and n not in names:
                        names.add(n)
                        st.extend(sym.DEFS[n][1])
                else:
                    st.extend(x.children())
            r = len(names)
            self.wmemo[k] = r
        return r

    def light(self, lits, n=6):
        return [l for l in lits if self.weight(l) <= n]

    def feasible(self, lits, ms=500):
        return self.check(lits, ms=ms) != z3.unsat

    def pick(self, gs, rw):
        """an undecided atom to split on: conditions of if-then-else terms, simplest first"""
        cand, seen, names, st = {}, set(), set(), list(gs)
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if not x.num_args():
                d = sym.DEFS.get(x.decl().name())
                if d and x.decl().name() not in names:
                    names.add(x.decl().name())
                    if d[0] == "ite":
                        for a in atoms(d[1][0]):
                            if a.get_id() not in rw.truth:
                                cand.setdefault(a.get_id(), [a, 0])[1] += 1
                    st.extend(d[1])
            else:
                st.extend(x.children())
        best = None
        for a, n in cand.values():
            w = (self.weight(a), -n)
            if best is None or w < best[0]:
                best = (w, a)
        return best[1] if best and best[0][0] <= 24 else None

    def split_prove(self, lits, gs, fuel, depth=0):
        """gs: [(index, formula)]; returns the indices not proved with the literals of a failing leaf"""
        self.late()
        rw = Rewriter(lits)
        if rw.contradiction:
            return {}
        left = []
        for i, g in gs:
            g = rw.f(g)
            if g is True:
                continue
            left.append((i, z3.BoolVal(False) if g is False else g))
        if not left:
            return {}
        lits = rw.lits()
        if depth and depth % 2 == 0:
            left2 = []
            for i, g in left:
                if self.check(lits, g, ms=150 + 50 * depth) == z3.unsat:
                    STAT["lin"] += 1
                else:
                    left2.append((i, g))
            left = left2
            if not left:
                return {}
        a = self.pick([g for _, g in left], rw) if fuel[0] > 0 else None
        if a is not None:
            fuel[0] -= 1
            STAT["splits"] += 1
            bad = {}
            na = z3.simplify(z3.Not(a))
            lt = self.light(lits)
            for c in (a, na):
                if self.feasible(lt + [c]):
                    for i, v in self.split_prove(lits + [c], left, fuel, depth + 1).items():
                        bad.setdefault(i, v)
                    left = [(i, g) for i, g in left if i not in bad]
                    if not left:
                        break
            return bad
        return self.leaf(lits, left)

    def leaf(self, lits, gs):
        if self.check(lits, z3.And(*[g for _, g in gs]) if len(gs) > 1 else gs[0][1], ms=3000) == z3.unsat:
            STAT["lin"] += 1
            return {}
        bad = {}
        for i, g in gs:
            self.late()
            if len(gs) > 1 and self.check(lits, g, ms=self.tl) == z3.unsat:
                STAT["lin"] += 1
                continue
            if self.check(lits, g, lem=True, ms=self.tl) == z3.unsat:
                STAT["linlem"] += 1
                continue
            m = None
            x = self.check(lits, g, lem=True, exact=True, ms=self.nia_ms, model=True)
            r, m = x if isinstance(x, tuple) else (x, None)
            if r == z3.unsat:
                STAT["z3nia"] += 1
                continue
            if r == z3.unknown and not self.stop:
                x = self.check(lits, g, exact=True, ms=self.nia_ms, solver="cvc5", lem=True)
                if x == z3.unsat:
                    STAT["cvc5"] += 1
                    continue
                r = x
            if self.stop:
                raise Abort
            bad[i] = (g, str(r), m)
        return bad

    def prove_all(self, pc, goals):
        """goals: list of (name, formula) -> list of (name, formula, status, model)"""
        pc = [p for p in pc if p is not True]
        if any(p is False for p in pc):
            return []
        todo = []
        for n, g in goals:
            if g is True:
                STAT["simp"] += 1
                continue
            todo.append((n, z3.BoolVal(False) if g is False else g))
        if not todo:
            return []
        rw = Rewriter(pc)
        if rw.contradiction:
            STAT["rewrite"] += len(todo)
            return []
        gs = []
        for i, (n, g) in enumerate(todo):
            g = rw.f(g)
            if g is True:
                STAT["rewrite"] += 1
                continue
            gs.append((i, z3.BoolVal(False) if g is False else g))
        if not gs:
            return []
        lits = rw.lits()
        hard = []
        for i, g in gs:
            if self.deadline is not None and time.time() > self.deadline:
                hard.append((i, g))
                continue
            for extra, split in ((0, False), (4, False), (4, True)):
                rel = self.relevant(lits, g, extra)
                key = (g.get_id(), split, frozenset(l.get_id() for l in rel))
                ok = self.cache.get(key)
                if ok is None:
                    self.keep.append((g, rel))
                    ok = self.quick(rel, g, split)
                    self.cache[key] = ok
                else:
                    STAT["cached"] += 1
                if ok:
                    break
            else:
                hard.append((i, g))
        if not hard:
            return []
        try:
            bad = self.split_prove(lits, hard, [self.fuel])
        except Late:
            bad = {i: (g, "timeout", None) for i, g in hard}
        return [(todo[i][0], g, s, m) for i, (g, s, m) in bad.items()]

    def vars(self, e):
        """undefined constants an expression depends on, through definitions"""
        k = e.get_id()
        r = self.vmemo.get(k)
        if r is None:
            self.keep.append(e)
            seen, names, out, st = set(), set(), set(), [e]
            while st:
                x = st.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if not x.num_args():
                    if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        n = x.decl().name()
                        if n in sym.DEFS:
                            if n not in names:
                                names.add(n)
                                st.extend(sym.DEFS[n][1])
                        else:
                            out.add(n)
                            if n in vb.UF_APPS:
                                st.extend(t for _, _, t in vb.UF_APPS[n][1] if is_sym(t))
                else:
                    st.extend(x.children())
            r = frozenset(out)
            self.vmemo[k] = r
        return r

    def relevant(self, lits, g, extra=0):
        """literals over the variables of the goal (a sub-context: a proof from it is a proof)"""
        vs = self.vars(g)
        return [l for l in lits if self.vars(l) <= vs or (extra and self.vars(l) & vs and len(self.vars(l) - vs) <= extra)]

    def quick(self, lits, g, split):
        if split:
            return self.quick_split(lits, g)
        if self.check(lits, g, ms=1500) == z3.unsat:
            STAT["lin"] += 1
            return True
        if self.check(lits, g, lem=True, ms=1500) == z3.unsat:
            STAT["linlem"] += 1
            return True
        return False

    def quick_split(self, lits, g):
        t, n, self.tl, self.nia_ms, self.stop = self.tl, self.nia_ms, 2500, 2500, True
        try:
            bad = self.split_prove(lits, [(0, g)], [120])
        except (Abort, Late):
            bad = True
        finally:
            self.tl, self.nia_ms, self.stop = t, n, False
        return not bad


class Abort(Exception):
    pass


class Late(Exception):
    pass


def atoms(c):
    out, st = [], [c]
    while st:
        x = st.pop()
        if z3.is_and(x) or z3.is_or(x) or z3.is_not(x) or x.decl().kind() == z3.Z3_OP_ITE or (z3.is_eq(x) and z3.is_bool(x.arg(0))):
            st.extend(x.children())
        elif not z3.is_true(x) and not z3.is_false(x):
            out.append(x)
    return out
