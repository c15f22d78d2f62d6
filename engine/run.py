"""Execute instructions symbolically and discharge the clauses of spec.py path by path."""
import inspect
import os
import re
import sys
import time
import traceback
from multiprocessing import Process, Queue, Value
from queue import Empty
sys.setrecursionlimit(20000)
import z3
import mir
import vexec
from vexec import *
import vbuiltins
import contracts as C
import ctx
import spec
import prover as prv
from sym import *

BUSINESS = set(range(6000, 6060)) - {6020, 6028, 6030, 6031, 6032, 6033, 6041}


def begin(P, ix):
    ex = Exec(P, vbuiltins.B, C.CONTRACTS, max_visits=8)
    inst = P.find("presale::__private::__global::" + ix)
    pid = ex.lazy(inst.body.locals[1], "program_id")
    PID = mkint("program_id", 0, (1 << 256) - 1)
    accs = ex.expand(Lazy(inst.body.locals[2], "acc"))
    data = ex.expand(Lazy(inst.body.locals[3], "ixdata"))
    return ex, ex.start(inst, [pid, accs, data], gh={"program_id": PID})


def execute(P, ix):
    ex, st = begin(P, ix)
    res = []
    while True:
        try:
            ex.run(st.copy(), res.append)
            break
        except Restart:
            res.clear()
            ex.cut_stop = ()
    return ex, res


def classify(ex, r):
    if r.kind == "return":
        v = ex.force(r.info)
        if v.v == 0:
            return "ok", None
        e = ex.force(v.f[0])
        return "err", (e.d.get("code") if isinstance(e, Opq) else None)
    return r.kind, r.info


def elig_props(ix, memo={}):
    if ix not in memo:
        memo[ix] = re.findall(r"\bC\d\d\b", inspect.getsource(spec.ELIG[ix]))
    return memo[ix]


def obligations(ex, r, ix, want):
    """clauses of one path: list of (case assumptions, [(props, name, formula)])"""
    k, code = classify(ex, r)
    if not (k == "ok" or (k == "err" and code in BUSINESS and ix in spec.ELIG)):
        return k, []
    out = []
    if k == "err" and want is not None and not (set(elig_props(ix)) & want):
        return k, []
    spec.Out.want = want
    cases = [((), {})]
    while cases:
        assume, fixed = cases.pop()
        c = ctx.SymCtx(ex, r, ix, fixed)
        c.outcome, c.code = k, code
        try:
            if k == "ok":
                cl = spec.SPECS[ix](c)
            else:
                props, f = spec.ELIG[ix](c)
                cl = [(props.split(), "not refused (error %s) when eligible" % code, lnot(f))]
        except ctx.NeedSplit as ns:
            i = ns.term.get_id()
            for v in range(ns.n):
                cases.append((assume + (eq(ns.term, v),), {**fixed, i: v}))
            cases.append((assume + (le(ns.n, ns.term),), {**fixed, i: "other"}))
            continue
        out.append((assume, [(p, n, f) for p, n, f in cl if want is None or (set(p) & want)]))
    return k, out


class Ctl:
    """shared by all workers of a check: how many clauses have failed, and when to stop"""

    def __init__(self, deadline=None, path_s=240, enough=3):
        self.n = Value("i", 0)
        self.until = Value("d", deadline or 0.0)
        self.path_s, self.enough = path_s, enough

    @property
    def deadline(self):
        return self.until.value or None

    def hasten(self, seconds):
        """a failing input is known: leave the prover only this much longer to name the obligation"""
        self.until.value = min(self.until.value or 1e18, time.time() + seconds)

    def halt(self):
        return self.n.value >= self.enough

    def add(self, bad):
        with self.n.get_lock():
            for b in bad:
                self.n.value += self.enough if b[2] == "sat" else 1 if b[2] != "timeout" else 0


def prove_path(ex, r, j, ix, want, pr, ctl, split=None):
    """r: a path, or one case of a path already split"""
    t0 = time.time()
    if ctl.halt():
        return (j, "skipped", 0, [], 0, [])
    pr.deadline = t0 + ctl.path_s
    if ctl.deadline:
        pr.deadline = min(pr.deadline, ctl.deadline)
        if time.time() > ctl.deadline:
            return (j, "skipped", 0, [("not reached", "", "timeout", None)], 0, [])
    try:
        if isinstance(r, tuple):
            r, k, cases = r
        else:
            k, cases = obligations(ex, r, ix, want)
            cases = [c for c in cases if not (c[0] and pr.check(list(r.pc) + list(c[0]), ms=2000) == z3.unsat)]
            if split is not None and len(cases) > 1:
                split.extend((r, k, [c]) for c in cases)
                return None
        bad, names = [], []
        for assume, cl in cases:
            bad += pr.prove_all(list(r.pc) + list(assume), [(n, f) for _, n, f in cl])
            names += [n for _, n, _ in cl]
            ctl.add(bad)
            if bad:
                break
        return (j, k, len(names), [(n, str(g)[:600], s, model_dict(m)) for n, g, s, m in bad], time.time() - t0, names)
    except Unsupported as e:
        return (j, "unsupported", 0, [("unsupported", str(e), "unsupported", None)], 0, [])


class Pool:
    """shared by the processes deciding one instruction"""

    def __init__(self, procs, ctl):
        self.q, self.nxt, self.active, self.idle, self.stop = Queue(), Value("i", 0), Value("i", 0), Value("i", procs), Value("i", 0)
        self.ctl = ctl

    def slot(self):
        with self.idle.get_lock():
            if self.idle.value <= 0:
                return False
            self.idle.value -= 1
        with self.active.get_lock():
            self.active.value += 1
        return True

    def release(self):
        with self.idle.get_lock():
            self.idle.value += 1


def worker(ex, ix, early, tasks, want, pool, given=None):
    """take sub-trees of the exploration from the shared counter; prove each path as it ends"""
    pr = prv.Prover()
    ctl, q = pool.ctl, pool.q
    pr.halt = lambda: ctl.halt() or pool.stop.value or (ctl.deadline and time.time() > ctl.deadline)
    kinds, live, n = {}, False, 0
    times = [0.0, 0.0]
    kids = []
    q.put(("pid", os.getpid()))
    if given is not None:
        prv.STAT.update({k: 0 for k in prv.STAT})
    try:
        while not pool.stop.value:
            if given is not None:
                i, res = -1, given
            else:
                with pool.nxt.get_lock():
                    i = pool.nxt.value
                    pool.nxt.value += 1
                if i > len(tasks):
                    break
            t0 = time.time()
            if i == 0:
                res = early
            elif i > 0:
                res = []
                ex.run(tasks[i - 1], res.append)
            t1 = time.time()
            if given is None:
                for r in res:
                    k, code = classify(ex, r)
                    kinds[k] = kinds.get(k, 0) + 1
                    n += 1
                    if k == "ok" and not live:
                        live = pr.check(list(r.pc), ms=3000) != z3.unsat
                res = [r for r in res if needs_proof(ex, r, ix)]
            while res and not pool.stop.value:
                if len(res) >= 2 and pool.idle.value > 0 and (given is not None or pool.nxt.value > len(tasks)) and pool.slot():
                    p = Process(target=worker, args=(ex, ix, None, (), want, pool, res[::2]))
                    res = res[1::2]
                    p.start()
                    kids.append(p)
                    continue
                m = prove_path(ex, res.pop(), (i, n), ix, want, pr, ctl, res)
                if m is not None:
                    q.put(m)
            times[0] += t1 - t0
            times[1] += time.time() - t1
            res = None
            if given is not None:
                break
            if i:
                tasks[i - 1] = None
        q.put(("done", dict(prv.STAT), dict(kinds=kinds, live=live, times=times, paths=n, inlined=list(ex.inlined), contracts=list(ex.used_contracts),
                                            builtins=list(ex.used_builtins), loops=[str(v.get("fn")) for v in ex.loops.values()])))
    except Restart:
        q.put(("restart", list(ex.cut)))
    except Unsupported as e:
        q.put(("unsupported", str(e)))
    except BaseException:
        q.put(("crash", traceback.format_exc()))
    pool.release()
    for p in kids:
        p.join()


def needs_proof(ex, r, ix):
    k, code = classify(ex, r)
    return k == "ok" or (k == "err" and code in BUSINESS and ix in spec.ELIG)


def alive(pid):
    try:
        return open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()[0] != "Z"
    except OSError:
        return False


def frontier(ex, st, want):
    """breadth first until there are enough open states to share out"""
    early, work = [], [st]
    while work and len(work) < want:
        s = work.pop(0)
        try:
            kids = ex.run_path(s, early.append)
        except PathEnd as e:
            if e.kind != "infeasible":
                early.append(Result(e.kind, e.st or s, info=e.info))
            continue
        work.extend(kids or ())
    return early, work


def decide(P, ix, want=None, procs=8, ctl=None):
    """explore all paths of an instruction and prove its clauses, in `procs` processes"""
    ctl = ctl or Ctl(None, 3600, 1 << 30)
    ex, st = begin(P, ix)
    while True:
        try:
            early, tasks = frontier(ex, st.copy(), 10 * procs)
        except Restart:
            ex.cut_stop = ()
            continue
        pool = Pool(procs, ctl)
        q = pool.q
        n = max(1, min(procs, len(tasks)))
        ps = []
        for w in range(n):
            pool.slot()
            ps.append(Process(target=worker, args=(ex, ix, early, tasks, want, pool)))
        for p in ps:
            p.start()
        out, stats, info, done, again, fail, pids, quiet = [], {}, [], 0, None, None, [], 0
        while done < pool.active.value and again is None and fail is None:
            try:
                m = q.get(timeout=10)
            except Empty:
                if not any(alive(p) for p in pids) and q.empty():
                    quiet += 1
                    if quiet > 1:
                        fail = ("crash", "worker died")
                continue
            quiet = 0
            if m[0] == "pid":
                pids.append(m[1])
            elif m[0] == "done":
                done += 1
                for k, v in m[1].items():
                    stats[k] = stats.get(k, 0) + v
                info.append(m[2])
            elif m[0] == "restart":
                again = m[1]
            elif m[0] in ("crash", "unsupported"):
                fail = m
            else:
                out.append(m)
        if again is not None or fail is not None:
            pool.stop.value = 1
            for p in ps:
                p.kill()
            time.sleep(0.2)
            for p in pids:
                try:
                    if open("/proc/%d/cmdline" % p).read() == open("/proc/self/cmdline").read():
                        os.kill(p, 9)
                except OSError:
                    pass
        for p in ps:
            p.join()
        if fail:
            if fail[0] == "unsupported":
                raise Unsupported(fail[1])
            raise RuntimeError(fail[1])
        if again is None:
            break
        ex.cut |= set(again)
        ex.cut_stop = ()
    r = dict(kinds={}, live=False, times=[0.0, 0.0], paths=0, inlined=set(), contracts=set(), builtins=set(), loops=set())
    for i in info:
        for k, v in i["kinds"].items():
            r["kinds"][k] = r["kinds"].get(k, 0) + v
        r["live"] |= i["live"]
        r["paths"] += i["paths"]
        r["times"] = [a + b for a, b in zip(r["times"], i["times"])]
        for k in ("inlined", "contracts", "builtins", "loops"):
            r[k] |= set(i[k])
    return out, stats, r


def model_dict(m):
    if m is None:
        return None
    out = {}
    for d in m.decls():
        if d.arity() == 0:
            v = m[d]
            if z3.is_int_value(v):
                out[d.name()] = v.as_long()
            elif z3.is_true(v):
                out[d.name()] = True
            elif z3.is_false(v):
                out[d.name()] = False
    return out


if __name__ == "__main__":
    P = mir.Program(os.environ.get("DUMP", "/tmp/dump/presale.json"))
    for ix in sys.argv[1:]:
        t = time.time()
        out, stats, info = decide(P, ix)
        nb = sum(1 for o in out if o[3])
        print("##", ix, "paths", info["paths"], info["kinds"], "checked", len(out), "clauses", sum(o[2] for o in out), "bad paths", nb,
              "%.1f s" % (time.time() - t), ["%.0f" % x for x in info["times"]], stats, flush=True)
        seen = {}
        for o in out:
            for b in o[3]:
                seen.setdefault(b[0], []).append((o[0], b))
        for n, l in seen.items():
            j, b = l[0]
            print("   BAD %s x%d  path %s status %s\n      %s" % (n, len(l), j, b[2], b[1].replace("\n", " ")[:500]))
