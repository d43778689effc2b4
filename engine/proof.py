"""Runs the units of a property: each unit puts one function of the contract
surface (inst/) under its contract and discharges every obligation on every
path.  Units run in parallel processes."""
import multiprocessing as mp
import os, sys, time, traceback, re
import z3
import build, symex
from symex import *

UNITS = {}          # property -> [Unit]


class Unit:
    def __init__(self, prop, name, group, fn, with_src, keep, drop, guard, inline, dep=None):
        self.prop, self.name, self.group, self.fn = prop, name, group, fn
        self.with_src, self.keep, self.drop = with_src, keep, drop
        self.guard, self.inline = guard, inline
        self.dep = dep


def unit(prop, name, group, fn, with_src=False, keep=None, drop=None, guard=False, inline=None, dep=None):
    """keep/drop: regex on obligation names that (do not) count for this property
    guard: the contract of a callee, wanted only by the units that use it;
    inline: the same unit with the bodies of those callees in the place of their contracts, run if a guard fails
    dep: the property this contract is stated by (its known findings are reported there)"""
    if any(u.name == name and u.group == group for u in UNITS.get(prop, ())):
        return      # a property that rests on two others that share it
    UNITS.setdefault(prop, []).append(Unit(prop, name, group, fn, with_src, keep, drop, guard, inline, dep))


class Alternative(Exception):
    """prove the unit another way"""

    def __init__(self, fn):
        Exception.__init__(self)
        self.fn = fn


class U:
    """What a unit function gets"""
    def __init__(self, mod, ex, tier):
        self.mod, self.ex, self.tier = mod, ex, tier
        self.reached = 0
        self.canaries = 0
        self.facts = {}
        self.known = []

    def returns(self, rs, what=""):
        """Vacuity guard: at least one path returns and its path condition is satisfiable"""
        live = [(s, v) for s, v in rs if self.ex.feasible(s, True if not s.pc else z3.BoolVal(True))]
        sat = 0
        for s, v in live:
            r = self.ex.check(s, [])
            self.ex.done()
            if r == z3.sat:
                sat += 1
                if sat >= 3:
                    break
        self.canaries += 1 if sat else 0
        if sat and not self.ex.quiet:
            self.ex.obs.append(Ob("some execution returns (vacuity guard) " + what, "", True, 0.0, "z3"))
        if not sat:
            ok = any(not o.ok for o in self.ex.obs)   # already failed elsewhere
            unk = bool(live)
            self.ex.obs.append(Ob("some execution returns (vacuity guard) " + what, "", bool(unk and not ok), 0.0, "z3", None,
                                  None if unk else "no feasible return"))
        self.reached += len(live)
        return live


def run_unit(mod, un, tier, deadline):
    inv, mrg, strong, fn = set(), set(), False, un.fn
    t0 = time.time()
    err = None
    ex = u = None
    for attempt in range(25):
        symex.z3.main_ctx()
        ex = Exec(mod)
        ex.deadline = deadline
        ex.inv_loops = set(inv)
        ex.merge_loops = set(mrg)
        ex.strong = strong
        ex.xcheck = tier == "thorough"
        import loops
        ex.loop_handler = loops.handle
        u = U(mod, ex, tier)
        err = None
        try:
            fn(u)
            if not strong and inv and any(not o.ok for o in ex.obs):
                # again with more candidates for the loop invariants
                strong = True
                continue
            break
        except Alternative as e:
            fn = e.fn
            inv, mrg, strong = set(), set(), False
        except NeedInvariant as e:
            if e.key in inv:
                err = "loop invariant does not close: %s" % (e.key,)
                break
            inv.add(e.key)
        except NeedMerge as e:
            mrg.add(e.key)
            err = "too many paths"
        except Unsupported as e:
            err = "outside the verifier's reach: %s" % e
            if not strong and inv:
                strong = True
                continue
            break
        except Budget as e:
            err = "budget: %s" % e
            break
        except RecursionError:
            err = "verifier recursion limit"
            break
        except Exception as e:
            err = "verifier error: %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1800:])
            break
    obs = []
    for o in ex.obs:
        if un.keep and not re.search(un.keep, o.name):
            continue
        if un.drop and re.search(un.drop, o.name):
            continue
        obs.append((o.name, o.where, o.ok, o.t, o.backend, o.model, o.note))
    xs = None
    if not err and not any(not o[2] for o in obs) and ex.xcheck:
        try:
            xs = xcheck(ex)
        except Exception as e:
            xs = {"error": str(e)}
    return dict(unit=un.name, group=un.group, obs=obs, err=err, t=time.time() - t0, queries=ex.nq, tq=ex.tq,
                ninst=ex.ninst, funcs=sorted(ex.funcs), contracts=sorted(ex.used_contracts), trusted=sorted(ex.trusted),
                assumptions=sorted(ex.assumptions), reached=u.reached, canaries=u.canaries, facts=u.facts,
                known=[] if un.dep else u.known, dep=un.dep, inv=getattr(ex, "inv_found", []), x=xs)


def xcheck(ex, limit=400):
    """Second opinion (cvc5) on the discharged solver queries"""
    import subprocess
    q = ex.queries
    if len(q) > limit:
        step = len(q) / limit
        q = [q[int(i * step)] for i in range(limit)]
    res = {"checked": 0, "unsat": 0, "unknown": 0, "sat": 0}
    for smt in q:
        p = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=10000"], input="(set-logic ALL)\n" + smt,
                           capture_output=True, text=True)
        o = p.stdout.strip().split("\n")[0] if p.stdout.strip() else "unknown"
        res["checked"] += 1
        res[o if o in ("unsat", "sat") else "unknown"] += 1
    return res


def worker(conn, jobs, mods, units, tier, deadline):
    while True:
        try:
            i = conn.recv()
        except EOFError:
            return
        if i is None:
            return
        un = units[i]
        try:
            r = run_unit(mods[(un.group, un.with_src)], un, tier, deadline)
        except BaseException as e:
            r = dict(unit=un.name, group=un.group, obs=[], err="verifier error: %r" % e, t=0, queries=0, tq=0, ninst=0, funcs=[],
                     contracts=[], trusted=[], assumptions=[], reached=0, canaries=0, facts={}, known=[], inv=[], x=None)
        conn.send((i, r))


def run(units, tier, limit=780, jobs=8, log=None, search=None):
    """[result dict] in unit order; search(results): a failing input is found for these failures"""
    deadline = time.time() + limit
    res = pool(units, tier, deadline, jobs, log)
    if any(u.guard and failed(r) for u, r in zip(units, res)) and any(u.inline for u in units) and not (search and search(res)):
        # a callee does not have the contract it has on the unchanged tree: check its callers with its body instead
        again = [Unit(u.prop, u.name, u.group, u.inline, u.with_src, u.keep, u.drop, False, None, u.dep) for u in units if u.inline]
        res = [r for u, r in zip(units, res) if not u.inline and not u.guard] + pool(again, tier, deadline, jobs, log)
    return res


def failed(r):
    return bool(r["err"]) or any(not o[2] for o in r["obs"])


def pool(units, tier, deadline, jobs, log):
    sys.setrecursionlimit(20000)
    mods = {}
    cerr = {}
    from concurrent.futures import ThreadPoolExecutor
    keys = sorted({(u.group, u.with_src) for u in units})

    def comp(k):
        try:
            return k, build.module(*k), None
        except build.CompileError as e:
            return k, None, str(e)
    with ThreadPoolExecutor(4) as tp:
        for k, m, e in tp.map(comp, keys):
            if e:
                cerr[k] = e
            else:
                mods[k] = m
    res = [None] * len(units)
    todo = []
    for i, u in enumerate(units):
        if (u.group, u.with_src) in cerr:
            res[i] = dict(unit=u.name, group=u.group, obs=[], err="the contract surface does not compile: " + cerr[(u.group, u.with_src)],
                          t=0, queries=0, tq=0, ninst=0, funcs=[], contracts=[], trusted=[], assumptions=[], reached=0, canaries=0,
                          facts={}, known=[], inv=[], x=None)
        else:
            todo.append(i)
    ctx = mp.get_context("fork")
    n = min(jobs, len(todo))
    procs = []
    for _ in range(n):
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker, args=(b, None, mods, units, tier, deadline), daemon=True)
        p.start()
        b.close()
        procs.append([p, a, None])
    queue = list(todo)
    from multiprocessing.connection import wait
    for pr in procs:
        if queue:
            pr[2] = queue.pop(0)
            pr[1].send(pr[2])
    hard = deadline + 40
    active = [pr for pr in procs if pr[2] is not None]
    while active:
        ready = wait([pr[1] for pr in active], timeout=max(0.1, hard - time.time()))
        if not ready and time.time() >= hard:
            for pr in active:
                res[pr[2]] = dead(units[pr[2]], "budget: time limit of the check")
                pr[0].kill()
            for i in queue:
                res[i] = dead(units[i], "budget: time limit of the check")
            break
        for pr in list(active):
            if pr[1] in ready:
                try:
                    i, r = pr[1].recv()
                    res[i] = r
                    if log:
                        log("%-40s %6.1fs obligations %d failed %d %s" % (r["unit"], r["t"], len(r["obs"]),
                            sum(not o[2] for o in r["obs"]), r["err"] or ""))
                    if queue:
                        pr[2] = queue.pop(0)
                        pr[1].send(pr[2])
                    else:
                        pr[2] = None
                        pr[1].send(None)
                        active.remove(pr)
                except (EOFError, ConnectionError, OSError):
                    res[pr[2]] = dead(units[pr[2]], "verifier process died (memory?)")
                    active.remove(pr)
                    if queue:
                        a, b = ctx.Pipe()
                        p = ctx.Process(target=worker, args=(b, None, mods, units, tier, deadline), daemon=True)
                        p.start()
                        b.close()
                        i = queue.pop(0)
                        a.send(i)
                        active.append([p, a, i])
    for pr in procs:
        pr[0].join(timeout=1)
        if pr[0].is_alive():
            pr[0].kill()
    return res


def dead(u, why):
    return dict(unit=u.name, group=u.group, obs=[], err=why, t=0, queries=0, tq=0, ninst=0, funcs=[], contracts=[], trusted=[],
                assumptions=[], reached=0, canaries=0, facts={}, known=[], inv=[], x=None)
