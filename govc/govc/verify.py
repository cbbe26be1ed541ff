"""Verifying one function; scheduling all functions a property depends on."""
import json
import os
import pickle
import time
import traceback
import z3
from .logic import *
from .ir import IR
from .spec import Specs
from .models import Machine
from .speceval import Ctx, SpecError, bev
from . import solve
from .exec import State, CANDPC
from . import hooks


class FnResult:
    def __init__(self, name):
        self.name = name
        self.dropped = set()
        self.failed = []        # dicts
        self.counts = {}
        self.backends = {}
        self.solver_s = 0.0
        self.exec_s = 0.0
        self.rounds = 0
        self.error = None
        self.vacuous = []
        self.inlined, self.contracts_used = set(), set()
        self.externs, self.assumed = {}, {}
        self.nobl = 0
        self.cands = 0
        self.obls = []


def ser_sort(s):
    if s.kind() == z3.Z3_ARRAY_SORT:
        return [ser_sort(s.domain()), ser_sort(s.range())]
    return s.name()


SORTS = {}


def de_sort(x):
    if isinstance(x, list):
        return z3.ArraySort(de_sort(x[0]), de_sort(x[1]))
    if not SORTS:
        for s in (Int, Bool, Str, Any, Fn):
            SORTS[s.name()] = s
        for k in list(globals()):
            v = globals()[k]
            if isinstance(v, z3.SortRef):
                SORTS[v.name()] = v
    return SORTS[x] if x in SORTS else z3.DeclareSort(x)


def ser(t):
    if z3.is_int_value(t):
        return ["int", t.as_long()]
    if z3.is_true(t) or z3.is_false(t):
        return ["bool", z3.is_true(t)]
    k = t.decl().kind()
    cs = [ser(c) for c in t.children()]
    if k == z3.Z3_OP_UNINTERPRETED:
        return ["uf", t.decl().name(), [ser_sort(t.decl().domain(i)) for i in range(t.decl().arity())], ser_sort(t.sort()), cs]
    if k == z3.Z3_OP_SELECT:
        return ["sel"] + cs
    if k == z3.Z3_OP_ADD:
        return ["add"] + cs
    if k == z3.Z3_OP_STORE:
        return ["store"] + cs
    if k == z3.Z3_OP_ITE:
        return ["ite"] + cs
    raise ValueError("cannot serialise %s" % t)


def de(x):
    k = x[0]
    if k == "int":
        return z3.IntVal(x[1])
    if k == "bool":
        return z3.BoolVal(x[1])
    if k == "uf":
        if not x[4]:
            return z3.Const(x[1], de_sort(x[3]))
        return z3.Function(x[1], *([de_sort(s) for s in x[2]] + [de_sort(x[3])]))(*[de(c) for c in x[4]])
    cs = [de(c) for c in x[1:]]
    if k == "sel":
        return z3.Select(*cs)
    if k == "add":
        return z3.Sum(cs)
    if k == "store":
        return z3.Store(*cs)
    return z3.If(*cs)


def dump_summary(m, summ):
    out = {"panics": summ["panics"], "foot": {}}
    for k, f in summ["foot"].items():
        top, st = f.top, []
        try:
            st = [ser(t) for t in f.stable.values()]
        except ValueError:
            top = True
        out["foot"][k] = (st, f.fresh, top, ser_sort(m.heapsort[k]), k in m.refkeys)
    return out


def load_summary(m, name, x):
    from .exec import Foot
    s = {"foot": {}, "panics": x["panics"], "params": m.param_syms(m.ir.funcs[name]), "alloc0": z3.Const("alloc@0", Int), "done": True}
    for k, (st, fresh, top, so, ref) in x["foot"].items():
        f = Foot()
        f.fresh, f.top = fresh, top
        for t in st:
            t = de(t)
            KEEPT.append(t)
            f.stable[t.get_id()] = t
        m.heapsort.setdefault(k, de_sort(so))
        if ref:
            m.refkeys.add(k)
        s["foot"][k] = f
    m.summaries[name] = s


KEEPT = []


def axioms_of(m):
    st = State()
    st.alloc = z3.Const("alloc@0", Int)
    out = []
    for cl in m.specs.axioms:
        if cl.active(m.active):
            out.append(bev(Ctx(m, st, st, {}, cl.pkg), cl.ast))
    pt = getattr(m, "uses_cur", None)
    if pt is not None:
        x = z3.FreshConst(Any, "x")
        BOUND.add(x.decl().name())
        g = fn("curM", Any, Int)
        u = m.unbox(st, x, pt)
        out.append(z3.ForAll([x], g(x) == z3.If(z3.And(x != anil, typeof(x) == m.tagof(pt)), u, 0), patterns=[g(x)]))
    return out


def machine(ir, specs, active, dropped, summaries=None):
    m = Machine(ir, specs, active)
    for n, x in (summaries or {}).items():
        load_summary(m, n, x)
    m.dropped = set(dropped)
    hooks.install(m)
    return m


def verify_fn(ir, specs, active, name, dropped, ms=8000, log=None, keep=None, maxrounds=14, summaries=None, hint=None):
    if hint:
        # start from the loop facts that survived last time (dropping a
        # candidate is always sound); from all candidates if that fails
        r = verify_fn1(ir, specs, active, name, set(dropped) | hint, ms, log, keep, maxrounds, summaries, quick=True)
        if not r.error and not r.failed:
            r.dropped |= hint
            return r
        if keep is not None:
            del keep[:]
    return verify_fn1(ir, specs, active, name, dropped, ms, log, keep, maxrounds, summaries)


def verify_fn1(ir, specs, active, name, dropped, ms=8000, log=None, keep=None, maxrounds=14, summaries=None, quick=False):
    res = FnResult(name)
    fo = ir.funcs[name]
    drop = set(dropped)
    mine = set()
    log = log or (lambda *a: None)
    for rnd in range(maxrounds):
        res.rounds = rnd + 1
        t = time.time()
        m = machine(ir, specs, active, drop | mine, {k: v for k, v in (summaries or {}).items() if k != name})
        c = m.contract_of(fo)
        try:
            summ = {"foot": {}, "panics": True, "params": m.param_syms(fo), "alloc0": z3.Const("alloc@0", Int)}
            if recursive(m, fo):
                m.summaries[name] = summ
                m.scout_fn(fo, c, summ)
            m.exec_contract_fn(fo, c, summ)
            ax = (axioms_of(m), m.wfaxioms())
        except (Unsupported, SpecError) as e:
            res.error = "%s: %s" % (type(e).__name__, e)
            res.trace = traceback.format_exc()
            res.exec_s += time.time() - t
            return res
        mine |= m.dropped - drop
        res.exec_s += time.time() - t
        obls = m.obls
        cand = [o for o in obls if o.cand]
        log("%s round %d: %d obligations (%d cand), exec %.1fs" % (fo.short, rnd, len(obls), len(cand), time.time() - t))
        t = time.time()
        todo, got = cand, set()
        while True:
            r = solve.discharge(todo, ax, min(ms, 4000), deep=False)
            bad = [(o, x) for o, x in zip(todo, r) if not x[0]]
            res.solver_s += sum(x[2] for x in r)
            if not bad:
                break
            # retry user-written invariants with more effort before dropping
            usr = [o for o, x in bad if o.src != "auto" and o.cand not in mine | got]
            r2 = solve.discharge(usr, ax, min(ms, 4000), deep="z3") if usr else []
            saved = set(id(o) for o, x in zip(usr, r2) if x[0])
            new = set(o.cand for o, x in bad if id(o) not in saved)
            for o, x in bad:
                if os.environ.get("GOVC_DBG") and os.environ["GOVC_DBG"] in o.name and id(o) not in saved:
                    dump(o, ax)
                if id(o) not in saved:
                    log("   drop %s  [%s] %.1fs" % (o.name, o.kind, x[2]))
            log("   candidates: %d dropped (%.1fs)" % (len(new), time.time() - t))
            if not new:
                break
            got |= new
            # without the dropped facts: recheck what relied on them, on the
            # same paths; a new execution follows in any case
            todo = [o for o in cand if o.cand not in got and weaken(o, got)]
        if got:
            mine |= got
            continue
        rest = [o for o in obls if not o.cand]
        # stop failing path obligations from repeating: solve all
        r = solve.discharge(rest, ax, ms)
        res.solver_s += sum(x[2] for x in r)
        exits, dead = 0, 0
        for o, x in zip(rest, r):
            if o.kind in ("reach", "reach-exit"):
                if o.kind == "reach":
                    if x[0]:
                        res.vacuous.append(o.name)
                else:
                    exits += 1
                    dead += 1 if x[0] else 0
                continue
            res.counts[o.kind] = res.counts.get(o.kind, 0) + 1
            if x[0]:
                res.backends[x[1]] = res.backends.get(x[1], 0) + 1
            else:
                res.failed.append({"fn": fo.short, "name": o.name, "label": o.label, "kind": o.kind, "src": o.src, "pos": o.pos,
                                   "trail": list(o.trail)[-40:], "backend": x[1], "secs": x[2]})
                if keep is not None:
                    keep.append((o, ax))
            res.obls.append((o.name, x[0], x[1], round(x[2], 3)))
        for o in cand:
            res.counts[o.kind] = res.counts.get(o.kind, 0) + 1
        res.backends["z3"] = res.backends.get("z3", 0) + len(cand)
        if exits and exits == dead:
            res.vacuous.append("%s: no reachable return" % fo.short)
        res.cands = len(set(o.cand for o in cand))
        res.nobl = len([o for o in obls if o.kind not in ("reach", "reach-exit")])
        res.dropped = mine
        res.summary = dump_summary(m, summ)
        res.inlined, res.contracts_used = m.inlined, m.contracts_used
        res.externs, res.assumed = m.externs_used, m.assumed
        log("%s done: %d obligations, %d failed, %.1fs exec, %.1fs solver" % (fo.short, res.nobl, len(res.failed), res.exec_s, res.solver_s))
        return res
    res.error = "invariant search does not converge"
    return res


def weaken(o, gone):
    """remove facts that come only from dropped candidates"""
    pc, ch = [], False
    for e in o.pc:
        c = CANDPC.get(e.get_id())
        if c and not (c - gone):
            ch = True
        else:
            pc.append(e)
    if ch:
        o.pc = pc
    return ch


def dump(o, ax):
    import z3
    s = z3.Solver()
    s.add(solve.background(o.pc + [o.goal], ax))
    s.add(o.pc)
    s.add(z3.Not(o.goal))
    k = dump.n = getattr(dump, "n", 0) + 1
    open("/tmp/dump%d.smt2" % k, "w").write(s.to_smt2())
    with open("/tmp/dump%d.txt" % k, "w") as f:
        f.write("%s\n%s\n" % (o.name, o.trail))
        for x in o.pc:
            f.write("  %s\n" % x)
        f.write("GOAL %s\n" % o.goal)


def recursive(m, fo):
    return fo.name in reach(m, fo, stop=False)


def calls_of(fo):
    out = set()
    for b in fo.blocks:
        for i in b["instrs"]:
            for k in ("call",):
                c = i.get("call")
                if isinstance(c, dict) and c.get("fn", {}).get("k") == "func":
                    out.add(c["fn"]["name"])
            if i["op"] == "makeclosure":
                out.add(i["fn"]["name"])
            for v in (i.get("call", {}) or {}).get("args", []) if isinstance(i.get("call"), dict) else []:
                if v["k"] == "func":
                    out.add(v["name"])
    return out


def reach(m, fo, stop=True):
    """contracted functions called (through uncontracted ones)"""
    seen, out, st = set(), set(), [fo.name]
    while st:
        n = st.pop()
        for c in calls_of(m.ir.funcs[n]):
            if c not in m.ir.funcs or c in seen:
                continue
            seen.add(c)
            k = m.specs.contracts.get((m.ir.funcs[c].pkg, m.ir.funcs[c].short))
            if k is not None and not k.inline:
                out.add(c)
            else:
                st.append(c)
    return out


def plan(ir, specs, active):
    """functions to verify for this label set, with their contracted callees"""
    m = Machine(ir, specs, active)
    by = {(f.pkg, f.short): f.name for f in ir.funcs.values()}
    roots, missing = [], []
    for (pkg, short), c in specs.contracts.items():
        n = by.get((pkg, short))
        own = set()
        for cl in c.requires + c.ensures + c.exc + c.loops:
            own |= set(cl.labels)
        if c.nopanic:
            own |= set(c.nopanic)
        own |= set(c.root)
        own.discard("base")
        if own & active:
            if n is None:
                missing.append(short)
            elif not c.inline:
                roots.append(n)
    deps = {}
    st = list(roots)
    while st:
        n = st.pop()
        if n in deps:
            continue
        deps[n] = {d for d in reach(m, ir.funcs[n])}
        st += list(deps[n])
    return deps, roots, missing


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, (list, tuple)) else x


def run_property(ir, specs, active, log=None, ms=8000, hints=None, budget=None):
    deps, roots, missing = plan(ir, specs, active)
    hints = hints or {}
    deadline = time.time() + budget if budget else None
    results = {}
    running = {}
    log = log or (lambda *a: None)
    solve.semaphore()
    pend = set(deps)

    def ready(n):
        return all(d in results or d == n or n in closure(d, deps) for d in deps[n])
    while pend or running:
        for n in sorted(pend):
            if len(running) >= 10:
                break
            if ready(n):
                pend.discard(n)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.setpgid(0, 0)
                        os.close(r)
                        dropped = set()
                        for x in results.values():
                            dropped |= x.dropped
                        try:
                            sm = {x.name: x.summary for x in results.values() if getattr(x, "summary", None)}
                            res = verify_fn(ir, specs, active, n, dropped, ms, log, summaries=sm,
                                        hint=set(tup(h) for h in hints.get(ir.funcs[n].short, ())))
                        except BaseException as e:
                            res = FnResult(n)
                            res.error = "internal: %s" % e
                            res.trace = traceback.format_exc()
                        with os.fdopen(w, "wb") as f:
                            pickle.dump(res, f)
                    finally:
                        os._exit(0)
                os.close(w)
                running[pid] = (n, r)
        if not running:
            raise RuntimeError("scheduling deadlock: %s" % pend)
        # wait for any: read in order of completion via select
        import select
        left = None if deadline is None else deadline - time.time()
        rs = []
        if left is None or left > 0:
            rs, _, _ = select.select([r for _, r in running.values()], [], [], left)
        if not rs:
            for pid, (n, r) in running.items():
                try:
                    os.killpg(pid, 9)
                except OSError:
                    os.kill(pid, 9)
                os.waitpid(pid, 0)
                os.close(r)
                results[n] = FnResult(n)
                results[n].error = "not decided within %d s" % budget
            for n in pend:
                results[n] = FnResult(n)
                results[n].error = "not reached within %d s" % budget
            break
        for pid, (n, r) in list(running.items()):
            if r in rs:
                with os.fdopen(r, "rb") as f:
                    data = f.read()
                os.waitpid(pid, 0)
                del running[pid]
                try:
                    results[n] = pickle.loads(data)
                except Exception:
                    results[n] = FnResult(n)
                    results[n].error = "worker died"
    return results, roots, missing


def closure(d, deps):
    seen, st = set(), [d]
    while st:
        x = st.pop()
        for y in deps.get(x, ()):
            if y not in seen:
                seen.add(y)
                st.append(y)
    return seen


def load_hints(path, prop):
    """per function, the loop candidates known not to be inductive: dropped at
    once, which only saves rounds (a failure redoes the function without hints).
    A function without hints of its own borrows what all other properties drop"""
    import json
    if not os.path.exists(path):
        return {}
    H = json.load(open(path))
    out = dict(H.get(prop, {}))
    for f in set(f for p in H for f in H[p]) - set(out):
        sets = [set(json.dumps(x) for x in H[p][f]) for p in H if f in H[p]]
        out[f] = [json.loads(x) for x in sorted(set.intersection(*sets))]
    return out
