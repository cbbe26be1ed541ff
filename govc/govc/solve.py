"""Discharging obligations: forked workers, z3 in several configurations, cvc5."""
import json
import multiprocessing as mp
import os
import subprocess
import tempfile
import time
import z3
from .logic import *

SEM = None


def semaphore():
    global SEM
    if SEM is None:
        SEM = mp.Semaphore(int(os.environ.get("GOVC_JOBS", "8")))
    return SEM


def background(exprs, axioms):
    """axioms every query gets: distinct literals, distinct code"""
    names = set()
    for e in exprs:
        consts_in(e, names)
    axioms, wf = axioms if isinstance(axioms, tuple) else (axioms, {})
    out = list(axioms)
    todo = list(names)
    while todo:
        n = todo.pop()
        if n in wf:
            out.append(wf[n])
            more = set()
            consts_in(wf[n], more)
            todo += list(more - names)
            names |= more
    lits = [c for s, c in strlits().items() if c.decl().name() in names]
    if len(lits) > 1:
        out.append(z3.Distinct(*lits))
    for s, c in strlits().items():
        if c.decl().name() in names:
            out.append(strlen(c) == len(s.encode()))
    codes = [z3.Const(n, Fn) for n in names if n.startswith("code!")]
    for c in codes:
        out.append(c != fnil)
    if len(codes) > 1:
        out.append(z3.Distinct(*codes))
    return out


CONFIGS = [
    {"mbqi": False, "auto_config": False},
    {"mbqi": False, "auto_config": False, "random_seed": 7, "phase_selection": 0},
    {"mbqi": False, "auto_config": False, "relevancy": 0},
    {"mbqi": False, "auto_config": False, "arith.solver": 2, "random_seed": 3},
]


def run_z3(pc, goal, axioms, ms, cfg):
    s = z3.SimpleSolver()
    for k, v in cfg.items():
        s.set(k, v)
    s.set("timeout", int(ms))
    s.add(axioms)
    s.add(pc)
    s.add(z3.Not(goal))
    return s.check(), s


def cvc5(solver, ms):
    txt = solver.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + txt)
        n = f.name
    try:
        r = subprocess.run(["cvc5", "--tlimit=%d" % ms, "--lang=smt2", n], capture_output=True, text=True, timeout=ms / 1000 + 5)
        return r.stdout.strip().split("\n")[0] if r.stdout else ""
    except Exception:
        return ""
    finally:
        os.unlink(n)


def prove(o, axioms, ms, deep=True):
    """-> (proved, backend, seconds)"""
    t = time.time()
    if z3.is_true(o.goal):
        return True, "simplifier", 0.0
    bg = background(o.pc + [o.goal], axioms)
    cfgs = CONFIGS if deep else CONFIGS[:1]
    last = None
    budget = [ms, ms, ms / 2, ms] if deep else [ms]
    for c, b in zip(cfgs, budget):
        r, s = run_z3(o.pc, o.goal, bg, b, c)
        last = s
        if r == z3.unsat:
            return True, "z3", time.time() - t
        # without mbqi "unknown/sat" after quick saturation means the instances do not suffice
    if deep and deep != "z3" and last is not None:
        if cvc5(last, ms) == "unsat":
            return True, "cvc5", time.time() - t
    return False, "", time.time() - t


def discharge(obls, axioms, ms, deep=True, workers=8):
    """-> list of (proved, backend, secs) parallel to obls"""
    res = [None] * len(obls)
    todo = []
    for i, o in enumerate(obls):
        if z3.is_true(o.goal):
            res[i] = (True, "simplifier", 0.0)
        else:
            todo.append(i)
    if not todo:
        return res
    sem = semaphore()
    n = max(1, min(workers, len(todo)))
    ctr = mp.Value("i", 0)
    pipes = []
    for w in range(n):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                out = os.fdopen(wr, "w")
                while True:
                    with ctr.get_lock():
                        k = ctr.value
                        ctr.value += 1
                    if k >= len(todo):
                        break
                    i = todo[k]
                    with sem:
                        try:
                            p = prove(obls[i], axioms, ms if obls[i].kind not in ("reach", "reach-exit") else 1500,
                                      deep and obls[i].kind not in ("reach", "reach-exit"))
                        except z3.Z3Exception as e:
                            p = (False, "error: %s" % e, 0.0)
                    out.write(json.dumps([i, p]) + "\n")
                    out.flush()
                out.close()
            except BaseException:
                code = 1
            finally:
                os._exit(code)
        os.close(wr)
        pipes.append((pid, os.fdopen(r)))
    for pid, f in pipes:
        for ln in f:
            i, p = json.loads(ln)
            res[i] = tuple(p)
        f.close()
        os.waitpid(pid, 0)
    for i in range(len(res)):
        if res[i] is None:
            res[i] = (False, "solver died", 0.0)
    return res
