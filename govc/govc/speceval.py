"""Evaluation of contract expressions in a symbolic state."""
import z3
from .logic import *


class Ctx:
    def __init__(self, ver, st, old=None, env=None, pkg=None, atloop=None, depth=0):
        self.ver, self.st, self.old = ver, st, old
        self.env = env or {}
        self.pkg, self.atloop, self.depth = pkg, atloop, depth
        self.qfacts = None

    def with_(self, **kw):
        c = Ctx(self.ver, self.st, self.old, self.env, self.pkg, self.atloop, self.depth)
        for k, v in kw.items():
            setattr(c, k, v)
        return c


class SpecError(Exception):
    pass


def resolve(ver, s, pkg):
    """Go type string in a spec -> tid or ('ghost', k, v)"""
    key = (s, pkg)
    if key in ver._rcache:
        return ver._rcache[key]
    r = _resolve(ver, s, pkg)
    ver._rcache[key] = r
    return r


def _resolve(ver, s, pkg):
    ir = ver.ir
    if s.startswith("ghost["):
        d, i = 1, 6
        while d:
            d += {"[": 1, "]": -1}.get(s[i], 0)
            i += 1
        return ("ghost", resolve(ver, s[6:i - 1], pkg), resolve(ver, s[i:], pkg))
    if s == "any":
        return ir.ANY
    if s in ("ref", "fn"):
        return ("raw", {"ref": "Int", "fn": "Fn"}[s])
    return ir.tid(tstr(ver, s, pkg))


def tstr(ver, s, pkg):
    ir = ver.ir
    if s.startswith("*"):
        return "*" + tstr(ver, s[1:], pkg)
    if s.startswith("[]"):
        return "[]" + tstr(ver, s[2:], pkg)
    if s.startswith("["):
        n, _, r = s[1:].partition("]")
        return "[%s]%s" % (n, tstr(ver, r, pkg))
    if s.startswith("map["):
        d, i = 1, 4
        while d:
            d += {"[": 1, "]": -1}.get(s[i], 0)
            i += 1
        return "map[%s]%s" % (tstr(ver, s[4:i - 1], pkg), tstr(ver, s[i:], pkg))
    if s == "any":
        return ir.t(ir.ANY)["str"]
    if s in ("int", "bool", "string", "error", "byte", "uint8", "int64", "rune", "int32", "uint", "interface{}", "uint32", "uintptr", "struct{}"):
        return s
    if s == "func()":
        return s
    cand = (pkg + "." + s) if "." not in s else s
    if cand in ir.bystr:
        return cand
    if s in ir.bystr:
        return s
    for k in ir.bystr:
        if k.endswith("/" + s) and not k.startswith(("*", "[", "map", "func")):
            return k
    raise SpecError("unknown type %s" % s)


def sort_of(ver, tid):
    if isinstance(tid, tuple):
        if tid[0] == "ghost":
            return z3.ArraySort(sort_of(ver, tid[1]), sort_of(ver, tid[2]))
        return sort(tid[1])
    lv = ver.ir.leaves(tid)
    if len(lv) != 1:
        raise SpecError("binder of composite type %s" % ver.ir.t(tid)["str"])
    return sort(lv[0][1])


def is_ptr(ver, tid):
    return isinstance(tid, int) and ver.ir.under(tid)["kind"] in ("ptr", "map")


def mk(ver, tid, term):
    """wrap a single-leaf term as a value of type tid"""
    if isinstance(tid, int) and ver.ir.under(tid)["kind"] == "func":
        return VFn(term)
    return term


NIL = object()


def ev(c, e):
    """-> (value, tid)"""
    ver, ir = c.ver, c.ver.ir
    k = e[0]
    if k == "num":
        return z3.IntVal(e[1]), ir.INT
    if k == "str":
        return strlit(e[1]), ir.STRING
    if k == "id":
        n = e[1]
        if n in c.env:
            v, t = c.env[n]
            if isinstance(v, VAddr) and v.kind == "obj":
                return v.ref, t
            return v, t
        if n == "true":
            return z3.BoolVal(True), ir.BOOL
        if n == "false":
            return z3.BoolVal(False), ir.BOOL
        if n == "nil":
            return NIL, None
        if n in ver.specs.ghosts:
            ts, pkg = ver.specs.ghosts[n]
            t = resolve(ver, ts, pkg)
            return ver.ghost(c.st, n), t
        if n in ver.specs.logics:
            ps, r, pkg = ver.specs.logics[n]
            if not ps:
                rt = resolve(ver, r, pkg)
                return z3.Const("L!" + n, sort_of(ver, rt)), rt
        if n in ver.specs.preds:
            return ev(c, ("call", n, []))
        if n == "$alloc":
            return c.st.alloc, ir.INT
        if c.pkg and (c.pkg + "." + n) in ver.ir.globals:
            g = ver.ir.globals[c.pkg + "." + n]
            tid = ir.under(g["type"])["elem"]
            return ver.load(c.st, VAddr("glob", c.pkg + "." + n, tid), tid, quiet=True), tid
        raise SpecError("unknown name %s" % n)
    if k == "old":
        if c.old is None:
            raise SpecError("old() not available here")
        return ev(c.with_(st=c.old), e[1])
    if k == "atloop":
        if c.atloop is None:
            raise SpecError("atloop() not available here")
        return ev(c.with_(st=c.atloop), e[1])
    if k == "let":
        v = ev(c, e[2])
        env = dict(c.env)
        env[e[1]] = v
        return ev(c.with_(env=env), e[3])
    if k in ("and", "or"):
        xs = [bev(c, x) for x in e[1]]
        return (z3.And(xs) if k == "and" else z3.Or(xs)), ir.BOOL
    if k == "not":
        return z3.Not(bev(c, e[1])), ir.BOOL
    if k == "imp":
        return z3.Implies(bev(c, e[1]), bev(c, e[2])), ir.BOOL
    if k == "iff":
        return bev(c, e[1]) == bev(c, e[2]), ir.BOOL
    if k == "arith":
        a, _ = ev(c, e[2])
        b, t = ev(c, e[3])
        if t == ir.STRING and e[1] == "+":
            return strcat(a, b), t
        return {"+": a + b, "-": a - b, "*": a * b}[e[1]], ir.INT
    if k == "cmp":
        op = e[1]
        if op == "in":
            a, at = ev(c, e[2])
            m, mt = ev(c, e[3])
            if a is NIL:
                a = z3.IntVal(0)
            if isinstance(mt, tuple):
                return z3.Select(m, a), ir.BOOL
            if ir.under(mt)["kind"] == "map":
                return ver.map_has(c.st, mt, m, a), ir.BOOL
            raise SpecError("in: not a map")
        a, at = ev(c, e[2])
        b, bt = ev(c, e[3])
        if op in ("==", "!="):
            r = equal(c, a, at, b, bt)
            return (r if op == "==" else z3.Not(r)), ir.BOOL
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op], ir.BOOL
    if k in ("forall", "exists"):
        env = dict(c.env)
        vs, guards = [], []
        for (n, ts) in e[1]:
            t = resolve(ver, ts, c.pkg)
            v = z3.FreshConst(sort_of(ver, t), n)
            vs.append(v)
            BOUND.add(v.decl().name())
            env[n] = (mk(ver, t, v), t)
            if is_ptr(ver, t):
                guards.append(v > 0)
        c2 = c.with_(env=env)
        memo = {}
        body = ver.nice(bev(c2, e[3]), memo)
        pats = []
        for ts in e[2]:
            tt = [pattern_term(c2, x) for x in ts]
            tt = [ver.nice(x, memo) for x in tt]
            pats.append(z3.MultiPattern(*tt) if len(tt) > 1 else tt[0])
        if k == "forall":
            b = z3.Implies(z3.And(guards), body) if guards else body
            if not pats:
                pats = auto_patterns(vs, b)
            try:
                return z3.ForAll(vs, b, patterns=pats), ir.BOOL
            except z3.Z3Exception:
                return z3.ForAll(vs, b), ir.BOOL
        b = z3.And(guards + [body]) if guards else body
        if not pats:
            pats = auto_patterns(vs, b)
        try:
            return z3.Exists(vs, b, patterns=pats), ir.BOOL
        except z3.Z3Exception:
            return z3.Exists(vs, b), ir.BOOL
    if k == "sel":
        # qualified global / package function?
        v, t = ev(c, e[1])
        return field(c, v, t, e[2])
    if k == "idx":
        v, t = ev(c, e[1])
        i, it = ev(c, e[2])
        if isinstance(t, tuple):
            return z3.Select(v, term_of(i)), t[2]
        u = ir.under(t)
        if u["kind"] == "slice":
            et = u["elem"]
            return ver.load(c.st, VAddr("elem", ver.ekey(et), et, v.arr, i), et, quiet=True), et
        if u["kind"] == "array":
            if isinstance(v, VStruct):
                raise SpecError("array value")
            return z3.Select(v, i), u["elem"]
        if u["kind"] == "map":
            return ver.map_get(c.st, t, v, i), u["elem"]
        if u["kind"] == "basic":
            return strat(v, i), ir.INT
        raise SpecError("index of %s" % u["str"])
    if k == "upd":
        v, t = ev(c, e[1])
        i, _ = ev(c, e[2])
        w, _ = ev(c, e[3])
        return z3.Store(v, i, w), t
    if k == "call":
        return call(c, e[1], e[2])
    raise SpecError("expr %r" % (e,))


def auto_patterns(vs, body):
    """pick triggers: the smallest select/UF terms that cover the bound variables;
    returns a list of patterns (each single- or multi-term)"""
    ids = {v.get_id(): i for i, v in enumerate(vs)}
    cands = []
    memo = {}

    def walk(x):
        i = x.get_id()
        if i in memo:
            return memo[i]
        if i in ids:
            memo[i] = frozenset([ids[i]])
            return memo[i]
        if z3.is_quantifier(x):
            memo[i] = None
            return None
        cs = x.children()
        s = frozenset()
        bad = False
        for ch in cs:
            w = walk(ch)
            if w is None:
                bad = True
            else:
                s |= w
        if bad:
            memo[i] = None
            return None
        if cs and s:
            dk = x.decl().kind()
            good = dk in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED)
            if good:
                cands.append((x, s))
            elif dk in (z3.Z3_OP_STORE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_EQ, z3.Z3_OP_LE,
                        z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_ITE, z3.Z3_OP_IFF):
                # terms below stay candidates, but such a term is no trigger part
                memo[i] = None if dk != z3.Z3_OP_STORE else s
                return memo[i]
            elif dk in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
                memo[i] = None       # no arithmetic inside triggers
                return None
        memo[i] = s
        return s

    walk(body)
    if not cands:
        return []
    full = frozenset(range(len(vs)))
    # minimal candidates: those not containing a smaller candidate with the same variables
    uniq = {}
    for x, s in cands:
        uniq[x.get_id()] = (x, s)
    cl = list(uniq.values())

    def contains(a, b):
        st, seen = list(a.children()), set()
        while st:
            y = st.pop()
            if y.get_id() in seen:
                continue
            seen.add(y.get_id())
            if y.eq(b):
                return True
            st.extend(y.children())
        return False
    minimal = [(x, s) for x, s in cl if not any(y is not x and t == s and contains(x, y) for y, t in cl)]
    single = [x for x, s in minimal if s == full]
    if single:
        return single[:6]
    # greedy multi-pattern
    got, out = frozenset(), []
    for x, s in sorted(minimal, key=lambda p: -len(p[1])):
        if not s <= got:
            out.append(x)
            got |= s
        if got == full:
            return [z3.MultiPattern(*out)] if len(out) > 1 else out
    return []


def pattern_term(c, x):
    v, t = ev(c, x)
    v = term_of(v)
    if isinstance(v, VSlice):
        v = v.arr
    return v


def field(c, v, t, name):
    ver, ir = c.ver, c.ver.ir
    if isinstance(v, VStruct):
        p = ir.find_field(v.tid, name)
        for i in p:
            t = ir.fields(v.tid)[i]["type"]
            v = v.fs[i]
            if not isinstance(v, VStruct) and i != p[-1]:
                raise SpecError("path")
        return v, t
    u = ir.under(t)
    if u["kind"] == "ptr":
        st = u["elem"]
        a = ver.as_addr(v, st)
    else:
        raise SpecError("field %s of %s" % (name, u["str"]))
    p = ir.find_field(st, name)
    if p is None:
        raise SpecError("no field %s in %s" % (name, ir.t(st)["str"]))
    for j, i in enumerate(p):
        a, ft = ver.field_addr(a, st, i)
        if j + 1 < len(p) and ir.under(ft)["kind"] == "ptr":
            v = ver.load(c.st, a, ft, quiet=True)
            st = ir.under(ft)["elem"]
            a = ver.as_addr(v, st)
        else:
            st = ft
    return ver.load(c.st, a, st, quiet=True), st


def bev(c, e):
    v, t = ev(c, e)
    if not z3.is_expr(v) or not z3.is_bool(v):
        raise SpecError("not a boolean: %r" % (e,))
    return v


def equal(c, a, at, b, bt):
    ver = c.ver
    if a is NIL and b is NIL:
        return z3.BoolVal(True)
    if a is NIL:
        a, b, at, bt = b, a, bt, at
    if b is NIL:
        return ver.is_nil(a)
    return ver.equal(a, b)


def call(c, name, args):
    ver, ir = c.ver, c.ver.ir
    sp = ver.specs
    if name in sp.preds:
        ps, body, pkg = sp.preds[name]
        if c.depth > 40:
            raise SpecError("recursive pred " + name)
        env = {}
        for (n, ts), a in zip(ps, args):
            v, t = ev(c, a)
            rt = resolve(ver, ts, pkg)
            if v is NIL:
                v = ver.zero_of(rt) if isinstance(rt, int) else zero(rt[1])
            env[n] = (v, rt)
        if len(ps) != len(args):
            raise SpecError("arity of " + name)
        return ev(c.with_(env=env, pkg=pkg, depth=c.depth + 1), body)
    if name in sp.logics:
        ps, r, pkg = sp.logics[name]
        ts = [resolve(ver, p, pkg) for p in ps]
        rt = resolve(ver, r, pkg)
        vs, sorts = [], []
        for a, t in zip(args, ts):
            v, _ = ev(c, a)
            if v is NIL:
                v = ver.zero_of(t) if isinstance(t, int) else zero(t[1])
            if isinstance(t, tuple):
                lv = [term_of(v)]
            else:
                lv = ver.to_leaves(c.st, v, t, quiet=True)
            vs += lv
            sorts += [x.sort() for x in lv]
        f = fn("L!" + name, *sorts, sort_of(ver, rt))
        return mk(ver, rt, f(*vs)), rt
    vals = None
    if name == "len":
        v, t = ev(c, args[0])
        if isinstance(v, VSlice):
            return v.len, ir.INT
        u = ir.under(t)
        if u["kind"] == "map":
            return ver.map_card(c.st, t, v), ir.INT
        if u["kind"] == "basic":
            return strlen(v), ir.INT
        raise SpecError("len")
    if name == "cap":
        return ev(c, args[0])[0].cap, ir.INT
    if name == "arr":
        return ev(c, args[0])[0].arr, ("raw", "Int")
    if name == "fresh":
        v, t = ev(c, args[0])
        if isinstance(v, VSlice):
            v = v.arr
        return v >= (c.old or c.st).alloc, ir.BOOL
    if name == "freshloop":
        v, t = ev(c, args[0])
        if isinstance(v, VSlice):
            v = v.arr
        return v >= c.atloop.alloc, ir.BOOL
    if name == "allocated":
        v, t = ev(c, args[0])
        if isinstance(v, VSlice):
            v = v.arr
        return z3.And(v >= 0, v < c.st.alloc), ir.BOOL
    if name == "ite":
        b = bev(c, args[0])
        x, t = ev(c, args[1])
        y, _ = ev(c, args[2])
        return z3.If(b, x, y), t
    if name == "dom":
        v, t = ev(c, args[0])
        return ver.map_dom(c.st, t, v), ("ghost", ir.under(t)["key"], ir.BOOL)
    if name == "vals":
        v, t = ev(c, args[0])
        return ver.map_vals(c.st, t, v), ("ghost", ir.under(t)["key"], ir.under(t)["elem"])
    if name == "elems":
        v, t = ev(c, args[0])
        et = ir.under(t)["elem"]
        return ver.elems(c.st, v, et), ("ghost", ir.INT, et)
    if name == "seen":
        v, t = ev(c, args[0])
        return v, t
    if name == "typetag":
        v, t = ev(c, args[0])
        return typeof(v), ir.INT
    if name == "box":
        v, t = ev(c, args[0])
        return ver.box(c.st, v, t, quiet=True), ir.ANY
    if name == "mentions":
        a, at = ev(c, args[0])
        b, _ = ev(c, args[1])
        return (mentionsS(a, b) if at == ir.STRING else mentionsA(a, b)), ir.BOOL
    if name in ver.specfns:
        return ver.specfns[name](c, [ev(c, a) for a in args])
    raise SpecError("unknown function %s" % name)
