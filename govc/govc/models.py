"""Models of external functions whose effect on the program state matters."""
import z3
from .logic import *
from .exec3 import *
from .exec3 import Full as _Full

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def ret(st, *vs):
    return [(st, "ret", list(vs))]


def panic(V, st, why):
    return [(st, "panic", V.pv(st, why))]


def split(V, st, cond, why, good):
    """panic unless cond"""
    ok, bad = V.guard(st, cond, why)
    outs = []
    if bad is not None:
        outs += panic(V, bad, why)
    if ok is not None:
        outs += good(ok)
    return outs


def ptr(V, v, tid):
    """address of what a pointer-typed argument points to"""
    et = V.ir.under(tid)["elem"]
    return (v if isinstance(v, VAddr) else V.as_addr(v, et)), et


# ---- fmt / errors / strings
def variadic(V, st, sl, et):
    n = z3.simplify(sl.len)
    if not z3.is_int_value(n):
        return None
    return [V.readelem(st, et, "", "Any", sl.arr, z3.IntVal(i)) for i in range(n.as_long())]


@model("fmt.Errorf")
def errorf(V, st, fr, args, atids, sig, pos):
    e = V.fresh_error(st)
    xs = variadic(V, st, args[1], V.ir.ANY)
    if xs:
        V.say(st, e, xs, False)
    return ret(st, e)


@model("errors.New")
def errnew(V, st, fr, args, atids, sig, pos):
    e = V.fresh_error(st)
    s = args[0]
    st.add(mentionsA(e, s))
    w = z3.FreshConst(Str, "w")
    st.add(z3.ForAll([w], z3.Implies(mentionsS(s, w), mentionsA(e, w)), patterns=[mentionsS(s, w)]))
    return ret(st, e)


@model("fmt.Sprintf")
def sprintf(V, st, fr, args, atids, sig, pos):
    xs = variadic(V, st, args[1], V.ir.ANY)
    if xs is not None:
        f = fn("X:Sprintf%d" % len(xs), *([Str] + [Any] * len(xs) + [Str]))
        r = f(args[0], *xs)
        V.say(st, r, xs, True)
    else:
        r = V.new("text", "Str")
    return ret(st, r)


@model("strings.Join")
def join(V, st, fr, args, atids, sig, pos):
    a = args[0]
    c = V.elems(st, a, V.ir.STRING)
    r = fn("X:strings.Join", c.sort(), Int, Str, Str)(c, a.len, args[1])
    j, w = z3.FreshConst(Int, "j"), z3.FreshConst(Str, "w")
    st.add(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < a.len), mentionsS(r, z3.Select(c, j))), patterns=[z3.Select(c, j)]))
    n = z3.simplify(a.len)
    if z3.is_int_value(n):
        for i in range(min(n.as_long(), 16)):
            st.add(mentionsS(r, z3.simplify(z3.Select(c, i))))
    return ret(st, r)


@model("path/filepath.Join", "path.Join")
def pathjoin(V, st, fr, args, atids, sig, pos):
    a = args[0]
    n = z3.simplify(a.len)
    if z3.is_int_value(n) and n.as_long() <= 8:
        xs = [V.readelem(st, V.ir.STRING, "", "Str", a.arr, z3.IntVal(i)) for i in range(n.as_long())]
        r = xs[0] if xs else strlit("")
        if len(xs) != 1:
            r = fn("X:filepath.Join%d" % len(xs), *([Str] * (len(xs) + 1)))(*xs)
        else:
            r = fn("X:filepath.Clean", Str, Str)(r)
        V.externs_used["path/filepath.Join"] = "pure function"
        return ret(st, r)
    c = V.elems(st, a, V.ir.STRING)
    return ret(st, fn("X:filepath.Join", c.sort(), Int, Str)(c, a.len))


@model("sort.Strings", "slices.Sort")
def sortstrings(V, st, fr, args, atids, sig, pos):
    a = args[0]
    et = V.ir.under(atids[0])["elem"]
    (suf, so), = V.ir.leaves(et)
    key = V.ekey(et) + suf
    h = V.hget(st, key, z3.ArraySort(Int, z3.ArraySort(Int, sort(so))))
    arr = a.arr
    if not (z3.is_app(arr) and z3.is_const(arr) and arr.decl().name() in V.fresh_refs):
        # sorting an empty slice writes nothing
        arr = V.new("sortedarr", "Int")
        st.add(arr == z3.If(a.cap == 0, 0, a.arr))
        b = V.birth(a.arr)
        if b:
            V.births[arr.decl().name()] = b
    old = V.peel(h, arr)
    if old is None:
        old = z3.Select(h, arr)
    if arr is not a.arr:
        st.add(z3.Implies(a.cap > 0, old == z3.Select(h, a.arr)))
    new = V.new("sorted", old.sort())
    V.serial += 1
    to = V.new("perm", z3.ArraySort(Int, Int))
    fro = V.new("perminv", z3.ArraySort(Int, Int))
    j, k = z3.FreshConst(Int, "j"), z3.FreshConst(Int, "k")
    inr = lambda x: z3.And(x >= 0, x < a.len)
    st.add(z3.ForAll([j], z3.Implies(inr(j), z3.And(inr(z3.Select(fro, j)), z3.Select(new, j) == z3.Select(old, z3.Select(fro, j)),
                                                    z3.Select(to, z3.Select(fro, j)) == j)), patterns=[z3.Select(new, j)]))
    st.add(z3.ForAll([j], z3.Implies(inr(j), z3.And(inr(z3.Select(to, j)), z3.Select(old, j) == z3.Select(new, z3.Select(to, j)),
                                                    z3.Select(fro, z3.Select(to, j)) == j)), patterns=[z3.Select(old, j)]))
    st.add(z3.ForAll([j], z3.Implies(z3.Not(inr(j)), z3.Select(new, j) == z3.Select(old, j)), patterns=[z3.Select(new, j)]))
    if so == "Str":
        st.add(z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < a.len), z3.Not(strlt(z3.Select(new, k), z3.Select(new, j)))),
                         patterns=[z3.MultiPattern(z3.Select(new, j), z3.Select(new, k))]))
    V.hset(st, key, z3.Store(h, arr, new), arr)
    if arr is not a.arr:
        st.add(z3.Implies(a.cap > 0, z3.Select(V.hget(st, key), a.arr) == new))
    return ret(st)


# ---- sync
@model("(*sync.Once).Do")
def once(V, st, fr, args, atids, sig, pos):
    a, et = ptr(V, args[0], atids[0])

    def go(st):
        done = V.load(st, a, et)
        outs = []
        s2 = st.copy()
        s2.add(done)
        if V.feasible(s2):
            outs += ret(s2)
        st.add(z3.simplify(z3.Not(done)))
        if V.feasible(st):
            f = args[1] if isinstance(args[1], VFn) else VFn(args[1])
            for (s, kind, v) in V.invoke(st, fr, ("dyn", f, atids[1], {"results": [], "params": []}, []), [], pos + "#do", pos):
                V.store(s, a, z3.BoolVal(True), et)
                outs.append((s, kind, [] if kind == "ret" else v))
        return outs
    return split(V, st, V.nonnil_addr(st, a), "nil *sync.Once", go)


def lockref(V, st, v, tid):
    a, et = ptr(V, v, tid)
    return V.addr_term(st, a)


@model("(*sync.Mutex).Lock", "(*sync.RWMutex).Lock")
def lock(V, st, fr, args, atids, sig, pos):
    r = lockref(V, st, args[0], atids[0])
    if "held" in V.specs.ghosts:
        h = V.ghost(st, "held")
        V.oblige(st, "lock at %s is not already held (self-deadlock)" % pos, z3.Not(z3.Select(h, r)), "C16", "requires", pos) if V.active is None or "C16" in V.active else None
        V.hset(st, "g:held", z3.Store(V.ghost(st, "held"), r, z3.BoolVal(True)), r)
        for f in V.onlock:
            f(V, st, args[0], r)
    return ret(st)


@model("(*sync.Mutex).TryLock")
def trylock(V, st, fr, args, atids, sig, pos):
    r = lockref(V, st, args[0], atids[0])
    s2 = st.copy()
    outs = ret(s2, z3.BoolVal(False))
    return outs + [(s, k, [z3.BoolVal(True)]) for s, k, v in lock(V, st, fr, args, atids, sig, pos)]


@model("(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock")
def unlock(V, st, fr, args, atids, sig, pos):
    r = lockref(V, st, args[0], atids[0])
    if "held" in V.specs.ghosts:
        h = V.ghost(st, "held")
        if V.active is None or "C16" in V.active:
            V.oblige(st, "unlock at %s of a held lock" % pos, z3.Select(h, r), "C16", "requires", pos)
        V.hset(st, "g:held", z3.Store(h, r, z3.BoolVal(False)), r)
    return ret(st)


@model("(*go.uber.org/atomic.Int64).Inc", "(*go.uber.org/atomic.Int64).Dec", "(*go.uber.org/atomic.Int64).Add",
       "(*go.uber.org/atomic.Int64).Sub", "(*go.uber.org/atomic.Int64).Load", "(*go.uber.org/atomic.Int64).Store")
def uber(V, st, fr, args, atids, sig, pos, name=None):
    raise Unsupported("uber")


def uberop(op):
    def f(V, st, fr, args, atids, sig, pos):
        a, et = ptr(V, args[0], atids[0])

        def go(st):
            cur = V.load(st, a, et)
            if op == "Load":
                return ret(st, cur)
            n = {"Inc": lambda: cur + 1, "Dec": lambda: cur - 1, "Add": lambda: cur + args[1], "Sub": lambda: cur - args[1],
                 "Store": lambda: args[1]}[op]()
            V.store(st, a, n, et)
            if "decs" in V.specs.ghosts and z3.is_expr(getattr(a, "ref", None)):
                d = V.ghost(st, "decs")
                delta = cur - n if op != "Store" else None
                if delta is None:
                    raise Unsupported("store to a reference counter")
                V.hset(st, "g:decs", z3.Store(d, a.ref, z3.simplify(z3.Select(d, a.ref) + z3.simplify(delta))), a.ref)
                for g in V.onrefs:
                    g(V, st, a.ref, op, cur, n, pos)
            return ret(st) if op == "Store" else ret(st, n)
        return split(V, st, V.nonnil_addr(st, a), "nil *atomic.Int64", go)
    return f


for _op in ("Inc", "Dec", "Add", "Sub", "Load", "Store"):
    MODELS["(*go.uber.org/atomic.Int64)." + _op] = uberop(_op)


@model("go.uber.org/atomic.NewInt64")
def newint64(V, st, fr, args, atids, sig, pos):
    r = V.new_ref(st, "refs")
    t = sig["results"][0]
    et = V.ir.under(t)["elem"]
    V.store(st, V.as_addr(r, et), args[0], et)
    if "decs" in V.specs.ghosts:
        st.add(z3.Select(V.ghost(st, "decs"), r) == 0)
    return ret(st, r)


@model("sync/atomic.AddInt64", "sync/atomic.AddInt32", "sync/atomic.AddUint64")
def addint(V, st, fr, args, atids, sig, pos):
    a, et = ptr(V, args[0], atids[0])
    n = V.load(st, a, et) + args[1]
    V.store(st, a, n, et)
    return ret(st, n)


@model("sync/atomic.LoadInt64", "sync/atomic.LoadInt32")
def loadint(V, st, fr, args, atids, sig, pos):
    a, et = ptr(V, args[0], atids[0])
    return ret(st, V.load(st, a, et))


@model("sync/atomic.StoreInt64", "sync/atomic.StoreInt32")
def storeint(V, st, fr, args, atids, sig, pos):
    a, et = ptr(V, args[0], atids[0])
    V.store(st, a, args[1], et)
    return ret(st)


AV = "Op:sync/atomic.Value"
avload = z3.Function("atomic.Value.content", sort(AV), Any)


@model("(*sync/atomic.Value).Load")
def avl(V, st, fr, args, atids, sig, pos):
    a, et = ptr(V, args[0], atids[0])
    return split(V, st, V.nonnil_addr(st, a), "nil", lambda s: ret(s, avload(V.load(s, a, et))))


@model("(*sync/atomic.Value).Store", "(*sync/atomic.Value).Swap")
def avs(V, st, fr, args, atids, sig, pos):
    a, et = ptr(V, args[0], atids[0])
    v = args[1]

    def go(st):
        old = avload(V.load(st, a, et))
        n = V.new("atomicval", AV)
        st.add(avload(n) == v)
        V.store(st, a, n, et)
        for f in V.onpublish:
            f(V, st, a, old, v, pos)
        return ret(st, old) if sig["results"] else ret(st)

    def chk(st):
        old = avload(V.load(st, a, et))
        return split(V, st, z3.Or(old == anil, typeof(old) == typeof(v)), "sync/atomic: store of inconsistently typed value", go)
    return split(V, st, v != anil, "sync/atomic: store of nil value into Value", chk)


@model("time.Sleep")
def sleep(V, st, fr, args, atids, sig, pos):
    if "slept" in V.specs.ghosts:
        d = args[0]
        V.hset(st, "g:slept", V.ghost(st, "slept") + z3.If(d > 0, d, 0), None)
    return ret(st)


@model("os.Exit", "runtime.Goexit", "log.Fatal")
def osexit(V, st, fr, args, atids, sig, pos):
    V.assume_note("os.Exit ends the program")
    return []


# ---- reflect
def rv_facts(V, st, r, x):
    st.add(rvany(r) == x)
    st.add(z3.Implies(x != anil, z3.And(rvtype(r) == rtype(typeof(x)), rvtype(r) != anil, rvkind(r) == rtkind(rtype(typeof(x))),
                                        rvkind(r) >= 1, rvkind(r) <= 26, rvkind(r) != 20)))
    st.add(z3.Implies(x == anil, rvkind(r) == 0))
    st.add(isnilA(x) == z3.Or(x == anil, z3.And(z3.Or([rvkind(r) == k for k in NILABLE]), rvisnil(r))))
    st.add(rtag(rtype(typeof(x))) == typeof(x))


@model("reflect.ValueOf")
def valueof(V, st, fr, args, atids, sig, pos):
    x = args[0]
    r = rvof(x)
    rv_facts(V, st, r, x)
    return ret(st, r)


@model("reflect.TypeOf")
def rtypeof(V, st, fr, args, atids, sig, pos):
    x = args[0]
    t = rtype(typeof(x))
    st.add(t != anil)
    st.add(rtag(t) == typeof(x))
    if z3.is_app(x) and x.decl().name().startswith("box:"):
        return ret(st, t)
    return ret(st, z3.If(x == anil, anil, t))


def structloc(V, r):
    """the program location a reflect.Value structurally denotes, if known"""
    if z3.is_app(r) and r.decl().eq(rvelem):
        q = r.arg(0)
        if z3.is_app(q) and q.decl().eq(rvof):
            x = q.arg(0)
            if z3.is_app(x) and x.decl().name().startswith("box:*") and x.num_args() == 1:
                p = x.arg(0)
                reg = getattr(V, "addrreg", {})
                if z3.is_app(p) and p.decl().name() in reg:
                    a = reg[p.decl().name()]
                    ref = p.arg(0) if p.num_args() > 0 else a.ref
                    idx = p.arg(1) if p.num_args() > 1 else a.idx
                    return VAddr(a.kind, a.key, a.tid, ref, idx)
    return None


@model("(reflect.Value).Kind")
def rvk(V, st, fr, args, atids, sig, pos):
    r = args[0]
    st.add(z3.And(rvkind(r) >= 0, rvkind(r) <= 26))
    return ret(st, rvkind(r))


@model("(reflect.Value).IsValid")
def rvvalid(V, st, fr, args, atids, sig, pos):
    return ret(st, rvkind(args[0]) != 0)


@model("(reflect.Value).CanInterface")
def rvci(V, st, fr, args, atids, sig, pos):
    return ret(st, z3.BoolVal(True))


@model("(reflect.Value).IsNil")
def rvin(V, st, fr, args, atids, sig, pos):
    r = args[0]
    a = structloc(V, r)
    if a is not None:
        return ret(st, V.is_nil(V.load(st, a, a.tid)))
    return split(V, st, z3.Or([rvkind(r) == k for k in NILABLE]), "reflect: IsNil of non-nilable value", lambda s: ret(s, rvisnil(r)))


@model("(reflect.Value).Type")
def rvt(V, st, fr, args, atids, sig, pos):
    r = args[0]

    def go(s):
        s.add(rvtype(r) != anil)
        s.add(rtkind(rvtype(r)) == rvkind(r))
        return ret(s, rvtype(r))
    return split(V, st, rvkind(r) != 0, "reflect: Type of zero Value", go)


@model("(reflect.Value).Elem")
def rve(V, st, fr, args, atids, sig, pos):
    r = args[0]

    def go(s):
        e = rvelem(r)
        isnil = rvisnil(r)
        a = structloc(V, e)
        if a is not None:
            s.add(rvtype(e) == rtype(V.tagof(a.tid)))
            s.add(rvkind(e) == V.kindno(a.tid))
            return ret(s, e)
        s.add(z3.Implies(z3.And(rvkind(r) == 22, isnil), rvkind(e) == 0))
        s.add(z3.Implies(z3.And(rvkind(r) == 22, z3.Not(isnil)), z3.And(rvtype(e) == rtelem(rvtype(r)), rvtype(e) != anil,
                                                                      rvkind(e) == rtkind(rvtype(e)), rvkind(e) >= 1, rvkind(e) <= 26)))
        s.add(rvloc(e) == locof(rvany(r)))
        return ret(s, e)
    return split(V, st, z3.Or(rvkind(r) == 22, rvkind(r) == 20), "reflect: Elem of a value that is no pointer", go)


@model("(reflect.Value).Interface")
def rvi(V, st, fr, args, atids, sig, pos):
    r = args[0]
    a = structloc(V, r)
    if a is not None:
        v = V.load(st, a, a.tid)
        return ret(st, V.box(st, v, a.tid))
    if z3.is_app(r) and r.decl().eq(rvof):
        return split(V, st, rvkind(r) != 0, "reflect: Interface of zero Value", lambda s: ret(s, r.arg(0)))
    if "rmem" in V.specs.ghosts and z3.is_app(r) and (r.decl().eq(rvelem) or r.decl().eq(rvfield)):
        return ret(st, z3.Select(V.ghost(st, "rmem"), rvloc(r)))
    return split(V, st, rvkind(r) != 0, "reflect: Interface of zero Value", lambda s: ret(s, rvany(r)))


@model("(reflect.Value).NumField")
def rvnf(V, st, fr, args, atids, sig, pos):
    r = args[0]

    def go(s):
        s.add(rtnum(rvtype(r)) >= 0)
        return ret(s, rtnum(rvtype(r)))
    return split(V, st, rvkind(r) == 25, "reflect: NumField of non-struct value", go)


@model("(reflect.Value).Field")
def rvf(V, st, fr, args, atids, sig, pos):
    r, i = args

    def go(s):
        f = rvfield(r, i)
        s.add(rvloc(f) == locfield(rvloc(r), i))
        s.add(rvtype(f) == fn("reflect.StructField.Type", Any, Int, Any)(rvtype(r), i))
        s.add(rvkind(f) >= 1)
        return ret(s, f)
    return split(V, st, z3.And(rvkind(r) == 25, i >= 0, i < rtnum(rvtype(r))), "reflect: Field index out of range", go)


@model("(reflect.Value).CanSet")
def rvcs(V, st, fr, args, atids, sig, pos):
    return ret(st, fn("reflect.CanSet", sort(RV), Bool)(args[0]))


def exported(t, i):
    """is field i of struct type t exported (PkgPath empty)?"""
    return fn("reflect.StructField.PkgPath", Any, Int, Str)(t, i) == strlit("")


@model("(reflect.Value).Set")
def rvset(V, st, fr, args, atids, sig, pos):
    r, v = args
    a = structloc(V, r)
    # the value stored
    if z3.is_app(v) and v.decl().eq(rvof):
        x = v.arg(0)
    else:
        (st0, k, xs), = [o for o in rvi(V, st, fr, [v], atids, sig, pos) if o[1] == "ret"]
        x = xs[0]
    ok = rvkind(v) != 0
    if z3.is_app(r) and r.decl().eq(rvfield):
        ok = z3.And(ok, exported(rvtype(r.arg(0)), r.arg(1)))
    elif not (z3.is_app(r) and r.decl().eq(rvelem)):
        ok = z3.BoolVal(False)      # not addressable
    if a is not None:
        def go(s):
            if V.ir.under(a.tid)["kind"] == "iface":
                V.store(s, a, x, a.tid)
            else:
                V.store(s, a, V.unbox(s, x, a.tid), a.tid)
            return ret(s)
        ok = z3.And(ok, assignable(rvtype(v), rtype(V.tagof(a.tid))))
        return split(V, st, ok, "reflect: Set of unassignable value", go)
    ok = z3.And(ok, rvkind(r) != 0, assignable(rvtype(v), rvtype(r)))

    def go2(s):
        if "rmem" in V.specs.ghosts:
            h = V.ghost(s, "rmem")
            V.hset(s, "g:rmem", z3.Store(h, rvloc(r), x), rvloc(r))
        return ret(s)
    return split(V, st, ok, "reflect: Set of unassignable value", go2)


@model("(reflect.StructTag).Lookup")
def taglookup(V, st, fr, args, atids, sig, pos):
    t, k = args
    ok = fn("reflect.StructTag.has", Str, Str, Bool)(t, k)
    v = fn("X:(reflect.StructTag).Get#0", Str, Str, Str)(t, k)
    st.add(z3.Implies(z3.Not(ok), v == strlit("")))
    return ret(st, v, ok)


class Machine(_Full):
    def __init__(self, *a, **k):
        _Full.__init__(self, *a, **k)
        self.models = dict(MODELS)
        self.onlock, self.onrefs, self.onpublish = [], [], []
        self.addrreg = {}

    def as_addr(self, v, tid):
        if z3.is_expr(v) and z3.is_app(v):
            a = self.addrreg.get(v.decl().name())
            if a is not None and v.num_args() in (0, 1, 2) and (v.num_args() > 0 or a.kind in ("glob", "cell")):
                ref = v.arg(0) if v.num_args() > 0 else a.ref
                idx = v.arg(1) if v.num_args() > 1 else a.idx
                return VAddr(a.kind, a.key, a.tid, ref, idx)
        return _Full.as_addr(self, v, tid)
