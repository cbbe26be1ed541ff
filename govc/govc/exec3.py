"""Builtins, interface and dynamic calls, externals and their models."""
import z3
from .logic import *
from . import speceval
from .speceval import Ctx, SpecError, NIL
from .exec2 import Engine, lab
from .exec import State

RV = "Op:reflect.Value"
isnilA = z3.Function("isnil", Any, Bool)
anyref = z3.Function("anyref", Any, Int)

KINDS = {"bool": 1, "int": 2, "int8": 3, "int16": 4, "int32": 5, "int64": 6, "uint": 7, "uint8": 8, "uint16": 9, "uint32": 10,
         "uint64": 11, "uintptr": 12, "float32": 13, "float64": 14, "complex64": 15, "complex128": 16, "string": 24,
         "unsafe.Pointer": 26, "Pointer": 26}
KK = {"array": 17, "chan": 18, "func": 19, "iface": 20, "map": 21, "ptr": 22, "slice": 23, "struct": 25}
NILABLE = (18, 19, 20, 21, 22, 23, 26)

rvof = z3.Function("reflect.ValueOf", Any, sort(RV))
rvany = z3.Function("reflect.Value.Interface", sort(RV), Any)
rvkind = z3.Function("reflect.Value.Kind", sort(RV), Int)
rvtype = z3.Function("reflect.Value.Type", sort(RV), Any)
rvisnil = z3.Function("reflect.Value.IsNil", sort(RV), Bool)
rvelem = z3.Function("reflect.Value.Elem", sort(RV), sort(RV))
rvfield = z3.Function("reflect.Value.Field", sort(RV), Int, sort(RV))
rvloc = z3.Function("reflect.loc", sort(RV), Int)
locof = z3.Function("loc", Any, Int)
locfield = z3.Function("locfield", Int, Int, Int)
rtype = z3.Function("rtype", Int, Any)
rtag = z3.Function("rtag", Any, Int)
rtkind = z3.Function("reflect.Type.Kind", Any, Int)
rtelem = z3.Function("reflect.Type.Elem", Any, Any)
rtnum = z3.Function("reflect.Type.NumField", Any, Int)
assignable = z3.Function("reflect.Type.AssignableTo", Any, Any, Bool)
tagget = z3.Function("reflect.StructTag.Get", Str, Str, Str)

PUREPKG = ("strings.", "path/filepath.", "path.", "strconv.", "unicode.", "unicode/utf8.", "bytes.", "(reflect.StructTag).",
           "(time.Duration).", "(time.Time).", "crypto/", "github.com/pierrec/xxHash", "(*regexp.Regexp).Match", "html.", "math.",
           "(*go/token.", "go/token.", "runtime.", "os.IsNotExist", "errors.Is", "errors.Unwrap", "hash/")
IMPURE = ("path/filepath.Walk", "path/filepath.Glob", "path/filepath.Abs", "path/filepath.EvalSymlinks", "runtime.Num", "strings.New",
          "bytes.New", "runtime.GC", "runtime.Gosched")


class Full(Engine):

    # ------------------------------------------------------------ builtins
    def builtin(self, st, fr, name, args, atids, sig, pos):
        R = lambda *v: [(st, "ret", list(v))]
        if name == "len":
            v, t = args[0], self.ir.under(atids[0])
            if isinstance(v, VSlice):
                return R(v.len)
            if t["kind"] == "map":
                self.map_nilfacts(st, atids[0], v)
                d = self.map_dom(st, atids[0], v)
                st.add(fn("setcard:%s" % d.sort().domain(), d.sort(), Int)(d) == self.map_card(st, atids[0], v))
                return R(self.map_card(st, atids[0], v))
            if t["kind"] == "basic":
                if z3.is_const(v):
                    for s, c in strlits().items():
                        if c.eq(v):
                            return R(z3.IntVal(len(s.encode())))
                st.add(strlen(v) >= 0)
                st.add((strlen(v) == 0) == (v == strlit("")))
                return R(strlen(v))
            if t["kind"] == "array":
                return R(z3.IntVal(t["len"]))
            if t["kind"] == "ptr":
                return R(z3.IntVal(self.ir.under(t["elem"])["len"]))
            n = self.new("len", "Int")
            st.add(n >= 0)
            return R(n)
        if name == "cap":
            v = args[0]
            if isinstance(v, VSlice):
                return R(v.cap)
            return R(self.new("cap", "Int"))
        if name == "append":
            return self.append(st, args, atids)
        if name == "copy":
            d, s = args
            if not isinstance(s, VSlice):
                et = self.ir.under(atids[0])["elem"]
                n = self.new("n", "Int")
                st.add(z3.And(n >= 0, n <= d.len))
                for suf, so in self.ir.leaves(et):
                    key = self.ekey(et) + suf
                    h = self.hget(st, key, z3.ArraySort(Int, z3.ArraySort(Int, sort(so))))
                    c = self.new("copied", z3.ArraySort(Int, sort(so)))
                    self.hset(st, key, z3.Store(h, d.arr, c), d.arr)
                return R(n)
            et = self.ir.under(atids[0])["elem"]
            n = self.new("n", "Int")
            st.add(n == z3.If(d.len < s.len, d.len, s.len))
            for suf, so in self.ir.leaves(et):
                key = self.ekey(et) + suf
                h = self.hget(st, key, z3.ArraySort(Int, z3.ArraySort(Int, sort(so))))
                c = self.new("copied", z3.ArraySort(Int, sort(so)))
                j = z3.FreshConst(Int, "j")
                src, dst = z3.Select(h, s.arr), z3.Select(h, d.arr)
                st.add(z3.ForAll([j], z3.Select(c, j) == z3.If(z3.And(j >= 0, j < n), z3.Select(src, j), z3.Select(dst, j)),
                                 patterns=[z3.Select(c, j)]))
                self.hset(st, key, z3.Store(h, d.arr, c), d.arr)
            return R(n)
        if name == "delete":
            m, k = args
            mt = atids[0]
            # deleting from a nil map is a no-op; the model writes to it only
            # when it is not nil
            nn = z3.simplify(self.nonnil_addr(st, m))
            if not z3.is_true(nn) and not self.quick(st, nn):
                s2 = st.copy()
                s2.add(m == 0)
                st.add(m != 0)
                self.map_delete(st, mt, m, k)
                return [(st, "ret", [])] + ([(s2, "ret", [])] if self.feasible(s2) else [])
            self.map_delete(st, mt, m, k)
            return R()
        if name == "recover":
            d = fr.deferrer
            p = st.pan.get(d) if d is not None else None
            if p is None:
                return R(anil)
            st.pan[d] = None
            st.tags["recovered!%d" % d] = True
            return R(p)
        if name in ("print", "println", "close"):
            return R()
        if name in ("min", "max"):
            a = args[0]
            for b in args[1:]:
                a = z3.If(a < b, a, b) if name == "min" else z3.If(a > b, a, b)
            return R(a)
        if name == "clear":
            raise Unsupported("clear")
        if name.startswith("ssa:"):
            return R(args[0])
        raise Unsupported("builtin " + name)

    def append(self, st, args, atids):
        s, t = args
        et = self.ir.under(atids[0])["elem"]
        if not isinstance(t, VSlice):
            # append([]byte, string...)
            r = self.new_array(st, et, zeroed=False)
            t = VSlice(r, strlen(t), strlen(t))
            st.add(t.len >= 0)
        tl = z3.simplify(t.len)
        n = tl.as_long() if z3.is_int_value(tl) else None
        if n == 0:
            return [(st, "ret", [s])]
        ln = z3.simplify(s.len + tl)
        # read the appended elements before writing
        items = []
        if n is not None and n <= 16:
            for j in range(n):
                items.append([self.readelem(st, et, suf, so, t.arr, z3.IntVal(j)) for suf, so in self.ir.leaves(et)])
        fits = z3.simplify(ln <= s.cap)
        newr = self.new_ref(st, "grown")
        narr = self.new("narr", "Int")
        ncap = self.new("ncap", "Int")
        scap = z3.simplify(s.cap)
        self.narr[narr.decl().name()] = (s.arr, newr)
        self.births[narr.decl().name()] = self.append_birth(st, s, ln, newr)
        st.add(z3.If(fits, z3.And(narr == s.arr, ncap == s.cap), z3.And(narr == newr, ncap >= ln)))
        st.add(narr > 0)
        st.add(narr < st.alloc)
        for li, (suf, so) in enumerate(self.ir.leaves(et)):
            key = self.ekey(et) + suf
            h = self.hget(st, key, z3.ArraySort(Int, z3.ArraySort(Int, sort(so))))
            base = self.peel(h, s.arr)
            if base is None:
                base = z3.Select(h, s.arr)
            if items:
                c = base
                for j, it in enumerate(items):
                    c = z3.Store(c, z3.simplify(s.len + j), it[li])
            elif n is None or n > 16:
                c = self.new("appended", z3.ArraySort(Int, sort(so)))
                tb = self.peel(h, t.arr)
                if tb is None:
                    tb = z3.Select(h, t.arr)
                j = z3.FreshConst(Int, "j")
                st.add(z3.ForAll([j], z3.Select(c, j) == z3.If(z3.And(j >= s.len, j < ln), z3.Select(tb, j - s.len), z3.Select(base, j)),
                                 patterns=[z3.Select(c, j)]))
                j2 = z3.FreshConst(Int, "j")
                st.add(z3.ForAll([j2], z3.Implies(z3.And(j2 >= 0, j2 < tl), z3.Select(c, s.len + j2) == z3.Select(tb, j2)),
                                 patterns=[z3.Select(tb, j2)]))
                j3 = z3.FreshConst(Int, "j")
                st.add(z3.ForAll([j3], z3.Implies(z3.And(j3 >= 0, j3 < s.len), z3.Select(c, j3) == z3.Select(base, j3)),
                                 patterns=[z3.Select(base, j3)]))
            # nothing is written when nothing is appended; storing the same is harmless
            self.hset(st, key, z3.Store(h, narr, c), narr)
        if n is None:
            # appending nothing returns the slice itself
            r = VSlice(z3.If(tl == 0, s.arr, narr), ln, z3.If(tl == 0, s.cap, ncap))
            return [(st, "ret", [r])]
        return [(st, "ret", [VSlice(narr, ln, ncap)])]

    def append_birth(self, st, s, ln, newr):
        """since when the array written by an append can exist"""
        nb = self.serials[newr.decl().name()]
        if z3.is_int_value(z3.simplify(s.cap)) and z3.simplify(s.cap).as_long() == 0:
            return nb
        b = self.birth(s.arr)
        regs = [(r[1], r[2]) for r in reversed(st.tags.get("regions", ()))] + [(self.fn_region.serial, self.fn_region.alloc)]
        for ser, al in regs:
            if b > ser:
                return min(b, nb)
            if self.quick(st, z3.Or(s.cap < ln, s.arr >= al), 300):
                return min(ser + 0.5, nb)
        return 0

    def readelem(self, st, et, suf, so, arr, i):
        key = self.ekey(et) + suf
        h = self.hget(st, key, z3.ArraySort(Int, z3.ArraySort(Int, sort(so))))
        return self.sel2(h, arr, i)

    # ------------------------------------------------------------ boxing facts
    def box(self, st, v, tid, quiet=False):
        a = Engine.box(self, st, v, tid, quiet)
        if quiet:
            return a
        u = self.ir.under(tid)
        if u["kind"] != "iface":
            lv = self.to_leaves(st, v, tid, True)
            k = self.kindno(tid)
            if k in (18, 21, 22, 26):
                st.add(isnilA(a) == (lv[0] == 0))
            elif k == 19:
                st.add(isnilA(a) == self.is_nil(v if isinstance(v, VFn) else lv[0]))
            elif k == 23:
                st.add(isnilA(a) == (lv[0] == 0))
            else:
                st.add(z3.Not(isnilA(a)))
            if k:
                st.add(rtkind(rtype(self.tagof(tid))) == k)
            if k == 22:
                et = u["elem"]
                if self.ir.under(et)["kind"] != "iface":
                    st.add(rtelem(rtype(self.tagof(tid))) == rtype(self.tagof(et)))
        return a

    def kindno(self, tid):
        u = self.ir.under(tid)
        if u["kind"] == "basic":
            return KINDS.get(u["name"], 0)
        return KK.get(u["kind"], 0)

    # ------------------------------------------------------------ interface calls
    PURE_INVOKE = ("IsDir", "Name", "Error", "String", "Size", "Mode", "ModTime", "Type", "Info", "Sys", "Len")

    def call_invoke(self, st, fr, callee, args, pos):
        _, meth, recv, itype, sig, atids = callee
        iname = self.ir.t(itype)["str"]
        full = "invoke %s.%s" % (self.ir.short(itype), meth)
        rts = sig["results"]
        if iname.endswith("slog.Logger") or (iname.endswith("Logger")):
            self.externs_used["logger methods (no effect, no panic)"] = "assumed"
            return [(st, "ret", [self.fresh_of(st, t, "log") for t in rts])]
        outs = []
        ok, bad = self.guard(st, recv != anil, "method call on nil interface")
        if bad is not None:
            outs.append((bad, "panic", self.pv(bad, "method call on nil interface")))
        if ok is None:
            return outs
        st = ok
        if iname == "reflect.Type":
            return outs + self.rt_method(st, fr, meth, recv, args, rts, pos)
        c = self.specs.externs.get(full)
        if c is not None:
            return outs + self.spec_extern(st, fr, c, full, [recv] + args, [itype] + atids, rts, pos)
        if meth in self.PURE_INVOKE and not args:
            rs = []
            for j, t in enumerate(rts):
                ts = [fn("M:%s.%s#%d%s" % (iname, meth, j, suf), Any, sort(so))(recv) for suf, so in self.ir.leaves(t)]
                v = self.from_leaves(t, ts)
                self.wf(st, v, t)
                rs.append(v)
            self.externs_used[full] = "pure"
            return outs + [(st, "ret", rs)]
        self.externs_used[full] = "arbitrary result, no effect on program state"
        return outs + [(st, "ret", [self.fresh_of(st, t, "r_" + meth) for t in rts])]

    def rt_method(self, st, fr, meth, recv, args, rts, pos):
        self.externs_used["reflect.Type." + meth] = "model"
        outs = []

        def need(cond, why):
            ok, bad = self.guard(st, cond, why)
            if bad is not None:
                outs.append((bad, "panic", self.pv(bad, why)))
            return ok
        if meth == "Kind":
            st.add(z3.And(rtkind(recv) >= 1, rtkind(recv) <= 26))
            return [(st, "ret", [rtkind(recv)])]
        if meth == "Elem":
            k = rtkind(recv)
            ok = need(z3.Or([k == x for x in (17, 18, 21, 22, 23)]), "reflect: Elem of invalid type")
            if ok is not None:
                ok.add(rtelem(recv) != anil)
                outs.append((ok, "ret", [rtelem(recv)]))
            return outs
        if meth == "NumField":
            ok = need(rtkind(recv) == 25, "reflect: NumField of non-struct type")
            if ok is not None:
                ok.add(rtnum(recv) >= 0)
                outs.append((ok, "ret", [rtnum(recv)]))
            return outs
        if meth == "Field":
            i = args[0]
            ok = need(z3.And(rtkind(recv) == 25, i >= 0, i < rtnum(recv)), "reflect: Field index out of bounds")
            if ok is not None:
                v = self.rt_field(ok, recv, i, rts[0])
                outs.append((ok, "ret", [v]))
            return outs
        if meth == "AssignableTo":
            ok = need(args[0] != anil, "reflect: nil type passed to Type.AssignableTo")
            if ok is not None:
                outs.append((ok, "ret", [assignable(recv, args[0])]))
            return outs
        if meth in ("String", "Name", "PkgPath"):
            return [(st, "ret", [fn("reflect.Type." + meth, Any, Str)(recv)])]
        raise Unsupported("reflect.Type." + meth)

    def rt_field(self, st, t, i, ft):
        ts = [fn("reflect.StructField" + suf, Any, Int, sort(so))(t, i) for suf, so in self.ir.leaves(ft)]
        st.add(strlen(ts[0]) > 0)
        v = self.from_leaves(ft, list(ts))
        for f, x in zip(self.ir.fields(ft), v.fs):
            if f["name"] == "Type":
                st.add(x != anil)
        return v

    # ------------------------------------------------------------ dynamic calls
    def dyn_contract(self, v, ftid):
        ks = []
        if v.prov:
            k = v.prov[0]
            ks.append(k[2:] if k[1] == ":" else k)
        if v.term is not None and z3.is_const(v.term):
            n = v.term.decl().name()
            f, _, i = n.rpartition(":")
            if f in self.ir.funcs and i.isdigit():
                fo = self.ir.funcs[f]
                ks.append(fo.short + "." + fo.params[int(i)]["name"])
        ks.append(self.ir.short(ftid))
        for k in ks:
            if k in self.specs.dyns:
                return self.specs.dyns[k]
        return None

    def call_dynamic(self, st, fr, v, ftid, sig, args, atids, pos):
        t = v.term
        c = self.dyn_contract(v, ftid)
        if c is None:
            # an ITE over function values read from places with a contract
            raise Unsupported("call of an unknown function value (%s, %s) at %s" % (v.prov and v.prov[0], self.ir.short(ftid), pos))
        outs = []
        ok, bad = self.guard(st, t != fnil, "call of nil function")
        if bad is not None:
            outs.append((bad, "panic", self.pv(bad, "call of nil function")))
        if ok is None:
            return outs
        vals, tids = list(args), list(atids)
        if c.params and c.params[0][0] == "self":
            ref = v.prov[1] if v.prov else z3.IntVal(0)
            rt = speceval.resolve(self, c.params[0][1], c.pkg)
            vals, tids = [ref] + vals, [rt] + tids
        return outs + self.spec_extern(ok, fr, c, "dynamic " + c.name, vals, tids, sig["results"], pos, fnv=t)

    # ------------------------------------------------------------ externs by contract
    def spec_extern(self, st, fr, c, name, args, atids, rts, pos, fnv=None):
        self.externs_used[name] = "contract"
        env = self.bind(c, args, atids)
        if fnv is not None:
            env["$fn"] = (fnv, ("raw", "Fn"))
        for cl in c.requires:
            if cl.active(self.active):
                f = self.evalcl(cl, st, st, env, c.pkg)
                self.oblige(st, "call of %s %s at %s" % (name, cl.name, pos), f, lab(cl, self.active), "requires", pos, src=cl.src)
                st.add(f)
        pre = st.copy()
        for u in c.updates:
            self.ghost_update(st, pre, u, env, c.pkg)
        outs = []
        if c.noreturn:
            return []
        if c.mayPanic:
            s = st.copy()
            s.trail += ("panic:" + name,)
            p = self.pv(s, "in " + name)
            env2 = dict(env)
            env2["panicval"] = (p, self.ir.ANY)
            mid = s.copy()
            for u in c.onpanic:
                self.ghost_update(s, mid, u, env2, c.pkg)
            outs.append((s, "panic", p))
        rs = []
        if c.pure:
            flat, sorts = [], []
            for a, t in zip(args, atids):
                for x in self.to_leaves(st, a, t, True):
                    flat.append(x)
            for j, t in enumerate(rts):
                ts = []
                for suf, so in self.ir.leaves(t):
                    f = fn("X:%s#%d%s" % (name, j, suf), *([x.sort() for x in flat] + [sort(so)]))
                    ts.append(f(*flat) if flat else z3.Const("X:%s#%d%s" % (name, j, suf), sort(so)))
                v = self.from_leaves(t, ts)
                self.wf(st, v, t)
                rs.append(v)
        else:
            rs = [self.fresh_of(st, t, "r_" + name.split(".")[-1].split("/")[-1]) for t in rts]
        env3 = self.bind(c, args, atids, rs, rts)
        if fnv is not None:
            env3["$fn"] = (fnv, ("raw", "Fn"))
        for rn in c.fresh:
            r = env3[rn][0]
            n = self.new_ref(st, "extobj")
            st.add(z3.Or(r == n, r == 0))
        mid = st.copy()
        for u in c.onok:
            self.ghost_update(st, mid, u, env3, c.pkg)
        for cl in c.ensures + c.assumes:
            if cl.active(self.active):
                st.add(self.evalcl(cl, st, pre, env3, c.pkg))
        outs.append((st, "ret", rs))
        return outs

    def ghost_update(self, st, pre, u, env, pkg):
        g, idx, ex = u
        cur = self.ghost(st, g)
        c = Ctx(self, pre, pre, env, pkg)
        x = speceval.ev(c, ex)[0]
        if x is NIL:
            x = anil
        x = term_of(x)
        if isinstance(x, VFn):
            x = self.fnterm(x)
        if not idx:
            self.hset(st, "g:" + g, x, None)
            return
        ks = [term_of(speceval.ev(c, i)[0]) for i in idx]

        def upd(a, ks):
            if not ks:
                return x
            return z3.Store(a, ks[0], upd(z3.Select(a, ks[0]), ks[1:]))
        self.hset(st, "g:" + g, upd(cur, ks), ks[0])

    def call_extern(self, st, fr, name, args, atids, sig, pos):
        rts = sig["results"]
        c = self.specs.externs.get(name)
        if c is not None:
            return self.spec_extern(st, fr, c, name, args, atids, rts, pos)
        for a in args:
            if isinstance(a, VFn) and (a.clo is not None):
                raise Unsupported("closure passed to unmodelled function " + name)
        if name.endswith(".init"):
            return [(st, "ret", [])]
        if name.startswith(PUREPKG) and not name.startswith(IMPURE):
            flat = self.pure_args(st, args, atids)
            if flat is not None:
                rs = []
                for j, t in enumerate(rts):
                    if self.ir.under(t)["kind"] == "slice":
                        et = self.ir.under(t)["elem"]
                        lv = self.ir.leaves(et)
                        if len(lv) != 1:
                            rs.append(self.fresh_of(st, t, "r"))
                            continue
                        r = self.new_array(st, et, zeroed=False)
                        f = fn("X:%s#%d!c" % (name, j), *([x.sort() for x in flat] + [z3.ArraySort(Int, sort(lv[0][1]))]))
                        l = fn("X:%s#%d!l" % (name, j), *([x.sort() for x in flat] + [Int]))
                        sl = VSlice(r, l(*flat), l(*flat))
                        st.add(l(*flat) >= 0)
                        st.add(self.elems(st, sl, et) == f(*flat))
                        rs.append(sl)
                        continue
                    ts = []
                    for suf, so in self.ir.leaves(t):
                        nm = "X:%s#%d%s" % (name, j, suf)
                        f = fn(nm, *([x.sort() for x in flat] + [sort(so)]))
                        ts.append(f(*flat) if flat else z3.Const(nm, sort(so)))
                    v = self.from_leaves(t, ts)
                    self.wf(st, v, t)
                    rs.append(v)
                self.externs_used[name] = "pure function"
                return [(st, "ret", rs)]
        self.externs_used[name] = "arbitrary result, no effect on program state, no panic"
        return [(st, "ret", [self.fresh_of(st, t, "r_" + name.split(".")[-1]) for t in rts])]

    def pure_args(self, st, args, atids):
        flat = []
        for a, t in zip(args, atids):
            u = self.ir.under(t)
            if isinstance(a, VSlice):
                lv = self.ir.leaves(u["elem"])
                if len(lv) != 1:
                    return None
                flat.append(self.elems(st, a, u["elem"]))
                flat.append(a.len)
            elif isinstance(a, VFn):
                flat.append(self.fnterm(a))
            elif isinstance(a, VTuple):
                return None
            else:
                flat += self.to_leaves(st, a, t, True)
        return flat

    # ------------------------------------------------------------ go
    def do_go(self, st, fr, callee, args, ins):
        pos = ins.get("pos") or ""
        s = st.copy()
        bgs = [g for g in self.specs.ghosts if g.startswith("bg") and g[2:] in self.specs.ghosts]
        for g in bgs:
            s.heap["g:" + g[2:]] = self.ghost(st, g)
            self.ghost(s, g[2:])
        for g, v in (("inbg", z3.BoolVal(True)), ("slept", z3.IntVal(0))):
            if g in self.specs.ghosts:
                self.ghost(s, g)
                s.heap["g:" + g] = v
        if "held" in self.specs.ghosts:
            h = self.ghost(s, "held")
            s.heap["g:held"] = z3.K(h.sort().domain(), z3.BoolVal(False))
        n0 = len(s.wlog)
        outs = []
        for (s2, kind, v) in self.invoke(s, fr, callee, args, pos, pos):
            if kind == "panic":
                self.oblige(s2, "panic escapes the goroutine started at %s (%s)" % (pos, s2.tags.get("panic")), z3.BoolVal(False),
                            "C02" if self.active is None or "C02" in self.active else "base", "nopanic", pos)
                continue
            m = st.copy()
            m.pc, m.known = s2.pc, s2.known
            m.alloc = s2.alloc
            m.trail = s2.trail
            for g in bgs:
                self.hset(m, "g:" + g, self.ghost(s2, g[2:]), None)
            if "bgcount" in self.specs.ghosts:
                self.hset(m, "g:bgcount", self.ghost(m, "bgcount") + 1, None)
            for k in set(k for k, _ in s2.wlog[n0:]):
                if not k.startswith("g:"):
                    self.assume_note("writes of the goroutine at %s to %s happen later" % (pos, k))
            outs.append((m, "ok", None))
        return outs

    # ------------------------------------------------------------ errors and texts
    def fresh_error(self, st):
        e = self.new("err", "Any")
        st.add(e != anil)
        r = self.new_ref(st, "errobj")
        st.add(anyref(e) == r)
        return e

    def say(self, st, r, args_box, isstr):
        """r (an error or a text) mentions its arguments"""
        m = mentionsS if isstr else mentionsA
        for a in args_box:
            f = a.decl().name() if z3.is_app(a) else ""
            w = z3.FreshConst(Str, "w")
            if not z3.is_const(a) and f != "box:string":
                b = self.new("arg", a.sort())
                st.add(b == a)
                a = b
            if f == "box:string":
                x = a.arg(0)
                if not z3.is_const(x):
                    b = self.new("argstr", Str)
                    st.add(b == x)
                    x = b
                st.add(m(r, x))
                st.add(z3.ForAll([w], z3.Implies(mentionsS(x, w), m(r, w)), patterns=[mentionsS(x, w)]))
            elif z3.is_const(a) or a.sort() == Any:
                st.add(z3.ForAll([w], z3.Implies(mentionsA(a, w), m(r, w)), patterns=[mentionsA(a, w)]))

    def load(self, st, a, tid, quiet=False):
        v = Engine.load(self, st, a, tid, quiet)
        if not quiet and a.kind == "glob" and self.ir.t(tid)["str"] == "error":
            st.add(anyref(v) < z3.Const("alloc@0", Int))
            st.add(anyref(v) > 0)
            if v.decl().name().endswith("@0"):
                st.add(v != anil)
                self.assume_note("package-level error variables are never reassigned to nil")
        return v

    def addr_term(self, st, a):
        t = Engine.addr_term(self, st, a)
        if not hasattr(self, "addrreg"):
            self.addrreg = {}
        n = t.decl().name() if z3.is_app(t) else None
        if n and (a.kind in ("elem", "glob", "cell") or (a.kind == "leaf" and n.startswith("addr:"))):
            self.addrreg[n] = a
            if a.kind in ("leaf", "elem") and st is not None:
                st.add(t > 0)
        return t
