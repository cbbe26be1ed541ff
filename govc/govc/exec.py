"""Forward symbolic execution of go/ssa functions against their contracts.

Every function is executed on its own: calls to functions with a contract use
the contract (the body is not looked at), calls to functions without one are
executed in place; loops are cut at their headers with inductive invariants.
Everything that has to be proved is emitted as an Obligation."""
import os
import sys
import z3
from .logic import *
from . import speceval
from .speceval import Ctx, SpecError, NIL

sys.setrecursionlimit(20000)


class Obligation:
    __slots__ = ("fn", "name", "label", "kind", "pc", "goal", "pos", "cand", "src", "trail")

    def __init__(self, fn, name, label, kind, pc, goal, pos="", cand=None, src="", trail=()):
        self.fn, self.name, self.label, self.kind = fn, name, label, kind
        self.pc, self.goal, self.pos, self.cand, self.src, self.trail = pc, goal, pos, cand, src, trail


KEEP = {}


CANDPC = {}              # conjunct id -> candidates it comes from (None: kept anyway)


class State:
    __slots__ = ("heap", "cells", "env", "pc", "alloc", "iters", "wlog", "loops", "defers", "pan", "trail", "known", "tags")

    def __init__(self):
        self.heap, self.cells, self.env = {}, {}, {}
        self.pc, self.alloc, self.iters, self.wlog = [], None, {}, []
        self.loops, self.defers, self.pan = {}, {}, {}
        self.trail = ()
        self.known = set()
        self.tags = {}

    def copy(self):
        s = State()
        s.heap, s.cells, s.env = dict(self.heap), dict(self.cells), dict(self.env)
        s.pc, s.alloc, s.iters, s.wlog = list(self.pc), self.alloc, dict(self.iters), list(self.wlog)
        s.loops, s.defers, s.pan = dict(self.loops), {k: list(v) for k, v in self.defers.items()}, dict(self.pan)
        s.trail, s.known, s.tags = self.trail, set(self.known), dict(self.tags)
        return s

    def add(self, f):
        if z3.is_true(f):
            return
        i = f.get_id()
        if i in self.known:
            if i in CANDPC:
                CANDPC[i] = None        # known for another reason too
            return
        KEEP[i] = f             # ids are only meaningful while the term lives
        self.known.add(i)
        if z3.is_and(f):
            for x in f.children():
                self.add(x)
            return
        self.pc.append(f)

    def add_cand(self, f, cand):
        """assume a loop candidate, remembering where the facts come from"""
        if z3.is_and(f) and f.get_id() not in self.known:
            for x in f.children():
                self.add_cand(x, cand)
            return
        i = f.get_id()
        if i not in self.known:
            self.add(f)
            CANDPC.setdefault(i, set())
        if CANDPC.get(i) is not None:
            CANDPC[i].add(cand)

    def dead(self):
        return bool(self.pc) and any(z3.is_false(x) for x in self.pc[-3:])


class Frame:
    __slots__ = ("id", "fn", "deferrer", "parent", "callpath", "depth")

    def __init__(self, i, fn, parent, callpath, deferrer=None):
        self.id, self.fn, self.parent, self.callpath, self.deferrer = i, fn, parent, callpath, deferrer
        self.depth = (parent.depth + 1) if parent else 0


class Region:
    """program point since which writes are summarised"""
    __slots__ = ("serial", "alloc", "wstart")

    def __init__(self, serial, alloc, wstart):
        self.serial, self.alloc, self.wstart = serial, alloc, wstart


class Foot:
    """what may have been written to one heap array"""

    def __init__(self):
        self.stable = {}      # id -> term
        self.fresh = 0        # 0 none, 1 loop-fresh, 2 function-fresh
        self.top = False

    def merge(self, o):
        ch = False
        for k, v in o.stable.items():
            if k not in self.stable:
                self.stable[k] = v
                ch = True
        if o.fresh > self.fresh:
            self.fresh = o.fresh
            ch = True
        if o.top and not self.top:
            self.top = ch = True
        return ch


class LoopMod:
    def __init__(self):
        self.heap = {}        # key -> Foot
        self.cells = set()
        self.iters = set()

    def seed(self, o):
        """take over which arrays are written, not at which indices"""
        for k, f in o.heap.items():
            g = self.heap.setdefault(k, Foot())
            g.fresh, g.top = max(g.fresh, f.fresh), g.top or f.top
        self.iters |= o.iters

    def shape(self):
        return sorted((k, f.fresh, f.top) for k, f in self.heap.items()), sorted(self.cells), sorted(self.iters)


class Verifier:
    MERGE_AT = 6

    def __init__(self, ir, specs, active, log=None):
        self.ir, self.specs, self.active = ir, specs, active
        self._rcache, self.specfns = {}, {}
        self.obls = []
        self.mute = 0
        self.serial = 0
        self.serials = {}
        self.heapsort = {}
        self.fresh_refs = set()
        self.refkeys = set()      # heap arrays whose entries are references
        self.symwf = {}           # heap symbol -> (key, bound)
        self.narr = {}
        self.births, self.birthmemo = {}, {}
        self.qmemo, self.qkeep, self.fastscout = {}, [], False
        self.arrnames, self.symdefs, self.boundmemo, self.narrays = {}, {}, {}, 0
        self.fnreg = {}
        self.loopmods = {}
        self.summaries = {}
        self.dropped = set()
        self.externs_used = {}
        self.assumed = {}
        self.inlined = set()
        self.contracts_used = set()
        self.locids = {}
        self.framectr = 0
        self.cur = None
        self.models = {}
        self.log = log or (lambda *a: None)
        self.qcache = {}
        self.nq = 0
        self.cands = {}
        self.loopseen = {}
        self.candsrc = {}
        self.depth_limit = 40
        self.stack = []
        self.unsupported = []
        self.steps = 0
        self.step_limit = 400000

    # ------------------------------------------------------------ symbols
    def new(self, name, sortkey_or_sort):
        self.serial += 1
        s = sortkey_or_sort if isinstance(sortkey_or_sort, z3.SortRef) else sort(sortkey_or_sort)
        n = "%s!%d" % (name, self.serial)
        self.serials[n] = self.serial
        return z3.Const(n, s)

    def base(self, key):
        """initial content of a heap array / global / ghost at function entry"""
        return z3.Const("%s@0" % key, self.heapsort[key])

    def hget(self, st, key, s=None):
        if key not in self.heapsort:
            if s is None:
                raise Unsupported("unknown heap " + key)
            self.heapsort[key] = s
        r = st.heap.get(key)
        if r is None:
            r = self.base(key)
        return r

    def mark(self, key, tid, suf):
        if key not in self.refkeys and suf in self.ir.refsuf(tid):
            self.refkeys.add(key)

    def hset(self, st, key, term, idx):
        st.heap[key] = term
        st.wlog.append((key, idx))

    def ghost(self, st, name):
        key = "g:" + name
        if key not in self.heapsort:
            ts, pkg = self.specs.ghosts[name]
            self.heapsort[key] = speceval.sort_of(self, speceval.resolve(self, ts, pkg))
        return self.hget(st, key)

    # ------------------------------------------------------------ heap keys
    def fkey(self, tid, i):
        return "F:%s.%s" % (self.ir.short(tid), self.ir.fields(tid)[i]["name"])

    def ekey(self, et):
        return "E:" + self.ir.short(et)

    def mkey(self, mt):
        u = self.ir.under(mt)
        return "M:map[%s]%s" % (self.ir.short(u["key"]), self.ir.short(u["elem"]))

    def as_addr(self, v, tid):
        """address of the object of type tid a pointer value points to"""
        if isinstance(v, VAddr):
            return v
        if self.ir.is_struct(tid):
            return VAddr("obj", None, tid, v)
        if self.ir.kind(tid) == "array":
            return VAddr("arr", None, tid, v)
        return VAddr("leaf", "P:" + self.ir.short(tid), tid, v)

    def field_addr(self, a, st, i):
        """address of field i of the struct (type st) at a"""
        f = self.ir.fields(st)[i]
        ft = f["type"]
        if a.kind == "obj":
            if self.ir.identity_embed(st, i):
                return VAddr("obj", None, ft, a.ref), ft
            return VAddr("leaf", self.fkey(st, i), ft, a.ref), ft
        if a.kind in ("leaf", "elem", "glob"):
            return VAddr(a.kind, a.key + "." + f["name"], ft, a.ref, a.idx), ft
        if a.kind == "opq":
            return VAddr("leaf", self.fkey(st, i), ft, a.ref), ft
        raise Unsupported("field address of %s" % a.kind)

    # ------------------------------------------------------------ load/store
    def leaf_terms(self, st, a, tid):
        """current terms of all leaves of the value at a (struct: recursive)"""
        out = []
        if a.kind == "leaf":
            for suf, so in self.ir.leaves(tid):
                key = a.key + suf
                h = self.hget(st, key, z3.ArraySort(Int, sort(so)))
                self.mark(key, tid, suf)
                out.append(z3.Select(h, a.ref))
        elif a.kind == "elem":
            for suf, so in self.ir.leaves(tid):
                key = a.key + suf
                h = self.hget(st, key, z3.ArraySort(Int, z3.ArraySort(Int, sort(so))))
                self.mark(key, tid, suf)
                out.append(self.sel2(h, a.ref, a.idx))
        elif a.kind == "glob":
            for suf, so in self.ir.leaves(tid):
                self.mark("G:" + a.key + suf, tid, suf)
                out.append(self.hget(st, "G:" + a.key + suf, sort(so)))
        else:
            raise Unsupported("leaf_terms %s" % a.kind)
        return out

    def sel2(self, h, r, i):
        x = z3.Select(h, r)
        # see through a store at the very same reference (concrete literals)
        y = self.peel(h, r)
        if y is not None:
            x = y
            z = self.peel(x, i)
            if z is not None:
                return z
        return z3.Select(x, i)

    def peel(self, h, i):
        n = 0
        while z3.is_app(h) and h.decl().kind() == z3.Z3_OP_STORE and n < 64:
            j = h.arg(1)
            if j.eq(i):
                return h.arg(2)
            if z3.is_int_value(j) and z3.is_int_value(i):
                h = h.arg(0)
            elif self.distinct_refs(i, j):
                h = h.arg(0)
            else:
                return None
            n += 1
        return z3.Select(h, i) if n else None

    def distinct_refs(self, a, b):
        """two different freshly allocated references"""
        if not (z3.is_const(a) and z3.is_const(b) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED
                and b.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            return False
        n, m = a.decl().name(), b.decl().name()
        if n == m:
            return False
        if n in self.fresh_refs and m in self.fresh_refs:
            return True
        # a reference that existed when the other one was allocated
        if n in self.fresh_refs:
            return self.serials.get(m, 0 if m.startswith(self.cur or "?") else 1 << 60) < self.serials.get(n, -1)
        if m in self.fresh_refs:
            return self.serials.get(n, 0 if n.startswith(self.cur or "?") else 1 << 60) < self.serials.get(m, -1)
        return False

    def nice(self, e, memo):
        """e with updated arrays (Store / If terms free of bound variables) replaced
        by named constants, defined on demand: keeps triggers usable"""
        i = e.get_id()
        r = memo.get(i)
        if r is not None:
            return r[1]
        r = e
        if z3.is_app(e) and e.num_args():
            if z3.is_array(e) and e.decl().kind() in (z3.Z3_OP_STORE, z3.Z3_OP_ITE) and not self.has_bound(e):
                r = self.arrname(e)
            else:
                cs = e.children()
                ds = [self.nice(c, memo) for c in cs]
                if any(not c.eq(d) for c, d in zip(cs, ds)):
                    r = e.decl()(*ds) if not (z3.is_and(e) or z3.is_or(e)) else (z3.And(ds) if z3.is_and(e) else z3.Or(ds))
        memo[i] = (e, r)
        return r

    def has_bound(self, e):
        memo = self.boundmemo
        i = e.get_id()
        if i in memo:
            return memo[i][1]
        if z3.is_quantifier(e) or z3.is_var(e):
            r = True
        elif e.num_args() == 0:
            r = e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() in BOUND
        else:
            r = any(self.has_bound(c) for c in e.children())
        memo[i] = (e, r)
        return r

    def arrname(self, e):
        k = e.get_id()
        if k in self.arrnames:
            return self.arrnames[k][1]
        self.narrays += 1
        c = z3.Const("arr!%d!%s" % (self.narrays, self.cur), e.sort())
        self.arrnames[k] = (e, c)
        self.symdefs[c.decl().name()] = c == e
        return c

    def from_leaves(self, tid, terms, prov=None):
        """build a value of type tid from its leaf terms (consumes a list)"""
        u = self.ir.under(tid)
        k = u["kind"]
        if k == "slice":
            return VSlice(terms.pop(0), terms.pop(0), terms.pop(0))
        if k == "struct" and not self.ir.opaque(tid):
            return VStruct(tid, [self.from_leaves(f["type"], terms) for f in self.ir.fields(tid)])
        x = terms.pop(0)
        if k == "func":
            clo = self.fnreg.get(x.decl().name()) if z3.is_const(x) else None
            return VFn(x, prov, clo)
        return x

    def to_leaves(self, st, v, tid, quiet=False):
        u = self.ir.under(tid)
        k = u["kind"]
        if isinstance(v, VSlice):
            return [v.arr, v.len, v.cap]
        if isinstance(v, VStruct):
            out = []
            for f, x in zip(self.ir.fields(tid), v.fs):
                out += self.to_leaves(st, x, f["type"], quiet)
            return out
        if isinstance(v, VFn):
            return [self.fnterm(v)]
        if isinstance(v, VAddr):
            return [self.addr_term(st, v)]
        if v is NIL:
            return self.to_leaves(st, self.zero_of(tid), tid)
        if isinstance(v, VTuple):
            raise Unsupported("tuple as a value")
        return [v]

    def fnterm(self, v):
        if v.term is None:
            n = "code!%s!%d" % (getattr(v.clo, "fn", "native"), len(self.fnreg))
            v.term = z3.Const(n, Fn)
            self.fnreg[n] = v.clo
        return v.term

    def addr_term(self, st, a):
        """an interior address as a reference term"""
        if a.kind in ("obj", "arr"):
            return a.ref
        if a.kind == "leaf" and a.key.startswith("P:"):
            return a.ref
        if a.kind == "leaf":
            return fn("addr:" + a.key, Int, Int)(a.ref)
        if a.kind == "elem":
            return fn("addr:" + a.key, Int, Int, Int)(a.ref, a.idx)
        if a.kind == "glob":
            return z3.Const("&" + a.key, Int)
        if a.kind == "cell":
            # the cell's address becomes visible: give it an identity, its
            # content stays known to the executor only
            return z3.Const("&cell!%s" % a.key, Int)
        if a.kind == "opq":
            return a.ref
        raise Unsupported("address of kind %s used as a value" % a.kind)

    def load(self, st, a, tid, quiet=False):
        k = a.kind
        if k == "cell":
            return st.cells[a.key]
        if k == "obj":
            fs = []
            for i, f in enumerate(self.ir.fields(tid)):
                fa, ft = self.field_addr(a, tid, i)
                fs.append(self.load(st, fa, ft, quiet))
            return VStruct(tid, fs)
        if k == "arr":
            et = self.ir.under(tid)["elem"]
            lv = self.ir.leaves(et)
            if len(lv) == 1:
                key = self.ekey(et) + lv[0][0]
                h = self.hget(st, key, z3.ArraySort(Int, z3.ArraySort(Int, sort(lv[0][1]))))
                y = self.peel(h, a.ref)
                return y if y is not None else z3.Select(h, a.ref)
            raise Unsupported("array value load")
        if k == "glob" and self.ir.is_struct(tid):
            fs = []
            for i, f in enumerate(self.ir.fields(tid)):
                fa, ft = self.field_addr(a, tid, i)
                fs.append(self.load(st, fa, ft, quiet))
            return VStruct(tid, fs)
        ts = self.leaf_terms(st, a, tid)
        ts = [self.readthru(t) for t in ts]
        prov = None
        if self.ir.under(tid)["kind"] == "func":
            prov = (a.key, a.ref, a.idx)
        v = self.from_leaves(tid, list(ts), prov)
        if not quiet:
            self.wf(st, v, tid)
        return v

    def readthru(self, t):
        """simplify a select over syntactically equal / distinct stores"""
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT:
            y = self.peel(t.arg(0), t.arg(1))
            if y is not None:
                return y
        return t

    def wf(self, st, v, tid):
        """facts every value of this type satisfies"""
        u = self.ir.under(tid)
        k = u["kind"]
        if isinstance(v, VSlice):
            st.add(v.arr >= 0)
            st.add(v.arr < st.alloc)
            st.add(v.len >= 0)
            st.add(v.len <= v.cap)
            st.add(z3.Implies(v.arr == 0, v.cap == 0))
        elif k in ("ptr", "map", "chan") and z3.is_expr(v):
            if not z3.is_int_value(v):
                st.add(v >= 0)
                st.add(v < st.alloc)
        elif isinstance(v, VStruct):
            for f, x in zip(self.ir.fields(v.tid), v.fs):
                self.wf(st, x, f["type"])
        elif k == "basic" and z3.is_expr(v) and v.sort() == Int and u["name"] in ("uint8", "byte", "uint", "uint32", "uint64", "uint16", "uintptr"):
            st.add(v >= 0)

    def store(self, st, a, v, tid):
        k = a.kind
        if k == "cell":
            st.cells[a.key] = v
            return
        if k == "obj" or (k == "glob" and self.ir.is_struct(tid)):
            if not isinstance(v, VStruct):
                raise Unsupported("struct store of %r" % (v,))
            for i, f in enumerate(self.ir.fields(tid)):
                fa, ft = self.field_addr(a, tid, i)
                self.store(st, fa, v.fs[i], ft)
            return
        if k == "arr":
            et = self.ir.under(tid)["elem"]
            lv = self.ir.leaves(et)
            if len(lv) != 1:
                raise Unsupported("array store")
            key = self.ekey(et) + lv[0][0]
            h = self.hget(st, key, z3.ArraySort(Int, z3.ArraySort(Int, sort(lv[0][1]))))
            self.hset(st, key, z3.Store(h, a.ref, v), a.ref)
            return
        lv = self.to_leaves(st, v, tid)
        for (suf, so), x in zip(self.ir.leaves(tid), lv):
            key = a.key + suf
            self.mark(key if k != "glob" else "G:" + key, tid, suf)
            if k == "leaf":
                h = self.hget(st, key, z3.ArraySort(Int, sort(so)))
                self.hset(st, key, z3.Store(h, a.ref, x), a.ref)
            elif k == "elem":
                h = self.hget(st, key, z3.ArraySort(Int, z3.ArraySort(Int, sort(so))))
                inner = self.peel(h, a.ref)
                if inner is None:
                    inner = z3.Select(h, a.ref)
                self.hset(st, key, z3.Store(h, a.ref, z3.Store(inner, a.idx, x)), a.ref)
            elif k == "glob":
                self.hget(st, "G:" + key, sort(so))
                self.hset(st, "G:" + key, x, None)
            else:
                raise Unsupported("store to %s" % k)
        if k == "leaf":
            self.run_onstore(st, a, v, tid)

    def run_onstore(self, st, a, v, tid):
        for (g, ix, ex, pkg) in self.specs.onstore.get(a.key[2:], []):
            c = Ctx(self, st, st, {"self": (a.ref, self.ir.INT), "v": (v, tid)}, pkg)
            i = term_of(speceval.ev(c, ix)[0])
            x = term_of(speceval.ev(c, ex)[0])
            cur = self.ghost(st, g)
            self.hset(st, "g:" + g, z3.Store(cur, i, x), i)

    def zero_of(self, tid):
        ts = [zero(so) for _, so in self.ir.leaves(tid)]
        return self.from_leaves(tid, ts)

    def fresh_of(self, st, tid, name="v"):
        ts = [self.new(name + suf, so) for suf, so in self.ir.leaves(tid)]
        v = self.from_leaves(tid, list(ts))
        self.wf(st, v, tid)
        return v

    def new_ref(self, st, name="ref"):
        r = self.new(name, "Int")
        self.fresh_refs.add(r.decl().name())
        st.add(r == st.alloc)
        st.add(r > 0)
        nxt = self.new("alloc", "Int")
        st.add(nxt == r + 1)
        st.alloc = nxt
        return r

    def new_object(self, st, tid, name="obj"):
        """allocate a zeroed object of struct type tid"""
        r = self.new_ref(st, name)
        self.zero_fields(st, VAddr("obj", None, tid, r), tid)
        return r

    def zero_fields(self, st, a, tid):
        for i, f in enumerate(self.ir.fields(tid)):
            fa, ft = self.field_addr(a, tid, i)
            if fa.kind == "obj":
                self.zero_fields(st, fa, ft)
                continue
            for (suf, so) in self.ir.leaves(ft):
                key = fa.key + suf
                h = self.hget(st, key, z3.ArraySort(Int, sort(so)))
                self.mark(key, ft, suf)
                st.add(z3.Select(h, fa.ref) == zero(so))
        for (g, e, pkg) in self.specs.alloc.get(self.ir.short(tid), []):
            cur = self.ghost(st, g)
            x = term_of(speceval.ev(Ctx(self, st, st, {}, pkg), e)[0])
            st.add(z3.Select(cur, a.ref) == x)

    def new_array(self, st, et, n=None, zeroed=True):
        r = self.new_ref(st, "arr")
        if zeroed:
            for suf, so in self.ir.leaves(et):
                key = self.ekey(et) + suf
                h = self.hget(st, key, z3.ArraySort(Int, z3.ArraySort(Int, sort(so))))
                st.add(z3.Select(h, r) == z3.K(Int, zero(so)))
        return r

    def elems(self, st, sl, et):
        lv = self.ir.leaves(et)
        if len(lv) != 1:
            raise Unsupported("elems of composite")
        key = self.ekey(et) + lv[0][0]
        self.mark(key, et, lv[0][0])
        h = self.hget(st, key, z3.ArraySort(Int, z3.ArraySort(Int, sort(lv[0][1]))))
        y = self.peel(h, sl.arr)
        return y if y is not None else z3.Select(h, sl.arr)

    # ------------------------------------------------------------ maps
    def msorts(self, mt):
        u = self.ir.under(mt)
        kl = self.ir.leaves(u["key"])
        if len(kl) != 1:
            raise Unsupported("map with composite key")
        return sort(kl[0][1])

    def mheap(self, st, mt, what, so=None):
        key = self.mkey(mt) + what
        ks = self.msorts(mt)
        if what == "#card":
            s = z3.ArraySort(Int, Int)
        elif what == "#dom":
            s = z3.ArraySort(Int, z3.ArraySort(ks, Bool))
        else:
            s = z3.ArraySort(Int, z3.ArraySort(ks, sort(so)))
        return key, self.hget(st, key, s)

    def map_dom(self, st, mt, m):
        _, h = self.mheap(st, mt, "#dom")
        y = self.peel(h, m)
        return y if y is not None else z3.Select(h, m)

    def map_vals(self, st, mt, m):
        et = self.ir.under(mt)["elem"]
        (suf, so), = self.ir.leaves(et)
        kk, h = self.mheap(st, mt, "#val" + suf, so)
        self.mark(kk, et, suf)
        y = self.peel(h, m)
        return y if y is not None else z3.Select(h, m)

    def map_card(self, st, mt, m):
        _, h = self.mheap(st, mt, "#card")
        y = self.peel(h, m)
        return y if y is not None else z3.Select(h, m)

    def map_has(self, st, mt, m, k):
        return z3.Select(self.map_dom(st, mt, m), term_of(k))

    def map_get(self, st, mt, m, k):
        et = self.ir.under(mt)["elem"]
        ts = []
        for suf, so in self.ir.leaves(et):
            kk, h = self.mheap(st, mt, "#val" + suf, so)
            self.mark(kk, et, suf)
            y = self.peel(h, m)
            ts.append(z3.Select(y if y is not None else z3.Select(h, m), term_of(k)))
        prov = ("V:" + self.mkey(mt), m, term_of(k)) if self.ir.under(et)["kind"] == "func" else None
        return self.from_leaves(et, ts, prov)

    def map_nilfacts(self, st, mt, m):
        """the nil map is empty; card and domain agree"""
        d, c = self.map_dom(st, mt, m), self.map_card(st, mt, m)
        ks = self.msorts(mt)
        st.add(z3.Implies(m == 0, d == z3.K(ks, z3.BoolVal(False))))
        st.add(c >= 0)
        st.add((c == 0) == (d == z3.K(ks, z3.BoolVal(False))))

    def map_set(self, st, mt, m, k, v):
        et = self.ir.under(mt)["elem"]
        k = term_of(k)
        self.map_nilfacts(st, mt, m)
        had = self.map_has(st, mt, m, k)
        card = self.map_card(st, mt, m)
        dom = self.map_dom(st, mt, m)
        key, h = self.mheap(st, mt, "#card")
        self.hset(st, key, z3.Store(h, m, z3.If(had, card, card + 1)), m)
        key, h = self.mheap(st, mt, "#dom")
        self.hset(st, key, z3.Store(h, m, z3.Store(dom, k, z3.BoolVal(True))), m)
        lv = self.to_leaves(st, v, et)
        for (suf, so), x in zip(self.ir.leaves(et), lv):
            key, h = self.mheap(st, mt, "#val" + suf, so)
            self.mark(key, et, suf)
            inner = self.peel(h, m)
            if inner is None:
                inner = z3.Select(h, m)
            self.hset(st, key, z3.Store(h, m, z3.Store(inner, k, x)), m)

    def map_delete(self, st, mt, m, k):
        k = term_of(k)
        self.map_nilfacts(st, mt, m)
        had = self.map_has(st, mt, m, k)
        card = self.map_card(st, mt, m)
        dom = self.map_dom(st, mt, m)
        key, h = self.mheap(st, mt, "#card")
        self.hset(st, key, z3.Store(h, m, z3.If(had, card - 1, card)), m)
        key, h = self.mheap(st, mt, "#dom")
        self.hset(st, key, z3.Store(h, m, z3.Store(dom, k, z3.BoolVal(False))), m)

    def new_map(self, st, mt):
        r = self.new_ref(st, "map")
        ks = self.msorts(mt)
        st.add(self.map_dom(st, mt, r) == z3.K(ks, z3.BoolVal(False)))
        st.add(self.map_card(st, mt, r) == 0)
        return r

    # ------------------------------------------------------------ interfaces
    def tagof(self, tid):
        """type tag of a dynamic type"""
        return z3.IntVal(tid + 1)

    def box(self, st, v, tid, quiet=False):
        u = self.ir.under(tid)
        if u["kind"] == "iface":
            return v
        lv = self.to_leaves(st, v, tid, quiet)
        f = fn("box:" + self.ir.short(tid), *([x.sort() for x in lv] + [Any]))
        a = f(*lv) if lv else z3.Const("box:" + self.ir.short(tid), Any)
        if not quiet:
            st.add(a != anil)
            st.add(typeof(a) == self.tagof(tid))
            for j, x in enumerate(lv):
                st.add(fn("unbox:%s#%d" % (self.ir.short(tid), j), Any, x.sort())(a) == x)
        return a

    def unbox(self, st, a, tid):
        f = a.decl().name() if z3.is_app(a) else ""
        if f == "box:" + self.ir.short(tid):
            ts = [a.arg(i) for i in range(a.num_args())]
            return self.from_leaves(tid, ts)
        ts = []
        for j, (suf, so) in enumerate(self.ir.leaves(tid)):
            ts.append(fn("unbox:%s#%d" % (self.ir.short(tid), j), Any, sort(so))(a))
        v = self.from_leaves(tid, ts)
        return v

    def is_nil(self, v):
        if isinstance(v, VSlice):
            return v.arr == 0
        if isinstance(v, VFn):
            if v.term is None or (v.clo is not None):
                return z3.BoolVal(False)
            return v.term == fnil
        if isinstance(v, VAddr):
            if v.kind in ("obj", "arr", "opq"):
                return v.ref == 0
            return z3.BoolVal(False)
        if v is NIL:
            return z3.BoolVal(True)
        if v.sort() == Any:
            return v == anil
        if v.sort() == Int:
            return v == 0
        if v.sort() == Fn:
            return v == fnil
        raise Unsupported("nil comparison of %s" % v.sort())

    def equal(self, a, b):
        if isinstance(a, VSlice) and isinstance(b, VSlice):
            return z3.And(a.arr == b.arr, a.len == b.len, a.cap == b.cap)
        if isinstance(a, VStruct):
            return z3.And([self.equal(x, y) for x, y in zip(a.fs, b.fs)])
        if isinstance(a, VFn) or isinstance(b, VFn):
            ta = self.fnterm(a) if isinstance(a, VFn) else a
            tb = self.fnterm(b) if isinstance(b, VFn) else b
            return ta == tb
        if isinstance(a, VAddr):
            a = self.addr_term(None, a)
        if isinstance(b, VAddr):
            b = self.addr_term(None, b)
        if a.eq(b):
            return z3.BoolVal(True)
        return a == b

    def pick(self, st, c, x, y):
        """x if c else y, as a named constant (terms in triggers stay ite-free)"""
        if x.eq(y):
            return x
        if x.sort() == Bool:
            return z3.If(c, x, y)
        n = self.new("pick", x.sort())
        st.add(z3.Implies(c, n == x))
        st.add(z3.Implies(z3.Not(c), n == y))
        if x.sort() == Int:
            self.narr[n.decl().name()] = (x, y)
        return n

    def birth(self, t):
        """a serial number: the reference t cannot be older than the states of
        that time (0: unknown)"""
        i = t.get_id()
        if i in self.birthmemo:
            return self.birthmemo[i][0]
        b = 0
        if z3.is_int_value(t):
            b = 1 << 60 if t.as_long() == 0 else 0
        elif z3.is_const(t):
            n = t.decl().name()
            if n in self.births:
                b = self.births[n]
            elif n in self.fresh_refs:
                b = self.serials[n]
            elif n in self.narr and self.narr[n][0] is not None:
                b = min(self.birth(self.narr[n][0]), self.birth(self.narr[n][1]))
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            b = min(self.birth(t.arg(1)), self.birth(t.arg(2)))
        self.birthmemo[i] = (b, t)
        return b

    def wfaxioms(self):
        """heap symbol -> fact: every reference in the heap is allocated"""
        out = {}
        for key in self.refkeys:
            if key in self.heapsort:
                self.wfax(out, "%s@0" % key, self.heapsort[key], z3.Const("alloc@0", Int))
        for n, (key, s, bound) in self.symwf.items():
            if key in self.refkeys:
                self.wfax(out, n, s, bound)
        out.update(self.symdefs)
        return out

    def wfax(self, out, name, s, bound):
        t = z3.Const(name, s)
        vs = []
        while s.kind() == z3.Z3_ARRAY_SORT:
            v = z3.FreshConst(s.domain(), "x")
            vs.append(v)
            t = z3.Select(t, v)
            s = s.range()
        if s != Int:
            return
        b = z3.And(t >= 0, t < bound)
        out[name] = z3.ForAll(vs, b, patterns=[t]) if vs else b

    # ------------------------------------------------------------ quick solver
    def axioms(self):
        return []

    def quick(self, st, cond, ms=400):
        """cheap check: is cond implied by the path condition?"""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if cond.get_id() in st.known or c.get_id() in st.known:
            return True
        return self.unsat(st, z3.Not(c), ms)

    def unsat(self, st, extra, ms):
        self.nq += 1
        g, q = [], []
        for e in st.pc:
            (q if self.has_q(e) else g).append(e)
        s = z3.SimpleSolver()
        s.set("timeout", ms)
        s.set("mbqi", False)
        s.set("auto_config", False)
        if extra is not None:
            s.add(extra)
        for part in ((g, q) if q and not (extra is None and not g) else (g + q,)):
            s.add(part)
            r = s.check()
            if r == z3.unsat:
                return True
            if part is g and self.mute and self.fastscout:
                return False
        return False

    def has_q(self, e):
        i = e.get_id()
        r = self.qmemo.get(i)
        if r is None:
            st, seen, r = [e], set(), False
            while st:
                x = st.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_quantifier(x):
                    r = True
                    break
                st.extend(x.children())
            self.qmemo[i] = r
            self.qkeep.append(e)
        return r

    def infeasible(self, st, ms=300):
        old, self.fastscout = self.fastscout, True
        try:
            return self.unsat(st, None, ms)
        finally:
            self.fastscout = old

    # ------------------------------------------------------------ obligations
    def oblige(self, st, name, goal, label="base", kind="assert", pos="", cand=None, src=""):
        if self.mute:
            return
        g = z3.simplify(goal)
        o = Obligation(self.cur, name, label, kind, None, goal, pos, cand, src, st.trail)
        o.pc = list(st.pc)
        if z3.is_true(g):
            o.pc = []
            o.goal = z3.BoolVal(True)
        self.obls.append(o)

    def assume_note(self, what):
        self.assumed[what] = self.assumed.get(what, 0) + 1
