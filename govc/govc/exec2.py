"""Instructions, control flow, calls and loops."""
import itertools
import z3
from .logic import *
from . import speceval
from .speceval import Ctx, SpecError, NIL
from .exec import KEEP, CANDPC, Verifier, State, Frame, Region, Foot, LoopMod, Obligation
from .spec import Clause

CMP = {"==", "!=", "<", "<=", ">", ">="}


class Engine(Verifier):

    # ------------------------------------------------------------ operands
    def val(self, st, fr, o):
        if o is None:
            return None
        k = o["k"]
        if k == "reg":
            v = st.env.get((fr.id, o["id"]))
            if v is None:
                raise Unsupported("register without value in %s" % fr.fn.name)
            return v
        if k == "const":
            return self.const(o)
        if k == "func":
            return VFn(None, None, Closure(o["name"], []))
        if k == "global":
            t = self.ir.t(o["type"])
            return VAddr("glob", o["name"], t["elem"])
        if k == "builtin":
            return ("builtin", o["name"])
        raise Unsupported("operand " + k)

    def const(self, o):
        tid = o["type"]
        if o.get("zero"):
            return self.zero_of(tid)
        if "bool" in o:
            return z3.BoolVal(o["bool"])
        if "str" in o:
            return strlit(o["str"])
        if "int" in o:
            so = self.ir.sortkey(tid)
            if so == "Int":
                return z3.IntVal(int(o["int"]))
            return z3.Const("num!%s" % o["int"], sort(so))
        return z3.Const("const!%s" % o.get("other"), sort(self.ir.sortkey(tid)))

    # ------------------------------------------------------------ function
    def run_fn(self, st, fn, args, fvs, parent, callsite, deferrer=None):
        """execute a body; -> [(state, 'ret'|'panic', value)]"""
        self.framectr += 1
        path = (parent.callpath if parent else ()) + ((fn.short, callsite),)
        fr = Frame(self.framectr, fn, parent, path, deferrer)
        if fr.depth > self.depth_limit:
            raise Unsupported("call depth in " + fn.name)
        for p, a in zip(fn.params, args):
            st.env[(fr.id, p["id"])] = a
        for p, a in zip(fn.freevars, fvs or []):
            st.env[(fr.id, p["id"])] = a
        st.defers[fr.id] = []
        st.pan[fr.id] = None
        outs = self.run_blocks(st, fr, 0)
        res = []
        for (s, kind, v) in outs:
            self.drop_frame(s, fr)
            res.append((s, kind, v))
        if parent is not None and len(res) > 1:
            res = self.merge_outcomes(res)
        return res

    def drop_frame(self, st, fr):
        i = fr.id
        for k in [k for k in st.env if k[0] == i]:
            del st.env[k]
        st.defers.pop(i, None)
        st.pan.pop(i, None)
        for k in [k for k in st.loops if k[0] == i]:
            del st.loops[k]

    def run_blocks(self, st, fr, start, region_only=None):
        """run from a block; region_only=(header, blocks): stop at leaving the
        loop (scouting), back-edge states are returned as kind 'back'"""
        fn = fr.fn
        outs = []
        pending = {}
        order = {}

        def push(b, s, pred):
            key = (b, pred if self.is_back(fn, pred, b) else None)
            pr = fn.rpo[b]
            if key[1] is not None:
                pr = max(fn.rpo[x] for x in fn.loops[b]) + 0.5
            pending.setdefault((pr, b), []).append((s, pred))

        push(start, st, -1)
        first = True
        while pending:
            k = min(pending)
            items = pending.pop(k)
            b = k[1]
            if not (first and region_only) or k[1] != start:
                for (s, pred) in items:
                    if pred >= 0:
                        self.enter_phis(s, fr, b, pred)
            if len(items) > self.MERGE_AT or (len(items) > 1 and k[0] != fn.rpo[b]):
                items = self.merge_items(items, fr, b)
            for (s, pred) in items:
                if s.dead():
                    continue
                # leaving loops
                for lk in [lk for lk in s.loops if lk[0] == fr.id and b not in fn.loops[lk[1]]]:
                    del s.loops[lk]
                if region_only and b not in region_only[1]:
                    continue
                if b in fn.loops and not (region_only and first):
                    back = pred in fn.loops[b]
                    if region_only and b == region_only[0]:
                        outs.append((s, "back", None))
                        continue
                    if back and (fr.id, b) in s.loops:
                        self.loop_back(s, fr, b)
                        continue
                    got = self.loop_enter(s, fr, b, pred)
                    if got is None:
                        continue
                    s = got
                first = False
                for (s2, what, v) in self.run_block(s, fr, b):
                    if what == "goto":
                        push(v, s2, b)
                    else:
                        outs.append((s2, what, v))
        return outs

    def is_back(self, fn, pred, b):
        return pred >= 0 and b in fn.loops and pred in fn.loops[b]

    def enter_phis(self, st, fr, b, pred):
        vals = []
        for ins in fr.fn.blocks[b]["instrs"]:
            if ins["op"] != "phi":
                break
            i = fr.fn.blocks[b]["preds"].index(pred)
            e = ins["edges"][i]
            try:
                vals.append((ins["id"], self.val(st, fr, e)))
            except Unsupported:
                vals.append((ins["id"], None))
        for i, v in vals:
            if v is None:
                st.env.pop((fr.id, i), None)
            else:
                st.env[(fr.id, i)] = v

    def run_block(self, st, fr, b):
        states = [st]
        blk = fr.fn.blocks[b]
        outs = []
        for ins in blk["instrs"]:
            if ins["op"] in ("phi", "debug"):
                continue
            self.steps += 1
            if self.steps > self.step_limit:
                raise Unsupported("step limit")
            nxt = []
            for s in states:
                op = ins["op"]
                if op == "jump":
                    outs.append((s, "goto", blk["succs"][0]))
                elif op == "if":
                    c = self.val(s, fr, ins["x"])
                    cs = z3.simplify(c)
                    t, f = blk["succs"]
                    if z3.is_true(cs):
                        outs.append((s, "goto", t))
                    elif z3.is_false(cs):
                        outs.append((s, "goto", f))
                    else:
                        s2 = s.copy()
                        s.add(cs)
                        s.trail += (self.where(fr, ins, blk) + ":T",)
                        s2.add(z3.simplify(z3.Not(cs)))
                        s2.trail += (self.where(fr, ins, blk) + ":F",)
                        if self.feasible(s):
                            outs.append((s, "goto", t))
                        if self.feasible(s2):
                            outs.append((s2, "goto", f))
                elif op == "return":
                    vs = [self.val(s, fr, r) for r in ins["results"]]
                    outs.append((s, "ret", vs))
                elif op == "panic":
                    s.tags["panic"] = "explicit"
                    outs += self.unwind(s, fr, self.val(s, fr, ins["x"]))
                else:
                    for (s2, what, v) in self.step(s, fr, ins):
                        if what == "ok":
                            nxt.append(s2)
                        elif what == "panic":
                            outs += self.unwind(s2, fr, v)
                        elif what == "ret":
                            outs.append((s2, "ret", v))
                        elif what == "exit":
                            pass
                        else:
                            raise Unsupported(what)
            states = nxt
            if not states:
                break
            if len(states) > self.MERGE_AT:
                states = self.merge_states(states, fr)
        return outs

    def feasible(self, s):
        """prune cheaply; keep when unsure"""
        if s.dead():
            return False
        n = s.pc[-1] if s.pc else None
        if n is None:
            return True
        if z3.simplify(z3.Not(n)).get_id() in s.known:
            return False
        return not self.infeasible(s, 150)

    def where(self, fr, ins, blk=None):
        p = ins.get("pos") or ""
        if not p and blk is not None:
            for i in reversed(blk["instrs"]):
                if i.get("pos"):
                    p = i["pos"]
                    break
        return p or fr.fn.short

    # ------------------------------------------------------------ panics
    def pv(self, st, why):
        """a panic value"""
        v = self.new("panicval", "Any")
        st.add(v != anil)
        st.tags["panic"] = why
        return v

    def unwind(self, st, fr, pval):
        """the frame panics: run its deferred calls"""
        st.pan[fr.id] = pval
        return self.run_defers(st, fr, panicking=True)

    def run_defers(self, st, fr, panicking):
        """run deferred calls LIFO; -> outcomes of the frame when panicking,
        else [(state,'ok',None)] / panics"""
        work = [st]
        done = []
        while work:
            s = work.pop()
            ds = s.defers.get(fr.id) or []
            if not ds:
                done.append(s)
                continue
            callee, args, site, pos = ds[-1]
            s.defers[fr.id] = ds[:-1]
            for (s2, kind, v) in self.invoke(s, fr, callee, args, site, pos, deferrer=fr.id):
                if kind == "panic":
                    s2.pan[fr.id] = v
                work.append(s2)
        outs = []
        for s in done:
            p = s.pan.get(fr.id)
            if p is not None:
                s.pan[fr.id] = None
                outs.append((s, "panic", p))
            elif panicking or s.tags.get("recovered!%d" % fr.id):
                s.tags.pop("recovered!%d" % fr.id, None)
                # recovered: the function returns its (named) results
                if fr.fn.recover is not None:
                    outs += self.run_blocks(s, fr, fr.fn.recover)
                else:
                    outs.append((s, "ret", [self.zero_of(t) for t in fr.fn.results]))
            else:
                outs.append((s, "ok", None))
        return outs

    # ------------------------------------------------------------ checks
    def guard(self, st, ok, why):
        """-> (state where ok holds or None, panicking state or None)"""
        c = z3.simplify(ok)
        if z3.is_true(c) or c.get_id() in st.known:
            return st, None
        if z3.is_false(c):
            return None, st
        if self.quick(st, c):
            st.add(c)
            return st, None
        p = st.copy()
        p.add(z3.simplify(z3.Not(c)))
        st.add(c)
        p.trail += ("panic:" + why,)
        return st, p

    def nonnil_addr(self, st, a):
        if isinstance(a, VAddr):
            if a.kind in ("obj", "arr") or (a.kind == "leaf" and a.key.startswith("P:")):
                return a.ref != 0 if not (z3.is_const(a.ref) and a.ref.decl().name() in self.fresh_refs) else z3.BoolVal(True)
            return z3.BoolVal(True)
        if z3.is_const(a) and not z3.is_int_value(a) and a.decl().name() in self.fresh_refs:
            return z3.BoolVal(True)
        return a != 0

    # ------------------------------------------------------------ step
    def step(self, st, fr, ins):
        m = getattr(self, "i_" + ins["op"], None)
        if m is None:
            raise Unsupported("instruction %s in %s" % (ins["op"], fr.fn.name))
        return m(st, fr, ins)

    def set(self, st, fr, ins, v):
        st.env[(fr.id, ins["id"])] = v
        return [(st, "ok", None)]

    def locid(self, fr, ins, taken):
        """number of a local variable or iterator: the same in every execution of
        the same instruction in the same calling context"""
        n = 0
        while True:
            k = (self.cur, fr.callpath, ins["id"], n)
            i = self.locids.setdefault(k, len(self.locids) + 1)
            if i not in taken or n > 50:
                return i
            n += 1

    def i_alloc(self, st, fr, ins):
        tid = self.ir.t(ins["type"])["elem"]
        if self.ir.is_struct(tid):
            r = self.new_object(st, tid, "new_" + self.ir.short(tid).split(".")[-1][:20])
            return self.set(st, fr, ins, VAddr("obj", None, tid, r))
        k = self.ir.kind(tid)
        if k == "array":
            r = self.new_array(st, self.ir.under(tid)["elem"])
            return self.set(st, fr, ins, VAddr("arr", None, tid, r))
        if k == "opaque":
            r = self.new_ref(st, "opq")
            a = VAddr("leaf", "P:" + self.ir.short(tid), tid, r)
            so = self.ir.sortkey(tid)
            h = self.hget(st, a.key, z3.ArraySort(Int, sort(so)))
            st.add(z3.Select(h, r) == zero(so))
            return self.set(st, fr, ins, a)
        a = VAddr("cell", self.locid(fr, ins, st.cells), tid)
        st.cells[a.key] = self.zero_of(tid)
        st.tags["cell!%d" % a.key] = (ins.get("comment") or "", tid, fr.id)
        return self.set(st, fr, ins, a)

    def i_binop(self, st, fr, ins):
        x, y = self.val(st, fr, ins["x"]), self.val(st, fr, ins["y"])
        t = ins["tok"]
        xt = ins["x"]["type"]
        if t in ("==", "!="):
            # comparison with the nil constant
            if ins["y"]["k"] == "const" and ins["y"].get("zero") and self.ir.under(ins["y"]["type"])["kind"] != "basic":
                r = self.is_nil(x)
            elif ins["x"]["k"] == "const" and ins["x"].get("zero") and self.ir.under(ins["x"]["type"])["kind"] != "basic":
                r = self.is_nil(y)
            else:
                if isinstance(x, VAddr) and not isinstance(y, VAddr) or isinstance(y, VAddr):
                    x = self.addr_term(st, x) if isinstance(x, VAddr) else x
                    y = self.addr_term(st, y) if isinstance(y, VAddr) else y
                if z3.is_expr(x) and z3.is_expr(y) and x.sort() != y.sort():
                    if x.sort() == Any:
                        y = self.box(st, y, ins["y"]["type"])
                    elif y.sort() == Any:
                        x = self.box(st, x, xt)
                r = self.equal(x, y)
            return self.set(st, fr, ins, z3.simplify(r) if t == "==" else z3.simplify(z3.Not(r)))
        so = x.sort() if z3.is_expr(x) else None
        if so == Str:
            if t == "+":
                r = self.strcat(st, x, y)
            else:
                r = {"<": strlt(x, y), ">": strlt(y, x), "<=": z3.Not(strlt(y, x)), ">=": z3.Not(strlt(x, y))}[t]
            return self.set(st, fr, ins, r)
        if so == Int and y.sort() == Int:
            if t in ("+", "-", "*"):
                r = z3.simplify({"+": x + y, "-": x - y, "*": x * y}[t])
            elif t in ("<", "<=", ">", ">="):
                r = {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[t]
            elif t == "/" and z3.is_int_value(y) and y.as_long() > 0:
                # truncated division
                r = z3.If(x >= 0, x / y, -((-x) / y))
            elif t == "%" and z3.is_int_value(y) and y.as_long() > 0:
                r = z3.If(x >= 0, x % y, -((-x) % y))
            else:
                r = fn("op" + t, Int, Int, Int)(x, y)
            return self.set(st, fr, ins, r)
        if so == Bool:
            r = {"&": z3.And(x, y), "|": z3.Or(x, y)}[t]
            return self.set(st, fr, ins, r)
        rs = sort(self.ir.sortkey(ins["type"]))
        return self.set(st, fr, ins, fn("op%s:%s" % (t, so), so, y.sort(), rs)(x, y))

    def strcat(self, st, x, y):
        r = strcat(x, y)
        w = z3.FreshConst(Str, "w")
        st.add(mentionsS(r, x))
        st.add(mentionsS(r, y))
        st.add(z3.ForAll([w], z3.Implies(z3.Or(mentionsS(x, w), mentionsS(y, w)), mentionsS(r, w)),
                         patterns=[mentionsS(x, w), mentionsS(y, w), mentionsS(r, w)]))
        return r

    def i_unop(self, st, fr, ins):
        x = self.val(st, fr, ins["x"])
        t = ins["tok"]
        if t == "*":
            tid = ins["type"]
            a = x if isinstance(x, VAddr) else self.as_addr(x, tid)
            ok, bad = self.guard(st, self.nonnil_addr(st, a), "nil dereference")
            outs = []
            if bad is not None:
                outs.append((bad, "panic", self.pv(bad, "nil dereference")))
            if ok is not None:
                v = self.load(ok, a, tid)
                outs += self.set(ok, fr, ins, v)
            return outs
        if t == "!":
            return self.set(st, fr, ins, z3.simplify(z3.Not(x)))
        if t == "-":
            return self.set(st, fr, ins, -x)
        if t == "<-":
            if ins.get("commaok"):
                et = self.ir.t(ins["type"])["elems"]
                return self.set(st, fr, ins, VTuple([self.fresh_of(st, e, "recv") for e in et]))
            return self.set(st, fr, ins, self.fresh_of(st, ins["type"], "recv"))
        return self.set(st, fr, ins, fn("un" + t, x.sort(), x.sort())(x))

    def i_changetype(self, st, fr, ins):
        return self.set(st, fr, ins, self.val(st, fr, ins["x"]))

    def i_changeiface(self, st, fr, ins):
        return self.set(st, fr, ins, self.val(st, fr, ins["x"]))

    def i_convert(self, st, fr, ins):
        v = self.val(st, fr, ins["x"])
        ft, tt = ins["x"]["type"], ins["type"]
        fk, tk = self.ir.under(ft), self.ir.under(tt)
        if fk["kind"] == "basic" and tk["kind"] == "basic":
            if self.ir.sortkey(ft) == self.ir.sortkey(tt):
                return self.set(st, fr, ins, v)
            return self.set(st, fr, ins, fn("conv:%s:%s" % (fk["name"], tk["name"]), v.sort(), sort(self.ir.sortkey(tt)))(v))
        if tk["kind"] == "basic" and fk["kind"] == "slice":
            e = self.elems(st, v, fk["elem"])
            return self.set(st, fr, ins, fn("bytes2str", e.sort(), Int, Str)(e, v.len))
        if tk["kind"] == "slice" and fk["kind"] == "basic":
            r = self.new_array(st, tk["elem"], zeroed=False)
            ln = self.new("len", "Int")
            st.add(ln >= 0)
            sl = VSlice(r, ln, ln)
            e = self.elems(st, sl, tk["elem"])
            st.add(fn("bytes2str", e.sort(), Int, Str)(e, ln) == v)
            return self.set(st, fr, ins, sl)
        if tk["kind"] == fk["kind"]:
            return self.set(st, fr, ins, v)
        raise Unsupported("convert %s to %s" % (fk["str"], tk["str"]))

    def i_makeiface(self, st, fr, ins):
        v = self.val(st, fr, ins["x"])
        return self.set(st, fr, ins, self.box(st, v, ins["x"]["type"]))

    def i_makeclosure(self, st, fr, ins):
        binds = [self.val(st, fr, b) for b in ins["bindings"]]
        return self.set(st, fr, ins, VFn(None, None, Closure(ins["fn"]["name"], binds)))

    def i_makemap(self, st, fr, ins):
        return self.set(st, fr, ins, self.new_map(st, ins["type"]))

    def i_makechan(self, st, fr, ins):
        return self.set(st, fr, ins, self.new_ref(st, "chan"))

    def i_makeslice(self, st, fr, ins):
        ln, cp = self.val(st, fr, ins["len"]), self.val(st, fr, ins["cap"])
        ok, bad = self.guard(st, z3.And(ln >= 0, ln <= cp), "makeslice")
        outs = []
        if bad is not None:
            outs.append((bad, "panic", self.pv(bad, "makeslice")))
        if ok is not None:
            r = self.new_array(ok, self.ir.under(ins["type"])["elem"])
            outs += self.set(ok, fr, ins, VSlice(r, ln, cp))
        return outs

    def i_slice(self, st, fr, ins):
        x = self.val(st, fr, ins["x"])
        lo = self.val(st, fr, ins["low"]) if ins["low"] else z3.IntVal(0)
        hi = self.val(st, fr, ins["high"]) if ins["high"] else None
        xt = self.ir.under(ins["x"]["type"])
        outs = []
        if xt["kind"] == "basic":     # string
            h = hi if hi is not None else strlen(x)
            ok, bad = self.guard(st, z3.And(lo >= 0, lo <= h, h <= strlen(x)), "slice bounds")
            if bad is not None:
                outs.append((bad, "panic", self.pv(bad, "slice bounds")))
            if ok is not None:
                outs += self.set(ok, fr, ins, fn("substr", Str, Int, Int, Str)(x, lo, h))
            return outs
        if xt["kind"] == "ptr":       # pointer to array
            at = self.ir.under(xt["elem"])
            n = z3.IntVal(at["len"])
            et = at["elem"]
            if isinstance(x, VAddr) and x.kind in ("leaf", "elem"):
                # array held in a field: a copy of its content (reads only)
                cont = self.load(st, x, xt["elem"], quiet=True)
                r = self.new_array(st, et, zeroed=False)
                st.add(self.elems(st, VSlice(r, n, n), et) == cont)
                st.tags["rocopy!%s" % r.decl().name()] = True
                x = VSlice(r, n, n)
            else:
                r = x.ref if isinstance(x, VAddr) else x
                x = VSlice(r, n, n)
            h = hi if hi is not None else n
            cap = n
        else:
            et = xt["elem"]
            h = hi if hi is not None else x.len
            cap = x.cap
        if ins.get("max"):
            cap = self.val(st, fr, ins["max"])
        ok, bad = self.guard(st, z3.And(lo >= 0, lo <= h, h <= cap, cap <= x.cap), "slice bounds")
        if bad is not None:
            outs.append((bad, "panic", self.pv(bad, "slice bounds")))
        if ok is None:
            return outs
        los = z3.simplify(lo)
        if z3.is_int_value(los) and los.as_long() == 0:
            outs += self.set(ok, fr, ins, VSlice(x.arr, h, cap))
            return outs
        # reslice with an offset: modelled as a copy
        self.assume_note("reslice with non-zero low bound treated as a copy")
        r = self.new_array(ok, et, zeroed=False)
        new = VSlice(r, z3.simplify(h - lo), z3.simplify(cap - lo))
        for suf, so in self.ir.leaves(et):
            key = self.ekey(et) + suf
            H = self.hget(ok, key, z3.ArraySort(Int, z3.ArraySort(Int, sort(so))))
            j = z3.FreshConst(Int, "j")
            ok.add(z3.ForAll([j], z3.Implies(j >= 0, z3.Select(z3.Select(H, r), j) == z3.Select(z3.Select(H, x.arr), j + lo)),
                             patterns=[z3.Select(z3.Select(H, r), j)]))
        outs += self.set(ok, fr, ins, new)
        return outs

    def i_fieldaddr(self, st, fr, ins):
        x = self.val(st, fr, ins["x"])
        stt = self.ir.under(ins["x"]["type"])["elem"]
        a = x if isinstance(x, VAddr) else self.as_addr(x, stt)
        ok, bad = self.guard(st, self.nonnil_addr(st, a), "nil dereference")
        outs = []
        if bad is not None:
            outs.append((bad, "panic", self.pv(bad, "nil dereference")))
        if ok is not None:
            fa, ft = self.field_addr(a, stt, ins["field"])
            outs += self.set(ok, fr, ins, fa)
        return outs

    def i_field(self, st, fr, ins):
        x = self.val(st, fr, ins["x"])
        if isinstance(x, VStruct):
            return self.set(st, fr, ins, x.fs[ins["field"]])
        raise Unsupported("field of opaque struct value")

    def i_indexaddr(self, st, fr, ins):
        x = self.val(st, fr, ins["x"])
        i = self.val(st, fr, ins["index"])
        xt = self.ir.under(ins["x"]["type"])
        if xt["kind"] == "ptr":
            at = self.ir.under(xt["elem"])
            ln, et = z3.IntVal(at["len"]), at["elem"]
            if isinstance(x, VAddr) and x.kind not in ("arr",):
                raise Unsupported("element address in a %s array" % x.kind)
            arr = x.ref if isinstance(x, VAddr) else x
        else:
            arr, ln, et = x.arr, x.len, xt["elem"]
        ok, bad = self.guard(st, z3.And(i >= 0, i < ln), "index out of range")
        outs = []
        if bad is not None:
            outs.append((bad, "panic", self.pv(bad, "index out of range")))
        if ok is not None:
            outs += self.set(ok, fr, ins, VAddr("elem", self.ekey(et), et, arr, z3.simplify(i)))
        return outs

    def i_index(self, st, fr, ins):
        x, i = self.val(st, fr, ins["x"]), self.val(st, fr, ins["index"])
        u = self.ir.under(ins["x"]["type"])
        if u["kind"] == "basic":
            ok, bad = self.guard(st, z3.And(i >= 0, i < strlen(x)), "index out of range")
            outs = []
            if bad is not None:
                outs.append((bad, "panic", self.pv(bad, "index out of range")))
            if ok is not None:
                outs += self.set(ok, fr, ins, strat(x, i))
            return outs
        return self.set(st, fr, ins, z3.Select(x, i))

    def i_lookup(self, st, fr, ins):
        x, k = self.val(st, fr, ins["x"]), self.val(st, fr, ins["index"])
        mt = ins["x"]["type"]
        u = self.ir.under(mt)
        if u["kind"] == "basic":
            return self.i_index(st, fr, ins)
        self.map_nilfacts(st, mt, x)
        has = self.map_has(st, mt, x, k)
        et = u["elem"]
        got = self.map_get(st, mt, x, k)
        zv = self.zero_of(et)
        gl, zl = self.to_leaves(st, got, et), self.to_leaves(st, zv, et)
        h = z3.simplify(has)
        if z3.is_true(h) or has.get_id() in st.known:
            v = got
        elif not ins.get("commaok") and self.quick(st, h, 300):
            st.add(h)
            v = got
        else:
            v = self.from_leaves(et, [self.pick(st, has, a, b) for a, b in zip(gl, zl)], getattr(got, "prov", None))
        self.wf(st, v, et)
        if ins.get("commaok"):
            return self.set(st, fr, ins, VTuple([v, has]))
        return self.set(st, fr, ins, v)

    def i_mapupdate(self, st, fr, ins):
        m, k, v = self.val(st, fr, ins["map"]), self.val(st, fr, ins["key"]), self.val(st, fr, ins["x"])
        ok, bad = self.guard(st, self.nonnil_addr(st, m), "assignment to entry in nil map")
        outs = []
        if bad is not None:
            outs.append((bad, "panic", self.pv(bad, "nil map")))
        if ok is not None:
            self.map_set(ok, ins["map"]["type"], m, k, v)
            outs.append((ok, "ok", None))
        return outs

    def i_range(self, st, fr, ins):
        x = self.val(st, fr, ins["x"])
        u = self.ir.under(ins["x"]["type"])
        it = self.locid(fr, ins, ())
        if u["kind"] == "map":
            mt = ins["x"]["type"]
            self.map_nilfacts(st, mt, x)
            ks = self.msorts(mt)
            st.iters[it] = (x, mt, self.map_dom(st, mt, x), z3.K(ks, z3.BoolVal(False)), z3.IntVal(0))
        else:
            st.iters[it] = (x, None, None, None, z3.IntVal(0))
        return self.set(st, fr, ins, VIter(it))

    def i_next(self, st, fr, ins):
        it = self.val(st, fr, ins["x"])
        m, mt, dom0, seen, cnt = st.iters[it.id]
        tids = self.ir.t(ins["type"])["elems"]
        if mt is None:
            ok = self.new("more", "Bool")
            r = self.new("rune", "Int")
            i = self.new("bytepos", "Int")
            st.add(z3.Implies(ok, z3.And(i >= 0, i < strlen(m), r >= 0)))
            return self.set(st, fr, ins, VTuple([ok, i, r]))
        u = self.ir.under(mt)
        ks = self.msorts(mt)
        s2 = st.copy()
        # one more key
        k = self.new("key", ks)
        cur = self.map_dom(st, mt, m)
        st.add(z3.Not(z3.Select(seen, k)))
        st.add(z3.Select(cur, k))
        got = self.map_get(st, mt, m, k)
        self.wf(st, k, u["key"])
        self.wf(st, got, u["elem"])
        st.iters[it.id] = (m, mt, dom0, z3.Store(seen, k, z3.BoolVal(True)), cnt + 1)
        kv = VFn(k) if u["key"] and self.ir.under(u["key"])["kind"] == "func" else k
        st.env[(fr.id, ins["id"])] = VTuple([z3.BoolVal(True), kv, got])
        # exhausted: every key that was there from the start and still is has been seen
        q = z3.FreshConst(ks, "k")
        cur2 = self.map_dom(s2, mt, m)
        s2.add(z3.ForAll([q], z3.Implies(z3.And(z3.Select(dom0, q), z3.Select(cur2, q)), z3.Select(seen, q)),
                         patterns=[z3.Select(seen, q)] + ([z3.Select(cur2, q)] if not z3.is_K(cur2) else [])))
        zk = self.zero_of(u["key"])
        s2.env[(fr.id, ins["id"])] = VTuple([z3.BoolVal(False), zk, self.zero_of(u["elem"])])
        s2.trail += ("range-end",)
        return [(st, "ok", None), (s2, "ok", None)]

    def i_extract(self, st, fr, ins):
        t = self.val(st, fr, ins["x"])
        return self.set(st, fr, ins, t.vs[ins["index"]])

    def i_typeassert(self, st, fr, ins):
        x = self.val(st, fr, ins["x"])
        tid = ins["asserted"]
        if self.ir.under(tid)["kind"] == "iface":
            ok = z3.And(x != anil, fn("implements:" + self.ir.short(tid), Int, Bool)(typeof(x)))
            v = x
            if self.ir.t(tid)["str"] in ("interface{}", "any"):
                ok = x != anil
        else:
            ok = z3.And(x != anil, typeof(x) == self.tagof(tid))
            v = self.unbox(st, x, tid)
        zv = self.zero_of(tid)
        if ins.get("commaok"):
            vl, zl = self.to_leaves(st, v, tid), self.to_leaves(st, zv, tid)
            r = self.from_leaves(tid, [self.pick(st, ok, a, b) for a, b in zip(vl, zl)])
            bx = self.box(st, v, tid, quiet=True)
            st.add(z3.Implies(ok, bx == x))
            self.wf(st, r, tid)
            return self.set(st, fr, ins, VTuple([r, ok]))
        good, bad = self.guard(st, ok, "type assertion")
        outs = []
        if bad is not None:
            outs.append((bad, "panic", self.pv(bad, "type assertion")))
        if good is not None:
            bx = self.box(good, v, tid, quiet=True)
            good.add(bx == x)
            self.wf(good, v, tid)
            outs += self.set(good, fr, ins, v)
        return outs

    def i_store(self, st, fr, ins):
        a = self.val(st, fr, ins["addr"])
        tid = self.ir.under(ins["addr"]["type"])["elem"]
        if not isinstance(a, VAddr):
            a = self.as_addr(a, tid)
        ok, bad = self.guard(st, self.nonnil_addr(st, a), "nil dereference")
        outs = []
        if bad is not None:
            outs.append((bad, "panic", self.pv(bad, "nil dereference")))
        if ok is not None:
            if a.kind == "elem" and ok.tags.get("rocopy!%s" % (a.ref.decl().name() if z3.is_const(a.ref) else "")):
                raise Unsupported("write through a slice of a field array")
            self.store(ok, a, self.val(ok, fr, ins["x"]), tid)
            outs.append((ok, "ok", None))
        return outs

    def i_send(self, st, fr, ins):
        return [(st, "ok", None)]

    def i_select(self, st, fr, ins):
        tids = self.ir.t(ins["type"])["elems"]
        n = len(ins["states"])
        idx = self.new("sel", "Int")
        st.add(idx >= (0 if ins["blocking"] else -1))
        st.add(idx < n)
        vs = [idx, self.new("selok", "Bool")] + [self.fresh_of(st, t, "recv") for t in tids[2:]]
        return self.set(st, fr, ins, VTuple(vs))

    def i_rundefers(self, st, fr, ins):
        return self.run_defers(st, fr, panicking=False)

    # run_defers may return 'ret' outcomes when a deferred call panicked and a
    # later one recovered; those leave the function
    def i_defer(self, st, fr, ins):
        callee, args = self.callee(st, fr, ins["call"])
        st.defers[fr.id] = st.defers.get(fr.id, []) + [(callee, args, ins.get("pos") or "", ins.get("pos") or "")]
        return [(st, "ok", None)]

    def i_go(self, st, fr, ins):
        callee, args = self.callee(st, fr, ins["call"])
        return self.do_go(st, fr, callee, args, ins)

    def i_call(self, st, fr, ins):
        callee, args = self.callee(st, fr, ins["call"])
        outs = []
        tid = ins["type"]
        for (s, kind, v) in self.invoke(st, fr, callee, args, ins.get("pos") or str(ins["id"]), ins.get("pos")):
            if kind == "panic":
                outs.append((s, "panic", v))
            elif kind == "exit":
                continue
            else:
                vs = v or []
                if self.ir.t(tid)["kind"] == "tuple":
                    r = VTuple(vs)
                elif vs:
                    r = vs[0]
                else:
                    r = VTuple([])
                s.env[(fr.id, ins["id"])] = r
                outs.append((s, "ok", None))
        return outs

    # ------------------------------------------------------------ calls
    def callee(self, st, fr, c):
        args = [self.val(st, fr, a) for a in c["args"]]
        atids = [a["type"] for a in c["args"]]
        if "invoke" in c:
            return ("invoke", c["invoke"], self.val(st, fr, c["recv"]), c["itype"], self.ir.under(c["sig"]), atids), args
        f = c["fn"]
        if f["k"] == "builtin":
            return ("builtin", f["name"], atids, self.ir.under(c["sig"])), args
        if f["k"] == "func":
            return ("static", f["name"], self.ir.under(c["sig"]), atids), args
        v = self.val(st, fr, f)
        return ("dyn", v, f["type"], self.ir.under(c["sig"]), atids), args

    def invoke(self, st, fr, callee, args, site, pos, deferrer=None):
        k = callee[0]
        if k == "builtin":
            return self.builtin(st, fr, callee[1], args, callee[2], callee[3], pos)
        if k == "invoke":
            return self.call_invoke(st, fr, callee, args, pos)
        if k == "dyn":
            v = callee[1]
            if not isinstance(v, VFn):
                v = VFn(v)
            clo = v.clo
            if clo is None and v.term is not None and z3.is_const(v.term):
                clo = self.fnreg.get(v.term.decl().name())
            if clo is not None:
                if clo.native:
                    return clo.native(st, fr, args, pos)
                return self.call_static(st, fr, clo.fn, clo.binds, args, site, pos, deferrer, callee[3], callee[4])
            return self.call_dynamic(st, fr, v, callee[2], callee[3], args, callee[4], pos)
        return self.call_static(st, fr, callee[1], [], args, site, pos, deferrer, callee[2], callee[3])

    def call_static(self, st, fr, name, binds, args, site, pos, deferrer, sig, atids):
        m = self.models.get(name)
        if m is not None:
            self.externs_used[name] = "model"
            return m(self, st, fr, args, atids, sig, pos)
        fnobj = self.ir.funcs.get(name)
        if fnobj is not None:
            c = self.contract_of(fnobj)
            if c is not None and not c.inline and not binds:
                return self.call_contract(st, fr, fnobj, c, args, pos)
            if c is not None and c.inline:
                pass
            f = fr
            while f is not None:
                if f.fn is fnobj and not binds and fnobj.parent is None if hasattr(fnobj, "parent") else f.fn is fnobj:
                    raise Unsupported("recursion without contract: " + name)
                f = f.parent
            self.inlined.add(fnobj.name)
            return self.run_fn(st, fnobj, args, binds, fr, site, deferrer)
        return self.call_extern(st, fr, name, args, atids, sig, pos)

    def contract_of(self, fnobj):
        pkg = fnobj.pkg
        c = self.specs.contracts.get((pkg, fnobj.short))
        if c is not None and not c.inline and self.active is not None:
            # without a clause of the active properties the body is used instead
            if not any(cl.active(self.active) for cl in c.requires + c.ensures + c.exc + c.assumes) and not (c.nopanic and set(c.nopanic) & self.active):
                return None
        return c

    # ---- contract call
    def bind(self, c, vals, tids, results=None, rtids=None):
        env = {}
        for (n, ts), v, t in zip(c.params, vals, tids):
            if ts == "_":
                env[n] = (v, t)
            else:
                env[n] = (v, t)
        if results is not None:
            for (n, ts), v, t in zip(c.results, results, rtids):
                env[n] = (v, t)
            if len(results) == 1 and "result" not in env:
                env["result"] = (results[0], rtids[0])
        return env

    def call_contract(self, st, fr, fnobj, c, args, pos):
        self.contracts_used.add(fnobj.name)
        tids = [p["type"] for p in fnobj.params]
        env = self.bind(c, args, tids)
        for cl in c.requires:
            if cl.active(self.active):
                self.oblige(st, "%s.%s at %s" % (fnobj.short, cl.name, pos), self.evalcl(cl, st, st, env, c.pkg), lab(cl, self.active), "requires", pos, src=cl.src)
                # what has been checked may be relied on
                st.add(self.evalcl(cl, st, st, env, c.pkg))
        if c.decreases is not None and self.cur == fnobj.name:
            old, e2 = self.entry_state, self.entry_env
            a = speceval.ev(Ctx(self, st, st, env, c.pkg), c.decreases)[0]
            b = speceval.ev(Ctx(self, old, old, e2, c.pkg), c.decreases)[0]
            self.oblige(st, "%s.decreases at %s" % (fnobj.short, pos), z3.And(a < b, b >= 0), "base", "decreases", pos)
        summ = self.summary(fnobj, c)
        if c.updates:       # ghost call markers
            mid = st.copy()
            for u in c.updates:
                self.ghost_update(st, mid, u, env, c.pkg)
        pre = st.copy()
        outs = []
        kinds = ["ret"]
        if not (c.nopanic is not None and (set(c.nopanic) & (self.active or set(c.nopanic)))) and summ["panics"]:
            kinds.append("panic")
        states = [st] if len(kinds) == 1 else [st, st.copy()]
        for s, kind in zip(states, kinds):
            self.apply_foot(s, pre, fnobj, args, summ)
            if kind == "ret":
                rs = [self.fresh_of(s, t, "r_%s" % fnobj.short.split(".")[-1]) for t in fnobj.results]
                e = self.bind(c, args, tids, rs, fnobj.results)
                for cl in c.ensures:
                    if cl.active(self.active):
                        s.add(self.evalcl(cl, s, pre, e, c.pkg))
                for cl in c.assumes:
                    if cl.active(self.active):
                        self.assume_note("assumed of %s: %s" % (fnobj.short, cl.src))
                        s.add(self.evalcl(cl, s, pre, e, c.pkg))
                mid = s.copy()
                for u in c.onok:
                    self.ghost_update(s, mid, u, e, c.pkg)
                outs.append((s, "ret", rs))
            else:
                p = self.pv(s, "in " + fnobj.short)
                for cl in c.exc:
                    if cl.active(self.active):
                        s.add(self.evalcl(cl, s, pre, env, c.pkg))
                mid = s.copy()
                for u in c.onpanic:
                    self.ghost_update(s, mid, u, env, c.pkg)
                s.trail += ("panic in %s" % fnobj.short,)
                outs.append((s, "panic", p))
        return outs

    def evalcl(self, cl, st, old, env, pkg, atloop=None):
        return speceval.bev(Ctx(self, st, old, env, pkg, atloop), cl.ast)

    def apply_foot(self, st, pre, fnobj, args, summ):
        """havoc what the callee may modify, keep the rest"""
        subs = []
        for p, a in zip(fnobj.params, args):
            for pt, at in zip(summ["params"][p["id"]], self.to_leaves(st, a, p["type"])):
                if z3.is_expr(at) and pt.sort() == at.sort():
                    subs.append((pt, at))
        subs.append((summ["alloc0"], pre.alloc))
        keys = sorted(summ["foot"])
        # base symbols of every heap array the stable indices mention
        for key, s in list(self.heapsort.items()):
            subs.append((z3.Const("%s@0" % key, s), self.hget(pre, key)))
        st.alloc = self.new("alloc", "Int")
        st.add(st.alloc >= pre.alloc)
        for key in keys:
            foot = summ["foot"][key]
            stable = [z3.substitute(t, *subs) for t in foot.stable.values()]
            self.havoc_key(st, key, stable, foot.fresh, foot.top, pre.alloc, self.hget(pre, key))
            for t in stable:
                st.wlog.append((key, t))
            if foot.fresh:
                st.wlog.append((key, ("fresh", pre.alloc, self.serial)))
            if foot.top:
                st.wlog.append((key, None))

    def havoc_key(self, st, key, stable, fresh, top, base, old):
        s = self.heapsort[key]
        n = self.new(key, s)
        self.symwf[n.decl().name()] = (key, s, st.alloc)
        st.heap[key] = n
        if s.kind() != z3.Z3_ARRAY_SORT or top:
            return n
        x = z3.FreshConst(s.domain(), "x")
        conds = [x != t for t in stable]
        if fresh:
            if s.domain() != Int:
                return n
            conds.append(x < base)
        if not fresh and len(stable) == 1:
            # exactly one index written
            t = stable[0]
            v = self.new(key + "!at", s.range())
            self.symwf[v.decl().name()] = (key, s.range(), st.alloc)
            st.heap[key] = z3.Store(old, t, v)
            return st.heap[key]
        if not fresh and 1 < len(stable) <= 3:
            h = old
            for t in stable:
                v = self.new(key + "!at", s.range())
                self.symwf[v.decl().name()] = (key, s.range(), st.alloc)
                h = z3.Store(h, t, v)
            st.heap[key] = h
            return h
        body = z3.Select(n, x) == z3.Select(old, x)
        if conds:
            body = z3.Implies(z3.And(conds), body)
        st.add(z3.ForAll([x], body, patterns=[z3.Select(n, x)]))
        return n

    # ---- summaries of contracted functions
    def summary(self, fnobj, c):
        name = fnobj.name
        s = self.summaries.get(name)
        if s is None:
            s = {"foot": {}, "panics": True, "params": self.param_syms(fnobj), "alloc0": z3.Const("alloc@0", Int), "done": False}
            self.summaries[name] = s
            if name not in self.stack:
                self.scout_fn(fnobj, c, s)
        return s

    def param_syms(self, fnobj):
        d = {}
        for i, p in enumerate(fnobj.params):
            d[p["id"]] = [z3.Const("%s:%d%s" % (fnobj.name, i, suf), sort(so)) for suf, so in self.ir.leaves(p["type"])]
        return d

    def scout_fn(self, fnobj, c, s):
        """compute what the function may modify (fixpoint for recursion)"""
        while True:
            before = foot_size(s["foot"])
            saved = (self.obls, self.cur, getattr(self, "entry_state", None), getattr(self, "entry_env", None), getattr(self, "cur_contract", None), getattr(self, "fn_region", None))
            self.obls = []
            self.mute += 1
            try:
                self.exec_contract_fn(fnobj, c, s)
            finally:
                self.mute -= 1
                self.obls, self.cur, self.entry_state, self.entry_env, self.cur_contract, self.fn_region = saved
            if foot_size(s["foot"]) == before:
                break
        s["done"] = True

    def exec_contract_fn(self, fnobj, c, summ):
        """run a function under its contract, emitting its obligations"""
        self.stack.append(fnobj.name)
        prev = self.cur
        self.cur = fnobj.name
        try:
            st = State()
            st.alloc = z3.Const("alloc@0", Int)
            st.add(st.alloc > 0)
            args = []
            for p in fnobj.params:
                terms = list(summ["params"][p["id"]])
                v = self.from_leaves(p["type"], terms)
                self.wf(st, v, p["type"])
                args.append(v)
            tids = [p["type"] for p in fnobj.params]
            env = self.bind(c, args, tids) if c else {}
            for cl in (c.requires if c else []):
                if cl.active(self.active):
                    st.add(self.evalcl(cl, st, st, env, c.pkg))
            entry = st.copy()
            self.entry_state, self.entry_env, self.cur_contract = entry, env, c
            self.fn_region = Region(0, st.alloc, 0)
            self.fn_region.serial = self.serial
            if not self.mute:
                self.oblige(st, "%s: precondition satisfiable" % fnobj.short, z3.BoolVal(False), "base", "reach")
            outs = self.run_fn(st, fnobj, args, [], None, "")
            panics = False
            nret = 0
            for (s, kind, v) in outs:
                self.collect_foot(s, summ)
                if kind == "ret":
                    nret += 1
                    self.check_ret(s, entry, fnobj, c, args, tids, v)
                elif kind == "panic":
                    panics = True
                    self.check_panic(s, entry, fnobj, c, env)
            summ["panics"] = panics
            summ["nret"] = nret
            return outs
        finally:
            self.stack.pop()
            self.cur = prev

    def check_ret(self, s, entry, fnobj, c, args, tids, v):
        if c is None or self.mute:
            return
        env = self.bind(c, args, tids, v, fnobj.results)
        for cl in c.ensures:
            if cl.active(self.active):
                self.oblige(s, "%s.%s" % (fnobj.short, cl.name), self.evalcl(cl, s, entry, env, c.pkg), lab(cl, self.active), "ensures", "", src=cl.src)
        self.oblige(s, "%s: return reachable" % fnobj.short, z3.BoolVal(False), "base", "reach-exit")

    def check_panic(self, s, entry, fnobj, c, env):
        if c is None or self.mute:
            return
        if c.nopanic is not None and (set(c.nopanic) & (self.active or set(c.nopanic))):
            self.oblige(s, "%s.nopanic (%s)" % (fnobj.short, s.tags.get("panic")), z3.BoolVal(False), c.nopanic[0], "nopanic", src="nopanic")
        for cl in c.exc:
            if cl.active(self.active):
                self.oblige(s, "%s.%s" % (fnobj.short, cl.name), self.evalcl(cl, s, entry, env, c.pkg), lab(cl, self.active), "ensures_panic", "", src=cl.src)

    # ------------------------------------------------------------ footprints
    def stable_in(self, t, serial):
        for n in consts_in(t):
            if self.serials.get(n, 0) > serial:
                return False
        return True

    def classify(self, st, t, region, key):
        """-> list of ('stable',term)|('fresh',level)|('top',) for a written index"""
        if t is None:
            return [("top",)]
        if isinstance(t, tuple):      # ('fresh', base, serial)
            _, base, ser = t
            if ser >= region.serial:
                return [("fresh", 1)]
            return [("fresh", 2)]
        if t.sort() == Int and not z3.is_int_value(t):
            b = self.birth(t)
            if b > region.serial:
                return [("fresh", 1)]
            if b > self.fn_region.serial:
                return [("fresh", 2)]
        memo = self.clsmemo
        if memo is not None:
            mk = t.get_id()
            if mk not in memo:
                memo[mk] = (self.classify1(st, t, region, key), t)
            return memo[mk][0]
        return self.classify1(st, t, region, key)

    clsmemo = None

    def classify1(self, st, t, region, key):
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = t.decl().name()
            if n in self.narr:
                a, r = self.narr[n]
                out = []
                if self.serials.get(n, 0) > region.serial:
                    if self.quick(st, z3.Or(t >= region.alloc, t == 0), 1500):
                        return [("fresh", 1)]
                    if region is not self.fn_region and self.quick(st, z3.Or(t >= self.fn_region.alloc, t == 0), 1500):
                        return [("fresh", 2)]
                if a is not None:
                    out += self.classify(st, a, region, key)
                return out + self.classify(st, r, region, key)
            if n in self.fresh_refs:
                if self.serials.get(n, 0) > region.serial:
                    return [("fresh", 1)]
                return [("stable", t)]
        if self.stable_in(t, region.serial):
            return [("stable", t)]
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            return self.classify(st, t.arg(1), region, key) + self.classify(st, t.arg(2), region, key)
        if t.sort() == Int:
            if self.quick(st, z3.Or(t >= region.alloc, t == 0), 1500):
                return [("fresh", 1)]
            if region is not self.fn_region and self.quick(st, z3.Or(t >= self.fn_region.alloc, t == 0), 1500):
                return [("fresh", 2)]
        return [("top",)]

    def foot_of(self, st, region):
        self.clsmemo = {}
        try:
            return self.foot_of1(st, region)
        finally:
            self.clsmemo = None

    def foot_of1(self, st, region):
        feet = {}
        done = set()
        for (key, t) in st.wlog[region.wstart:]:
            dk = (key, t if t is None or isinstance(t, tuple) else t.get_id())
            if dk in done:
                continue
            done.add(dk)
            f = feet.setdefault(key, Foot())
            if f.top:
                continue
            for c in self.classify(st, t, region, key):
                if c[0] == "stable":
                    f.stable[c[1].get_id()] = c[1]
                elif c[0] == "fresh":
                    f.fresh = max(f.fresh, c[1])
                else:
                    f.top = True
        return feet

    def collect_foot(self, st, summ):
        r = Region(self.fn_region.serial, self.fn_region.alloc, 0)
        for key, f in self.foot_of(st, r).items():
            f.fresh = 1 if f.fresh else 0
            summ["foot"].setdefault(key, Foot()).merge(f)

    # ------------------------------------------------------------ loops
    def loop_key(self, fr, b):
        heads = sorted(fr.fn.loops, key=lambda x: fr.fn.rpo[x])
        return (self.cur,) + tuple(p[0] for p in fr.callpath) + ("L%d" % heads.index(b),)

    def loop_enter(self, st, fr, b, pred):
        """arrive at a loop header from outside (or unrolling): cut or unroll.
        -> state to continue with from the header, or None"""
        fn = fr.fn
        n = st.tags.get("unroll!%d!%d" % (fr.id, b), 0)
        if n < 40 and self.concrete_header(st, fr, b):
            st.tags["unroll!%d!%d" % (fr.id, b)] = n + 1
            return st
        st.tags.pop("unroll!%d!%d" % (fr.id, b), None)
        key = self.loop_key(fr, b)
        mod = LoopMod()
        prof = self.loopmods.get(key)
        if prof is not None:
            mod.seed(prof)
        region = Region(self.serial, st.alloc, len(st.wlog))
        up, f = set(), fr.parent
        while f is not None:
            up.add(f.id)
            f = f.parent
        st.tags["regions"] = tuple(r for r in st.tags.get("regions", ()) if r[0][0] in up or (r[0][0] == fr.id and r[0][1] != b and b in fn.loops.get(r[0][1], ()))
                                   ) + (((fr.id, b), region.serial, region.alloc),)
        entry = st.copy()
        cands = self.candidates(key, st, fr, b, entry)
        # scouting until the modified set is stable. Which arrays a loop writes
        # is remembered per loop (profile); the written indices depend on the
        # entry state. A scout inside a scout needs no confirming pass.
        for it in range(12):
            self.mute += 1
            try:
                s = entry.copy()
                s.loops = dict(s.loops)
                self.loop_havoc(s, entry, fr, b, mod, region, cands, key)
                scout_region = Region(region.serial, entry.alloc, len(s.wlog))
                outs = self.run_blocks_from(s, fr, b)
                grew = False
                shape = mod.shape()
                for (s2, kind, _) in outs:
                    if kind == "back":
                        grew |= self.loop_collect(s2, entry, mod, scout_region)
            finally:
                self.mute -= 1
            if not grew or self.mute and mod.shape() == shape:
                break
        else:
            raise Unsupported("loop footprint does not converge")
        if prof is None:
            prof = self.loopmods[key] = LoopMod()
        prof.seed(mod)
        for (cn, f, lb, src) in cands:
            try:
                g = f(entry, entry)
            except (SpecError, Unsupported, z3.Z3Exception, KeyError, AttributeError) as e:
                self.dropped.add((key, cn))
                continue
            self.oblige(entry, "loop %s init: %s" % ("/".join(key[1:]), cn), g, lb, "inv-init", "", cand=(key, cn), src=src)
        cands = [c for c in cands if (key, c[0]) not in self.dropped]
        self.loop_havoc(st, entry, fr, b, mod, region, cands, key)
        st.loops[(fr.id, b)] = (key, entry, cands, Region(region.serial, entry.alloc, len(st.wlog)), mod)
        # what the loop may have written belongs to the enclosing regions
        return st

    def run_blocks_from(self, st, fr, b):
        return self.run_blocks(st, fr, b, region_only=(b, fr.fn.loops[b]))

    def loop_collect(self, st, entry, mod, region):
        grew = False
        for key, f in self.foot_of(st, region).items():
            cur = mod.heap.get(key)
            if cur is None:
                mod.heap[key] = Foot()
                mod.heap[key].merge(f)
                grew = True
            else:
                grew |= cur.merge(f)
        for cid, v in entry.cells.items():
            if not same_val(v, st.cells.get(cid)) and cid not in mod.cells:
                # compare against the havocked value
                h = st.tags.get("hcell!%d" % cid)
                if h is not None and same_val(h, st.cells.get(cid)):
                    continue
                mod.cells.add(cid)
                grew = True
        for iid, v in entry.iters.items():
            w = st.iters.get(iid)
            if w is not None and w[3] is not None and v[3] is not None and not w[3].eq(v[3]) and iid not in mod.iters:
                mod.iters.add(iid)
                grew = True
        return grew

    def loop_havoc(self, st, entry, fr, b, mod, region, cands, key):
        fn = fr.fn
        st.alloc = self.new("alloc", "Int")
        st.add(st.alloc >= entry.alloc)
        for key, foot in sorted(mod.heap.items()):
            base = entry.alloc if foot.fresh < 2 else self.fn_region.alloc
            old = self.hget(entry, key)
            stable = list(foot.stable.values())
            self.havoc_key(st, key, stable, foot.fresh, foot.top, base, old)
            for t in stable:
                st.wlog.append((key, t))
            if foot.fresh == 1:
                st.wlog.append((key, ("fresh", entry.alloc, self.serial)))
            elif foot.fresh == 2:
                st.wlog.append((key, ("fresh", self.fn_region.alloc, self.fn_region.serial)))
            if foot.top:
                st.wlog.append((key, None))
        for cid in sorted(mod.cells):
            name, tid, _ = st.tags.get("cell!%d" % cid, ("cell", None, None))
            if tid is None:
                raise Unsupported("cell without type")
            st.cells[cid] = self.fresh_of(st, tid, name or "cell")
            st.tags["hcell!%d" % cid] = st.cells[cid]
        for iid in sorted(mod.iters):
            m, mt, dom0, seen, cnt = st.iters[iid]
            n = self.new("seen", seen.sort())
            st.iters[iid] = (m, mt, dom0, n, self.new("cnt", "Int"))
        # iterators created before the loop but advanced in it
        for ins in fn.blocks[b]["instrs"]:
            if ins["op"] != "phi":
                break
            name = ins.get("comment") or "phi"
            old = st.env.get((fr.id, ins["id"]))
            if old is None:
                continue
            if isinstance(old, VFn) and old.clo is not None:
                # a function-valued loop variable: keep only if unchanged
                pass
            try:
                st.env[(fr.id, ins["id"])] = self.fresh_of(st, ins["type"], name)
            except ValueError:
                raise Unsupported("phi of tuple")
        for (cn, f, lb, src) in cands:
            try:
                st.add_cand(f(st, entry), (key, cn))
            except (SpecError, Unsupported, z3.Z3Exception, KeyError, AttributeError):
                pass

    def loop_back(self, st, fr, b):
        key, entry, cands, region, mod = st.loops[(fr.id, b)]
        if self.loop_collect(st, entry, mod, region):
            if not self.mute:
                raise Unsupported("loop %s writes outside its computed footprint" % (key,))
        for (cn, f, lb, src) in cands:
            try:
                g = f(st, entry)
            except (SpecError, Unsupported, z3.Z3Exception, KeyError, AttributeError) as e:
                self.oblige(st, "loop %s keep: %s" % ("/".join(key[1:]), cn), z3.BoolVal(False), lb, "inv-keep", "", cand=(key, cn), src=src)
                continue
            self.oblige(st, "loop %s keep: %s" % ("/".join(key[1:]), cn), g, lb, "inv-keep", "", cand=(key, cn), src=src)

    def concrete_header(self, st, fr, b):
        """is the loop condition decided here? (loops over literal lists)"""
        blk = fr.fn.blocks[b]
        last = blk["instrs"][-1]
        if last["op"] != "if":
            return False
        phis = [i for i in blk["instrs"] if i["op"] == "phi"]
        ok = False
        for p in phis:
            v = st.env.get((fr.id, p["id"]))
            if z3.is_expr(v) if not isinstance(v, (VSlice, VStruct, VFn, VAddr, VTuple, VIter, type(None))) else False:
                if z3.is_int_value(z3.simplify(v)):
                    ok = True
        if not ok:
            return False
        if any(i["op"] in ("next", "call", "select", "store") and not (i["op"] == "call" and i["call"].get("fn", {}).get("k") == "builtin") for i in blk["instrs"]):
            return False
        s = st.copy()
        self.mute += 1
        try:
            for ins in blk["instrs"][:-1]:
                if ins["op"] in ("phi", "debug"):
                    continue
                r = self.step(s, fr, ins)
                if len(r) != 1 or r[0][1] != "ok":
                    return False
                s = r[0][0]
            c = z3.simplify(self.val(s, fr, last["x"]))
        except Unsupported:
            return False
        finally:
            self.mute -= 1
        t, f = blk["succs"]
        return z3.is_true(c) or z3.is_false(c)

    # ------------------------------------------------------------ candidates
    def pool(self, st, fr, b):
        """variables visible at a loop header: [(name, tid, getter, rank)]"""
        out = []
        fn = fr.fn
        loop = fn.loops[b]
        defined_in = set()
        for x in loop:
            for ins in fn.blocks[x]["instrs"]:
                if "id" in ins and ins["op"] != "debug":
                    defined_in.add(ins["id"])
        phis = {}
        for ins in fn.blocks[b]["instrs"]:
            if ins["op"] == "phi":
                phis[ins["id"]] = ins
        phinames = set(i.get("comment") for i in phis.values() if i.get("comment"))
        # definitions of source variables (not plain reads of them)
        defids = set()
        for x in range(len(fn.blocks)):
            for ins in fn.blocks[x]["instrs"]:
                if ins["op"] == "phi":
                    defids.add(ins["id"])
        used = set()

        def uses(o):
            if isinstance(o, dict):
                if o.get("k") == "reg":
                    used.add(o["id"])
                else:
                    for v in o.values():
                        uses(v)
            elif isinstance(o, list):
                for v in o:
                    uses(v)
        for x in loop:
            for ins in fn.blocks[x]["instrs"]:
                uses({k: v for k, v in ins.items() if k not in ("id",)})
        for f in frames(fr):
            names, types = reg_names(f.fn)
            for (fid, r), v in list(st.env.items()):
                if fid != f.id:
                    continue
                tid = types.get(r)
                if tid is None or isinstance(v, (VTuple, VIter)):
                    continue
                nm = names.get(r)
                if f is fr:
                    if r in phis:
                        continue
                    if r in defined_in:
                        continue
                    if nm is None and r not in used:
                        continue
                elif nm is None:
                    continue
                if isinstance(v, VAddr) and v.kind == "cell":
                    cid = v.key
                    if cid in st.cells:
                        ct = v.tid
                        cn = st.tags.get("cell!%d" % cid, ("", None, None))[0] or nm or "cell"
                        out.append((cn, ct, (lambda s, cid=cid: s.cells[cid]), "cell"))
                    continue
                out.append((nm or "t%d" % r, tid, (lambda s, k=(f.id, r): s.env[k]), "reg", r if f is fr and nm else None))
        for r, ins in phis.items():
            nm = ins.get("comment") or "phi%d" % r
            if self.ir.under(ins["type"])["kind"] == "basic" and self.ir.sortkey(ins["type"]) == "Int":
                if nm == "rangeindex":
                    out.append((nm, ins["type"], (lambda s, k=(fr.id, r): s.env[k] + 1), "phi"))
                    continue
            out.append((nm, ins["type"], (lambda s, k=(fr.id, r): s.env[k]), "phi"))
        live = set()
        for f in frames(fr):
            for h, blks in f.fn.loops.items():
                if (b not in blks) if f is fr else ((f.id, h) not in st.loops):
                    continue
                for x in blks:
                    for ins in f.fn.blocks[x]["instrs"]:
                        if ins["op"] == "next":
                            v = st.env.get((f.id, ins["x"].get("id")))
                            if isinstance(v, VIter):
                                live.add(v.id)
        self.liveiters = live
        for iid, it in st.iters.items():
            if it[1] is not None and iid in live:
                kt = self.ir.under(it[1])["key"]
                out.append(("seen%d" % iid, ("ghost", kt, self.ir.BOOL), (lambda s, i=iid: s.iters[i][3]), "iter"))
        # of several definitions of one variable, the one current at the loop
        if True:
            where = {}
            for x in fn.rpo:
                for ins in fn.blocks[x]["instrs"]:
                    if "id" in ins:
                        where.setdefault(ins["id"], x)
            best = {}
            for o in out:
                if o[3] != "reg" or len(o) < 5 or o[4] is None:
                    continue
                if o[0] in phinames:
                    best.setdefault(o[0], -1)
                    continue
                rk = fn.rpo[where[o[4]]] if o[4] in where else -1
                rk = (rk, o[4])
                if o[0] not in best or (best[o[0]] != -1 and best[o[0]] < rk):
                    best[o[0]] = rk
            keep = []
            for o in out:
                if o[3] == "reg" and len(o) >= 5 and o[4] is not None:
                    rk = ((fn.rpo[where[o[4]]] if o[4] in where else -1), o[4])
                    if best[o[0]] != rk:
                        continue
                keep.append(o[:4])
            out = keep
        # the same value under several names: keep one
        uniq, seen = [], set()
        for o in out:
            try:
                v = o[2](st)
                sig = (str(o[1]),) + tuple(x.get_id() if z3.is_expr(x) else id(x) for x in (self.to_leaves(st, v, o[1], True) if isinstance(o[1], int) else [v]))
            except Exception:
                sig = (o[0], str(o[1]), len(uniq))
            if o[3] in ("phi", "cell"):
                sig = (o[0], str(o[1]), o[3], len(uniq))
            if sig in seen:
                continue
            seen.add(sig)
            uniq.append(o)
        return uniq

    def candidates(self, key, st, fr, b, entry):
        """invariant candidates of this loop: user templates instantiated over
        the visible variables, plus generic ones"""
        out = []
        pool = self.pool(st, fr, b)
        fn = fr.fn
        phis = [i for i in fn.blocks[b]["instrs"] if i["op"] == "phi"]
        # generic: slices built up locally
        for (nm, tid, get, kind) in pool:
            if not isinstance(tid, int):
                continue
            if self.ir.under(tid)["kind"] == "slice" and kind in ("phi", "cell"):
                out.append(("auto:fresh-or-empty(%s)" % nm, lambda s, e, g=get: z3.Or(g(s).cap == 0, g(s).arr >= self.fn_alloc()), "base", "auto"))
                out.append(("auto:loop-fresh-or-empty(%s)" % nm, lambda s, e, g=get: z3.Or(g(s).cap == 0, g(s).arr >= e.alloc), "base", "auto"))
                out.append(("auto:cap0-arr0(%s)" % nm, lambda s, e, g=get: z3.And(g(s).len >= 0, g(s).len <= g(s).cap), "base", "auto"))
        for ins in phis:
            if self.ir.under(ins["type"])["kind"] == "basic" and self.ir.sortkey(ins["type"]) == "Int":
                k = (fr.id, ins["id"])
                nm = ins.get("comment") or "phi"
                init = st.env.get(k)
                out.append(("auto:ge-init(%s)" % nm, lambda s, e, k=k, i=init: s.env[k] >= i, "base", "auto"))
                out.append(("auto:le-init(%s)" % nm, lambda s, e, k=k, i=init: s.env[k] <= i, "base", "auto"))
                off = 1 if nm == "rangeindex" else 0
                for N, dirn in self.bounds(st, fr, b, ins):
                    if dirn == "up":
                        out.append(("auto:le-bound(%s)" % nm, lambda s, e, k=k, i=init, N=N, off=off: z3.Or(s.env[k] + off <= N(s), s.env[k] == i), "base", "auto"))
                    else:
                        out.append(("auto:ge-bound(%s)" % nm, lambda s, e, k=k, i=init, N=N: z3.Or(s.env[k] >= N(s) - 1, s.env[k] == i), "base", "auto"))
        for iid, it in st.iters.items():
            if it[1] is not None and iid in self.liveiters:
                ks = it[3].sort().domain()

                def f(s, e, i=iid, ks=ks):
                    q = z3.FreshConst(ks, "k")
                    m, mt, dom0, seen, cnt = s.iters[i]
                    d = e.iters[i][2]
                    return z3.ForAll([q], z3.Implies(z3.Select(seen, q), z3.Select(d, q)), patterns=[z3.Select(seen, q)])
                out.append(("auto:seen-in-domain(%d)" % (iid if False else 0) + "#%d" % list(st.iters).index(iid), f, "base", "auto"))
        # user templates
        tm = list(self.cur_contract.loops) if self.cur_contract else []
        tm = tm + list(self.specs.anyloop)
        pkg = self.cur_contract.pkg if self.cur_contract else None
        # contracts of inlined functions on the stack contribute theirs
        for f in frames(fr):
            if f.parent is not None:
                c = self.contract_of(f.fn)
                if c is not None and c.inline:
                    tm += c.loops
        env0 = dict(self.entry_env)
        for cl in tm:
            if not cl.active(self.active):
                continue
            options = []
            for (n, ts) in cl.binders:
                try:
                    t = speceval.resolve(self, ts, pkg)
                except SpecError:
                    options = None
                    break
                opts = [p for p in pool if type_match(self.ir, p[1], t)]
                if not opts:
                    options = None
                    break
                # variables of the hinted name first
                opts.sort(key=lambda p: (p[0] != n,))
                options.append(opts)
            if options is None:
                continue
            count = 0
            for combo in itertools.product(*options):
                if len(set(id(c) for c in combo)) != len(combo):
                    continue
                count += 1
                if count > 60:
                    break
                nm = "%s(%s)" % (cl.name, ",".join(c[0] for c in combo))

                def f(s, e, cl=cl, combo=combo):
                    env = dict(env0)
                    for (n, ts), p in zip(cl.binders, combo):
                        env[n] = (p[2](s), p[1])
                    return self.evalcl(cl, s, self.entry_state, env, pkg, e)
                out.append((nm, f, lab(cl, self.active), cl.src))
        res, seen = [], set()
        for o in out:
            n = o[0]
            i = 2
            while n in seen:
                n = "%s~%d" % (o[0], i)
                i += 1
            seen.add(n)
            if (key, n) in self.dropped:
                continue
            res.append((n,) + o[1:])
        return res

    def fn_alloc(self):
        return self.fn_region.alloc

    def bounds(self, st, fr, b, phi):
        """loop-invariant bounds the header compares this phi with"""
        fn = fr.fn
        out = []
        loop = fn.loops[b]
        inc = {phi["id"]}
        for x in loop:
            for ins in fn.blocks[x]["instrs"]:
                if ins["op"] == "binop" and ins["tok"] in ("+", "-") and ins["x"].get("id") in inc:
                    inc.add(ins["id"])
        defined_in = set()
        for x in loop:
            for ins in fn.blocks[x]["instrs"]:
                if "id" in ins:
                    defined_in.add(ins["id"])
        for x in loop:
            for ins in fn.blocks[x]["instrs"]:
                if ins["op"] == "binop" and ins["tok"] in CMP and ins["x"].get("k") == "reg" and ins["x"]["id"] in inc:
                    y = ins["y"]
                    if y["k"] == "const" or (y["k"] == "reg" and y["id"] not in defined_in):
                        if y["k"] == "const" and "int" not in y:
                            continue
                        N = (lambda s, y=y: self.val(s, fr, y))
                    elif y["k"] == "reg":
                        # len(x) of a loop-invariant slice, evaluated in the loop
                        d = find_def(fn, y["id"])
                        if d and d["op"] == "call" and d["call"].get("fn", {}).get("name") == "len":
                            a = d["call"]["args"][0]
                            if a["k"] == "reg" and a["id"] not in defined_in and self.ir.under(a["type"])["kind"] == "slice":
                                N = (lambda s, a=a: self.val(s, fr, a).len)
                            else:
                                continue
                        else:
                            continue
                    else:
                        continue
                    if ins["tok"] in ("<", "<=", "!="):
                        out.append((N, "up"))
                    if ins["tok"] in (">", ">=", "!="):
                        out.append((N, "down"))
        return out[:3]

    # ------------------------------------------------------------ merging
    def merge_items(self, items, fr, b):
        """phis have been evaluated; predecessors no longer matter (all are
        back edges or none is)"""
        pred = items[0][1]
        return [(m, pred) for m in self.merge_states([s for s, _ in items], fr)]

    def merge_sig(self, s, fr):
        return (tuple((k, id(s.loops[k][1])) for k in sorted(s.loops)), tuple(sorted(s.iters)), tuple(len(s.defers.get(i) or []) for i in sorted(s.defers)),
                tuple(i for i in sorted(s.pan) if s.pan[i] is not None))

    def merge_states(self, states, fr):
        by = {}
        for s in states:
            by.setdefault(self.merge_sig(s, fr), []).append(s)
        out = []
        for sig, ss in by.items():
            m = ss[0]
            for o in ss[1:]:
                r = self.merge2(m, o)
                if r is None:
                    out.append(o)
                else:
                    m = r
            out.append(m)
        return out

    def merge2(self, a, b):
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n].eq(b.pc[n]):
            n += 1
        g = self.new("join", "Bool")
        s = a.copy()
        s.pc = a.pc[:n]
        s.known = a.known & b.known

        def ite(x, y):
            return x if x.eq(y) else self.pick(s, g, x, y)

        def mv(x, y):
            if x is y:
                return x
            if type(x) is not type(y) and not (z3.is_expr(x) and z3.is_expr(y)):
                if isinstance(x, VAddr) and z3.is_expr(y):
                    return ite(self.addr_term(a, x), y) if x.kind in ("obj", "arr") else None
                if isinstance(y, VAddr) and z3.is_expr(x):
                    return ite(x, self.addr_term(b, y)) if y.kind in ("obj", "arr") else None
                return None
            if isinstance(x, VSlice):
                return VSlice(ite(x.arr, y.arr), ite(x.len, y.len), ite(x.cap, y.cap))
            if isinstance(x, VStruct):
                fs = [mv(p, q) for p, q in zip(x.fs, y.fs)]
                return None if any(f is None for f in fs) else VStruct(x.tid, fs)
            if isinstance(x, VTuple):
                fs = [mv(p, q) for p, q in zip(x.vs, y.vs)]
                return None if any(f is None for f in fs) else VTuple(fs)
            if isinstance(x, VIter):
                return x if x.id == y.id else None
            if isinstance(x, VFn):
                if x.clo is not None or y.clo is not None:
                    if x.clo is not None and y.clo is not None and x.clo.fn == y.clo.fn and all(mv(p, q) is p for p, q in zip(x.clo.binds, y.clo.binds)):
                        return x
                    return None
                if x.term is None or y.term is None:
                    return None
                prov = x.prov if x.prov == y.prov else None
                if prov is None and x.prov and y.prov and x.prov[0] == y.prov[0]:
                    prov = (x.prov[0], ite(x.prov[1], y.prov[1]), None)
                return VFn(ite(x.term, y.term), prov)
            if isinstance(x, VAddr):
                if x.kind != y.kind or x.key != y.key:
                    return None
                if x.kind in ("cell", "glob"):
                    return x
                r = ite(x.ref, y.ref)
                i = ite(x.idx, y.idx) if x.idx is not None else None
                return VAddr(x.kind, x.key, x.tid, r, i)
            if x.sort() != y.sort():
                return None
            return ite(x, y)
        env = {}
        for k in a.env:
            if k in b.env:
                v = mv(a.env[k], b.env[k])
                if v is not None:
                    env[k] = v
        s.env = env
        cells = {}
        for k in a.cells:
            if k in b.cells:
                v = mv(a.cells[k], b.cells[k])
                if v is not None:
                    cells[k] = v
        s.cells = cells
        heap = {}
        for k in set(a.heap) | set(b.heap):
            heap[k] = ite(self.hget(a, k), self.hget(b, k))
        s.heap = heap
        iters = {}
        for k in a.iters:
            x, y = a.iters[k], b.iters[k]
            if x[1] is None:
                iters[k] = x
            else:
                iters[k] = (ite(x[0], y[0]), x[1], ite(x[2], y[2]), ite(x[3], y[3]), ite(x[4], y[4]))
        s.iters = iters
        s.alloc = ite(a.alloc, b.alloc)
        ids = set()
        s.wlog = list(a.wlog)
        m = 0
        while m < len(a.wlog) and m < len(b.wlog) and a.wlog[m] is b.wlog[m]:
            m += 1
        s.wlog += b.wlog[m:]
        for i in a.pan:
            if a.pan[i] is not None:
                s.pan[i] = ite(a.pan[i], b.pan[i])
        for i in a.defers:
            xs, ys = a.defers[i], b.defers.get(i, [])
            if len(xs) != len(ys) or any(p is not q and (p[0] != q[0]) for p, q in zip(xs, ys)):
                if not all(p is q for p, q in zip(xs, ys)):
                    return None
        for cond, part in ((g, a.pc[n:]), (z3.Not(g), b.pc[n:])):
            plain = [e for e in part if not CANDPC.get(e.get_id())]
            if plain:
                s.pc.append(z3.Implies(cond, z3.And(plain)))
            for e in part:
                own = CANDPC.get(e.get_id())
                if own:
                    f = z3.Implies(cond, e)
                    KEEP[f.get_id()] = f
                    CANDPC[f.get_id()] = own
                    s.pc.append(f)
        s.trail = a.trail[:0] + tuple(os_prefix(a.trail, b.trail)) + ("(merged)",)
        s.tags = {k: v for k, v in a.tags.items() if k in b.tags}
        return s

    def merge_outcomes(self, res):
        """merge the outcomes of a function executed in place"""
        if len(res) <= self.MERGE_AT:
            return res
        out = []
        by = {}
        for (s, kind, v) in res:
            by.setdefault((kind, self.merge_sig(s, None)), []).append((s, v))
        for (kind, _), xs in by.items():
            s, v = xs[0]
            for (s2, v2) in xs[1:]:
                # carry the results through the environment
                k0 = (-1, 0)
                s.env[k0] = VTuple(v) if kind == "ret" else v
                s2.env[k0] = VTuple(v2) if kind == "ret" else v2
                m = self.merge2(s, s2)
                if m is None or k0 not in m.env:
                    s2.env.pop(k0)
                    out.append((s2, kind, v2))
                    s.env.pop(k0)
                    continue
                v = m.env.pop(k0)
                v = v.vs if kind == "ret" else v
                s = m
            out.append((s, kind, v))
        return out


def os_prefix(a, b):
    n = 0
    while n < len(a) and n < len(b) and a[n] == b[n]:
        n += 1
    return a[:n]


def frames(fr):
    while fr is not None:
        yield fr
        fr = fr.parent


def lab(cl, active):
    ls = [l for l in cl.labels if active is None or l in active]
    for l in ls:
        if l != "base":
            return l
    return ls[0] if ls else "base"


_names = {}


def reg_names(fn):
    r = _names.get(fn.name)
    if r is None:
        names, types = {}, {}
        for p in fn.params:
            names[p["id"]] = p["name"]
            types[p["id"]] = p["type"]
        for p in fn.freevars:
            names[p["id"]] = p["name"]
            types[p["id"]] = p["type"]
        for b in fn.blocks:
            for ins in b["instrs"]:
                if ins["op"] == "debug":
                    if ins["x"]["k"] == "reg":
                        names.setdefault(ins["x"]["id"], ins["name"])
                elif "id" in ins:
                    types[ins["id"]] = ins["type"]
                    if ins["op"] in ("phi", "alloc") and ins.get("comment"):
                        names[ins["id"]] = ins["comment"]
        r = _names[fn.name] = (names, types)
    return r


def find_def(fn, rid):
    for b in fn.blocks:
        for ins in b["instrs"]:
            if ins.get("id") == rid and ins["op"] != "debug":
                return ins
    return None


def type_match(ir, have, want):
    if isinstance(have, tuple) or isinstance(want, tuple):
        if isinstance(have, tuple) and isinstance(want, tuple) and have[0] == want[0] == "ghost":
            return ir.under(have[1])["str"] == ir.under(want[1])["str"] if isinstance(have[1], int) and isinstance(want[1], int) else have == want
        return False
    if have == want:
        return True
    a, b = ir.under(have), ir.under(want)
    return a["str"] == b["str"]


def same_val(a, b):
    if a is b:
        return True
    if a is None or b is None:
        return False
    if isinstance(a, VSlice) and isinstance(b, VSlice):
        return a.arr.eq(b.arr) and a.len.eq(b.len) and a.cap.eq(b.cap)
    if isinstance(a, VStruct) and isinstance(b, VStruct):
        return all(same_val(x, y) for x, y in zip(a.fs, b.fs))
    if isinstance(a, VFn) and isinstance(b, VFn):
        if a.term is not None and b.term is not None:
            return a.term.eq(b.term)
        return a.clo is b.clo
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    return False


def foot_size(f):
    return sum(len(x.stable) + x.fresh * 1000 + (10 ** 6 if x.top else 0) + 10 ** 4 for x in f.values())
