"""Typed SSA as dumped by ssadump: types, leaf decomposition, control flow."""
import json


class Func:
    def __init__(self, d):
        self.__dict__.update(d)
        self.nregs = {}
        self.blocks = d.get("blocks") or []
        self.recover = d.get("recover")
        self._cfg()

    def _cfg(self):
        n = len(self.blocks)
        if n == 0:
            return
        self.idom = [b["idom"] for b in self.blocks]
        # reverse post order over all blocks
        seen, post = set(), []
        roots = [0]
        if self.recover is not None:
            roots.append(self.recover)
        for root in roots:
            if root in seen:
                continue
            stack = [(root, iter(self.blocks[root]["succs"]))]
            seen.add(root)
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.blocks[s]["succs"])))
                        break
                else:
                    post.append(b)
                    stack.pop()
        self.rpo = {b: i for i, b in enumerate(reversed(post))}
        # natural loops
        self.loops = {}      # header -> set of blocks
        for b in self.rpo:
            for s in self.blocks[b]["succs"]:
                if self.dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(p for p in self.blocks[x]["preds"] if p in self.rpo)

    def dominates(self, a, b):
        while b != -1:
            if a == b:
                return True
            b = self.idom[b]
        return False


class IR:
    def __init__(self, path_or_dict):
        d = path_or_dict
        if not isinstance(d, dict):
            with open(d) as f:
                d = json.load(f)
        self.types = d["types"]
        self.funcs = {k: Func(v) for k, v in d["funcs"].items()}
        self.externals = d.get("externals") or {}
        self.globals = d.get("globals") or {}
        self.named = d.get("named") or {}
        self.packages = d["packages"]
        self.bystr = {t["str"]: t["id"] for t in self.types}
        self._leaf = {}
        self._ref = {}
        self._short = {}
        for b in ("int", "bool", "string", "error"):
            self.tid(b)
        self.INT = self.tid("int")
        self.BOOL = self.tid("bool")
        self.STRING = self.tid("string")
        self.ANY = self.tid("interface{}") if "interface{}" in self.bystr else self.tid("any")

    # -- types ---------------------------------------------------------
    def tid(self, s):
        if s in self.bystr:
            return self.bystr[s]
        t = {"id": len(self.types), "str": s}
        if s in ("int", "bool", "string"):
            t["kind"] = "basic"
            t["name"] = s
        elif s in ("error", "interface{}", "any"):
            t["kind"] = "iface"
        elif s.startswith("*"):
            t["kind"] = "ptr"
            self.types.append(t)
            self.bystr[s] = t["id"]
            t["elem"] = self.tid(s[1:])
            return t["id"]
        elif s.startswith("[]"):
            t["kind"] = "slice"
            self.types.append(t)
            self.bystr[s] = t["id"]
            t["elem"] = self.tid(s[2:])
            return t["id"]
        elif s.startswith("map["):
            depth, i = 1, 4
            while depth:
                depth += {"[": 1, "]": -1}.get(s[i], 0)
                i += 1
            t["kind"] = "map"
            self.types.append(t)
            self.bystr[s] = t["id"]
            t["key"] = self.tid(s[4:i - 1])
            t["elem"] = self.tid(s[i:])
            return t["id"]
        else:
            t["kind"] = "unknown"
        self.types.append(t)
        self.bystr[s] = t["id"]
        return t["id"]

    def t(self, tid):
        return self.types[tid]

    def under(self, tid):
        t = self.types[tid]
        while t["kind"] == "named":
            t = self.types[t["under"]]
        return t

    def kind(self, tid):
        t = self.under(tid)
        if t["kind"] == "struct" and self.opaque(tid):
            return "opaque"
        return t["kind"]

    def opaque(self, tid):
        """external struct types with unexported fields are opaque values"""
        t = self.types[tid]
        if t["kind"] == "named" and not t.get("internal") and self.under(tid)["kind"] == "struct":
            fs = self.under(tid).get("fields") or []
            return any(not f["exported"] for f in fs) or not fs
        return False

    def short(self, tid):
        if tid in self._short:
            return self._short[tid]
        s = self.types[tid]["str"]
        if self.types[tid]["kind"] == "struct":
            fs = self.types[tid].get("fields") or []
            s = "struct{" + ",".join(f["name"] for f in fs) + "}"
        s = s.replace("github.com/edwingeng/hotswap/cli/hotswap/cmd.", "cmd.")
        s = s.replace("github.com/edwingeng/hotswap/internal/", "")
        s = s.replace("github.com/edwingeng/hotswap/vault.", "vault.")
        s = s.replace("github.com/edwingeng/hotswap.", "")
        self._short[tid] = s
        return s

    def sortkey(self, tid):
        """sort of a single-leaf type"""
        sp = {"go.uber.org/atomic.Int64": "Int", "sync.Once": "Bool", "sync/atomic.Int64": "Int",
              "sync/atomic.Bool": "Bool"}.get(self.types[tid]["str"])
        if sp:
            return sp
        t = self.under(tid)
        k = t["kind"]
        if k == "basic":
            n = t["name"]
            if n in ("string", "untyped string"):
                return "Str"
            if n in ("bool", "untyped bool"):
                return "Bool"
            if "float" in n or "complex" in n:
                return "Op:" + n
            return "Int"
        if k in ("ptr", "map", "chan"):
            return "Int"
        if k == "iface":
            return "Any"
        if k == "func":
            return "Fn"
        if k == "array":
            es = self.leaves(t["elem"])
            if len(es) == 1:
                return ("Arr", es[0][1])
            return "Op:" + self.short(tid)
        return "Op:" + self.short(tid)

    def leaves(self, tid):
        """[(suffix, sortkey)] of a value of this type"""
        r = self._leaf.get(tid)
        if r is not None:
            return r
        t = self.under(tid)
        k = t["kind"]
        if k == "slice":
            r = [("#arr", "Int"), ("#len", "Int"), ("#cap", "Int")]
        elif k == "struct" and not self.opaque(tid):
            r = []
            for f in t.get("fields") or []:
                for (s, so) in self.leaves(f["type"]):
                    r.append(("." + f["name"] + s, so))
        elif k == "tuple":
            raise ValueError("tuple has no leaves")
        else:
            r = [("", self.sortkey(tid))]
        self._leaf[tid] = r
        return r

    def refsuf(self, tid):
        """suffixes of the leaves that hold references"""
        r = self._ref.get(tid)
        if r is not None:
            return r
        t = self.under(tid)
        k = t["kind"]
        if k == "slice":
            r = {"#arr"}
        elif k == "struct" and not self.opaque(tid):
            r = set()
            for f in t.get("fields") or []:
                r |= {"." + f["name"] + s for s in self.refsuf(f["type"])}
        elif k in ("ptr", "map", "chan"):
            r = {""}
        else:
            r = set()
        self._ref[tid] = r
        return r

    def is_struct(self, tid):
        return self.under(tid)["kind"] == "struct" and not self.opaque(tid)

    def fields(self, tid):
        return self.under(tid).get("fields") or []

    def identity_embed(self, tid, fidx):
        """may the address of struct field fidx be the address of the object?"""
        fs = self.fields(tid)
        ft = fs[fidx]["type"]
        if not self.is_struct(ft):
            return False
        return self.count_struct(tid, ft) == 1

    def count_struct(self, tid, what):
        n = 0
        for f in self.fields(tid):
            if self.is_struct(f["type"]):
                if f["type"] == what:
                    n += 1
                n += self.count_struct(f["type"], what)
        return n

    def find_field(self, tid, name):
        """path of field indices to a (possibly promoted) field, or None"""
        fs = self.fields(tid)
        for i, f in enumerate(fs):
            if f["name"] == name:
                return [i]
        for i, f in enumerate(fs):
            if f["embedded"]:
                ft = f["type"]
                if self.under(ft)["kind"] == "struct":
                    p = self.find_field(ft, name)
                    if p is not None:
                        return [i] + p
        return None
