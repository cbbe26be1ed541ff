"""The contract language: parser and translation to z3."""
import hashlib
import re
import z3
from .logic import *

KEYWORDS = ("anyloop", "onload", "onpublish", "onlock", "requires", "ensures", "ensures_panic", "nopanic", "loop", "inline", "pure", "panics",
            "update", "onpanic", "onok", "ghost", "logic", "pred", "axiom", "func", "extern", "dyn",
            "package", "modifies", "assume", "decreases", "noeffect", "lemma", "define", "trusted", "root", "cut",
            "check", "noreturn", "assumes", "nomerge", "onstore", "alloc", "calls", "fresh")

TOK = re.compile(r"""\s*(?:
   (?P<num>\d+)
 | (?P<str>"(?:[^"\\]|\\.)*")
 | (?P<id>[A-Za-z_$?][A-Za-z_0-9$]*)
 | (?P<op><==>|==>|::|\|\||&&|==|!=|<=|>=|:=|[-+*!<>()\[\]{}.,;:=|&/%])
)""", re.X)


def tokenize(s):
    out, i = [], 0
    while i < len(s):
        if s[i:].strip() == "":
            break
        m = TOK.match(s, i)
        if not m:
            raise SyntaxError("spec: cannot tokenize at %r" % s[i:i + 30])
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out


class P:
    def __init__(self, s):
        self.t = tokenize(s)
        self.i = 0
        self.src = s

    def peek(self, o=0):
        return self.t[self.i + o] if self.i + o < len(self.t) else (None, None)

    def next(self):
        r = self.peek()
        self.i += 1
        return r

    def at(self, v):
        return self.peek()[1] == v and self.peek()[0] != "str"

    def eat(self, v):
        if self.at(v):
            self.i += 1
            return True
        return False

    def need(self, v):
        if not self.eat(v):
            raise SyntaxError("spec: expected %r at %r in %r" % (v, self.t[self.i:self.i + 5], self.src))

    def ident(self):
        k, v = self.next()
        if k != "id":
            raise SyntaxError("spec: identifier expected, got %r in %r" % (v, self.src))
        return v

    # types ------------------------------------------------------------
    def type(self):
        if self.eat("*"):
            return "*" + self.type()
        if self.eat("["):
            if self.eat("]"):
                return "[]" + self.type()
            if self.peek()[0] == "num":
                n = self.next()[1]
                self.need("]")
                return "[%s]%s" % (n, self.type())
            k = self.type()
            self.need("]")
            return "ghost[%s]%s" % (k, self.type())
        n = self.ident()
        if n == "map" and self.at("["):
            self.need("[")
            k = self.type()
            self.need("]")
            return "map[%s]%s" % (k, self.type())
        if n == "struct":
            self.need("{")
            self.need("}")
            return "struct{}"
        if n == "func":
            self.need("(")
            self.need(")")
            return "func()"
        while self.at("."):
            self.need(".")
            n += "." + self.ident()
        return n

    def binders(self):
        r = []
        while True:
            n = self.ident()
            r.append((n, self.type()))
            if not self.eat(","):
                return r

    # expressions ----------------------------------------------------
    def expr(self):
        return self.iff()

    def iff(self):
        a = self.imp()
        while self.eat("<==>"):
            a = ("iff", a, self.imp())
        return a

    def imp(self):
        a = self.or_()
        if self.eat("==>"):
            return ("imp", a, self.imp())
        return a

    def or_(self):
        a = self.and_()
        xs = [a]
        while self.eat("||"):
            xs.append(self.and_())
        return xs[0] if len(xs) == 1 else ("or", xs)

    def and_(self):
        a = self.cmp()
        xs = [a]
        while self.eat("&&"):
            xs.append(self.cmp())
        return xs[0] if len(xs) == 1 else ("and", xs)

    def cmp(self):
        a = self.add()
        parts = []
        while True:
            k, v = self.peek()
            if k == "op" and v in ("==", "!=", "<", "<=", ">", ">="):
                self.next()
                b = self.add()
                parts.append((v, a, b))
                a = b
            elif k == "id" and v == "in":
                self.next()
                b = self.add()
                parts.append(("in", a, b))
                a = b
            else:
                break
        if not parts:
            return a
        xs = [("cmp",) + p for p in parts]
        return xs[0] if len(xs) == 1 else ("and", xs)

    def add(self):
        a = self.mul()
        while self.peek()[0] == "op" and self.peek()[1] in ("+", "-"):
            op = self.next()[1]
            a = ("arith", op, a, self.mul())
        return a

    def mul(self):
        a = self.unary()
        while self.peek()[0] == "op" and self.peek()[1] in ("*",):
            op = self.next()[1]
            a = ("arith", op, a, self.unary())
        return a

    def unary(self):
        if self.eat("!"):
            return ("not", self.unary())
        if self.eat("-"):
            return ("arith", "-", ("num", 0), self.unary())
        return self.postfix()

    def postfix(self):
        a = self.atom()
        while True:
            if self.eat("."):
                a = ("sel", a, self.ident())
            elif self.at("["):
                self.need("[")
                i = self.expr()
                if self.eat(":="):
                    v = self.expr()
                    self.need("]")
                    a = ("upd", a, i, v)
                    continue
                self.need("]")
                a = ("idx", a, i)
            elif self.at("(") and a[0] == "id":
                self.need("(")
                args = []
                if not self.at(")"):
                    while True:
                        args.append(self.expr())
                        if not self.eat(","):
                            break
                self.need(")")
                a = ("call", a[1], args)
            else:
                return a

    def atom(self):
        k, v = self.peek()
        if k == "num":
            self.next()
            return ("num", int(v))
        if k == "str":
            self.next()
            return ("str", eval(v))
        if v == "(" and k == "op":
            self.next()
            e = self.expr()
            self.need(")")
            return e
        if k == "id":
            if v in ("forall", "exists"):
                self.next()
                bs = self.binders()
                trig = []
                while self.eat("{"):
                    ts = [self.expr()]
                    while self.eat(",") or self.eat(";"):
                        ts.append(self.expr())
                    self.need("}")
                    trig.append(ts)
                self.need("::")
                return (v, bs, trig, self.expr())
            if v == "old" and self.peek(1)[1] == "(":
                self.next()
                self.need("(")
                e = self.expr()
                self.need(")")
                return ("old", e)
            if v == "atloop" and self.peek(1)[1] == "(":
                self.next()
                self.need("(")
                e = self.expr()
                self.need(")")
                return ("atloop", e)
            if v == "let":
                self.next()
                n = self.ident()
                self.need("=")
                e = self.expr()
                self.need("::")
                return ("let", n, e, self.expr())
            self.next()
            return ("id", v)
        raise SyntaxError("spec: unexpected %r in %r" % (v, self.src))


class Clause:
    def __init__(self, kind, labels, ast, src, name=""):
        self.kind, self.labels, self.ast, self.src, self.name = kind, labels, ast, src, name
        self.binders = []

    def active(self, active):
        return bool(active is None or (set(self.labels) & active))


class Contract:
    def __init__(self, name, params, results):
        self.name, self.params, self.results = name, params, results
        self.requires, self.ensures, self.exc, self.loops = [], [], [], []
        self.nopanic = None      # labels
        self.inline = False
        self.pure = False
        self.noeffect = False
        self.mayPanic = False
        self.noreturn = False
        self.updates, self.onpanic, self.onok = [], [], []
        self.modifies = []
        self.assumes = []
        self.decreases = None
        self.kind = "func"
        self.trusted = False
        self.root = []
        self.fresh = []


class Specs:
    """all contract files"""

    def __init__(self):
        self.contracts, self.externs, self.dyns = {}, {}, {}
        self.preds, self.logics, self.axioms, self.ghosts, self.lemmas = {}, {}, [], {}, []
        self.onstore = {}
        self.alloc = {}
        self.anyloop = []
        self.pkg = None

    def load(self, path):
        cur = None
        text = open(path).read()
        lines = []
        for raw in text.split("\n"):
            ln = raw.split("//")[0] if not re.search(r'"[^"]*//', raw) else raw
            if not ln.strip():
                continue
            first = ln.split()[0]
            if first in KEYWORDS or first.rstrip(":") in KEYWORDS:
                lines.append(ln.strip())
            else:
                lines[-1] += " " + ln.strip()
        for ln in lines:
            try:
                cur = self.line(ln, cur)
            except Exception as e:
                raise SyntaxError("%s: %s: %s" % (path, ln[:120], e))

    def labels(self, rest):
        m = re.match(r"\s*\[([A-Za-z0-9_,\s]+)\]\s*(.*)$", rest, re.S)
        if m:
            return [x.strip() for x in m.group(1).split(",")], m.group(2)
        return ["base"], rest

    def line(self, ln, cur):
        kw, _, rest = ln.partition(" ")
        rest = rest.strip()
        if kw.endswith(":"):
            kw, rest = kw[:-1], ": " + rest
        if kw == "package":
            self.pkg = rest
            return None
        if kw == "ghost":
            p = P(rest)
            n = p.ident()
            self.ghosts[n] = (p.type(), self.pkg)
            return None
        if kw == "logic":
            p = P(rest)
            n = p.ident()
            p.need("(")
            ps = []
            while not p.at(")"):
                ps.append(p.type())
                p.eat(",")
            p.need(")")
            self.logics[n] = (ps, p.type(), self.pkg)
            return None
        if kw == "pred":
            p = P(rest)
            n = p.ident()
            p.need("(")
            ps = p.binders() if not p.at(")") else []
            p.need(")")
            p.need("=")
            self.preds[n] = (ps, p.expr(), self.pkg)
            return None
        if kw == "onstore":       # onstore Plugin.Deps: owner[v] := self
            key, _, r = rest.partition(":")
            p = P(r)
            g = p.ident()
            p.need("[")
            i = p.expr()
            p.need("]")
            p.need(":=")
            self.onstore.setdefault(key.strip(), []).append((g, i, p.expr(), self.pkg))
            return None
        if kw == "alloc":         # alloc Plugin: cnt := 0
            key, _, r = rest.partition(":")
            g, _, e = r.partition(":=")
            self.alloc.setdefault(key.strip(), []).append((g.strip(), P(e).expr(), self.pkg))
            return None
        if kw == "axiom":
            lab, r = self.labels(rest)
            self.axioms.append(Clause("axiom", lab, P(r).expr(), r))
            self.axioms[-1].pkg = self.pkg
            return None
        if kw in ("func", "extern", "dyn"):
            return self.header(kw, rest)
        c = cur
        if kw == "anyloop":
            c, kw = self, "loop"
        if c is None:
            if kw == "loop":
                c = self
            else:
                raise SyntaxError("clause outside a contract")
        if kw in ("requires", "ensures", "ensures_panic", "assumes"):
            lab, r = self.labels(rest)
            cl = Clause(kw, lab, P(r).expr(), r)
            {"requires": c.requires, "ensures": c.ensures, "ensures_panic": c.exc, "assumes": c.assumes}[kw].append(cl)
            cl.name = "%s#%d" % (kw, len({"requires": c.requires, "ensures": c.ensures, "ensures_panic": c.exc, "assumes": c.assumes}[kw]))
        elif kw == "loop":
            lab, r = self.labels(rest)
            m = re.match(r"\s*(?:\((.*?)\)\s*)?:\s*(.*)$", r, re.S)
            bs = P(m.group(1)).binders() if m.group(1) and m.group(1).strip() else []
            cl = Clause(kw, lab, P(m.group(2)).expr(), m.group(2))
            cl.binders = bs
            lst = c.anyloop if c is self else c.loops
            lst.append(cl)
            # named by their text: stable under insertion of other clauses
            cl.name = "any#%d" % len(lst) if c is self else "loop#" + hashlib.md5(re.sub(r"\s+", " ", r).encode()).hexdigest()[:6]
        elif kw == "nopanic":
            lab, r = self.labels(rest)
            c.nopanic = lab
        elif kw == "root":
            c.root = [x.strip() for x in rest.split(",")]
        elif kw == "inline":
            c.inline = True
        elif kw == "trusted":
            c.trusted = True
        elif kw == "noreturn":
            c.noreturn = True
        elif kw == "pure":
            c.pure = True
        elif kw == "noeffect":
            c.noeffect = True
        elif kw == "panics":
            c.mayPanic = True
        elif kw == "fresh":
            c.fresh = [x.strip() for x in rest.split(",")]
        elif kw in ("update", "onpanic", "onok"):
            p = P(rest)
            g = p.ident()
            idx = []
            while p.eat("["):
                idx.append(p.expr())
                p.need("]")
            p.need(":=")
            {"update": c.updates, "onpanic": c.onpanic, "onok": c.onok}[kw].append((g, idx, p.expr()))
        elif kw == "modifies":
            c.modifies += [x.strip() for x in rest.split(",")]
        elif kw == "decreases":
            c.decreases = P(rest).expr()
        else:
            raise SyntaxError("unknown keyword " + kw)
        return cur

    def header(self, kw, rest):
        # (recv T) name(params) (results) | name(params) (results)
        q = re.match(r'^"([^"]+)"\s*\((.*?)\)\s*(?:\((.*?)\))?\s*$', rest)
        if q:
            class M:
                def groups(self, q=q):
                    return None, q.group(1), q.group(2), q.group(3)
            m = M()
        else:
            m = re.match(r"^(\([^)]*\)\s*)?([\w./*$#()-]+?)\s*\((.*?)\)\s*(?:\((.*?)\))?\s*$", rest)
        if not m:
            raise SyntaxError("bad header %r" % rest)
        recv, name, ps, rs = m.groups()
        params = P(ps).binders() if ps.strip() else []
        results = P(rs).binders() if rs and rs.strip() else []
        if recv:
            rp = P(recv.strip()[1:-1]).binders()
            params = rp + params
            rt = rp[0][1]
            name = "(%s).%s" % (rt, name) if True else name
        c = Contract(name, params, results)
        c.kind = kw
        c.pkg = self.pkg
        if kw == "func":
            self.contracts[(self.pkg, name)] = c
        elif kw == "extern":
            self.externs[name] = c
        else:
            self.dyns[name] = c
        return c
