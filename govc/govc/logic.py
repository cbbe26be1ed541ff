"""Sorts, uninterpreted functions and value shapes shared by executor and specs."""
import z3

Int, Bool = z3.IntSort(), z3.BoolSort()
Str = z3.DeclareSort("Str")
Any = z3.DeclareSort("Any")
Fn = z3.DeclareSort("Fn")
_ops = {}


def sort(key):
    if key == "Int":
        return Int
    if key == "Bool":
        return Bool
    if key == "Str":
        return Str
    if key == "Any":
        return Any
    if key == "Fn":
        return Fn
    if isinstance(key, tuple) and key[0] == "Arr":
        return z3.ArraySort(Int, sort(key[1]))
    if isinstance(key, tuple) and key[0] == "Map":
        return z3.ArraySort(sort(key[1]), sort(key[2]))
    if isinstance(key, str) and key.startswith("Op:"):
        if key not in _ops:
            _ops[key] = z3.DeclareSort(key[3:].replace("{", "<").replace("}", ">").replace("|", "!"))
        return _ops[key]
    raise ValueError("sort %r" % (key,))


anil = z3.Const("nil!Any", Any)
fnil = z3.Const("nil!Fn", Fn)
typeof = z3.Function("typeof", Any, Int)
strlen = z3.Function("strlen", Str, Int)
strcat = z3.Function("strcat", Str, Str, Str)
strlt = z3.Function("strlt", Str, Str, Bool)
strat = z3.Function("strat", Str, Int, Int)
# an error (or text) mentions a string
mentionsA = z3.Function("mentions", Any, Str, Bool)
mentionsS = z3.Function("mentionsS", Str, Str, Bool)

_strs = {}
_fns = {}


def strlit(s):
    if s not in _strs:
        safe = "".join(c if c.isalnum() or c in "._- " else "_" for c in s)[:40]
        _strs[s] = z3.Const("str!%d!%s" % (len(_strs), safe), Str)
    return _strs[s]


def strlits():
    return dict(_strs)


def fn(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in _fns:
        _fns[k] = z3.Function(name, *sorts)
    return _fns[k]


def zero(key):
    s = sort(key)
    if key == "Int":
        return z3.IntVal(0)
    if key == "Bool":
        return z3.BoolVal(False)
    if key == "Str":
        return strlit("")
    if key == "Any":
        return anil
    if key == "Fn":
        return fnil
    if isinstance(key, tuple) and key[0] == "Arr":
        return z3.K(Int, zero(key[1]))
    if isinstance(key, tuple) and key[0] == "Map":
        return z3.K(sort(key[1]), zero(key[2]))
    return z3.Const("zero!%s" % s, s)


class Unsupported(Exception):
    pass


# ---- executor-level values ------------------------------------------------
class VSlice:
    __slots__ = ("arr", "len", "cap")

    def __init__(self, arr, ln, cap):
        self.arr, self.len, self.cap = arr, ln, cap


class VStruct:
    """a struct value: list of field values, in field order"""
    __slots__ = ("tid", "fs")

    def __init__(self, tid, fs):
        self.tid, self.fs = tid, fs


class VTuple:
    __slots__ = ("vs",)

    def __init__(self, vs):
        self.vs = vs


class VFn:
    """a function value: term of sort Fn, provenance (heap key, ref) if it was
    read from the heap, closure if its code is known"""
    __slots__ = ("term", "prov", "clo")

    def __init__(self, term=None, prov=None, clo=None):
        self.term, self.prov, self.clo = term, prov, clo


class Closure:
    __slots__ = ("fn", "binds", "native")

    def __init__(self, fnname, binds, native=None):
        self.fn, self.binds, self.native = fnname, binds, native


class VAddr:
    """an address: kind in cell/leaf/elem/glob"""
    __slots__ = ("kind", "key", "tid", "ref", "idx")

    def __init__(self, kind, key, tid, ref=None, idx=None):
        self.kind, self.key, self.tid, self.ref, self.idx = kind, key, tid, ref, idx


class VIter:
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i


def term_of(v):
    if isinstance(v, VFn):
        return v.term
    if isinstance(v, VAddr):
        if v.kind in ("obj", "arr") or (v.kind == "leaf" and v.key.startswith("P:")):
            return v.ref
        raise Unsupported("interior address used as a value")
    return v


def consts_in(e, acc=None):
    """names of uninterpreted constants in e"""
    acc = set() if acc is None else acc
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc.add(x.decl().name())
        else:
            st.extend(x.children())
    return acc


BOUND = set()       # names of the constants used for bound variables
