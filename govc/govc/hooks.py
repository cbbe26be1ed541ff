"""Ghost instrumentation tied to models, and functions usable in contracts."""
import z3
from .logic import *
from . import speceval


def install(m):
    ir = m.ir

    def deref(c, a):
        v, t = a[0]
        et = ir.under(t)["elem"]
        return m.load(c.st, v if isinstance(v, VAddr) else m.as_addr(v, et), et, quiet=True), et

    def cast(ts):
        def f(c, a):
            v, t = a[0]
            if isinstance(v, VAddr):
                v = m.addr_term(None, v)
            return v, speceval.resolve(m, ts, c.pkg)
        return f

    def uf(name, rs, rt):
        def f(c, a):
            xs = []
            for v, t in a:
                if isinstance(v, VSlice):
                    xs += [m.elems(c.st, v, ir.under(t)["elem"]), v.len]
                elif isinstance(v, VFn):
                    xs.append(m.fnterm(v))
                else:
                    xs.append(v)
            g = fn(name, *([x.sort() for x in xs] + [sort(rs)]))
            return g(*xs), rt
        return f
    m.specfns["deref"] = deref
    m.specfns["key"] = uf("X:strings.ToLower#0", "Str", ir.STRING)
    m.specfns["isdir"] = uf("M:io/fs.FileInfo.IsDir#0", "Bool", ir.BOOL)
    m.specfns["entname"] = uf("M:io/fs.FileInfo.Name#0", "Str", ir.STRING)
    m.specfns["hassuffix"] = uf("X:strings.HasSuffix#0", "Bool", ir.BOOL)
    m.specfns["trimsuffix"] = uf("X:strings.TrimSuffix#0", "Str", ir.STRING)
    m.specfns["trimsp"] = uf("X:strings.TrimSpace#0", "Str", ir.STRING)
    m.specfns["basename"] = uf("X:path/filepath.Base#0", "Str", ir.STRING)
    m.specfns["abspath"] = uf("X:path/filepath.Abs#0", "Str", ir.STRING)
    m.specfns["join2"] = uf("X:filepath.Join2", "Str", ir.STRING)
    m.specfns["asManager"] = cast("*PluginManager")
    m.specfns["asPlugin"] = cast("*Plugin")
    m.specfns["isnil"] = uf("isnil", "Bool", ir.BOOL)

    def setcard(c, a):
        v, t = a[0]
        return fn("setcard:%s" % v.sort().domain(), v.sort(), Int)(v), ir.INT
    m.specfns["setcard"] = setcard

    def lockof(c, a):
        """the identity of a swapper's (or any struct's) mutex"""
        v, t = a[0]
        et = ir.under(t)["elem"]
        path = None
        for i, f in enumerate(ir.fields(et)):
            if ir.t(f["type"])["str"] in ("sync.Mutex", "sync.RWMutex"):
                path = i
        if path is None:
            return z3.IntVal(0), ("raw", "Int")
        ad, ft = m.field_addr(m.as_addr(v, et), et, path)
        return m.addr_term(None, ad), ("raw", "Int")
    m.specfns["lockof"] = lockof

    def pub(V, st, a, old, v, pos):
        """whatever is published is published while the owner is held"""
        if "pubN" in V.specs.ghosts:
            V.hset(st, "g:pubN", V.ghost(st, "pubN") + 1, None)
            V.ghost(st, "pubHook")
            V.hset(st, "g:pubHook", V.ghost(st, "hookN"), None)
        if V.active is not None and "C16" not in V.active:
            return
        if not isinstance(a, VAddr) or a.kind != "obj" and not hasattr(a, "ref"):
            return
        t = speceval.resolve(V, "PluginManagerSwapper", "github.com/edwingeng/hotswap")
        for i, f in enumerate(ir.fields(t)):
            if ir.t(f["type"])["str"] in ("sync.Mutex", "sync.RWMutex"):
                ad, ft = V.field_addr(V.as_addr(a.ref, t), t, i)
                h = V.ghost(st, "held")
                V.oblige(st, "publication at %s happens while the swapper is held" % pos, z3.Select(h, V.addr_term(None, ad)), "C16", "requires", pos)
    m.onpublish.append(pub)

    def cur(c, a):
        """the manager published in a swapper (nil: none)"""
        from .models import avload
        v, t = a[0]
        et = ir.under(t)["elem"]
        for i, f in enumerate(ir.fields(et)):
            if ir.t(f["type"])["str"] == "sync/atomic.Value":
                ad, ft = m.field_addr(m.as_addr(v, et), et, i)
                x = avload(m.load(c.st, ad, ft, quiet=True))
                pt = speceval.resolve(m, "*PluginManager", "github.com/edwingeng/hotswap")
                g = fn("curM", Any, Int)
                m.uses_cur = pt
                return g(x), pt
        raise speceval.SpecError("no atomic.Value in the swapper")
    m.specfns["cur"] = cur

    def unboxas(c, a):
        """the value of the first argument's type held by an interface"""
        t = a[0][1]
        return m.unbox(c.st, a[1][0], t), t
    m.specfns["unboxas"] = unboxas
