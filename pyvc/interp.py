"""Symbolic interpreter for the real source text of /repo/src/age.

The modules are parsed from the working tree on every run; nothing is copied
or rewritten.  Whatever falls outside the supported subset raises Unsupported,
and then nothing is claimed."""

import ast
import builtins
import os

from . import terms as T
from .core import *  # noqa: F401,F403
from .core import SInt_, SBool_, SStr_, SBytes_, SNone_, SList_

SRC = os.environ.get("PYVC_SRC", "/repo/src")


class BreakLoop(Exception):
    pass


class ContinueLoop(Exception):
    pass


class ReturnX(Exception):
    def __init__(self, v):
        self.v = v


_LIFT = {}


def lift_pattern(s, func):
    got = _LIFT.get(s, 0)
    if got == 0:
        got = _LIFT[s] = _lift_pattern(s, func)
    return got


def _lift_pattern(s, func):
    targets = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}

    def plain(*es):
        return not any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for e in es for n in ast.walk(e))

    def names(*es):
        return {n.id for e in es for n in ast.walk(e) if isinstance(n, ast.Name)}

    # the loop variables are not used elsewhere
    inside = {id(n) for n in ast.walk(s)}
    for n in ast.walk(func):
        if isinstance(n, ast.Name) and n.id in targets and id(n) not in inside and isinstance(n.ctx, ast.Load) and n.lineno > s.lineno:
            others = [m for m in ast.walk(func) if isinstance(m, ast.Name) and m.id == n.id and isinstance(m.ctx, ast.Store) and id(m) not in inside and s.lineno < m.lineno <= n.lineno + 1]
            if not others:
                return None
        if isinstance(n, (ast.Nonlocal, ast.Global)) and targets & set(n.names):
            return None
    if len(s.body) != 1:
        return None
    st, ifs = s.body[0], []
    if isinstance(st, ast.If) and not st.orelse and len(st.body) == 1:
        if isinstance(st.body[0], (ast.Raise, ast.Return)):
            leave = st.body[0]
            if plain(st.test) and not targets & names(leave):
                comp = ast.GeneratorExp(elt=st.test, generators=[ast.comprehension(target=s.target, iter=s.iter, ifs=[], is_async=0)])
                return "guard", ast.fix_missing_locations(ast.copy_location(comp, s)), None, st.body
            return None
        st, ifs = st.body[0], [st.test]
    if not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and st.value.func.attr == "append"
            and isinstance(st.value.func.value, ast.Name) and len(st.value.args) == 1 and not st.value.keywords):
        return None
    acc, e = st.value.func.value, st.value.args[0]
    if not isinstance(func, ast.FunctionDef) or acc.id in names(e, *ifs) or not plain(e, *ifs) or any(isinstance(n, ast.Try) for n in ast.walk(func)):
        return None
    if acc.id in {x.arg for x in func.args.args + func.args.posonlyargs + func.args.kwonlyargs}:
        return None
    comp = ast.ListComp(elt=e, generators=[ast.comprehension(target=s.target, iter=s.iter, ifs=ifs, is_async=0)])
    return "append", ast.fix_missing_locations(ast.copy_location(comp, s)), acc, None


class NeedHavoc(Exception):
    """a variable thought dead at a loop head is read: restart with it tracked"""

    def __init__(self, tag):
        self.tag = tag


class Frame:
    __slots__ = ("id", "module", "func", "closure", "names", "globals_", "nonlocals", "yield_cb", "keep", "cls", "selfv")

    def __init__(self, id, module, func=None, closure=None, names=frozenset(), globals_=frozenset(), nonlocals=frozenset()):
        self.id, self.module, self.func, self.closure = id, module, func, closure
        self.names, self.globals_, self.nonlocals = names, globals_, nonlocals
        self.yield_cb = None
        self.keep = False
        self.cls = None
        self.selfv = None


_scope_cache = {}


def scope_of(node):
    """(assigned names, globals, nonlocals, has_yield) of a function body"""
    got = _scope_cache.get(id(node))
    if got is not None and got[0] is node:
        return got[1]
    names, gl, nl = set(), set(), set()
    has_yield = [False]

    def targets(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)

    def visit(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and not top:
            names.add(n.name)
            return
        if isinstance(n, ast.Lambda) and not top:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)) and not top:
            visit(n.generators[0].iter)
            return
        if isinstance(n, ast.Global):
            gl.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nl.update(n.names)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            has_yield[0] = True
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split(".")[0])
        for c in ast.iter_child_nodes(n):
            visit(c)

    if isinstance(node, ast.Lambda):
        visit(node.body)
        a = node.args
    elif isinstance(node, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
        for g in node.generators:
            targets(g.target)
        a = None
    else:
        for s in node.body:
            visit(s)
        a = node.args
    if a is not None:
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            names.add(x.arg)
        if a.vararg:
            names.add(a.vararg.arg)
        if a.kwarg:
            names.add(a.kwarg.arg)
    r = (frozenset(names - gl - nl), frozenset(gl), frozenset(nl), has_yield[0])
    _scope_cache[id(node)] = (node, r)
    return r


EXC = {n: getattr(builtins, n) for n in dir(builtins)
       if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}

TYPES = {"int": int, "str": str, "bytes": bytes, "bool": bool, "list": list, "tuple": tuple, "dict": dict, "set": set,
         "float": float, "object": object, "type": type, "bytearray": bytearray, "frozenset": frozenset,
         "memoryview": memoryview}


def is_concrete(v):
    if isinstance(v, (SInt, SBool, SStr, Ref, XVal, SOpaque, Gen, Lazy, Poison, VClass, VFunc, VBound, ExtRef, VModule, ExcVal, Native, Chunk)):
        return False
    if isinstance(v, tuple):
        return all(is_concrete(x) for x in v)
    return True


class Interp:
    def __init__(self, ctx, contracts=None, src=SRC):
        self.ctx = ctx
        self.src = src
        self.modules = {}
        self.contracts = contracts or {}
        self.used_contracts = set()
        self.inlined = set()
        self.files = set()
        self.depth = 0
        self.hints = []
        self.live = set()
        self.stubs_used = set()
        self.ext_exc = {}
        self.callstack = []
        self.on_call = {}
        self.recursion_ok = {}
        self.module_assigned = {}
        from . import stubs

        self.stubs = stubs

    # ------------------------------------------------------------ modules

    def module_path(self, name):
        p = os.path.join(self.src, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        if os.path.exists(p + ".py"):
            return p + ".py"
        return None

    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        path = self.module_path(name)
        if path is None:
            raise self.exc(ImportError, name)
        m = VModule(name)
        self.modules[name] = m
        m.ns["__name__"] = name
        m.ns["__file__"] = path
        if name == "age" or name.endswith("._version"):
            m.ns["__version__"] = "0"
        self.files.add(os.path.relpath(path, self.src))
        with open(path, encoding="utf-8") as f:
            tree = ast.parse(f.read(), path)
        if "." in name:
            self.module(name.rsplit(".", 1)[0])
        if name.endswith("._version"):
            m.ns["get_versions"] = Native("get_versions", lambda I, a, k: I.new_dict([("version", "0")]))
            return m
        fr = Frame(0, m)
        assigned = {}
        for s in tree.body:
            for t in _module_targets(s):
                assigned[t] = assigned.get(t, 0) + 1
        self.module_assigned[name] = assigned
        for s in tree.body:
            if isinstance(s, ast.If) and _is_main_guard(s):
                continue
            try:
                self.stmt(s, fr)
            except (Unsupported, PyExc, BreakLoop, ContinueLoop) as e:
                for n in _module_targets(s):
                    m.ns[n] = Broken("%s: %s" % (name, e))
        parent, _, leaf = name.rpartition(".")
        if parent:
            self.modules[parent].ns.setdefault(leaf, m)
        return m

    def client(self, text):
        """a module with client code of the code under verification"""
        m = VModule("client")
        m.ns["__name__"] = "client"
        self.modules["client"] = m
        tree = ast.parse(text, "client")
        self.module_assigned["client"] = {}
        for s in tree.body:
            self.stmt(s, Frame(0, m))
        return m

    def import_name(self, dotted):
        """value of `import a.b.c` seen as an object path"""
        if dotted == "age" or dotted.startswith("age."):
            return self.module(dotted)
        return ExtRef(dotted)

    def lookup_qual(self, qual):
        """age.mod.Class.func -> value"""
        parts = qual.split(".")
        for i in range(len(parts), 0, -1):
            if self.module_path(".".join(parts[:i])):
                v = self.module(".".join(parts[:i]))
                for p in parts[i:]:
                    v = self.getattr(v, p)
                return v
        raise Unsupported("no module for " + qual)

    # ------------------------------------------------------------ exceptions

    def exc(self, cls, *args):
        return PyExc(ExcVal(cls, args))

    def exc_is(self, val, cls):
        """does exception value val match class cls"""
        if isinstance(cls, tuple):
            return any(self.exc_is(val, c) for c in cls)
        if isinstance(cls, ExtRef):
            cls = self.stubs.ext_exception(cls.path)
        c = val.cls
        if isinstance(c, VClass):
            return any(self._issub(x, cls) for x in c.mro())
        return self._issub(c, cls)

    def _issub(self, a, b):
        if isinstance(a, ExtRef):
            a = self.stubs.ext_exception(a.path)
        if isinstance(a, type) and isinstance(b, type):
            return issubclass(a, b)
        return a is b

    # ------------------------------------------------------------ variables

    def get_name(self, name, fr):
        f = fr
        while f is not None:
            if name in f.names:
                v = self.ctx.store.get(("v", f.id, name), UNDEF)
                if v is UNDEF:
                    raise self.exc(UnboundLocalError if f is fr else NameError, name)
                if isinstance(v, Poison):
                    self.poisoned(v)
                return v
            if name in f.globals_:
                break
            f = f.closure
        v = self.ctx.store.get(("m", fr.module.name, name), UNDEF)
        if v is UNDEF:
            v = fr.module.ns.get(name, UNDEF)
        if v is UNDEF:
            v = self.builtin(name)
        if v is UNDEF:
            raise self.exc(NameError, name)
        if isinstance(v, Broken):
            raise Unsupported(v.why)
        return v

    def poisoned(self, p):
        if isinstance(p.why, tuple):
            raise NeedHavoc(p.why)
        raise Unsupported("value lost at a loop head: %s" % (p.why,))

    def set_name(self, name, v, fr):
        f = fr
        if name in fr.nonlocals:
            f = fr.closure
            while f is not None and name not in f.names:
                f = f.closure
        elif name in fr.globals_:
            self.ctx.store[("m", fr.module.name, name)] = v
            return
        if f is not None and f.id != 0:
            self.ctx.store[("v", f.id, name)] = v
        else:
            fr.module.ns[name] = v

    def builtin(self, name):
        if name in EXC:
            return EXC[name]
        if name in TYPES:
            return TYPES[name]
        fn = self.stubs.BUILTINS.get(name)
        if fn is not None:
            return Native(name, fn)
        if name in ("NotImplemented", "Ellipsis"):
            return ExtRef(name)
        if name == "__debug__":
            return True
        if hasattr(builtins, name):
            return Native(name, _unsupported_builtin(name))
        return UNDEF

    # ------------------------------------------------------------ heap

    def new_list(self, items=(), kind="list"):
        r = Ref(self.ctx.fresh_id(), kind)
        self.ctx.store[("l", r.id)] = tuple(items)
        return r

    def items(self, r):
        v = self.ctx.store[("l", r.id)]
        if isinstance(v, Poison):
            self.poisoned(v)
        return v

    def set_items(self, r, items):
        if ("frozen", r.id) in self.ctx.store:
            raise Unsupported("mutation of a list whose aliases are not tracked")
        self.ctx.store[("l", r.id)] = tuple(items)

    def new_dict(self, pairs=()):
        r = Ref(self.ctx.fresh_id(), "dict")
        self.ctx.store[("l", r.id)] = tuple(pairs)
        return r

    def new_obj(self, cls):
        r = Ref(self.ctx.fresh_id(), "obj", cls)
        self.ctx.store[("attrs", r.id)] = ()
        return r

    def get_attr_raw(self, r, name):
        v = self.ctx.store.get(("a", r.id, name), UNDEF)
        if isinstance(v, Poison):
            self.poisoned(v)
        return v

    def set_attr_raw(self, r, name, v):
        st = self.ctx.store
        if ("frozen", r.id) in st:
            raise Unsupported("mutation of an object whose aliases are not tracked")
        if ("stale", r.id) in st:
            raise Unsupported("stale view of a list element")
        st[("a", r.id, name)] = v
        names = st.get(("attrs", r.id), ())
        if name not in names:
            st[("attrs", r.id)] = names + (name,)
        view = st.get(("view", r.id))
        if view is not None:
            self.write_back(r, view)

    def write_back(self, r, view):
        lref, idx, et, _ = view
        st = self.ctx.store
        items = self.items(lref)
        if len(items) == 0 or not isinstance(items[idx[0]], Chunk):
            raise Unsupported("view of a list that was restructured")
        pos, it = idx
        ch = items[pos]
        val = self.encode(r, et)
        n = T.length(ch.t)
        new = T.concat(T.substr(ch.t, T.int_(0), it), T.unit(val), T.substr(ch.t, T.add(it, T.int_(1)), T.sub(n, T.add(it, T.int_(1)))))
        for k in [k for k in st if k[0] == "view" and k[1] != r.id and st[k][0] == lref]:
            st[("stale", k[1])] = True
        st[("l", lref.id)] = items[:pos] + (Chunk(new, ch.et),) + items[pos + 1:]
        st[("view", r.id)] = (lref, idx, et, new)

    # ------------------------------------------------------------ shapes

    def shape(self, v, depth=0):
        """shape of an encodable value, or None"""
        if depth > 12:
            return None
        if isinstance(v, bool) or isinstance(v, SBool):
            return SBool_
        if isinstance(v, (int, SInt)):
            return SInt_
        if isinstance(v, str):
            return SStr_
        if isinstance(v, bytes):
            return SBytes_
        if isinstance(v, SStr):
            return SStr_ if v.kind == "str" else SBytes_
        if v is None:
            return SNone_
        if isinstance(v, tuple):
            xs = [self.shape(x, depth + 1) for x in v]
            return Sh("tuple", tuple(xs)) if all(xs) else None
        if isinstance(v, SOpaque):
            return Sh("opaque", (v.kind, v.t.sort[1]))
        if isinstance(v, XVal):
            fs = []
            for n in sorted(v.f):
                s = self.shape(v.f[n], depth + 1)
                if s is None:
                    return None
                fs.append((n, s))
            return Sh("x", (v.kind, tuple(fs)))
        if isinstance(v, Ref):
            if v.kind in ("list", "set"):
                c = self.ctx.store.get(("l", v.id))
                if c is None or isinstance(c, Poison):
                    return None
                return self.items_shape(c, v.kind, depth)
            if v.kind == "obj" and isinstance(v.cls, VClass):
                fs = []
                for n in sorted(self.ctx.store.get(("attrs", v.id), ())):
                    s = self.shape(self.ctx.store[("a", v.id, n)], depth + 1)
                    if s is None:
                        return None
                    fs.append((n, s))
                return Sh("obj", (v.cls, tuple(fs)))
        return None

    def items_shape(self, c, kind="list", depth=0):
        e = None
        for x in c:
            s = x.et if isinstance(x, Chunk) else self.shape(x, depth + 1)
            if s is None:
                return None
            j = join(e, s)
            if j is None:
                return None
            e = j
        return Sh(kind, e)

    def encode(self, v, sh):
        k = sh.k
        if k == "int":
            return tint(v)
        if k == "bool":
            return tbool(v)
        if k in ("str", "bytes"):
            return tstr(v)
        if k == "none":
            return dt_make(sh, [])
        if k == "tuple":
            return dt_make(sh, [self.encode(x, s) for x, s in zip(v, sh.a)])
        if k == "opaque":
            return v.t
        if k == "x":
            return dt_make(sh, [self.encode(v.f[n], s) for n, s in sh.a[1]])
        if k == "obj":
            return dt_make(sh, [self.encode(self.ctx.store[("a", v.id, n)], s) for n, s in sh.a[1]])
        if k in ("list", "set"):
            return self.encode_items(self.items(v), sh)
        raise Unsupported("encode " + repr(sh))

    def encode_items(self, items, sh):
        srt = sort_of(sh)
        parts = []
        for x in items:
            if isinstance(x, Chunk):
                if sort_of(Sh(sh.k, x.et)) != srt:
                    raise Unsupported("mixed chunk types")
                parts.append(x.t)
            else:
                parts.append(T.unit(self.encode(x, sh.a)))
        return T.concat_sort(srt, *parts)

    def decode(self, t, sh, frozen=True):
        k = sh.k
        if k == "int":
            return mkint(t)
        if k == "bool":
            return mkbool(t)
        if k in ("str", "bytes"):
            return mkstr(t, k)
        if k == "none":
            return None
        if k == "tuple":
            return tuple(self.decode(dt_get(sh, t, str(i)), s, frozen) for i, s in enumerate(sh.a))
        if k == "opaque":
            return SOpaque(t, sh.a[0])
        if k == "x":
            return XVal(sh.a[0], **{n: self.decode(dt_get(sh, t, n), s, frozen) for n, s in sh.a[1]})
        if k == "obj":
            r = self.new_obj(sh.a[0])
            for n, s in sh.a[1]:
                self.set_attr_raw(r, n, self.decode(dt_get(sh, t, n), s, frozen))
            if frozen:
                self.ctx.store[("frozen", r.id)] = True
            return r
        if k in ("list", "set"):
            r = self.new_list([Chunk(t, sh.a)] if t.op != "seq.empty" else [], k)
            if frozen:
                self.ctx.store[("frozen", r.id)] = True
            return r
        raise Unsupported("decode " + repr(sh))

    # ------------------------------------------------------------ truth and equality

    def truth_term(self, v):
        """Term or bool"""
        if isinstance(v, SBool):
            return v.t
        if isinstance(v, SInt):
            return T.ne(v.t, T.int_(0))
        if isinstance(v, SStr):
            return T.ne(v.t, T.str_(""))
        if v is None or isinstance(v, (bool, int, str, bytes, float)):
            return T.bool_(bool(v))
        if isinstance(v, tuple):
            return T.bool_(len(v) > 0)
        if isinstance(v, Ref):
            if v.kind in ("list", "set", "dict"):
                n = self.length(v)
                return T.bool_(n > 0) if isinstance(n, int) else T.gt(n.t, T.int_(0))
            if v.kind == "bytearray":
                return self.truth_term(self.ctx.store[("b", v.id)])
            if isinstance(v.cls, VClass):
                for m in ("__bool__", "__len__"):
                    f = self.class_attr(v.cls, m)
                    if f is not UNDEF and isinstance(f, VFunc):
                        return self.truth_term(self.call(VBound(v, f), [], {}))
            return T.TRUE
        if isinstance(v, (VClass, VFunc, VBound, ExtRef, XVal, SOpaque, Native, type, VModule, ExcVal)):
            return T.TRUE
        if isinstance(v, Poison):
            self.poisoned(v)
        raise Unsupported("truth value of %r" % (v,))

    def truth(self, v):
        t = self.truth_term(v)
        if T.is_const(t):
            return t.val
        return self.ctx.branch(t)

    def length(self, v):
        if isinstance(v, (str, bytes, tuple)):
            return len(v)
        if isinstance(v, SStr):
            return mkint(T.length(v.t))
        if isinstance(v, Lazy):
            return mkint(v.n)
        if isinstance(v, range):
            return len(v)
        if isinstance(v, Ref):
            if v.kind in ("list", "set", "dict"):
                n = T.int_(0)
                for x in self.items(v):
                    n = T.add(n, T.length(x.t) if isinstance(x, Chunk) else T.int_(1))
                return mkint(n)
            if v.kind == "bytearray":
                return self.length(self.ctx.store[("b", v.id)])
            if isinstance(v.cls, VClass):
                f = self.class_attr(v.cls, "__len__")
                if isinstance(f, VFunc):
                    return self.call(VBound(v, f), [], {})
        if isinstance(v, (int, SInt, SBool)) or v is None:
            raise self.exc(TypeError, "object has no len()")
        raise Unsupported("len of %r" % (v,))

    def eq(self, a, b):
        """Python == as bool or Term-valued SBool"""
        t = self.eq_term(a, b)
        return mkbool(t)

    def eq_term(self, a, b):
        for x in (a, b):
            if isinstance(x, Poison):
                self.poisoned(x)
        if is_concrete(a) and is_concrete(b):
            return T.bool_(a == b)
        ka, kb = kind_of(a), kind_of(b)
        num = ("int", "bool")
        if ka in num and kb in num:
            if ka == kb == "bool":
                return T.eq(tbool(a), tbool(b))
            return T.eq(tint(a), tint(b))
        if ka in ("str", "bytes", "bytearray") and kb in ("str", "bytes", "bytearray"):
            if (ka == "str") != (kb == "str"):
                return T.FALSE
            return T.eq(tstr(self.plain(a)), tstr(self.plain(b)))
        if ka == "tuple" and kb == "tuple":
            if len(a) != len(b):
                return T.FALSE
            return T.and_(*[self.eq_term(x, y) for x, y in zip(a, b)])
        if ka == "list" and kb == "list":
            return self.list_eq(a, b)
        if ka == "none" or kb == "none":
            if ka == kb:
                return T.TRUE
            for x, kx in ((a, ka), (b, kb)):
                if kx in ("int", "bool", "str", "bytes", "tuple", "list", "set", "dict", "class", "func", "ext") or kx.startswith("x:"):
                    return T.FALSE
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref) and isinstance(x.cls, VClass):
                f = self.class_attr(x.cls, "__eq__")
                if isinstance(f, VFunc):
                    r = self.call(VBound(x, f), [y], {})
                    return self.truth_term(r)
        if isinstance(a, XVal) and isinstance(b, XVal):
            if a.kind != b.kind:
                return T.FALSE
            h = self.stubs.XEQ.get(a.kind)
            if h:
                return h(self, a, b)
            return T.and_(*[self.eq_term(a.f[n], b.f[n]) for n in a.f])
        if isinstance(a, SOpaque) and isinstance(b, SOpaque) and a.t.sort == b.t.sort:
            h = self.stubs.XEQ.get("opaque:" + a.kind)
            if h:
                return h(self, a, b)
        if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == "obj" and b.kind == "obj":
            return T.bool_(a.id == b.id)
        if isinstance(a, (VClass, VFunc, ExtRef, type, VModule, Native)) or isinstance(b, (VClass, VFunc, ExtRef, type, VModule, Native)):
            return T.bool_(a is b or (isinstance(a, ExtRef) and a == b))
        if ka != kb and not isinstance(a, (Ref, SOpaque)) and not isinstance(b, (Ref, SOpaque)):
            return T.FALSE
        raise Unsupported("equality of %r and %r" % (a, b))

    def list_eq(self, a, b):
        ia, ib = self.items(a), self.items(b)
        if not any(isinstance(x, Chunk) for x in ia + ib):
            if len(ia) != len(ib):
                return T.FALSE
            return T.and_(*[self.eq_term(x, y) for x, y in zip(ia, ib)])
        sh = join(self.items_shape(ia), self.items_shape(ib))
        if sh is None or not sh.full():
            raise Unsupported("list equality")
        return T.eq(self.encode_items(ia, sh), self.encode_items(ib, sh))

    def plain(self, v):
        """bytes value of a bytes-like"""
        if isinstance(v, Ref) and v.kind == "bytearray":
            x = self.ctx.store[("b", v.id)]
            if isinstance(x, Poison):
                self.poisoned(x)
            return x
        return v

    def is_(self, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            self.poisoned(a if isinstance(a, Poison) else b)
        if a is None or b is None:
            return a is None and b is None
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return mkbool(T.eq(tbool(a), tbool(b)))
        if isinstance(a, (Ref, ExtRef)) and isinstance(b, (Ref, ExtRef)):
            if type(a) is type(b):
                return a == b
            return False
        if isinstance(a, (VClass, VFunc, type, VModule)) or isinstance(b, (VClass, VFunc, type, VModule)):
            return a is b
        if isinstance(a, (bool, SBool)) != isinstance(b, (bool, SBool)):
            return False
        if kind_of(a) != kind_of(b):
            return False
        raise Unsupported("identity of %r and %r" % (a, b))

    # ------------------------------------------------------------ attributes

    def class_attr(self, cls, name):
        for c in cls.mro():
            if isinstance(c, VClass):
                v = self.ctx.store.get(("c", c.qual, name), UNDEF)
                if v is not UNDEF:
                    return v
                if name in c.ns:
                    v = c.ns[name]
                    if isinstance(v, Broken):
                        raise Unsupported(v.why)
                    return v
            elif isinstance(c, ExtRef):
                m = self.stubs.METHODS.get("ext:" + c.path, {}).get(name)
                if m is not None:
                    return Native(c.path + "." + name, m)
            elif isinstance(c, type) and issubclass(c, BaseException):
                if name in ("args",):
                    return UNDEF
        return UNDEF

    def getattr(self, v, name, default=UNDEF):
        r = self._getattr(v, name)
        if r is UNDEF:
            if default is not UNDEF:
                return default
            raise self.exc(AttributeError, name)
        if isinstance(r, Broken):
            raise Unsupported(r.why)
        return r

    def _getattr(self, v, name):
        if isinstance(v, Poison):
            self.poisoned(v)
        if isinstance(v, Ref):
            if ("stale", v.id) in self.ctx.store:
                raise Unsupported("stale view of a list element")
            if v.kind == "obj":
                x = self.get_attr_raw(v, name)
                if x is not UNDEF:
                    return x
                if name == "__class__":
                    return v.cls
                if isinstance(v.cls, VClass):
                    a = self.class_attr(v.cls, name)
                    if isinstance(a, VFunc):
                        return self.bind(a, v, v.cls)
                    if isinstance(a, Native):
                        if getattr(a.fn, "is_prop", False):
                            return a.fn(self, v)
                        return VBound(v, a)
                    if a is UNDEF:
                        g = self.class_attr(v.cls, "__getattr__")
                        if isinstance(g, VFunc):
                            return self.call(VBound(v, g), [name], {})
                        if any(isinstance(c, ExtRef) and c.path not in self.stubs.PLAIN_BASES for c in v.cls.mro()):
                            raise Unsupported("attribute %s of external base of %s" % (name, v.cls.name))
                    return a
            table = self.stubs.METHODS.get("ext:" + v.cls.path if isinstance(v.cls, ExtRef) else v.kind, {})
            m = table.get(name)
            if m is not None:
                if getattr(m, "is_prop", False):
                    return m(self, v)
                return VBound(v, Native(name, m))
            if isinstance(v.cls, ExtRef):
                raise Unsupported("no model of %s.%s" % (v.cls.path, name))
            if hasattr({"list": list, "dict": dict, "set": set, "bytearray": bytearray}.get(v.kind, object), name):
                raise Unsupported("no model of %s.%s" % (v.kind, name))
            return UNDEF
        if isinstance(v, VClass):
            if name == "__name__":
                return v.name
            if name == "__qualname__":
                return v.name
            if name == "__module__":
                return v.module.name
            if name == "__doc__":
                return v.ns.get("__doc__")
            if name == "__subclasses__":
                return Native("__subclasses__", lambda I, a, k: I.new_list(list(v.subclasses)))
            if name == "__mro__":
                return tuple(v.mro())
            a = self.class_attr(v, name)
            if isinstance(a, VFunc):
                if a.wrap == "classmethod":
                    return VBound(v, a)
                return a
            return a
        if isinstance(v, VModule):
            x = self.ctx.store.get(("m", v.name, name), UNDEF)
            if x is not UNDEF:
                return x
            if name in v.ns:
                return v.ns[name]
            if self.module_path(v.name + "." + name):
                return self.module(v.name + "." + name)
            return UNDEF
        if isinstance(v, ExtRef):
            return self.stubs.ext_attr(self, v, name)
        if isinstance(v, XVal):
            t = self.stubs.METHODS.get("x:" + v.kind, {})
            m = t.get(name)
            if m is None:
                if name in v.f:
                    return v.f[name]
                raise Unsupported("no model of %s.%s" % (v.kind, name))
            if getattr(m, "is_prop", False):
                return m(self, v)
            return VBound(v, Native(name, m))
        if isinstance(v, SOpaque):
            t = self.stubs.METHODS.get("opaque:" + v.kind, {})
            m = t.get(name)
            if m is None:
                raise Unsupported("no model of %s.%s" % (v.kind, name))
            if getattr(m, "is_prop", False):
                return m(self, v)
            return VBound(v, Native(name, m))
        if isinstance(v, ExcVal):
            if name == "args":
                return tuple(v.args)
            if name == "__class__":
                return v.cls
            return UNDEF
        if isinstance(v, VFunc):
            if name in ("__name__", "__qualname__"):
                return v.name
            if name == "__doc__":
                return ast.get_docstring(v.node, clean=False) if isinstance(v.node, ast.FunctionDef) else None
            return UNDEF
        if isinstance(v, type):
            if name == "__name__":
                return v.__name__
            k = {str: "str", bytes: "bytes", int: "int", dict: "dict", bytearray: "bytearray", list: "list"}.get(v)
            m = self.stubs.METHODS.get(k + "!" if k else "", {}).get(name)
            if m is not None:
                return Native(name, m)
            m = self.stubs.METHODS.get(k or "", {}).get(name)
            if m is not None:
                return Native(name, lambda I, a, kw: m(I, a[0], a[1:], kw))
            raise Unsupported("type attribute %s.%s" % (v.__name__, name))
        if isinstance(v, VBound) or isinstance(v, Native):
            if name == "__name__":
                return v.func.name if isinstance(v, VBound) else v.name
            raise Unsupported("attribute of a function")
        k = kind_of(v)
        m = self.stubs.METHODS.get(k, {}).get(name)
        if m is not None:
            return VBound(v, Native(name, m))
        py = {"str": str, "bytes": bytes, "int": int, "bool": bool, "tuple": tuple}.get(k)
        if k == "none" or (py is not None and not hasattr(py, name)):
            return UNDEF
        if py is not None and is_concrete(v):
            # a concrete receiver: run the real method if its arguments are concrete
            meth = getattr(v, name)

            def run(I, s, a, kw):
                if not callable(meth):
                    return meth
                if not all(is_concrete(x) for x in a) or not all(is_concrete(x) for x in kw.values()):
                    raise Unsupported("no model of %s.%s" % (k, name))
                try:
                    return I.lift(meth(*a, **kw))
                except Exception as e:
                    raise I.exc(type(e), *e.args)

            return VBound(v, Native(name, run)) if callable(meth) else meth
        raise Unsupported("no model of %s.%s" % (k, name))

    def lift(self, x):
        """python value -> engine value (mutable containers go to the heap)"""
        if isinstance(x, list):
            return self.new_list([self.lift(y) for y in x])
        if isinstance(x, tuple):
            return tuple(self.lift(y) for y in x)
        if isinstance(x, dict):
            return self.new_dict([(self.lift(k), self.lift(y)) for k, y in x.items()])
        if isinstance(x, (set, frozenset)):
            return self.new_list([self.lift(y) for y in sorted(x)], "set")
        return x

    def bind(self, f, self_, cls):
        if f.wrap == "staticmethod":
            return f
        if f.wrap == "classmethod":
            return VBound(cls, f)
        if f.wrap == "property":
            return self.call(VBound(self_, f), [], {})
        return VBound(self_, f)

    def setattr(self, v, name, x):
        if isinstance(v, Ref) and v.kind == "obj":
            if isinstance(v.cls, VClass):
                a = self.class_attr(v.cls, name)
                if isinstance(a, VFunc) and a.wrap == "property":
                    raise Unsupported("property setter")
                if isinstance(self.class_attr(v.cls, "__setattr__"), VFunc):
                    raise Unsupported("__setattr__")
            self.set_attr_raw(v, name, x)
            return
        if isinstance(v, VClass):
            self.ctx.store[("c", v.qual, name)] = x
            return
        if isinstance(v, VModule):
            self.ctx.store[("m", v.name, name)] = x
            return
        if isinstance(v, (VFunc, Native)) and name in ("__doc__", "name", "__name__"):
            return
        raise Unsupported("attribute assignment on %r" % (v,))

    # ------------------------------------------------------------ calls

    def call(self, f, args, kw):
        self.ctx.check_deadline()
        if isinstance(f, Native):
            return f.fn(self, args, kw)
        if isinstance(f, VBound):
            if isinstance(f.func, Native):
                return f.func.fn(self, f.self_, args, kw)
            if isinstance(f.func, VFunc):
                return self.call_func(f.func, [f.self_] + list(args), kw)
            return self.call(f.func, [f.self_] + list(args), kw)
        if isinstance(f, VFunc):
            return self.call_func(f, list(args), kw)
        if isinstance(f, VClass):
            return self.instantiate(f, args, kw)
        if isinstance(f, ExtRef):
            return self.stubs.call_ext(self, f.path, args, kw)
        if isinstance(f, type):
            if issubclass(f, BaseException):
                return ExcVal(f, tuple(args))
            fn = self.stubs.CONSTRUCTORS.get(f.__name__)
            if fn:
                return fn(self, args, kw)
            raise Unsupported("constructor " + f.__name__)
        if isinstance(f, XVal):
            h = self.stubs.METHODS.get("x:" + f.kind, {}).get("__call__")
            if h:
                return h(self, f, args, kw)
        if isinstance(f, Ref) and isinstance(f.cls, VClass):
            c = self.class_attr(f.cls, "__call__")
            if isinstance(c, VFunc):
                return self.call(VBound(f, c), args, kw)
        if isinstance(f, Poison):
            self.poisoned(f)
        if f is None or isinstance(f, (int, str, bytes, tuple)):
            raise self.exc(TypeError, "not callable")
        raise Unsupported("call of %r" % (f,))

    def is_exception_class(self, c):
        return any((isinstance(x, type) and issubclass(x, BaseException)) or
                   (isinstance(x, ExtRef) and self.stubs.is_ext_exception(x.path)) for x in c.mro())

    def instantiate(self, c, args, kw):
        if self.is_exception_class(c):
            init = self.class_attr(c, "__init__")
            if isinstance(init, VFunc):
                raise Unsupported("exception class with __init__")
            return ExcVal(c, tuple(args))
        key = c.qual
        h = self.contracts.get(key)
        if h is not None:
            self.used_contracts.add(key)
            return h(self, list(args), dict(kw))
        new = self.class_attr(c, "__new__")
        if isinstance(new, VFunc):
            raise Unsupported("__new__")
        nt = self.stubs.class_factory(self, c)
        if nt is not None:
            return nt(args, kw)
        r = self.new_obj(c)
        for b in c.mro():
            if isinstance(b, ExtRef):
                init = self.stubs.EXT_BASE_INIT.get(b.path)
                if init:
                    init(self, r)
                elif b.path not in self.stubs.PLAIN_BASES:
                    raise Unsupported("external base class " + b.path)
        init = self.class_attr(c, "__init__")
        if isinstance(init, VFunc):
            self.call_func(init, [r] + list(args), kw)
        elif args or kw:
            raise self.exc(TypeError, "no arguments expected")
        return r

    def bind_args(self, f, args, kw):
        a = f.node.args
        vals = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        args = list(args)
        kw = dict(kw)
        for i, n in enumerate(pos):
            if i < len(args):
                vals[n] = args[i]
                if n in kw:
                    raise self.exc(TypeError, "multiple values for " + n)
            elif n in kw and n not in [x.arg for x in a.posonlyargs]:
                vals[n] = kw.pop(n)
            else:
                j = i - (len(pos) - len(f.defaults))
                if j < 0:
                    raise self.exc(TypeError, "missing argument " + n)
                vals[n] = f.defaults[j]
        if len(args) > len(pos):
            if not a.vararg:
                raise self.exc(TypeError, "too many arguments")
            vals[a.vararg.arg] = tuple(args[len(pos):])
        elif a.vararg:
            vals[a.vararg.arg] = ()
        for n in kwonly:
            if n in kw:
                vals[n] = kw.pop(n)
            elif n in f.kwdefaults:
                vals[n] = f.kwdefaults[n]
            else:
                raise self.exc(TypeError, "missing keyword argument " + n)
        if a.kwarg:
            vals[a.kwarg.arg] = self.new_dict(list(kw.items()))
        elif kw:
            raise self.exc(TypeError, "unexpected keyword argument " + next(iter(kw)))
        return vals

    def call_func(self, f, args, kw):
        h = self.contracts.get(f.qual)
        if h is not None:
            self.used_contracts.add(f.qual)
            vals = self.bind_args(f, args, kw)
            return h(self, vals)
        hook = self.on_call.get(f.qual)
        if hook:
            hook(self, args, kw)
        vals = self.bind_args(f, args, kw)
        return self.run_func(f, vals)

    def run_func(self, f, vals):
        names, gl, nl, has_yield = scope_of(f.node)
        self.inlined.add(f.qual)
        fr = Frame(self.ctx.fresh_id(), f.module, f, f.closure, names, gl, nl)
        for n, v in vals.items():
            self.ctx.store[("v", fr.id, n)] = v
        fr.cls = f.owner
        pos = f.node.args.posonlyargs + f.node.args.args
        if pos:
            fr.selfv = vals.get(pos[0].arg)
        if has_yield:
            def run(I, cb):
                fr.yield_cb = cb
                try:
                    I.block(f.node.body, fr)
                except ReturnX:
                    pass
                I.drop_frame(fr)

            return Gen(run, f.qual)
        if self.depth > 60 or sum(1 for x in self.callstack if x == f.qual) > 6:
            raise Unsupported("recursion in " + f.qual)
        self.depth += 1
        self.callstack.append(f.qual)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            self.block(f.node.body, fr)
            return None
        except ReturnX as r:
            return r.v
        finally:
            self.depth -= 1
            self.callstack.pop()
            self.drop_frame(fr)

    def drop_frame(self, fr):
        if not fr.keep:
            for n in fr.names:
                self.ctx.store.pop(("v", fr.id, n), None)

    # ------------------------------------------------------------ statements

    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(s).__name__)
        m(s, fr)

    def st_Pass(self, s, fr):
        pass

    def st_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def st_Import(self, s, fr):
        for a in s.names:
            if a.asname:
                self.set_name(a.asname, self.import_name(a.name), fr)
            else:
                top = a.name.split(".")[0]
                if top == "age":
                    self.module(a.name)
                self.set_name(top, self.import_name(top), fr)

    def st_ImportFrom(self, s, fr):
        mod = s.module or ""
        if s.level:
            base = fr.module.name.split(".")
            path = self.module_path(fr.module.name)
            if not path.endswith("__init__.py"):
                base = base[:-1]
            base = base[: len(base) - (s.level - 1)]
            mod = ".".join(base + ([mod] if mod else []))
        src = self.import_name(mod)
        for a in s.names:
            if a.name == "*":
                if isinstance(src, VModule):
                    for n, v in list(src.ns.items()):
                        if not n.startswith("_"):
                            self.set_name(n, v, fr)
                    continue
                raise Unsupported("import * from " + mod)
            if isinstance(src, VModule):
                v = self._getattr(src, a.name)
                if v is UNDEF:
                    raise self.exc(ImportError, a.name)
            else:
                v = self.stubs.ext_attr(self, src, a.name)
            self.set_name(a.asname or a.name, v, fr)

    def st_FunctionDef(self, s, fr):
        f = self.make_func(s, fr)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, f, fr)
        self.set_name(s.name, v, fr)

    def make_func(self, s, fr, cls=None):
        qual = (cls.qual if cls else (fr.func.qual + ".<locals>" if fr.func else fr.module.name)) + "." + s.name
        defaults = tuple(self.ev(d, fr) for d in s.args.defaults)
        kwd = {a.arg: self.ev(d, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        closure = fr if fr.id != 0 else None
        if closure is not None:
            f = closure
            while f is not None:
                f.keep = True
                f = f.closure
        v = VFunc(s, fr.module, s.name, qual, closure, defaults, kwd)
        v.owner = cls
        return v

    def decorate(self, d, v, f, fr):
        if isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod", "property"):
            f.wrap = d.id
            return v
        dv = self.ev(d, fr)
        if isinstance(dv, ExtRef):
            if dv.path in ("abc.abstractmethod", "typing.overload", "typing.no_type_check", "typing.final"):
                return v
            if dv.path in ("functools.lru_cache", "functools.cache"):
                raise Unsupported("memoised function")
            if dv.path.startswith("click"):
                if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr == "group" or isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == "group":
                    return ExtRef("click.Group")
                return v
        if isinstance(dv, (VFunc, VBound)):
            return self.call(dv, [v], {})
        raise Unsupported("decorator %r" % (dv,))

    def st_ClassDef(self, s, fr):
        bases = [self.ev(b, fr) for b in s.bases]
        if s.keywords:
            raise Unsupported("class keywords")
        bases = [b for b in bases if b is not object and not (isinstance(b, ExtRef) and b.path in ("abc.ABC", "typing.Generic"))]
        for b in bases:
            if not isinstance(b, (VClass, ExtRef, type)):
                raise Unsupported("base class %r" % (b,))
        c = VClass(s.name, bases, fr.module)
        cfr = Frame(self.ctx.fresh_id(), fr.module, None, fr if fr.id else None, names=_class_names(s))
        doc = ast.get_docstring(s, clean=False)
        c.ns["__doc__"] = doc
        for st in s.body:
            if isinstance(st, ast.FunctionDef):
                f = self.make_func(st, fr, c)
                v = f
                try:
                    for d in reversed(st.decorator_list):
                        v = self.decorate(d, v, f, cfr)
                except Unsupported as e:
                    v = Broken("%s.%s: %s" % (c.qual, st.name, e))
                c.ns[st.name] = v
                self.ctx.store[("v", cfr.id, st.name)] = v
            elif isinstance(st, (ast.Assign, ast.AnnAssign)):
                if isinstance(st, ast.AnnAssign) and st.value is None:
                    continue
                try:
                    v = self.ev(st.value, cfr)
                except Unsupported as e:
                    v = Broken(str(e))
                for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                    if not isinstance(t, ast.Name):
                        raise Unsupported("class body assignment")
                    c.ns[t.id] = v
                    self.ctx.store[("v", cfr.id, t.id)] = v
            elif isinstance(st, (ast.Expr, ast.Pass)):
                pass
            else:
                raise Unsupported("class body " + type(st).__name__)
        for k in [k for k in self.ctx.store if k[0] == "v" and k[1] == cfr.id]:
            del self.ctx.store[k]
        v = c
        for d in reversed(s.decorator_list):
            raise Unsupported("class decorator")
        self.set_name(s.name, v, fr)

    def st_Return(self, s, fr):
        raise ReturnX(self.ev(s.value, fr) if s.value is not None else None)

    def st_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def st_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.get_name(t.id, fr)
            new = self.inplace(s.op, old, self.ev(s.value, fr))
            self.set_name(t.id, new, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(s.op, old, self.ev(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            i = self.ev_index(t.slice, fr)
            old = self.getitem(o, i)
            self.setitem(o, i, self.inplace(s.op, old, self.ev(s.value, fr)))
        else:
            raise Unsupported("augmented assignment")

    def inplace(self, op, a, b):
        if isinstance(a, Ref) and a.kind == "list" and isinstance(op, ast.Add):
            self.stubs.METHODS["list"]["extend"](self, a, [b], {})
            return a
        if isinstance(a, Ref) and a.kind == "bytearray" and isinstance(op, ast.Add):
            self.ctx.store[("b", a.id)] = self.binop(op, self.plain(a), self.plain(b))
            return a
        return self.binop(op, a, b)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.set_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev_index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        else:
            raise Unsupported("assignment target")

    def unpack(self, elts, v, fr):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        nfix = len(elts) - len(star)
        if isinstance(v, (Gen, Lazy)) or (isinstance(v, Ref) and v.kind in ("set", "dict")):
            v = self.to_list(v)
        if isinstance(v, tuple):
            items = tuple(v)
        elif isinstance(v, Ref) and v.kind == "list":
            items = self.items(v)
        elif isinstance(v, (str, bytes)):
            items = tuple(v)
        elif isinstance(v, Ref) and isinstance(v.cls, VClass):
            raise Unsupported("unpacking an object")
        elif isinstance(v, (int, SInt, SBool)) or v is None:
            raise self.exc(TypeError, "cannot unpack")
        elif isinstance(v, SStr):
            n = T.length(v.t)
            if star:
                raise Unsupported("starred unpacking of a string")
            if not self.ctx.branch(T.eq(n, T.int_(nfix))):
                raise self.exc(ValueError, "unpack length")
            items = tuple(self.getitem(v, i) for i in range(nfix))
        else:
            raise Unsupported("unpacking %r" % (v,))
        if any(isinstance(x, Chunk) for x in items):
            items = self.split_items(items, nfix if not star else None, len(elts) - 1 if star else nfix,
                                     front=star[0] if star else nfix, back=(len(elts) - 1 - star[0]) if star else 0)
        if star:
            if len(items) < nfix and not any(isinstance(x, Chunk) for x in items):
                raise self.exc(ValueError, "not enough values to unpack")
            i = star[0]
            after = len(elts) - 1 - i
            mid = items[i: len(items) - after]
            for e, x in zip(elts[:i], items[:i]):
                self.assign(e, x, fr)
            self.assign(elts[i].value, self.new_list(mid), fr)
            for e, x in zip(elts[i + 1:], items[len(items) - after:] if after else ()):
                self.assign(e, x, fr)
        else:
            if len(items) != len(elts):
                raise self.exc(ValueError, "wrong number of values to unpack")
            for e, x in zip(elts, items):
                self.assign(e, x, fr)

    def split_items(self, items, exact, need, front, back):
        """take `front` items off the front of a partly symbolic list (back must be 0)"""
        seq = None
        sh = self.items_shape(items)
        if sh is None or not sh.full():
            raise Unsupported("unpacking a list of unknown element type")
        seq = self.encode_items(items, sh)
        n = T.length(seq)
        if exact is not None:
            if not self.ctx.branch(T.eq(n, T.int_(exact))):
                raise self.exc(ValueError, "wrong number of values to unpack")
            return tuple(self.decode(T.nth(seq, T.int_(i)), sh.a) for i in range(exact))
        if not self.ctx.branch(T.ge(n, T.int_(need))):
            raise self.exc(ValueError, "not enough values to unpack")
        fr_ = tuple(self.decode(T.nth(seq, T.int_(i)), sh.a) for i in range(front))
        bk = tuple(self.decode(T.nth(seq, T.sub(n, T.int_(back - i))), sh.a) for i in range(back))
        mid = T.substr(seq, T.int_(front), T.sub(n, T.int_(front + back)))
        return fr_ + ((Chunk(mid, sh.a),) if mid.op != "seq.empty" else ()) + bk

    def st_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.get_name(t.id, fr)
                self.ctx.store[("v", fr.id, t.id)] = UNDEF
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, fr), self.ev_index(t.slice, fr))
            else:
                raise Unsupported("del")

    def st_If(self, s, fr):
        if self.cond(s.test, fr):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def st_Assert(self, s, fr):
        if not self.cond(s.test, fr):
            raise self.exc(AssertionError, *([self.ev(s.msg, fr)] if s.msg is not None else []))

    def st_Raise(self, s, fr):
        if s.exc is None:
            cur = self.ctx.store.get(("exc",))
            if cur is None:
                raise self.exc(RuntimeError, "No active exception to reraise")
            raise PyExc(cur)
        v = self.ev(s.exc, fr)
        if s.cause is not None:
            self.ev(s.cause, fr)
        if isinstance(v, (VClass, type, ExtRef)):
            v = self.make_exc(v)
        if not isinstance(v, ExcVal):
            raise self.exc(TypeError, "exceptions must derive from BaseException")
        raise PyExc(v)

    def make_exc(self, c):
        if isinstance(c, ExtRef):
            return ExcVal(self.stubs.ext_exception(c.path))
        return ExcVal(c)

    def st_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyExc as e:
                h = self.find_handler(s.handlers, e.val, fr)
                if h is None:
                    raise
                saved = self.ctx.store.get(("exc",))
                self.ctx.store[("exc",)] = e.val
                if h.name:
                    self.set_name(h.name, e.val, fr)
                try:
                    self.block(h.body, fr)
                finally:
                    if h.name:
                        self.ctx.store[("v", fr.id, h.name)] = UNDEF
                    self.ctx.store[("exc",)] = saved
            else:
                self.block(s.orelse, fr)
        except (PyExc, ReturnX, BreakLoop, ContinueLoop):
            if s.finalbody:
                self.block(s.finalbody, fr)
            raise
        else:
            if s.finalbody:
                self.block(s.finalbody, fr)

    def find_handler(self, handlers, val, fr):
        for h in handlers:
            if h.type is None:
                return h
            c = self.ev(h.type, fr)
            if self.exc_is(val, c):
                return h
        return None

    def st_With(self, s, fr):
        self.with_items(s.items, s.body, fr)

    def with_items(self, items, body, fr):
        if not items:
            self.block(body, fr)
            return
        it = items[0]
        cm = self.ev(it.context_expr, fr)
        if isinstance(cm, Gen):
            raise Unsupported("generator context manager")
        v = self.call(self.getattr(cm, "__enter__"), [], {})
        ex = self.getattr(cm, "__exit__")
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)
        try:
            self.with_items(items[1:], body, fr)
        except PyExc as e:
            cls = e.val.cls
            if self.truth(self.call(ex, [cls, e.val, None], {})):
                return
            raise
        except (ReturnX, BreakLoop, ContinueLoop):
            self.call(ex, [None, None, None], {})
            raise
        else:
            self.call(ex, [None, None, None], {})

    def st_Break(self, s, fr):
        raise BreakLoop()

    def st_Continue(self, s, fr):
        raise ContinueLoop()

    def st_Global(self, s, fr):
        pass

    def st_Nonlocal(self, s, fr):
        pass

    def st_For(self, s, fr):
        from . import loops

        it = self.ev(s.iter, fr)
        if self.lifted(s, it, fr):
            return

        def cb(item):
            self.assign(s.target, item, fr)
            try:
                self.block(s.body, fr)
            except ContinueLoop:
                pass

        try:
            loops.iterate(self, it, cb, s)
        except BreakLoop:
            return
        self.block(s.orelse, fr)

    def lifted(self, s, it, fr):
        """a loop that is an element-wise map (for x in xs: acc.append(e)) or a guard (for x in xs: if c: raise e)
        over a symbolic sequence is executed as the comprehension it is; True if it was"""
        from . import loops

        if s.orelse or not isinstance(s.target, (ast.Name, ast.Tuple)) or fr.func is None:
            return False
        lz = loops.as_lazy(self, it)
        if lz is None or getattr(lz, "src", None) is None or T.is_const(lz.n) or loops.bounded_count(self, lz.n) is not None:
            return False
        tag = ("unlifted", str(getattr(fr.module, "name", "")), s.lineno)
        if tag in self.live:
            return False
        p = lift_pattern(s, fr.func.node)
        if p is None:
            return False
        kind, comp, acc, body = p
        if kind == "append":
            a = self.ev(acc, fr)
            if not (isinstance(a, Ref) and a.kind == "list"):
                return False
        try:
            g = comp.generators[0]
            z = lz
            if g.ifs:
                z = loops.filter_lazy(self, lz, comp, g, fr)
                if z is None:
                    raise Unsupported("filter")
            r = loops.map_lazy(self, z, comp, g, fr)
            if kind == "append":
                self.stubs.METHODS["list"]["extend"](self, a, [r], {})
            else:
                hit = self.truth(loops.any_all(self, r, True))
        except (Unsupported, NeedHavoc) as e:
            if isinstance(e, NeedHavoc) or "time limit" in str(e):
                raise
            raise NeedHavoc(tag)
        for n in ast.walk(s.target):
            if isinstance(n, ast.Name):
                self.ctx.store[("v", fr.id, n.id)] = Poison("loop variable after a lifted loop")
        if kind == "guard" and hit:
            self.block(body, fr)
        return True

    def st_While(self, s, fr):
        from . import loops

        def step():
            if not self.cond(s.test, fr):
                return False
            try:
                self.block(s.body, fr)
            except ContinueLoop:
                pass
            return True

        try:
            loops.while_loop(self, step, s)
        except BreakLoop:
            return
        self.block(s.orelse, fr)

    # ------------------------------------------------------------ expressions

    def cond(self, e, fr):
        return self.truth(self.ev(e, fr))

    def ev(self, e, fr):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__)
        return m(e, fr)

    def ev_Constant(self, e, fr):
        return e.value

    def ev_Name(self, e, fr):
        return self.get_name(e.id, fr)

    def ev_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def ev_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def ev_Tuple(self, e, fr):
        return tuple(self.ev_elts(e.elts, fr))

    def ev_List(self, e, fr):
        return self.new_list(self.ev_elts(e.elts, fr))

    def ev_Set(self, e, fr):
        return self.stubs.CONSTRUCTORS["set"](self, [tuple(self.ev_elts(e.elts, fr))], {})

    def ev_elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr)
                out += list(self.items(self.to_list(v)))
            else:
                out.append(self.ev(x, fr))
        return out

    def ev_Dict(self, e, fr):
        if not e.keys and getattr(self, "generic_key", None) is not None:
            return self.stubs.libs.syslib.keyed_map(self)
        d = self.new_dict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported("dict unpacking")
            kk = self.ev(k, fr)
            self.setitem(d, kk, self.ev(v, fr))
        return d

    def ev_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        for x in e.values[:-1]:
            v = self.ev(x, fr)
            if self.truth(v) != isand:
                return (not isand) if isinstance(v, SBool) else v
        return self.ev(e.values[-1], fr)

    def ev_UnaryOp(self, e, fr):
        if isinstance(e.op, ast.Not):
            t = self.truth_term(self.ev(e.operand, fr))
            return mkbool(T.not_(t))
        v = self.ev(e.operand, fr)
        if is_concrete(v) and not isinstance(v, (str, bytes, tuple)) and v is not None:
            if isinstance(e.op, ast.USub):
                return -v
            if isinstance(e.op, ast.UAdd):
                return +v
            if isinstance(e.op, ast.Invert):
                return ~v
        if isinstance(v, SInt):
            if isinstance(e.op, ast.USub):
                return mkint(T.neg(v.t))
            if isinstance(e.op, ast.UAdd):
                return v
            if isinstance(e.op, ast.Invert):
                return mkint(T.sub(T.neg(v.t), T.int_(1)))
        raise Unsupported("unary operator")

    def ev_IfExp(self, e, fr):
        # a pure conditional over integers or strings becomes an if-then-else term
        t = self.truth_term(self.ev(e.test, fr))
        if T.is_const(t):
            return self.ev(e.body if t.val else e.orelse, fr)
        s = self.ctx.syn(t)
        both = None
        if s is None and _simple(e.body) and _simple(e.orelse):
            self.ctx.nofork += 1
            try:
                both = self.ev(e.body, fr), self.ev(e.orelse, fr)
            except (CannotFork, PyExc):
                both = None
            finally:
                self.ctx.nofork -= 1
        if both is not None:
            a, b = both
            ka, kb = kind_of(a), kind_of(b)
            if ka == kb == "int":
                return mkint(ite_int(t, tint(a), tint(b)))
            if ka == kb and ka in ("str", "bytes") and self.ctx.nofork:
                return mkstr(T.ite(t, tstr(a), tstr(b)), ka)
            if ka == kb == "bool":
                return mkbool(T.ite(t, tbool(a), tbool(b)))
        return self.ev(e.body if self.ctx.branch(t) else e.orelse, fr)

    def ev_Lambda(self, e, fr):
        closure = fr if fr.id != 0 else None
        f = closure
        while f is not None:
            f.keep = True
            f = f.closure
        return VFunc(e, fr.module, "<lambda>", (fr.func.qual if fr.func else fr.module.name) + ".<lambda>", closure,
                     tuple(self.ev(d, fr) for d in e.args.defaults))

    def ev_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, fr)
                spec = self.ev(v.format_spec, fr) if v.format_spec is not None else ""
                parts.append(self.stubs.format_value(self, x, v.conversion, spec))
        return mkstr(T.concat_sort(T.STR, *[tstr(p) for p in parts]), "str")

    def ev_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        acc = T.TRUE
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, fr)
            t = self.truth_term(self.compare(op, left, right))
            if i + 1 < len(e.ops) and not all(_simple(c) for c in e.comparators[i + 1:]):
                if T.is_const(t):
                    if not t.val:
                        return False
                elif not self.ctx.branch(t):
                    return False
            acc = T.and_(acc, t)
            if acc is T.FALSE:
                return False
            left = right
        return mkbool(acc)

    def compare(self, op, a, b):
        for x in (a, b):
            if isinstance(x, Poison):
                self.poisoned(x)
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return mkbool(T.not_(self.eq_term(a, b)))
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            r = self.is_(a, b)
            return mkbool(T.not_(tbool(r)))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return mkbool(T.not_(tbool(self.contains(b, a))))
        if is_concrete(a) and is_concrete(b):
            import operator

            f = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[type(op)]
            try:
                return f(a, b)
            except TypeError as e:
                raise self.exc(TypeError, *e.args)
        if kind_of(a) in ("int", "bool") and kind_of(b) in ("int", "bool"):
            x, y = tint(a), tint(b)
            return mkbool({ast.Lt: T.lt, ast.LtE: T.le, ast.Gt: T.gt, ast.GtE: T.ge}[type(op)](x, y))
        if kind_of(a) in ("str", "bytes") and kind_of(a) == kind_of(b):
            x, y = tstr(a), tstr(b)
            if len(getattr(a, "", "")) if False else self.one_char(x) and self.one_char(y):
                x, y = T.to_code(x), T.to_code(y)
                return mkbool({ast.Lt: T.lt, ast.LtE: T.le, ast.Gt: T.gt, ast.GtE: T.ge}[type(op)](x, y))
        if {kind_of(a), kind_of(b)} & {"none"} and {kind_of(a), kind_of(b)} & {"int", "str", "bytes"}:
            raise self.exc(TypeError, "unorderable types")
        raise Unsupported("comparison of %r and %r" % (a, b))

    def one_char(self, t):
        return T.is_const(t) and len(t.val) == 1 or self.ctx.entails(T.eq(T.length(t), T.int_(1)))

    def contains(self, cont, x):
        if isinstance(cont, (tuple, frozenset, range)) or (isinstance(cont, (str, bytes)) and is_concrete(x)):
            if is_concrete(cont) and is_concrete(x):
                try:
                    return x in cont
                except TypeError as e:
                    raise self.exc(TypeError, *e.args)
        if isinstance(cont, tuple):
            return mkbool(T.or_(*[self.eq_term(y, x) for y in cont]))
        if isinstance(cont, range) and cont.step == 1:
            t = tint(x)
            return mkbool(T.and_(T.le(T.int_(cont.start), t), T.lt(t, T.int_(cont.stop))))
        if kind_of(cont) in ("str", "bytes", "bytearray"):
            cont = self.plain(cont)
            if kind_of(x) == "int":
                if kind_of(cont) == "str":
                    raise self.exc(TypeError, "in <string> requires string")
                return mkbool(T.contains(tstr(cont), T.from_code(tint(x))))
            x = self.plain(x)
            if kind_of(x) != kind_of(cont):
                raise self.exc(TypeError, "in: wrong type")
            return mkbool(self.stubs.contains_term(self, tstr(cont), tstr(x)))
        if isinstance(cont, Ref) and cont.kind in ("list", "set"):
            items = self.items(cont)
            ts = []
            for y in items:
                if isinstance(y, Chunk):
                    if self.shape(x) != y.et:
                        ts.append(T.FALSE)
                        continue
                    if y.et.k not in ("int", "str", "bytes", "bool", "opaque"):
                        raise Unsupported("in: objects with an equality of their own")
                    ts.append(T.mk("contains", (y.t, T.unit(self.encode(x, y.et))), T.BOOL))
                else:
                    ts.append(self.eq_term(y, x))
            return mkbool(T.or_(*ts))
        if isinstance(cont, Ref) and cont.kind == "dict":
            return mkbool(T.or_(*[self.eq_term(k, x) for k, _ in self.items(cont)]))
        m = self._getattr(cont, "__contains__") if isinstance(cont, (Ref, XVal, SOpaque)) else UNDEF
        if m is not UNDEF:
            r = self.call(m, [x], {})
            return mkbool(self.truth_term(r))
        if isinstance(cont, Lazy):
            raise Unsupported("in on a lazy sequence")
        raise Unsupported("in on %r" % (cont,))

    def ev_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        from . import arith

        return arith.binop(self, op, a, b)

    def ev_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return self.stubs.make_super(self, fr)
        f = self.ev(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                if isinstance(v, tuple):
                    args += list(v)
                else:
                    its = self.items(self.to_list(v))
                    if any(isinstance(x, Chunk) for x in its):
                        raise Unsupported("*args of unknown length")
                    args += list(its)
            else:
                args.append(self.ev(a, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.ev(k.value, fr)
                if isinstance(v, Ref) and v.kind == "dict":
                    for kk, vv in self.items(v):
                        kw[kk] = vv
                    continue
                raise Unsupported("**kwargs")
            kw[k.arg] = self.ev(k.value, fr)
        return self.call(f, args, kw)

    def ev_Starred(self, e, fr):
        raise Unsupported("starred expression")

    def ev_index(self, e, fr):
        if isinstance(e, ast.Slice):
            return slice(*[None if x is None else self.ev(x, fr) for x in (e.lower, e.upper, e.step)])
        return self.ev(e, fr)

    def ev_Subscript(self, e, fr):
        v = self.ev(e.value, fr)
        if isinstance(v, ExtRef) or isinstance(v, type):
            return ExtRef("typing.Generic")  # typing.List[int] and the like
        return self.getitem(v, self.ev_index(e.slice, fr))

    def getitem(self, v, i):
        from . import arith

        return arith.getitem(self, v, i)

    def setitem(self, v, i, x):
        from . import arith

        return arith.setitem(self, v, i, x)

    def delitem(self, v, i):
        if isinstance(v, Ref) and v.kind == "dict":
            ps = self.items(v)
            for n, (k, _) in enumerate(ps):
                if self.truth(self.eq(k, i)):
                    self.set_items(v, ps[:n] + ps[n + 1:])
                    return
            raise self.exc(KeyError, i)
        if isinstance(v, Ref) and v.kind == "list":
            its = self.items(v)
            if any(isinstance(x, Chunk) for x in its):
                raise Unsupported("del on a symbolic list")
            if isinstance(i, int):
                if not -len(its) <= i < len(its):
                    raise self.exc(IndexError, "index")
                its = list(its)
                del its[i]
                self.set_items(v, its)
                return
            if isinstance(i, slice) and is_concrete((i.start, i.stop, i.step)):
                its = list(its)
                del its[i]
                self.set_items(v, its)
                return
        raise Unsupported("del item")

    # comprehensions and generators

    def comp(self, e, fr, emit):
        """run the comprehension, calling emit() in the innermost scope with its frame"""
        from . import loops

        names = scope_of(e)[0]
        fr.keep = fr.keep
        cfr = Frame(self.ctx.fresh_id(), fr.module, fr.func, fr, names)
        cfr.cls, cfr.selfv = fr.cls, fr.selfv

        def level(n, first=None):
            if n == len(e.generators):
                emit(cfr)
                return
            g = e.generators[n]
            it = first if n == 0 else self.ev(g.iter, cfr)

            def cb(item):
                self.assign(g.target, item, cfr)
                for c in g.ifs:
                    if not self.cond(c, cfr):
                        return
                level(n + 1)

            loops.iterate(self, it, cb, (e, n))

        return level, cfr

    def ev_ListComp(self, e, fr):
        r = self.pointwise(e, fr)
        if r is not None:
            return self.to_list(r)
        acc = self.new_list()
        level, cfr = self.comp(e, fr, lambda c: self.stubs.METHODS["list"]["append"](self, acc, [self.ev(e.elt, c)], {}))
        level(0, self.ev(e.generators[0].iter, fr))
        self.drop_frame(cfr)
        return acc

    def ev_SetComp(self, e, fr):
        return self.stubs.CONSTRUCTORS["set"](self, [self.ev_GeneratorExp(e, fr)], {})

    def ev_DictComp(self, e, fr):
        acc = self.new_dict()
        level, cfr = self.comp(e, fr, lambda c: self.setitem(acc, self.ev(e.key, c), self.ev(e.value, c)))
        level(0, self.ev(e.generators[0].iter, fr))
        self.drop_frame(cfr)
        return acc

    def ev_GeneratorExp(self, e, fr):
        r = self.pointwise(e, fr)
        if r is not None:
            return r
        first = self.ev(e.generators[0].iter, fr)

        def run(I, cb):
            level, cfr = I.comp(e, fr, lambda c: cb(I.ev(e.elt, c)))
            level(0, first)
            I.drop_frame(cfr)

        return Gen(run, "generator expression")

    def pointwise(self, e, fr):
        """a comprehension with one unfiltered generator over a symbolic sequence: an element-wise map"""
        from . import loops

        if len(e.generators) != 1:
            return None
        if not isinstance(e.elt, ast.AST):
            return None
        g = e.generators[0]
        itv = None
        itv = self.ev(g.iter, fr)
        lz = loops.as_lazy(self, itv)
        if lz is not None and g.ifs:
            lz = loops.filter_lazy(self, lz, e, g, fr)
        if lz is None:
            # not lazy: run the ordinary way on the value already computed
            if isinstance(e, (ast.GeneratorExp, ast.SetComp)):
                def run(I, cb):
                    level, cfr = I.comp(e, fr, lambda c: cb(I.ev(e.elt, c)))
                    level(0, itv)
                    I.drop_frame(cfr)

                return Gen(run, "generator expression")
            acc = self.new_list()
            level, cfr = self.comp(e, fr, lambda c: self.stubs.METHODS["list"]["append"](self, acc, [self.ev(e.elt, c)], {}))
            level(0, itv)
            self.drop_frame(cfr)
            return acc
        return loops.map_lazy(self, lz, e, g, fr)

    def ev_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value is not None else None
        if fr.yield_cb is None:
            raise Unsupported("yield outside an iterated generator")
        fr.yield_cb(v)
        return None

    def ev_YieldFrom(self, e, fr):
        from . import loops

        loops.iterate(self, self.ev(e.value, fr), fr.yield_cb, e)
        return None

    def to_list(self, v):
        from . import loops

        return loops.to_list(self, v)


def _unsupported_builtin(name):
    def f(I, a, k):
        raise Unsupported("builtin " + name)

    return f


def _module_targets(s):
    out = []
    if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
        out.append(s.name)
    elif isinstance(s, (ast.Import, ast.ImportFrom)):
        out += [(a.asname or a.name).split(".")[0] for a in s.names]
    else:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.append(n.id)
    return out


def _is_main_guard(s):
    return any(isinstance(n, ast.Name) and n.id == "__name__" for n in ast.walk(s.test))


def _class_names(s):
    out = set()
    for st in s.body:
        out.update(_module_targets(st))
    return frozenset(out)


def _simple(e):
    """evaluating this expression has no effect and cannot fail"""
    if isinstance(e, (ast.Constant, ast.Name)):
        return True
    if isinstance(e, ast.Attribute):
        return _simple(e.value)
    if isinstance(e, ast.Subscript):
        return isinstance(e.slice, (ast.Constant, ast.Name)) and _simple(e.value)
    if isinstance(e, ast.Call):
        return isinstance(e.func, ast.Name) and e.func.id in ("len", "ord") and all(_simple(a) for a in e.args)
    if isinstance(e, ast.BinOp):
        return isinstance(e.op, (ast.Add, ast.Sub, ast.Mult, ast.BitAnd, ast.BitOr, ast.BitXor)) and _simple(e.left) and _simple(e.right)
    if isinstance(e, ast.UnaryOp):
        return _simple(e.operand)
    return False


def kind_of(v):
    if isinstance(v, (bool, SBool)):
        return "bool"
    if isinstance(v, (int, SInt)):
        return "int"
    if isinstance(v, str):
        return "str"
    if isinstance(v, bytes):
        return "bytes"
    if isinstance(v, SStr):
        return v.kind
    if v is None:
        return "none"
    if isinstance(v, tuple):
        return "tuple"
    if isinstance(v, Ref):
        return v.kind
    if isinstance(v, XVal):
        return "x:" + v.kind
    if isinstance(v, SOpaque):
        return "opaque:" + v.kind
    if isinstance(v, VClass) or isinstance(v, type):
        return "class"
    if isinstance(v, (VFunc, VBound, Native)):
        return "func"
    if isinstance(v, ExtRef):
        return "ext"
    if isinstance(v, (Gen,)):
        return "gen"
    if isinstance(v, Lazy):
        return "lazy"
    if isinstance(v, float):
        return "float"
    if isinstance(v, ExcVal):
        return "exc"
    return type(v).__name__


def tint(v):
    if isinstance(v, SInt):
        return v.t
    if isinstance(v, bool):
        return T.int_(int(v))
    if isinstance(v, int):
        return T.int_(v)
    if isinstance(v, SBool):
        return T.ite(v.t, T.int_(1), T.int_(0))
    raise Unsupported("integer expected: %r" % (v,))


def tbool(v):
    if isinstance(v, SBool):
        return v.t
    if isinstance(v, bool):
        return T.bool_(v)
    raise Unsupported("bool expected: %r" % (v,))


def tstr(v):
    if isinstance(v, SStr):
        return v.t
    if isinstance(v, str):
        return T.str_(v)
    if isinstance(v, bytes):
        return T.str_(v.decode("latin-1"))
    raise Unsupported("string expected: %r" % (v,))


def ite_int(c, a, b):
    """if-then-else that stays in the bit-vector world when both sides fit"""
    if c is T.TRUE:
        return a
    if c is T.FALSE:
        return b
    def bvable(x):
        return x.op == "bv2nat" or (T.is_const(x) and 0 <= x.val < 1 << 63)
    if bvable(a) and bvable(b) and (a.op == "bv2nat" or b.op == "bv2nat" or _has_bv(c)):
        return T.bv2nat(T.ite(c, T.int2bv(a), T.int2bv(b)))
    return T.ite(c, a, b)


def _has_bv(c):
    return any(T.is_bv(t.sort) for t in T.subterms([c]))
