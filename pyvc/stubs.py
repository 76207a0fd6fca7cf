"""Built-in functions and types, and the dispatch to the library models."""

import builtins

from . import terms as T
from . import axioms
from .core import *  # noqa: F401,F403
from .core import SInt_, SBool_, SStr_, SBytes_, SNone_, UNDEF
from .interp import is_concrete, kind_of, tint, tbool, tstr, ite_int, EXC, TYPES
from . import strs

BUILTINS, CONSTRUCTORS, METHODS, XEQ = {}, {}, {}, {}
PLAIN_BASES = {"typing.BinaryIO", "typing.TextIO", "typing.IO", "typing.Generic", "typing.NamedTuple", "abc.ABC", "object",
               "typing.Protocol"}
EXT_BASE_INIT = {}
EXT_CALL = {}  # path -> fn(I, args, kw)
EXT_ATTR = {}  # path -> value or fn
EXT_EXC = {}  # path -> class


def builtin(name):
    def deco(f):
        BUILTINS[name] = f
        return f

    return deco


def constructor(name):
    def deco(f):
        CONSTRUCTORS[name] = f
        return f

    return deco


def ext(*paths):
    def deco(f):
        for p in paths:
            EXT_CALL[p] = f
        return f

    return deco


def method(kind, *names):
    def deco(f):
        for n in names:
            METHODS.setdefault(kind, {})[n] = f
        return f

    return deco


def prop(f):
    f.is_prop = True
    return f


def arg(args, kw, i, name, default=UNDEF):
    if len(args) > i:
        return args[i]
    if name in kw:
        return kw[name]
    return default


_s, _b = strs.tables()
METHODS["str"] = strs.concrete_first(_s)
METHODS["bytes"] = strs.concrete_first(_b)


# ---------------------------------------------------------------- builtins


@builtin("len")
def _len(I, a, kw):
    return I.length(a[0])


@builtin("range")
def _range(I, a, kw):
    from . import loops

    if all(isinstance(x, bool) or kind_of(x) != "int" for x in a):
        for x in a:
            if kind_of(x) not in ("int", "bool"):
                raise I.exc(TypeError, "range() integer")
    if all(is_concrete(x) for x in a):
        try:
            return range(*a)
        except ValueError as e:
            raise I.exc(ValueError, *e.args)
    step = a[2] if len(a) > 2 else 1
    if not isinstance(step, int):
        step = I.ctx.concretize(tint(step))
    if step <= 0:
        raise Unsupported("range with a negative step")
    start, stop = (T.int_(0), tint(a[0])) if len(a) == 1 else (tint(a[0]), tint(a[1]))
    return loops.lazy_range(start, stop, step)


@builtin("enumerate")
def _enumerate(I, a, kw):
    from . import loops

    start = arg(a, kw, 1, "start", 0)
    v = a[0]
    if isinstance(v, (str, bytes, tuple, range)) and is_concrete(start):
        return tuple((start + i, x) for i, x in enumerate(v))
    if isinstance(v, Ref) and v.kind == "list" and not any(isinstance(x, Chunk) for x in I.items(v)):
        its = I.items(v)
        return tuple((mkint(T.add(tint(start), T.int_(i))), x) for i, x in enumerate(its))
    lz = loops.as_lazy(I, v)
    if lz is not None:
        out = Lazy(lz.n, lambda k: (mkint(T.add(tint(start), k)), lz.elem(k)), "enumerate(%s)" % lz.desc)
        if getattr(lz, "src", None) is not None and getattr(lz, "mapfn", None) is not None:
            out.base = lz
        return out

    def run(I2, cb):
        gid = I2.ctx.fresh_id()
        loc = ("g", gid, "n")
        I2.ctx.store[loc] = start

        def each(x):
            n = I2.ctx.store[loc]
            cb((n, x))
            I2.ctx.store[loc] = mkint(T.add(tint(I2.ctx.store[loc]), T.int_(1)))

        loops.iterate(I2, v, each, ("enumerate", id(v) if False else 0))

    return Gen(run, "enumerate")


@builtin("zip")
def _zip(I, a, kw):
    from . import loops

    if all(isinstance(v, (str, bytes, tuple, range)) for v in a):
        return tuple(zip(*a))
    ls = []
    for v in a:
        if isinstance(v, (str, bytes, tuple, range)) or (isinstance(v, Ref) and v.kind == "list" and not any(isinstance(x, Chunk) for x in I.items(v))):
            its = tuple(v) if not isinstance(v, Ref) else I.items(v)
            ls.append(its)
        else:
            lz = loops.as_lazy(I, v)
            if lz is None:
                v = I.to_list(v)
                lz = loops.as_lazy(I, v)
                if lz is None:
                    ls.append(I.items(v))
                    continue
            ls.append(lz)
    if all(isinstance(x, tuple) for x in ls):
        return tuple(zip(*ls))
    n = None
    for x in ls:
        m = T.int_(len(x)) if isinstance(x, tuple) else x.n
        n = m if n is None else T.min_(n, m) if n is not m else n

    def elem(k):
        return tuple(x[I.ctx.concretize(k)] if isinstance(x, tuple) else x.elem(k) for x in ls)

    return Lazy(n, elem, "zip")


def isinst(I, v, c):
    """bool or Term"""
    if isinstance(c, tuple):
        ts = [isinst(I, v, x) for x in c]
        if all(isinstance(t, bool) for t in ts):
            return any(ts)
        return T.or_(*[T.bool_(t) if isinstance(t, bool) else t for t in ts])
    if isinstance(v, Poison):
        I.poisoned(v)
    if isinstance(c, ExtRef):
        return ext_isinstance(I, v, c.path)
    if isinstance(c, VClass):
        if isinstance(v, Ref) and isinstance(v.cls, VClass):
            return c in v.cls.mro()
        if isinstance(v, ExcVal) and isinstance(v.cls, VClass):
            return c in v.cls.mro()
        if isinstance(v, SOpaque):
            h = METHODS.get("opaque:" + v.kind, {}).get("__isinstance__")
            if h:
                return h(I, v, c)
            raise Unsupported("isinstance of %r" % (v,))
        return False
    if isinstance(c, type):
        if c is object:
            return True
        k = kind_of(v)
        if k == "opaque" or k.startswith("opaque:"):
            h = METHODS.get(k, {}).get("__isinstance__")
            if h:
                return h(I, v, c)
        py = {"str": str, "bytes": bytes, "int": int, "bool": bool, "none": type(None), "tuple": tuple, "list": list,
              "dict": dict, "set": set, "bytearray": bytearray, "float": float, "class": type}.get(k)
        if py is not None:
            return issubclass(py, c)
        if isinstance(v, ExcVal):
            return isinstance(v.cls, type) and issubclass(v.cls, c)
        return False
    if c is None:
        raise I.exc(TypeError, "isinstance() arg 2")
    if isinstance(c, SOpaque):
        h = METHODS.get("opaque:" + c.kind, {}).get("__instancecheck__")
        if h:
            return h(I, c, v)
    raise Unsupported("isinstance with %r" % (c,))


@builtin("isinstance")
def _isinstance(I, a, kw):
    r = isinst(I, a[0], a[1])
    return r if isinstance(r, bool) else mkbool(r)


@builtin("issubclass")
def _issubclass(I, a, kw):
    c, d = a
    ds = d if isinstance(d, tuple) else (d,)
    if isinstance(c, VClass):
        return any(x in c.mro() for x in ds)
    if isinstance(c, type) and all(isinstance(x, type) for x in ds):
        return issubclass(c, ds)
    raise Unsupported("issubclass")


@builtin("print")
def _print(I, a, kw):
    f = kw.get("file")
    std = getattr(I, "std", {})
    if f is None and "stdout" in std:
        f = std["stdout"]
    if isinstance(f, ExtRef) and f.path == "sys.stderr":
        for x in a:
            I.stubs.to_str_quiet(I, x)
        return None
    if f is None or isinstance(f, ExtRef) and f.path == "sys.stdout":
        effect(I, "stdout-text", tuple(a))
        return None
    end = kw.get("end", "\n")
    sep = kw.get("sep", " ")
    parts = []
    for i, x in enumerate(a):
        if i:
            parts.append(tstr(sep))
        parts.append(tstr(format_value(I, x, ord("s"), "")))
    parts.append(tstr(end))
    I.call(I.getattr(f, "write"), [mkstr(T.concat_sort(T.STR, *parts), "str")], {})
    return None


def to_str_quiet(I, x):
    """str(x) for a diagnostic: only its effects matter; a failing __str__ would propagate"""
    if isinstance(x, Ref) and isinstance(x.cls, VClass):
        for n in ("__str__", "__repr__"):
            f = I.class_attr(x.cls, n)
            if isinstance(f, VFunc):
                I.call(VBound(x, f), [], {})
                return


def effect(I, kind, what):
    log = I.ctx.store.get(("gh", "effects"), ())
    I.ctx.store[("gh", "effects")] = log + ((kind, what),)


@builtin("any")
def _any(I, a, kw):
    from . import loops

    return loops.any_all(I, a[0], True)


@builtin("all")
def _all(I, a, kw):
    from . import loops

    return loops.any_all(I, a[0], False)


@builtin("sum")
def _sum(I, a, kw):
    v = a[0]
    acc = arg(a, kw, 1, "start", 0)
    its = v if isinstance(v, (tuple, range, bytes)) else I.items(I.to_list(v))
    if any(isinstance(x, Chunk) for x in its):
        raise Unsupported("sum of a symbolic list")
    import ast

    for x in its:
        acc = I.binop(ast.Add(), acc, x)
    return acc


def _minmax(is_min):
    def f(I, a, kw):
        if "key" in kw:
            raise Unsupported("min/max with key")
        if len(a) == 1:
            v = a[0]
            from . import loops

            lz = loops.as_lazy(I, v)
            if lz is not None and not T.is_const(lz.n) and getattr(lz, "kind", None) in ("chars", "bytes", "seq"):
                # bound of a symbolic sequence: a member that bounds all others
                if I.ctx.branch(T.eq(lz.n, T.int_(0))):
                    if "default" in kw:
                        return kw["default"]
                    raise I.exc(ValueError, "empty sequence")
                j = I.ctx.fresh("m", T.INT)
                I.ctx.assume(T.and_(T.le(T.int_(0), j), T.lt(j, lz.n)))
                m = tint(lz.elem(j))
                from .loops import merged_body, forall_term

                h, body = merged_body(I, lz, lambda x: tint(x))
                mv = I.ctx.fresh("mv", T.INT)
                I.ctx.assume(T.eq(mv, m))
                # the bound as a hole would not be closed, so use character classes on demand
                st = I.ctx.store
                st[("minmax", mv)] = (lz, is_min)
                return SInt(mv)
            its = tuple(v) if isinstance(v, (tuple, range, bytes, str)) else I.items(I.to_list(v))
        else:
            its = a
        if any(isinstance(x, Chunk) for x in its):
            raise Unsupported("min/max of a symbolic list")
        if all(is_concrete(x) for x in its):
            try:
                return (min if is_min else max)(its, **kw)
            except ValueError as e:
                raise I.exc(ValueError, *e.args)
        acc = tint(its[0])
        for x in its[1:]:
            t = tint(x)
            acc = T.min_(acc, t) if is_min else ite_int(T.le(acc, t), t, acc)
        return mkint(acc)

    return f


BUILTINS["min"], BUILTINS["max"] = _minmax(True), _minmax(False)


@builtin("ord")
def _ord(I, a, kw):
    x = a[0]
    if is_concrete(x):
        try:
            return ord(x)
        except TypeError as e:
            raise I.exc(TypeError, *e.args)
    if kind_of(x) not in ("str", "bytes"):
        raise I.exc(TypeError, "ord() expected string")
    t = tstr(x)
    if not I.one_char(t):
        if not I.ctx.branch(T.eq(T.length(t), T.int_(1))):
            raise I.exc(TypeError, "ord() expected a character")
    c = T.to_code(t)
    return mkint(c)


@axioms.on_op("to_code")
def _ax_code(t):
    c = t.args[0]
    return [T.mk("<=", (T.int_(-1), t), T.BOOL), T.mk("<=", (t, T.int_(T.MAXCHAR)), T.BOOL)]


@builtin("chr")
def _chr(I, a, kw):
    x = a[0]
    if is_concrete(x):
        try:
            return chr(x)
        except (ValueError, TypeError) as e:
            raise I.exc(type(e), *e.args)
    t = tint(x)
    if not I.ctx.branch(T.and_(T.le(T.int_(0), t), T.le(t, T.int_(T.MAXCHAR)))):
        raise Unsupported("chr outside the supported range")
    return mkstr(T.from_code(t), "str")


@builtin("abs")
def _abs(I, a, kw):
    x = a[0]
    if is_concrete(x):
        return abs(x)
    t = tint(x)
    return mkint(T.ite(T.le(T.int_(0), t), t, T.neg(t)))


@builtin("divmod")
def _divmod(I, a, kw):
    import ast

    return (I.binop(ast.FloorDiv(), a[0], a[1]), I.binop(ast.Mod(), a[0], a[1]))


@builtin("pow")
def _pow(I, a, kw):
    import ast

    if len(a) == 2:
        return I.binop(ast.Pow(), a[0], a[1])
    if all(is_concrete(x) for x in a):
        return pow(*a)
    raise Unsupported("pow")


@builtin("hash")
def _hash(I, a, kw):
    return hash_value(I, a[0])


T.declare_uf("pyhash", (T.STR,), T.INT)


def hash_value(I, v):
    """hash of a value; equal values have equal hashes"""
    k = kind_of(v)
    if k in ("str", "bytes"):
        return mkint(T.app("pyhash", tstr(v)))
    if isinstance(v, Ref) and isinstance(v.cls, VClass):
        f = I.class_attr(v.cls, "__hash__")
        if isinstance(f, VFunc):
            return I.call(VBound(v, f), [], {})
        eqm = I.class_attr(v.cls, "__eq__")
        if isinstance(eqm, VFunc):
            # a class that defines __eq__ only is unhashable (if in the same class)
            for c in v.cls.mro():
                if isinstance(c, VClass) and "__eq__" in c.ns:
                    if "__hash__" not in c.ns:
                        raise I.exc(TypeError, "unhashable type")
                    break
        return v.id + 7_000_000
    if is_concrete(v):
        try:
            return hash(v) if not isinstance(v, str) else 0
        except TypeError as e:
            raise I.exc(TypeError, *e.args)
    if k in ("list", "dict", "set", "bytearray"):
        raise I.exc(TypeError, "unhashable type")
    raise Unsupported("hash of %r" % (v,))


@builtin("sorted")
def _sorted(I, a, kw):
    v = a[0]
    its = tuple(v) if isinstance(v, (tuple, str, bytes, range)) else I.items(I.to_list(v))
    if len(its) <= 1 and not any(isinstance(x, Chunk) for x in its):
        return I.new_list(its)
    if all(is_concrete(x) for x in its) and not any(isinstance(x, Chunk) for x in its) and "key" not in kw:
        return I.new_list(sorted(its, **kw))
    raise Unsupported("sorted")


@builtin("reversed")
def _reversed(I, a, kw):
    v = a[0]
    if isinstance(v, (str, bytes, tuple, range)):
        return tuple(reversed(v))
    if isinstance(v, Ref) and v.kind == "list" and not any(isinstance(x, Chunk) for x in I.items(v)):
        return tuple(reversed(I.items(v)))
    from . import loops

    lz = loops.as_lazy(I, v)
    if lz is None:
        raise Unsupported("reversed")
    return Lazy(lz.n, lambda k: lz.elem(T.sub(T.sub(lz.n, T.int_(1)), k)), "reversed")


@builtin("map")
def _map(I, a, kw):
    f, v = a[0], a[1]
    if len(a) > 2:
        raise Unsupported("map with several iterables")

    def run(I2, cb):
        from . import loops

        loops.iterate(I2, v, lambda x: cb(I2.call(f, [x], {})), ("map", 0))

    return Gen(run, "map")


@builtin("filter")
def _filter(I, a, kw):
    f, v = a

    def run(I2, cb):
        from . import loops

        def each(x):
            if I2.truth(x if f is None else I2.call(f, [x], {})):
                cb(x)

        loops.iterate(I2, v, each, ("filter", 0))

    return Gen(run, "filter")


@builtin("repr")
def _repr(I, a, kw):
    return format_value(I, a[0], ord("r"), "")


@builtin("getattr")
def _getattr(I, a, kw):
    if len(a) > 2:
        try:
            return I.getattr(a[0], a[1], a[2])
        except PyExc as e:
            if e.val.cls is AttributeError:
                return a[2]
            raise
    return I.getattr(a[0], a[1])


@builtin("hasattr")
def _hasattr(I, a, kw):
    try:
        return I._getattr(a[0], a[1]) is not UNDEF
    except PyExc:
        return False


@builtin("setattr")
def _setattr(I, a, kw):
    I.setattr(*a)


@builtin("callable")
def _callable(I, a, kw):
    return isinstance(a[0], (VFunc, VBound, Native, VClass, type, ExtRef))


@builtin("id")
def _id(I, a, kw):
    if isinstance(a[0], Ref):
        return a[0].id
    raise Unsupported("id")


@builtin("iter")
def _iter(I, a, kw):
    return a[0]


@builtin("next")
def _next(I, a, kw):
    v = a[0]
    if isinstance(v, Gen):
        class Got(Exception):
            pass

        box = []

        def cb(x):
            box.append(x)
            raise Got()

        try:
            v.run(I, cb)
        except Got:
            return box[0]
        if len(a) > 1:
            return a[1]
        raise I.exc(StopIteration)
    if isinstance(v, Ref) and isinstance(v.cls, ExtRef):
        m = METHODS.get("ext:" + v.cls.path, {}).get("__next_item__")
        if m:
            has, x = m(I, v)
            if has:
                return x
            if len(a) > 1:
                return a[1]
            raise I.exc(StopIteration)
    raise Unsupported("next")


@builtin("bin")
def _bin(I, a, kw):
    if is_concrete(a[0]):
        return bin(a[0])
    raise Unsupported("bin")


@builtin("open")
def _open(I, a, kw):
    from . import libs

    return libs.open_file(I, a, kw)


@builtin("super")
def _super(I, a, kw):
    raise Unsupported("super with arguments")


@builtin("vars")
def _vars(I, a, kw):
    raise Unsupported("vars")


# ---------------------------------------------------------------- constructors


@constructor("str")
def c_str(I, a, kw):
    if not a:
        return ""
    if len(a) > 1 or kw:
        return strs.m_decode(I, a[0], list(a[1:]), kw)
    return format_value(I, a[0], ord("s"), "")


@constructor("bytes")
def c_bytes(I, a, kw):
    if not a:
        return b""
    v = a[0]
    if len(a) > 1 or kw:
        return strs.m_encode(I, v, list(a[1:]), kw)
    k = kind_of(v)
    if k == "bytes":
        return v
    if k == "bytearray":
        return I.plain(v)
    if k in ("int", "bool"):
        n = v if is_concrete(v) else I.ctx.concretize(tint(v))
        if n < 0:
            raise I.exc(ValueError, "negative count")
        if n > 1 << 20:
            raise Unsupported("bytes of a huge size")
        return b"\0" * n
    if k == "str":
        raise I.exc(TypeError, "string argument without an encoding")
    m = I._getattr(v, "__bytes__") if isinstance(v, (Ref, XVal)) and v.kind not in ("list", "set") else UNDEF
    if m is not UNDEF:
        return I.call(m, [], {})
    lst = I.to_list(v)
    items = I.items(lst)
    return bytes_of_items(I, items)


def bytes_of_items(I, items):
    parts = []
    for x in items:
        if isinstance(x, Chunk):
            from . import spec

            ok = spec.all_bytes(x.t)
            if not I.ctx.branch(ok):
                raise I.exc(ValueError, "bytes must be in range(0, 256)")
            parts.append(spec.bytes_of(x.t))
        else:
            if kind_of(x) not in ("int", "bool"):
                raise I.exc(TypeError, "cannot be interpreted as an integer")
            t = tint(x)
            if not I.ctx.branch(T.and_(T.le(T.int_(0), t), T.le(t, T.int_(255)))):
                raise I.exc(ValueError, "bytes must be in range(0, 256)")
            parts.append(T.from_code(t))
    return mkstr(T.concat_sort(T.STR, *parts), "bytes")


@constructor("bytearray")
def c_bytearray(I, a, kw):
    v = c_bytes(I, a, kw)
    r = Ref(I.ctx.fresh_id(), "bytearray")
    I.ctx.store[("b", r.id)] = v
    return r


@constructor("memoryview")
def c_memoryview(I, a, kw):
    return c_bytes(I, a, kw)


T.declare_uf("int_of_str", (T.STR,), T.INT)
T.declare_uf("int_str_ok", (T.STR,), T.BOOL)
T.declare_uf("str_of_int", (T.INT,), T.STR)
strs.ASCII_UF.add("str_of_int")
CHARS_UF["str_of_int"] = T.chars("-0123456789")
DIGITS = T.star(("cls", ((48, 57),)))


@axioms.on("str_of_int")
def _ax_soi(t):
    n = t.args[0]
    return [T.app("int_str_ok", t), T.eq(T.app("int_of_str", t), n), T.in_re(t, ("cat", ("opt", ("lit", "-")), ("plus", ("cls", ((48, 57),)))))] + (
        [T.implies(T.le(T.int_(0), n), T.in_re(t, ("plus", ("cls", ((48, 57),))))),
         T.implies(T.lt(n, T.int_(0)), T.prefixof(T.str_("-"), t))])


axioms.trust("int/str", "int(str(n)) == n, and str(n) consists of an optional sign and ASCII digits")


@constructor("int")
def c_int(I, a, kw):
    if not a:
        return 0
    v = a[0]
    k = kind_of(v)
    if len(a) > 1 or kw:
        if all(is_concrete(x) for x in a) and not kw:
            try:
                return int(*a)
            except (ValueError, TypeError) as e:
                raise I.exc(type(e), *e.args)
        raise Unsupported("int with a base")
    if is_concrete(v):
        try:
            return int(v)
        except (ValueError, TypeError) as e:
            raise I.exc(type(e), *e.args)
    if k in ("int", "bool"):
        return mkint(tint(v))
    if k in ("str", "bytes"):
        t = tstr(v)
        if t.op == "uf" and t.val == "str_of_int":
            return mkint(t.args[0])
        if not I.ctx.branch(T.app("int_str_ok", t)):
            raise I.exc(ValueError, "invalid literal for int()")
        return mkint(T.app("int_of_str", t))
    if isinstance(v, XVal) and v.kind == "ratio":
        n, d = tint(v.f["num"]), tint(v.f["den"])
        if T.is_const(d) and d.val > 0 and I.ctx.entails(T.and_(T.le(T.int_(0), n), T.lt(n, T.int_(1 << 48)))):
            return mkint(T.div(n, d))
    raise Unsupported("int of %r" % (v,))


@constructor("bool")
def c_bool(I, a, kw):
    if not a:
        return False
    return mkbool(I.truth_term(a[0]))


@constructor("list")
def c_list(I, a, kw):
    return I.to_list(a[0]) if a else I.new_list()


@constructor("tuple")
def c_tuple(I, a, kw):
    if not a:
        return ()
    if isinstance(a[0], tuple):
        return a[0]
    its = I.items(I.to_list(a[0]))
    if any(isinstance(x, Chunk) for x in its):
        r = I.new_list(its)
        I.ctx.store[("frozen", r.id)] = True
        return r
    return tuple(its)


@constructor("set")
def c_set(I, a, kw):
    r = I.new_list((), "set")
    if a:
        from . import loops

        v = a[0]
        lz = loops.as_lazy(I, v)
        if lz is not None and getattr(lz, "src", None) is not None and not T.is_const(lz.n) and loops.bounded_count(I, lz.n) is None:
            t, et = loops.map_term(I, lz)
            if et.k in ("opaque", "str", "bytes", "int"):
                I.set_items(r, (Chunk(loops.set_seq(t), et),))
                return r
        loops.iterate(I, v, lambda x: set_add(I, r, [x], {}), ("set", 0))
    return r


CONSTRUCTORS["frozenset"] = c_set


@constructor("dict")
def c_dict(I, a, kw):
    if a and isinstance(a[0], Ref) and isinstance(a[0].cls, ExtRef) and a[0].cls.path == "dict:keyed":
        return libs.syslib.km_copy(I, a[0])
    d = I.new_dict()
    if a:
        v = a[0]
        if isinstance(v, Ref) and v.kind == "dict":
            I.set_items(d, I.items(v))
            sym = I.ctx.store.get(("symdict", v.id))
            if sym is not None:
                I.ctx.store[("symdict", d.id)] = sym
        else:
            from . import loops

            def each(x):
                k, y = x if isinstance(x, tuple) else I.items(x)
                I.setitem(d, k, y)

            loops.iterate(I, v, each, ("dict", 0))
    for k, v in kw.items():
        I.setitem(d, k, v)
    return d


@constructor("object")
def c_object(I, a, kw):
    return Ref(I.ctx.fresh_id(), "obj", None)


@constructor("float")
def c_float(I, a, kw):
    if a and is_concrete(a[0]):
        return float(a[0])
    raise Unsupported("float")


@constructor("type")
def c_type(I, a, kw):
    if len(a) != 1:
        raise Unsupported("type with three arguments")
    v = a[0]
    if isinstance(v, Ref) and v.cls is not None:
        return v.cls
    if isinstance(v, ExcVal):
        return v.cls
    k = kind_of(v)
    if k in TYPES:
        return TYPES[k]
    if v is None:
        return type(None)
    raise Unsupported("type of %r" % (v,))


# ---------------------------------------------------------------- lists, dicts, sets


@method("list", "append")
def list_append(I, s, a, kw):
    I.set_items(s, I.items(s) + (a[0],))


@method("list", "extend")
def list_extend(I, s, a, kw):
    v = a[0]
    if isinstance(v, (tuple, str, bytes, range)):
        I.set_items(s, I.items(s) + tuple(v))
        return
    if isinstance(v, Ref) and v.kind in ("list", "set"):
        I.set_items(s, I.items(s) + I.items(v))
        return
    if isinstance(v, (int, SInt, SBool)) or v is None:
        raise I.exc(TypeError, "not iterable")
    if isinstance(v, Gen):
        from . import loops

        loops.iterate(I, v, lambda x: list_append(I, s, [x], {}), ("extend", 0))
        return
    I.set_items(s, I.items(s) + I.items(I.to_list(v)))


@method("list", "clear")
def list_clear(I, s, a, kw):
    I.set_items(s, ())


@method("list", "copy")
def list_copy(I, s, a, kw):
    return I.new_list(I.items(s))


@method("list", "insert")
def list_insert(I, s, a, kw):
    its = I.items(s)
    if a[0] == 0:
        I.set_items(s, (a[1],) + its)
        return
    if any(isinstance(x, Chunk) for x in its) or not is_concrete(a[0]):
        raise Unsupported("insert")
    l = list(its)
    l.insert(a[0], a[1])
    I.set_items(s, l)


@method("list", "pop")
def list_pop(I, s, a, kw):
    i = a[0] if a else -1
    x = I.getitem(s, i)
    its = I.items(s)
    if is_concrete(i):
        if i == -1 and its and not isinstance(its[-1], Chunk):
            I.set_items(s, its[:-1])
            return x
        if i == 0 and its and not isinstance(its[0], Chunk):
            I.set_items(s, its[1:])
            return x
        if not any(isinstance(y, Chunk) for y in its):
            l = list(its)
            l.pop(i)
            I.set_items(s, l)
            return x
    raise Unsupported("pop")


@method("list", "reverse")
def list_reverse(I, s, a, kw):
    its = I.items(s)
    if any(isinstance(x, Chunk) for x in its):
        raise Unsupported("reverse")
    I.set_items(s, its[::-1])


@method("list", "index")
def list_index(I, s, a, kw):
    its = I.items(s)
    for n, x in enumerate(its):
        if isinstance(x, Chunk):
            raise Unsupported("index")
        if I.truth(I.eq(x, a[0])):
            return n
    raise I.exc(ValueError, "not in list")


@method("list", "count")
def list_count(I, s, a, kw):
    raise Unsupported("list.count")


@method("list", "remove")
def list_remove(I, s, a, kw):
    n = list_index(I, s, a, kw)
    its = I.items(s)
    I.set_items(s, its[:n] + its[n + 1:])


@method("set", "add")
def set_add(I, s, a, kw):
    x = a[0]
    its = I.items(s)
    if any(isinstance(y, Chunk) for y in its):
        raise Unsupported("set.add on a symbolic set")
    hx = hash_value(I, x)
    for y in its:
        # equality may look at the objects: also guarded by the hashes
        same = isinstance(y, Ref) and isinstance(x, Ref) and y == x
        if same or I.truth(I.eq(y, x)):
            return
    I.set_items(s, its + (x,))


@method("dict", "get")
def dict_get(I, s, a, kw):
    for k, x in I.items(s):
        if I.truth(I.eq(k, a[0])):
            return x
    return a[1] if len(a) > 1 else None


@method("dict", "items")
def dict_items(I, s, a, kw):
    return tuple(I.items(s))


@method("dict", "keys")
def dict_keys(I, s, a, kw):
    return tuple(k for k, _ in I.items(s))


@method("dict", "values")
def dict_values(I, s, a, kw):
    return tuple(x for _, x in I.items(s))


@method("dict", "setdefault")
def dict_setdefault(I, s, a, kw):
    for k, x in I.items(s):
        if I.truth(I.eq(k, a[0])):
            return x
    I.set_items(s, I.items(s) + ((a[0], a[1] if len(a) > 1 else None),))
    return a[1] if len(a) > 1 else None


@method("dict", "update")
def dict_update(I, s, a, kw):
    for v in a:
        if not (isinstance(v, Ref) and v.kind == "dict"):
            raise Unsupported("dict.update")
        for k, x in I.items(v):
            I.setitem(s, k, x)
    for k, x in kw.items():
        I.setitem(s, k, x)


@method("dict", "pop")
def dict_pop(I, s, a, kw):
    ps = I.items(s)
    for n, (k, x) in enumerate(ps):
        if I.truth(I.eq(k, a[0])):
            I.set_items(s, ps[:n] + ps[n + 1:])
            return x
    if len(a) > 1:
        return a[1]
    raise I.exc(KeyError, a[0])


@method("bytearray", "extend")
def ba_extend(I, s, a, kw):
    v = c_bytes(I, [a[0]], {})
    I.ctx.store[("b", s.id)] = mkstr(T.concat(tstr(I.plain(s)), tstr(v)), "bytes")


@method("bytearray", "append")
def ba_append(I, s, a, kw):
    v = bytes_of_items(I, (a[0],))
    I.ctx.store[("b", s.id)] = mkstr(T.concat(tstr(I.plain(s)), tstr(v)), "bytes")


@method("bytearray", "decode")
def ba_decode(I, s, a, kw):
    return strs.m_decode(I, I.plain(s), a, kw)


@method("tuple", "index")
def tuple_index(I, s, a, kw):
    for n, x in enumerate(s):
        if I.truth(I.eq(x, a[0])):
            return n
    raise I.exc(ValueError, "not in tuple")


@method("bytes!", "fromhex")
def bytes_fromhex(I, a, kw):
    return bytes.fromhex(a[0])


# integers

T.declare_uf("int_of_be", (T.STR,), T.INT)
T.NONNEG_UF.add("int_of_be")
T.declare_uf("be_of_int", (T.INT, T.INT), T.STR)


@axioms.on("be_of_int")
def _ax_be(t):
    n, l = t.args
    if n.op == "uf" and n.val == "int_of_be":
        return []  # the inverse, see there
    fits = T.and_(T.le(T.int_(0), n), T.lt(n, T.app("pow2", T.scale(8, l)) if not T.is_const(l) else T.int_(1 << 8 * max(l.val, 0))))
    return [T.implies(T.le(T.int_(0), l), T.mk("=", tuple(sorted((T.mk("len", (t,), T.INT), l), key=lambda x: x.id)), T.BOOL)),
            T.implies(fits, T.eq(T.app("int_of_be", t), n))]


T.LEN_RULE["be_of_int"] = lambda t: t.args[1] if T.is_const(t.args[1]) and t.args[1].val >= 0 else None


@axioms.on("int_of_be")
def _ax_iob(t):
    s = t.args[0]
    n = T.length(s)
    out = [T.ge(t, T.int_(0)), T.eq(T.app("be_of_int", t, n), s)]
    if T.is_const(n) and 0 <= n.val <= 16:
        out.append(T.lt(t, T.int_(1 << 8 * n.val)))
    return out


axioms.trust("int.to_bytes", "int.to_bytes and int.from_bytes (big endian, unsigned) are inverse and total in their ranges")


@method("int", "to_bytes")
def int_to_bytes(I, s, a, kw):
    n = arg(a, kw, 0, "length", 1)
    order = arg(a, kw, 1, "byteorder", "big")
    signed = kw.get("signed", False)
    if is_concrete(s) and is_concrete(n):
        try:
            return s.to_bytes(n, order, signed=signed)
        except OverflowError as e:
            raise I.exc(OverflowError, *e.args)
    if signed is not False or order != "big" or not is_concrete(n):
        raise Unsupported("to_bytes")
    t = tint(s)
    if not I.ctx.branch(T.and_(T.le(T.int_(0), t), T.lt(t, T.int_(1 << (8 * n))))):
        raise I.exc(OverflowError, "int too big to convert")
    return mkstr(T.app("be_of_int", t, T.int_(n)), "bytes")


@method("int!", "from_bytes")
def int_from_bytes(I, a, kw):
    v = I.plain(a[0])
    order = arg(a, kw, 1, "byteorder", "big")
    signed = kw.get("signed", False)
    if is_concrete(v):
        return int.from_bytes(v, order, signed=signed)
    if order != "big" or signed is not False:
        name = "int_of_bytes:%s:%s" % (order, signed)
        if name not in T.UFS:
            T.declare_uf(name, (T.STR,), T.INT)
        return mkint(T.app(name, tstr(v)))
    t = tstr(v)
    if t.op == "uf" and t.val == "be_of_int" and I.ctx.entails(T.and_(T.le(T.int_(0), t.args[0]), T.lt(t.args[0], T.app("pow2", T.scale(8, t.args[1])) if not T.is_const(t.args[1]) else T.int_(1 << 8 * t.args[1].val)))):
        return mkint(t.args[0])
    if t.op == "from_code":
        return mkint(t.args[0])
    r = T.app("int_of_be", t)
    n = T.length(t)
    I.ctx.assume(T.ge(r, T.int_(0)))
    if T.is_const(n) and n.val <= 16:
        I.ctx.assume(T.lt(r, T.int_(1 << 8 * n.val)))
    return mkint(r)


@method("int", "bit_length")
def int_bit_length(I, s, a, kw):
    if is_concrete(s):
        return s.bit_length()
    raise Unsupported("bit_length")


# ---------------------------------------------------------------- formatting


def format_value(I, x, conv, spec):
    """str(x), repr(x) or format(x, spec) as a string value"""
    if isinstance(x, Poison):
        I.poisoned(x)
    if is_concrete(spec) is False:
        raise Unsupported("symbolic format specification")
    if is_concrete(x):
        try:
            v = x
            if conv == ord("r"):
                v = repr(x)
            elif conv == ord("s"):
                v = str(x)
            elif conv == ord("a"):
                v = ascii(x)
            return format(v, spec)
        except Exception as e:
            raise I.exc(type(e), *e.args)
    k = kind_of(x)
    if k == "str" and conv in (-1, ord("s")) and not spec:
        return x
    if k == "int" and not spec:
        return mkstr(T.app("str_of_int", tint(x)), "str")
    if isinstance(x, (VClass,)):
        return x.qual
    if isinstance(x, Ref) and isinstance(x.cls, VClass) and not spec:
        names = ("__repr__",) if conv == ord("r") else ("__str__", "__repr__")
        for n in names:
            f = I.class_attr(x.cls, n)
            if isinstance(f, VFunc):
                return I.call(VBound(x, f), [], {})
        return SStr(I.ctx.fresh("object_repr", T.STR), "str")
    if isinstance(x, ExcVal):
        return SStr(I.ctx.fresh("exception_text", T.STR), "str")
    if k == "int":
        name = "fmt_int:" + spec
        if name not in T.UFS:
            T.declare_uf(name, (T.INT,), T.STR)
            strs.ASCII_UF.add(name)
        return mkstr(T.app(name, tint(x)), "str")
    if k in ("bytes", "str", "bool"):
        name = "fmt:%s:%s:%s" % (k, conv, spec)
        if name not in T.UFS:
            T.declare_uf(name, (T.BOOL if k == "bool" else T.STR,), T.STR)
        return mkstr(T.app(name, tbool(x) if k == "bool" else tstr(x)), "str")
    if isinstance(x, XVal):
        h = METHODS.get("x:" + x.kind, {}).get("__format__")
        if h:
            return h(I, x, conv, spec)
    return SStr(I.ctx.fresh("text", T.STR), "str")


def percent_format(I, s, v):
    if is_concrete(s) and is_concrete(v):
        try:
            return s % v
        except Exception as e:
            raise I.exc(type(e), *e.args)
    if is_concrete(s) and isinstance(s, str):
        vs = list(v) if isinstance(v, tuple) else [v]
        parts = []
        i = 0
        while i < len(s):
            j = s.find("%", i)
            if j < 0:
                parts.append(T.str_(s[i:]))
                break
            parts.append(T.str_(s[i:j]))
            c = s[j + 1: j + 2]
            if c == "%":
                parts.append(T.str_("%"))
            elif c in ("s", "d", "r"):
                parts.append(tstr(format_value(I, vs.pop(0), ord("r") if c == "r" else ord("s"), "")))
            else:
                raise Unsupported("format code")
            i = j + 2
        return mkstr(T.concat_sort(T.STR, *parts), "str")
    raise Unsupported("% formatting")


def contains_term(I, s, x):
    if s.op == "++" and T.is_const(x) and len(x.val) == 1:
        return T.or_(*[contains_term(I, p, x) for p in s.args])
    if T.is_const(x) and len(x.val) == 1 and not T.is_const(s):
        return T.not_(T.in_re(s, T.star(T.cls_not(T.chars(x.val)))))
    if T.is_const(s) and I.one_char(x):
        return T.in_re(x, T.chars(s.val))
    return T.contains(s, x)


# ---------------------------------------------------------------- classes and super


def class_factory(I, c):
    h = None
    for b in c.mro():
        if isinstance(b, ExtRef) and b.path == "typing.NamedTuple":
            raise Unsupported("NamedTuple class")
    return h


class SuperProxy(XVal):
    pass


def make_super(I, fr):
    f = fr
    while f is not None and f.cls is None:
        f = f.closure
    if f is None:
        raise Unsupported("super outside a class")
    return XVal("super", cls=f.cls, obj=f.selfv)


def _super_getattr(I, v, name):
    mro = v.f["obj"].cls.mro() if isinstance(v.f["obj"], Ref) else v.f["obj"].mro()
    i = mro.index(v.f["cls"])
    for c in mro[i + 1:]:
        if isinstance(c, VClass) and name in c.ns:
            a = c.ns[name]
            return I.bind(a, v.f["obj"], v.f["obj"].cls) if isinstance(a, VFunc) else a
        if isinstance(c, ExtRef):
            m = METHODS.get("ext:" + c.path, {}).get(name)
            if m is not None:
                return VBound(v.f["obj"], Native(name, m))
            if c.path not in PLAIN_BASES:
                raise Unsupported("super().%s of %s" % (name, c.path))
    if name == "__init__":
        return Native("object.__init__", lambda I, a, k: None)
    raise Unsupported("super().%s" % name)


class _SuperTable(dict):
    def get(self, n, d=None):
        @prop
        def f(I, v):
            return _super_getattr(I, v, n)

        return f


METHODS["x:super"] = _SuperTable()


# ---------------------------------------------------------------- external names


def ext_attr(I, e, name):
    path = e.path + "." + name
    v = EXT_ATTR.get(path, UNDEF)
    if v is not UNDEF:
        return v(I) if callable(v) and not isinstance(v, type) else v
    if e.path == "__future__":
        return True
    if path in CONST_ATTR:
        return CONST_ATTR[path]
    return ExtRef(path)


CONST_ATTR = {}


def call_ext(I, path, args, kw):
    h = EXT_CALL.get(path)
    if h is None:
        c = EXT_EXC.get(path)
        if c is not None:
            return ExcVal(c, tuple(args))
        for p in sorted(EXT_CALL, key=len, reverse=True):
            if p.endswith(".*") and path.startswith(p[:-1]):
                return EXT_CALL[p](I, args, kw)
        raise Unsupported("call of " + path)
    I.stubs_used.add(path)
    return h(I, list(args), dict(kw))


def ext_exception(path):
    c = EXT_EXC.get(path)
    if c is None:
        raise Unsupported("unknown exception class " + path)
    return c


def is_ext_exception(path):
    return path in EXT_EXC


def ext_isinstance(I, v, path):
    k = kind_of(v)
    for kind, paths in EXT_KIND.items():
        if path in paths:
            if k == kind:
                return True
            if isinstance(v, SOpaque):
                h = METHODS.get(k, {}).get("__isinstance__")
                if h:
                    return h(I, v, ExtRef(path))
            return False
    if isinstance(v, Ref) and isinstance(v.cls, ExtRef):
        return v.cls.path == path
    if isinstance(v, Ref) and isinstance(v.cls, VClass) and any(isinstance(c, ExtRef) and c.path == path for c in v.cls.mro()):
        return True
    if is_concrete(v) or isinstance(v, (SInt, SStr, SBool)):
        return False
    raise Unsupported("isinstance of %r with %s" % (v, path))


EXT_KIND = {}  # value kind -> set of class paths


@ext("typing.NewType")
def _newtype(I, a, kw):
    return Native("NewType", lambda I2, b, k: b[0])


@ext("typing.cast")
def _cast(I, a, kw):
    return a[1]


@ext("typing.TypeVar")
def _typevar(I, a, kw):
    return ExtRef("typing.Any")


EXT_ATTR["typing.TYPE_CHECKING"] = False


@ext("collections.defaultdict")
def _defaultdict(I, a, kw):
    if getattr(I, "generic_key", None) is not None and len(a) == 1:
        return libs.syslib.keyed_map(I, a[0] is list)
    d = I.new_dict()
    if a:
        I.ctx.store[("default", d.id)] = a[0]
    return d


@ext("collections.namedtuple")
def _namedtuple(I, a, kw):
    fields = a[1].replace(",", " ").split() if isinstance(a[1], str) else list(a[1]) if isinstance(a[1], tuple) else list(I.items(a[1]))
    name = a[0]

    def make(I2, b, k):
        vals = dict(zip(fields, b))
        vals.update(k)
        if set(vals) != set(fields):
            raise I2.exc(TypeError, "namedtuple arguments")
        return XVal("nt:" + name, **vals)

    return Native(name, make)


@ext("math.ceil")
def _ceil(I, a, kw):
    v = a[0]
    if isinstance(v, XVal) and v.kind == "ratio":
        n, d = tint(v.f["num"]), tint(v.f["den"])
        if not T.is_const(d) or d.val <= 0:
            raise Unsupported("ceil of a symbolic ratio")
        if not I.ctx.entails(T.and_(T.le(T.int_(0), n), T.lt(n, T.int_(1 << 48)))):
            raise Unsupported("float division outside its exact range")
        return mkint(T.div(T.add(n, T.int_(d.val - 1)), d))
    if is_concrete(v):
        import math

        return math.ceil(v)
    if kind_of(v) == "int":
        return v
    raise Unsupported("ceil")


@ext("math.floor")
def _floor(I, a, kw):
    v = a[0]
    if isinstance(v, XVal) and v.kind == "ratio":
        return c_int(I, [v], {})
    if is_concrete(v):
        import math

        return math.floor(v)
    return v


axioms.trust("float division", "math.ceil(n / d) equals ceiling division for 0 <= n < 2**48 (IEEE double rounding is exact enough there)")


@ext("functools.partial")
def _partial(I, a, kw):
    f, pre, pk = a[0], list(a[1:]), dict(kw)
    return Native("partial", lambda I2, b, k: I2.call(f, pre + list(b), {**pk, **k}))


@ext("itertools.chain")
def _chain(I, a, kw):
    def run(I2, cb):
        from . import loops

        for i, v in enumerate(a):
            loops.iterate(I2, v, cb, ("chain", i))

    return Gen(run, "chain")


@ext("itertools.count")
def _count(I, a, kw):
    raise Unsupported("itertools.count")


@ext("operator.add")
def _op_add(I, a, kw):
    import ast

    return I.binop(ast.Add(), a[0], a[1])


@ext("os.path.join")
def _osjoin(I, a, kw):
    import posixpath

    if all(is_concrete(x) for x in a):
        return posixpath.join(*a)
    t = tstr(a[0])
    for x in a[1:]:
        t = osjoin(t, tstr(x))
    return mkstr(t, kind_of(a[0]))


def osjoin(a, b):
    name = "os.path.join"
    if name not in T.UFS:
        T.declare_uf(name, (T.STR, T.STR), T.STR)
    return T.app(name, a, b)


EXT_ATTR["os.linesep"] = "\n"
EXT_ATTR["os.sep"] = "/"

from . import libs  # noqa: E402,F401  (registers the library models)
